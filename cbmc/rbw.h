/* Window onto an arbitrary red-black tree (shared by rbtree.c and the dictionary
 * of value.c).
 *
 * The tree is unbounded.  The nodes one step of an algorithm may touch are
 * materialised as separate objects ("full" nodes); each subtree hanging off them
 * is a token: one object for its root with arbitrary colour, carrying the ghost
 * black height of its children (ibh) and whether it has a red child (rc); its own
 * children are opaque (a freed object: any access fails an obligation).  A token
 * may be NULL, then its black height is 0.  Everything else is opaque.
 * Each object has a ghost rank, its place in the in-order sequence.
 *
 * walk(p) evaluates the real pointers from p down to the tokens: black height,
 * red-black validity, number of objects and whether their in-order ranks
 * strictly increase (so: same count + increasing = same in-order sequence).
 *
 * The unit defines NODE, LFT(n), RGT(n), ISRED(n), and set_node(n, l, r, red). */
#ifndef RBW_H
#define RBW_H
#ifndef TS
#define TS "C15: "
#define TB "C16: "
#endif
#define BHMAX 60                /* 2^60 nodes of 16 bytes fill the address space */
#define NMAX  (2 * BHMAX)       /* longest root-to-node path: see Lean file */
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"
static NODE nn0, nn1, nn2, nn3, nn4, nn5, nn6, nn7, nn8, nn9, nn10, nn11;
struct GN { unsigned char ibh; _Bool rc, tok, used, isnull; unsigned char rank; NODE* ol, * or_; _Bool ored; };
static struct GN gn0, gn1, gn2, gn3, gn4, gn5, gn6, gn7, gn8, gn9, gn10, gn11;
#define NG 12
static struct GN* const GN_[NG] = { &gn0, &gn1, &gn2, &gn3, &gn4, &gn5, &gn6, &gn7, &gn8, &gn9, &gn10, &gn11 };
static NODE* const NN_[NG] = { &nn0, &nn1, &nn2, &nn3, &nn4, &nn5, &nn6, &nn7, &nn8, &nn9, &nn10, &nn11 };
static NODE* opaque;
static void rbw_init(void)
{
    opaque = __CPROVER_allocate(sizeof(NODE), 0);
    __CPROVER_deallocate(opaque);
}
/* remember a node as it is now (frame) */
static void keep(int i) { struct GN* g = GN_[i]; g->ol = LFT(NN_[i]); g->or_ = RGT(NN_[i]); g->ored = ISRED(NN_[i]); }
static _Bool links_kept(int i) { struct GN* g = GN_[i]; return LFT(NN_[i]) == g->ol && RGT(NN_[i]) == g->or_; }
static _Bool kept(int i) { return links_kept(i) && ISRED(NN_[i]) == GN_[i]->ored; }
/* token i at in-order place rank with black height bh */
static NODE* token(int i, int rank, size_t bh)
{
    struct GN* g = GN_[i];
    _Bool red = nondet_bool();
    g->tok = 1; g->used = 1; g->rank = rank; g->rc = nondet_bool();
    g->isnull = bh == 0 && nondet_bool();
    REQUIRES(g->isnull || red || bh >= 1);
    g->ibh = red ? bh : bh - 1;
    set_node(NN_[i], opaque, opaque, red); keep(i);
    return g->isnull ? NULL : NN_[i];
}
static NODE* full(int i, int rank, NODE* l, NODE* r, _Bool red)
{
    struct GN* g = GN_[i];
    g->tok = 0; g->used = 1; g->rank = rank; g->isnull = 0;
    set_node(NN_[i], l, r, red); keep(i);
    return NN_[i];
}
static _Bool red_(const NODE* p) { return p != NULL && ISRED(p); }
static unsigned char w_bh, w_cnt; static _Bool w_struct, w_balanced, w_rr_root;
static unsigned node_count(void) { unsigned c = 0; for(int i = 0; i < NG; i++) if(GN_[i]->used && !GN_[i]->isnull) c++; return c; }
#define NIL NG                  /* id of NULL */
#define BAD (NG + 1)            /* id of anything outside the window */
static unsigned char gid(const NODE* p)
{
    unsigned char r = p == NULL ? NIL : BAD;
    for(int i = 0; i < NG; i++) if(GN_[i]->used && !GN_[i]->isnull && p == NN_[i]) r = i;
    return r;
}
static unsigned char w_short = BAD; static _Bool w_shortside;      /* place counted one black node higher: child of node w_short */
#ifndef DEPTH
#define DEPTH 5
#endif
/* Evaluate bottom-up, DEPTH rounds: a summary is known once those of the children
 * are.  "sorted": ranks of the left part < own < ranks of the right part; together
 * with the count this excludes sharing and cycles. */
struct SUM { unsigned char bh, lo, hi, cnt; _Bool known, bal, srt, red; };
static size_t walk(NODE* top)
{
    struct SUM e[NG + 2]; unsigned char cl[NG], cr[NG];
    for(int i = 0; i < NG + 2; i++) {
        struct SUM x; x.bh = x.cnt = 0; x.lo = 255; x.hi = 0; x.bal = x.srt = 1; x.red = 0; x.known = i == NIL;
        if(i < NG && GN_[i]->used && !GN_[i]->isnull) {
            struct GN* g = GN_[i];
            x.red = ISRED(NN_[i]);
            if(g->tok) { x.known = 1; x.srt = LFT(NN_[i]) == opaque && RGT(NN_[i]) == opaque; x.bal = !(x.red && g->rc); x.bh = g->ibh + !x.red; x.lo = x.hi = g->rank; x.cnt = 1; }
            else { cl[i] = gid(LFT(NN_[i])); cr[i] = gid(RGT(NN_[i])); }
        }
        e[i] = x;
    }
    for(int d = 0; d < DEPTH; d++)
        for(int i = 0; i < NG; i++)
            if(GN_[i]->used && !GN_[i]->isnull && !GN_[i]->tok) {
                unsigned char l = cl[i], r = cr[i], k = GN_[i]->rank;
                struct SUM a = e[l], b = e[r], x = e[i];
                if(!x.known && a.known && b.known) {
                    unsigned char bl = a.bh + (i == w_short && !w_shortside), br = b.bh + (i == w_short && w_shortside);
                    x.known = 1; x.bh = bl + !x.red; x.cnt = 1 + a.cnt + b.cnt;
                    x.lo = l == NIL ? k : a.lo; x.hi = r == NIL ? k : b.hi;
                    x.srt = a.srt && b.srt && (l == NIL || a.hi < k) && (r == NIL || b.lo > k);
                    x.bal = a.bal && b.bal && bl == br && !(x.red && (a.red || b.red));
                    e[i] = x;
                }
            }
    unsigned char t = gid(top);
    struct SUM x = e[t];
    w_struct = x.known && x.srt; w_cnt = x.cnt; w_bh = x.bh; w_balanced = x.bal; w_rr_root = 0;
    if(!w_balanced && x.red && t < NG) {       /* only the red top with a red child? */
        if(GN_[t]->tok) w_rr_root = w_balanced = 1;
        else if(e[cl[t]].bal && e[cr[t]].bal && e[cl[t]].bh == e[cr[t]].bh) w_rr_root = w_balanced = 1;
    }
    return w_bh;
}
#pragma CPROVER check pop
#endif
