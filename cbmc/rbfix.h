/* The two re-balancing loops, one arbitrary iteration each (see rbw.h, cut.h).
 * The unit defines ROOT, STACK(i), CALL_INSERT_FIX(n), CALL_REMOVE_FIX(n).
 *
 * Insertion: the path of length n leads from the root to a red node X; the tree is
 * a valid red-black tree except that X's parent may be red (and X may be the root).
 * Removal: the path leads to a (maybe missing) node X whose place is one black
 * node short; a red X may have red children; all else is valid.
 * Split by -DLEN=1,2,3,4 (4: any n >= 4), sides -DDX (of X below P), -DDP (of P). */
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"
#ifndef LEN
#define LEN 4
#endif
#ifndef DX
#define DX 0
#endif
#ifndef DP
#define DP 0
#endif
static _Bool f_dg;
#define DG f_dg
/* in-order places of the window: 10 ggp-left .. */
static size_t f_n, f_w, f_bh; static NODE* f_sw, * f_top; static _Bool f_topred, f_gpred, f_xred, f_sred; static unsigned f_cnt; static int f_topdepth;
static NODE* f_root;
static NODE* fside(int d, NODE* p) { return d ? RGT(p) : LFT(p); }
/* what the parent of the window's top (or the root) refers to, all else there unchanged */
static NODE* f_ptop(int up)        /* up: index of the node above the top, -1: the root pointer */
{
    return up < 0 ? ROOT : fside(DG, NN_[up]);
}
static _Bool above_kept(int up)
{
    struct GN* g = GN_[9];
    return up < 0 ? 1 : ISRED(&nn9) == g->ored && (DG ? LFT(&nn9) == g->ol : RGT(&nn9) == g->or_) && ROOT == f_root;
}
static _Bool stack_kept(size_t below) { return !(f_w < below) || STACK(f_w) == f_sw; }

static void fix_path(size_t n) { for(int i = 0; i < 2 * 8 * sizeof(void*); i++) STACK(i) = opaque; (void)n; }
static void fix_witness(void) { f_w = nondet_size(); REQUIRES(f_w < f_n); f_sw = STACK(f_w); }
/* gn9 is the node above the top */
static int f_up;
static void above(NODE* top)
{
    if(f_up < 0) { ROOT = top; return; }
    full(9, 0, DG ? opaque : top, DG ? top : opaque, nondet_bool()); gn9.used = 0;
    ROOT = opaque;
}
/* the subtree at the window's top is valid, same nodes in the same order, black height bh */
static void top_ok(size_t bh, _Bool rr_allowed, _Bool focus)
{
    NODE* t = f_ptop(f_up);
    size_t b = walk(t);
#ifdef EXTRA_FRAME
    ENSURES(EXTRA_FRAME, TS "re-balancing changes links and colours only");
#endif
    ENSURES(above_kept(f_up), TS "nothing above the re-balanced part changes");
    ENSURES(w_struct && w_cnt == f_cnt, TS "re-balancing keeps all nodes in their order");
    ENSURES(b == bh, TB "black height as before");
    ENSURES(w_balanced && (rr_allowed || !w_rr_root), TB "equal black heights, no red node with a red child");
    if(!focus) ENSURES(!red_(t) || (f_topred && f_up >= 0), TB "no red root, no red node under a red one");
}
#ifdef FIX_INSERT
/* X=gn0 P=gn1 GP=gn2 S=gn3 U=gn4 XL=gn5 XR=gn6 */
static void unit_insert_fix_setup(void)
{
    rbw_init(); f_dg = nondet_bool(); size_t h = nondet_size(); REQUIRES(h <= BHMAX);
    f_n = LEN; if(LEN == 4) { f_n = nondet_size(); REQUIRES(f_n >= 4 && f_n <= NMAX + 1); }
    fix_path(f_n);
    int rx = LEN >= 3 && !DP ? 20 : 40, rp = 0; (void)rx; (void)rp;
    NODE* xl = token(5, DX ? 33 : 21, h), * xr = token(6, DX ? 35 : 23, h);
    if(LEN >= 3 && DP) { gn5.rank += 20; gn6.rank += 20; }
    NODE* x = full(0, gn5.rank + 1, xl, xr, 1);
    REQUIRES(!red_(xl) && !red_(xr) && !(gn5.isnull ? 0 : 0));
    /* X valid: tokens with a red child are not red themselves */
    REQUIRES(!(red_(xl) && gn5.rc) && !(red_(xr) && gn6.rc));
    STACK(f_n - 1) = x; f_top = x; f_bh = h; f_topred = 1; f_up = -1;
    if(LEN >= 2) {
        NODE* s = token(3, DX ? gn5.rank - 2 : gn6.rank + 2, h);
        _Bool pred = LEN >= 3 && nondet_bool();
        REQUIRES(!(red_(s) && (gn3.rc || pred)));
        NODE* p = full(1, DX ? gn5.rank - 1 : gn6.rank + 1, DX ? s : x, DX ? x : s, pred);
        STACK(f_n - 2) = p; f_top = p; f_bh = h + !pred; f_topred = pred;
        if(LEN >= 3) {
            size_t hu = h + !pred; _Bool gred = LEN >= 4 && !pred && nondet_bool();
            NODE* u = token(4, DP ? 10 : 100, hu);
            REQUIRES(!(red_(u) && (gn4.rc || gred)));
            NODE* gp = full(2, DP ? 11 : 99, DP ? u : p, DP ? p : u, gred);
            STACK(f_n - 3) = gp; f_top = gp; f_bh = hu + !gred; f_topred = gred;
        }
    }
    if(LEN >= 4) f_up = 9;
    above(f_top);
    if(LEN >= 4) { STACK(f_n - 4) = &nn9; if(f_n == 4) ROOT = &nn9; REQUIRES(!(gn9.ored && (f_topred || f_n == 4))); }
    f_root = ROOT; f_cnt = node_count(); fix_witness();
    /* the state is as the invariant says */
    size_t b = walk(f_top); REQUIRES(w_struct && w_cnt == f_cnt && b == f_bh);
}
static void back_insert(size_t n)
{
    INVARIANT(f_n > 2 && n == f_n - 2, TB "the next path ends two levels higher");
    INVARIANT(stack_kept(n), TB "path entries above stay");
    INVARIANT(f_ptop(f_up) == f_top && STACK(n - 1) == f_top, TB "the next path ends at the subtree's top");
    INVARIANT(ISRED(f_top) && !f_topred, TB "which turned red");
    top_ok(f_bh, 0, 1);
}
void unit_insert_fix(void)
{
    unit_insert_fix_setup();
    CALL_INSERT_FIX(f_n);
    top_ok(f_bh + (LEN == 1), 0, 0);
    COVER(1, "fixed");
}
#endif
#ifdef FIX_REMOVE
/* X=gn0 P=gn1 S=gn2 SL=gn3 SR=gn4 SLL,SLR,SRL,SRR=gn5..8 */
static NODE* child(int i, int rank, int t1, int t2, size_t bh)      /* a full node of black height bh over two tokens, or NULL */
{
    if(bh == 0 && nondet_bool()) { GN_[i]->used = GN_[t1]->used = GN_[t2]->used = 0; return NULL; }
    _Bool red = nondet_bool(); REQUIRES(red || bh >= 1);
    NODE* l = token(t1, rank - 1, bh - !red), * r = token(t2, rank + 1, bh - !red);
    REQUIRES(!(red_(l) && (red || GN_[t1]->rc)) && !(red_(r) && (red || GN_[t2]->rc)));
    return full(i, rank, l, r, red);
}
#ifndef SRED
#define SRED 0
#endif
static size_t f_b;
void unit_remove_fix(void)
{
    rbw_init(); f_dg = nondet_bool(); f_b = nondet_size(); REQUIRES(f_b < BHMAX);
    f_n = LEN; if(LEN == 3) { f_n = nondet_size(); REQUIRES(f_n >= 3); }
    fix_path(f_n);
    NODE* x = token(0, DX ? 90 : 10, f_b);              /* may be red with red children */
    f_xred = red_(x);
    STACK(f_n - 1) = x; f_top = x; f_up = -1; f_topred = f_xred; f_bh = f_b + 1;
    _Bool pred = 0;
    if(LEN >= 2) {
        pred = LEN >= 3 && !SRED && nondet_bool(); f_sred = SRED;
        size_t cb = f_b + f_sred;
        NODE* sl = child(3, 40, 5, 6, cb), * sr = child(4, 60, 7, 8, cb);
        REQUIRES(!(f_sred && (red_(sl) || red_(sr))));
        NODE* s = full(2, 50, sl, sr, f_sred);
        NODE* p = full(1, DX ? 80 : 20, DX ? s : x, DX ? x : s, pred);
        STACK(f_n - 2) = p; f_top = p; f_topred = pred; f_bh = f_b + 1 + !pred;
    }
    REQUIRES(f_n <= NMAX + (pred != 0) + 1);
    if(LEN >= 3) f_up = 9;
    above(f_top);
    if(LEN >= 3) { STACK(f_n - 3) = &nn9; if(f_n == 3) ROOT = &nn9; REQUIRES(!(gn9.ored && (f_topred || f_n == 3))); }
    f_root = ROOT; f_cnt = node_count(); fix_witness();
    CALL_REMOVE_FIX(f_n);
    /* fixed; a red X is painted black, an all black path up to the root just gets shorter */
    size_t bh = f_bh;
    if(LEN == 1 && !f_xred) bh = f_b;
    top_ok(bh, 0, 0);
    if(f_n > 1 && f_xred && !gn0.isnull) { COVER(1, "red X"); }
    COVER(1, "fixed");
}
static void back_remove(size_t n)
{
    INVARIANT(f_n >= 2 && !f_xred, TB "a red end or a path of length one is final");
    _Bool up = n == f_n - 1;
    NODE* s = f_ptop(f_up);
    if(up) {                            /* the deficit moves one level up */
        INVARIANT(stack_kept(n), TB "path entries above stay");
        INVARIANT(s == f_top && STACK(n - 1) == f_top, TB "the next path ends at the subtree's top");
        INVARIANT(ISRED(f_top) == f_topred, TB "its colour is kept");
    } else {                            /* red sibling rotated above the parent */
        INVARIANT(n == f_n + 1 && !f_topred, TB "progress: only a red sibling is rotated away, once");
        INVARIANT(stack_kept(f_n - 2) && gid(s) < NG && STACK(f_n - 2) == s && !ISRED(s), TB "the new path runs through the old sibling");
        NODE* p = STACK(f_n - 1);
        unsigned char ip = gid(p);
        INVARIANT(ip < NG && fside(DX, s) == p && ISRED(p), TB "a red parent below it");
        NODE* x = STACK(f_n);
        INVARIANT(fside(DX, p) == x && x == (gn0.isnull ? NULL : &nn0), TB "the new path ends at the short place");
        INVARIANT(n <= NMAX + 2, TB "path within bounds");
        w_short = ip; w_shortside = DX;     /* count the missing black node at X: valid otherwise */
    }
    top_ok(up ? f_bh - 1 : f_bh, up && f_topred, 1);
}
#endif
#pragma CPROVER check pop
