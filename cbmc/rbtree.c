/* C15-C18: intrusive red-black tree, data/rbtree.c.  See rbw.h for the window,
 * rbfix.h for the re-balancing loops.
 *
 * Ordered-set argument.  Nodes carry a ghost rank (a total order on a finite set
 * embeds into the integers); the subtree at each place owns an open interval of
 * ranks: the left child of a node of rank r in (lo,hi) owns (lo,r), the right one
 * (r,hi), and a missing child means no stored rank in its interval. */
#include "contract.h"
#include "cut.h"
#include "data/rbtree.h"
#define NODE RBTREE_NODE
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
static NODE* LFT(const NODE* p) { return (NODE*)((uintptr_t)p->lc & ~(uintptr_t)1); }
static NODE* RGT(const NODE* p) { return p->r; }
static _Bool ISRED(const NODE* p) { return ((uintptr_t)p->lc & 1) != 0; }
static NODE* norm(NODE* q);
/* Links are computed by masking integers; the extraction wraps the casts back to a
 * pointer into this identity (see norm() below), which keeps the verifier's view of
 * the possible targets exact. */
#define CV_NODE_(x) norm((NODE*) (x))
static void set_node(NODE* p, NODE* l, NODE* r, _Bool red) { p->lc = (NODE*)((uintptr_t)l | (uintptr_t)(red ? 1 : 0)); p->r = r; }
#pragma CPROVER check pop
#include "rbw.h"
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"
static NODE key;
#define TAG(p) ((NODE*)((char*)(p) + 1))
static NODE* norm(NODE* q)
{
    if(q == NULL) return NULL;
    if(q == (NODE*) 1) return (NODE*) 1;
    for(int i = 0; i < NG; i++) { if(q == NN_[i]) return NN_[i]; if(q == TAG(NN_[i])) return TAG(NN_[i]); }
    if(q == opaque) return opaque;
    if(q == TAG(opaque)) return TAG(opaque);
    if(q == &key) return &key;
    if(q == TAG(&key)) return TAG(&key);
    INVARIANT(0, "C15,C16,C17,C18: every link is a node of the tree, tagged with a colour or not");
    return q;
}
#pragma CPROVER check pop
static RBTREE tree; static RBTREE_CURSOR path;
#define ROOT tree.root
#define STACK(i) path.stack[i]
#define CALL_INSERT_FIX(len) do { path.n = (unsigned) (len); rbtree_insert_fixup(&tree, &path); } while(0)
#define CALL_REMOVE_FIX(len) do { path.n = (unsigned) (len); rbtree_remove_fixup(&tree, &path); } while(0)
static void back_insert(size_t n); static void back_remove(size_t n);
#define BACK_rbtree_insert_fixup_0 back_insert(path->n)
#define BACK_rbtree_remove_fixup_0 back_remove(path->n)

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"
static NODE* side(int d, const NODE* p) { return d ? RGT(p) : LFT(p); }
static void opaque_path(void) { for(int i = 0; i < 2 * 8 * sizeof(void*); i++) STACK(i) = opaque; }
static size_t t_w; static NODE* t_sw;                   /* arbitrary path entry (frame) */
static void path_witness(size_t n) { t_w = nondet_size(); t_sw = t_w < n ? STACK(t_w) : NULL; }
static _Bool path_kept(size_t n) { return !(t_w < n) || STACK(t_w) == t_sw; }
static size_t nd_path(size_t lo, size_t hi) { size_t n = nondet_size(); REQUIRES(n >= lo && n <= hi); return n; }
int nondet_int(void);

/* ---- descent: one arbitrary step of a search from the root ---- */
static int d_phase, d_dir; static size_t d_n, d_n0, d_k, d_bh, d_h; static long d_key, d_rank, d_prank; static NODE* d_cur, * d_par; static NODE* d_start;
#ifndef DIR
#define DIR 0
#endif
static int d_only;                                      /* +1: leftmost, -1: rightmost, 0: by comparison */
static int sgn(long a, long b) { return (a > b) - (a < b); }
static int cmp_fn(const NODE* a, const NODE* b)
{
    _Bool ka = a == &key, kb = b == &key, na = a == d_cur && a != NULL, nb = b == d_cur && b != NULL;
    ENSURES((ka && nb) || (kb && na), TS "the comparator sees the key and the node reached");
    int s = sgn(ka ? d_key : d_rank, kb ? d_key : d_rank), r = nondet_int();
    REQUIRES((s < 0) == (r < 0) && (s > 0) == (r > 0));
    return r;
}
/* an arbitrary iteration: the path of d_n nodes ends at d_par whose child on side d_dir is d_cur */
static void arb_step(void)
{
    d_phase = 1; d_n = nd_path(d_n0, NMAX); d_k = nondet_size(); d_h = nondet_size(); REQUIRES(d_h <= NMAX && d_k <= BHMAX);
    d_rank = nondet_size(); d_bh = nondet_size(); REQUIRES(d_bh <= BHMAX && d_k + d_bh <= BHMAX);
    d_dir = d_only > 0 ? 0 : d_only < 0 ? 1 : nondet_bool(); d_cur = NULL; _Bool red = 0;
    if(d_h > 0) {
        red = nondet_bool(); REQUIRES(red || d_bh >= 1);
        NODE* l = token(2, 1, d_bh - !red), * r = token(3, 3, d_bh - !red);
        REQUIRES(!(red && (red_(l) || red_(r))));
        d_cur = full(0, 2, l, r, red);
    } else REQUIRES(d_bh == 0);
    if(d_n > d_n0) {
        _Bool pred = nondet_bool();
        full(1, 4, d_dir ? opaque : d_cur, d_dir ? d_cur : opaque, pred); d_par = &nn1; STACK(d_n - 1) = d_par;
        REQUIRES(!(pred && red));
        REQUIRES(d_n + !pred <= 2 * d_k);               /* reds above never outnumber blacks: the root is black */
        REQUIRES(d_n != 1 || !pred);
        REQUIRES(d_only || (d_dir ? d_prank < d_key : d_prank > d_key));
        if(d_n0 == 0) ROOT = d_n == 1 ? d_par : opaque;
        if(d_n == d_n0 + 1) REQUIRES(d_start == NULL || 1), d_start = d_par;
    } else {
        d_start = d_cur;
        if(d_n0 == 0) { ROOT = d_cur; REQUIRES(!red && d_k == 0); }
        else REQUIRES(d_n <= 2 * d_k && (red ? d_n + 1 <= 2 * d_k : 1));
    }
    path.n = (unsigned) d_n; path_witness(d_n);
}
static _Bool step_inv(const NODE* node, size_t n, int cmp)
{
    if(d_phase == 0) return n == d_n0 && node == d_start;
    if(d_phase == 1) return n == d_n && node == d_cur && (d_only || n == d_n0 || sgn(cmp, 0) == (d_dir ? 1 : -1));
    if(d_cur == NULL) return 0;
    int dir = d_only > 0 ? 0 : d_only < 0 ? 1 : d_key > d_rank;
    size_t k = d_k + !ISRED(d_cur);
    return (d_only || (d_key != d_rank && sgn(cmp, 0) == sgn(d_key, d_rank))) && n == d_n + 1 && STACK(d_n) == d_cur && path_kept(d_n) && node == side(dir, d_cur)
        && n + !ISRED(d_cur) <= 2 * k && n <= NMAX && kept(0) && kept(1) && kept(2) && kept(3);
}
#define DESCENT_REAL
static size_t step_measure(void) { return d_phase == 2 ? d_h - 1 : d_h; }
#define LINKED_rbtree_lookup_path_0 arb_step()
#define CUT_LINK_rbtree_lookup_path_0 d_cur
#define MEM_rbtree_lookup_path_0
#define INV_rbtree_lookup_path_0(P) P(step_inv(node, path->n, cmp), "C15,C16,C17: the path so far leads from the root towards the key, within its buffer")
#define GHOST_rbtree_lookup_path_0 d_phase = 2
#define DEC_rbtree_lookup_path_0 step_measure()
#define LINKED_rbtree_lookup_0 arb_step()
#define CUT_LINK_rbtree_lookup_0 d_cur
#define MEM_rbtree_lookup_0
#define INV_rbtree_lookup_0(P) P(plain_inv(node), "C15,C17: the search moves towards the key")
#define GHOST_rbtree_lookup_0 d_phase = 2
#define DEC_rbtree_lookup_0 step_measure()
static _Bool plain_inv(const NODE* node)
{
    if(d_phase == 0) return node == ROOT;
    if(d_phase == 1) return node == d_cur;
    return d_cur != NULL && d_key != d_rank && node == side(d_key > d_rank, d_cur);
}
#define LINKED_rbtree_leftmost_path_0 arb_step()
#define CUT_LINK_rbtree_leftmost_path_0 d_cur
#define MEM_rbtree_leftmost_path_0
#define INV_rbtree_leftmost_path_0(P) P(step_inv(node, path->n, 0), "C15,C16,C17: the path grows by the nodes down to the first one")
#define GHOST_rbtree_leftmost_path_0 d_phase = 2
#define DEC_rbtree_leftmost_path_0 step_measure()
#define LINKED_rbtree_rightmost_path_0 arb_step()
#define CUT_LINK_rbtree_rightmost_path_0 d_cur
#define MEM_rbtree_rightmost_path_0
#define INV_rbtree_rightmost_path_0(P) P(step_inv(node, path->n, 0), "C16,C17: the path grows by the nodes down to the last one")
#define GHOST_rbtree_rightmost_path_0 d_phase = 2
#define DEC_rbtree_rightmost_path_0 step_measure()

/* ---- contracts standing in for callees (each proved by its own unit) ---- */
static const NODE* s_key; static size_t lp_n; static int lp_cmp; static NODE* lp_last;
static int s_called;
/* finds the path; lp_* hold the outcome */
#define STUB_rbtree_lookup_path static int rbtree_lookup_path(NODE* node, const NODE* k, RBTREE_CMP_FUNC f, RBTREE_CURSOR* p) { return stub_lookup_path(node, k, f, p); }
static RBTREE_CURSOR* s_path;                           /* the path object the callee is given */
static void give_path(RBTREE_CURSOR* p, size_t n) { s_path = p; p->n = (unsigned) n; }
static int stub_lookup_path(NODE* node, const NODE* k, RBTREE_CMP_FUNC f, RBTREE_CURSOR* p)
{
    ENSURES(node == ROOT && k == s_key && f == cmp_fn && p->n == 0, "C15,C16,C17: the search starts at the root with an empty path");
    *p = path; give_path(p, lp_n);
    return lp_cmp;
}
static int m_dir; static size_t m_n, m_cnt; static NODE* m_node, * m_last; static long m_rank;
static NODE* m_prelast;
/* appends m_cnt entries: m_node ... m_prelast, m_last */
static void stub_most(int dir, NODE* node, RBTREE_CURSOR* p)
{
    ENSURES(dir == m_dir && node == m_node && p->n == m_n && m_node != NULL, "C15,C17: descends the expected subtree from the end of the path");
    s_called++;
    size_t n = m_n + m_cnt;
    for(int i = 0; i < 2 * 8 * sizeof(void*); i++) if(i >= m_n && i < n) p->stack[i] = opaque;
    if(m_cnt >= 2) p->stack[n - 2] = m_prelast;
    p->stack[m_n] = m_node; p->stack[n - 1] = m_last; p->n = (unsigned) n;
}
#define STUB_rbtree_leftmost_path static void rbtree_leftmost_path(NODE* node, RBTREE_CURSOR* p) { stub_most(0, node, p); }
#define STUB_rbtree_rightmost_path static void rbtree_rightmost_path(NODE* node, RBTREE_CURSOR* p) { stub_most(1, node, p); }
static void stub_insert_fixup(RBTREE* t, RBTREE_CURSOR* p); static void stub_remove_fixup(RBTREE* t, RBTREE_CURSOR* p);
#define STUB_rbtree_insert_fixup static void rbtree_insert_fixup(RBTREE* t, RBTREE_CURSOR* p) { stub_insert_fixup(t, p); }
#define STUB_rbtree_remove_fixup static void rbtree_remove_fixup(RBTREE* t, RBTREE_CURSOR* p) { stub_remove_fixup(t, p); }

/* ascent of next/prev: an arbitrary iteration, the path cut to a_n entries ending in a_a, below a_b */
static size_t a_n0, a_n; static NODE* a_a, * a_b; static int a_d, a_phase, a_mir;      /* a_mir: 0 next, 1 prev */
static void arb_ascent(size_t n)
{
    a_phase = 1; a_n = n; REQUIRES(a_n >= 1 && a_n <= a_n0);
    a_a = a_n == a_n0 ? &nn0 : &nn5; if(a_n < a_n0) full(5, 1, opaque, opaque, nondet_bool());
    a_d = nondet_bool();
    if(a_n >= 2) { a_b = full(6, 1, a_d ? opaque : a_a, a_d ? a_a : opaque, nondet_bool()); STACK(a_n - 2) = a_b; }
    STACK(a_n - 1) = a_a; path_witness(a_n0);
}
static _Bool ascent_inv(size_t n)
{
    if(a_phase == 0) return n == a_n0;
    if(a_phase == 1) return n == a_n;
    return a_n >= 2 && a_d == !a_mir && n == a_n - 1;     /* still no stored rank between the start and the end of this subtree */
}
#define MEM_rbtree_next_0 arb_ascent(n);
#define INV_rbtree_next_0(P) P(ascent_inv(n), "C17: all nodes passed so far come before the start")
#define GHOST_rbtree_next_0 a_phase = 2
#define DEC_rbtree_next_0 n
#define MEM_rbtree_prev_0 arb_ascent(n);
#define INV_rbtree_prev_0(P) P(ascent_inv(n), "C17: all nodes passed so far come after the start")
#define GHOST_rbtree_prev_0 a_phase = 2
#define DEC_rbtree_prev_0 n

/* teardown: arbitrary iteration of the way down the left spine */
static int f_phase; static NODE* f_cur; static NODE** f_ptr; static _Bool f_atroot;
static void arb_spine(void)
{
    f_phase = 1; f_atroot = nondet_bool(); _Bool nl = nondet_bool();
    NODE* l = nl ? NULL : full(2, 1, nondet_bool() ? opaque : NULL, opaque, nondet_bool());
    f_cur = full(0, 2, l, nondet_bool() ? opaque : NULL, nondet_bool());
    if(f_atroot) { ROOT = f_cur; f_ptr = &tree.root; } else { full(1, 3, f_cur, opaque, nondet_bool()); ROOT = opaque; f_ptr = &nn1.lc; }
}
static _Bool spine_inv(const NODE* node, NODE** ptr)
{
    if(f_phase == 0) return node == ROOT && ptr == &tree.root;
    if(f_phase == 1) return node == f_cur && ptr == f_ptr;
    return node == LFT(&nn0) && node != NULL && ptr == &nn0.lc && kept(0) && kept(2) && (f_atroot ? ROOT == f_cur : kept(1) && ROOT == opaque);
}
#define LINKED_rbtree_fini_step_0 arb_spine()
#define CUT_LINKV_rbtree_fini_step_0_node f_cur
#define CUT_LINKV_rbtree_fini_step_0_pointer_down_to_node f_ptr
#define MEM_rbtree_fini_step_0
#define INV_rbtree_fini_step_0(P) P(spine_inv(node, pointer_down_to_node), "C18: the pointer followed is the one that holds the node")
#define GHOST_rbtree_fini_step_0 f_phase = 2
#define DEC_rbtree_fini_step_0 (f_phase == 2 ? 0 : 1)    /* left spine gets shorter: the node is the old one's left child */
#pragma CPROVER check pop
#include CUTSRC
#if defined FIX_INSERT || defined FIX_REMOVE
#include "rbfix.h"
#else
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"
void unit_init(void)
{
    RBTREE t; rbtree_init(&t); ENSURES(t.root == NULL && rbtree_is_empty(&t), "C15: a new tree is empty");
    RBTREE i = RBTREE_INITIALIZER; ENSURES(i.root == NULL, "C15: static initialiser");
    t.root = &key; ENSURES(!rbtree_is_empty(&t), "C15: a tree with a node is not empty");
    struct { char c; NODE a; double d; NODE b; } r;
    ENSURES(RBTREE_DATA(&r.a, __typeof__(r), a) == &r && RBTREE_DATA(&r.b, __typeof__(r), b) == &r, "C15: enclosing record");
    RBTREE_CURSOR c = RBTREE_CURSOR_INITIALIZER; ENSURES(c.n == 0 && rbtree_current(&c) == NULL, "C17: a new cursor is nowhere");
    path.n = nondet_size(); REQUIRES(path.n >= 1 && path.n <= NMAX);
    unsigned n = path.n; STACK(n - 1) = &key; ENSURES(rbtree_current(&path) == &key && path.n == n && STACK(n - 1) == &key, "C17: the current node is the end of the path");
    COVER(1, "init");
}
static void decided(const NODE* result)
{
    ENSURES(d_cur == NULL ? result == NULL : (d_rank == d_key && result == d_cur), "C15,C17: finds the stored equal node or decides that there is none");
    COVER(result != NULL, "found"); COVER(result == NULL && d_n > 0, "not found");
}
static void descent_start(void) { rbw_init(); opaque_path(); d_key = nondet_size(); d_prank = nondet_size(); d_phase = 0; d_n0 = 0; d_only = 0; ROOT = d_start = nondet_bool() ? opaque : NULL; path.n = 0; }
void unit_lookup_path(void)
{
    descent_start();
    int cmp = rbtree_lookup_path(ROOT, &key, cmp_fn, &path);
    ENSURES(path_kept(d_n) && kept(0) && kept(1), "C15,C17: only the path is written");
    if(d_cur != NULL) ENSURES(path.n == d_n + 1 && STACK(d_n) == d_cur && path.n <= NMAX, "C15,C17: the path ends at the equal node");
    else { ENSURES(path.n == d_n && path.n <= NMAX, "C15,C17: the path ends where the key belongs"); if(d_n > 0) ENSURES(STACK(d_n - 1) == d_par && side(cmp > 0, d_par) == NULL, "C15: at a free place on the side of the key"); }
    if(path.n > 0) { decided(cmp == 0 ? STACK(path.n - 1) : NULL); } else { COVER(1, "empty tree"); ENSURES(ROOT == NULL, "C15: empty path only for the empty tree"); }
}
void unit_lookup(void) { descent_start(); NODE* r = rbtree_lookup(&tree, &key, cmp_fn); decided(r); ENSURES(kept(0) && kept(1), "C15: read only"); }
/* subtree of an existing path */
void unit_leftmost(void)
{
    rbw_init(); opaque_path(); d_phase = 0; d_n0 = nd_path(0, NMAX); d_only = DIR ? -1 : 1; d_start = nondet_bool() ? opaque : NULL; if(d_n0 == 0) ROOT = d_start; path.n = (unsigned) d_n0;
#if DIR
    rbtree_rightmost_path(d_start, &path);
#else
    rbtree_leftmost_path(d_start, &path);
#endif
    ENSURES(d_cur == NULL && path.n == d_n && path_kept(d_n) && kept(1), "C15,C17: ends at a node without a child on that side, appended last");
    ENSURES(path.n <= NMAX, "C16: path within bounds");
    COVER(d_n > d_n0, "some"); COVER(d_n == d_n0, "none");
}
static void cursor_frame(void) { path_witness(path.n); }
void unit_lookup_ex(void)
{
    rbw_init(); opaque_path(); s_key = &key; lp_n = nd_path(0, NMAX); lp_cmp = nondet_int();
    ROOT = lp_n ? opaque : NULL; RBTREE_CURSOR c; c.n = nondet_size();
    if(lp_n) { lp_last = full(0, 1, opaque, opaque, nondet_bool()); STACK(lp_n - 1) = lp_last; }
    cursor_frame(); NODE* r = rbtree_lookup_ex(&tree, &key, cmp_fn, &c);
    if(lp_n && lp_cmp == 0) { ENSURES(r == lp_last && c.n == lp_n && c.stack[lp_n - 1] == lp_last && rbtree_current(&c) == lp_last && (!(t_w < lp_n) || c.stack[t_w] == STACK(t_w)), "C17: the cursor holds the path to the found node"); COVER(1, "found"); }
    else { ENSURES(r == NULL && c.n == 0, "C17: nothing found, the cursor points nowhere"); COVER(1, "not found"); }
}
void unit_head(void)
{
    rbw_init(); opaque_path(); RBTREE_CURSOR c; c.n = nondet_size(); unsigned n0 = c.n; size_t w = nondet_size(); REQUIRES(w < sizeof(c.stack) / sizeof(c.stack[0])); NODE* sw = c.stack[w];
    m_dir = DIR; m_n = 0; m_cnt = nd_path(1, NMAX); _Bool empty = nondet_bool(); m_node = ROOT = empty ? NULL : opaque; m_last = &nn0; m_prelast = opaque;
    if(m_cnt == 1 && !empty) m_node = ROOT = &nn0; full(0, 1, opaque, opaque, nondet_bool());
    NODE* r = DIR ? rbtree_tail(&tree, &c) : rbtree_head(&tree, &c);
    if(empty) { ENSURES(r == NULL && c.n == n0 && c.stack[w] == sw && s_called == 0, "C17: of an empty tree: nothing, the cursor stays"); COVER(1, "empty"); }
    else { ENSURES(s_called == 1 && r == &nn0 && c.n == m_cnt && c.stack[m_cnt - 1] == &nn0 && rbtree_current(&c) == r, "C17: head and tail report the end of the outermost path"); COVER(1, "some"); }
    ENSURES(kept(0), "C17: read only");
}
/* from the node nn0 at the end of the path */
void unit_step(void)
{
    rbw_init(); opaque_path(); a_mir = DIR; a_phase = 0; a_n0 = nd_path(0, NMAX); path.n = (unsigned) a_n0;
    _Bool down = nondet_bool();
    if(a_n0 > 0) { full(0, 1, (DIR && !down) ? NULL : opaque, (!DIR && !down) ? NULL : opaque, nondet_bool()); STACK(a_n0 - 1) = &nn0; }
    m_dir = DIR; m_n = a_n0; m_node = down ? opaque : NULL; m_cnt = nd_path(1, NMAX); REQUIRES(m_cnt + a_n0 <= NMAX); m_last = &nn4; m_prelast = opaque; full(4, 1, opaque, opaque, nondet_bool());
    if(m_cnt == 1 && down) { m_node = &nn4; set_node(&nn0, DIR ? &nn4 : opaque, DIR ? opaque : &nn4, ISRED(&nn0)); keep(0); }
    path_witness(a_n0);
    /* the opposite direction must not be taken: mirrored stub contract */
    NODE* r = DIR ? rbtree_prev(&path) : rbtree_next(&path);
    ENSURES(path_kept(a_n0) && kept(0) && kept(5) && kept(6), "C17: earlier path entries and the tree stay");
    if(a_n0 == 0) { ENSURES(r == NULL && path.n == 0, "C17: a cursor pointing nowhere stays"); COVER(1, "nowhere"); }
    else if(down) { ENSURES(s_called == 1 && r == m_last && path.n == m_n + m_cnt && STACK(path.n - 1) == m_last, "C17: the nearest node of the subtree in that direction"); COVER(1, "down"); }
    else if(a_n == 1) { ENSURES(r == NULL && path.n == a_n0, "C17: past the end: nothing, the cursor stays"); COVER(1, "past the end"); }
    else { ENSURES(a_d == a_mir && r == a_b && path.n == a_n - 1 && STACK(path.n - 1) == a_b, "C17: the first ancestor on the other side is the neighbour"); COVER(1, "up"); }
}
void unit_fini_step(void)
{
    rbw_init(); f_phase = 0; ROOT = nondet_bool() ? opaque : NULL;
    if(ROOT != NULL) ROOT = full(7, 9, nondet_bool() ? opaque : NULL, opaque, nondet_bool());
    _Bool empty = ROOT == NULL;
    NODE* r = rbtree_fini_step(&tree);
    if(empty) { ENSURES(r == NULL && ROOT == NULL, "C18: an empty tree stays empty"); COVER(1, "empty"); return; }
    ENSURES(r == f_cur && LFT(r) == NULL, "C18: hands out the first node");
    ENSURES(f_atroot ? ROOT == gn0.or_ : (ROOT == opaque && LFT(&nn1) == gn0.or_ && RGT(&nn1) == gn1.or_), "C18: its right subtree takes exactly its place, all else stays");
    COVER(f_atroot, "root"); COVER(!f_atroot, "below");
}
/* ---- insertion around its callees ---- */
static int i_d; static NODE* i_root; static NODE i_keep;
static void stub_insert_fixup(RBTREE* t, RBTREE_CURSOR* p)
{
    s_called++;
    ENSURES(t == &tree && p == s_path && p->n == lp_n + 1 && p->stack[lp_n] == &key && (!(t_w < lp_n) || p->stack[t_w] == t_sw), "C15,C16: re-balancing gets the path to the new node");
    ENSURES(LFT(&key) == NULL && RGT(&key) == NULL && ISRED(&key), "C15,C16: the new node is a red leaf");
    if(lp_n == 0) ENSURES(ROOT == &key, "C15,C16: the first node is the root");
    else ENSURES(ROOT == i_root && side(i_d, lp_last) == &key && (i_d ? LFT(lp_last) == gn1.ol : RGT(lp_last) == gn1.or_) && ISRED(lp_last) == gn1.ored, "C15,C16: linked at the free place on the side of the key, nothing else changes");
    ROOT = opaque; set_node(&nn1, opaque, opaque, nondet_bool()); set_node(&key, opaque, opaque, nondet_bool()); keep(1); i_keep = key;
}
void unit_insert(void)
{
    rbw_init(); opaque_path(); __CPROVER_havoc_object(&key); i_keep = key; s_key = &key; lp_n = nd_path(0, NMAX); lp_cmp = nondet_int();
    i_d = lp_cmp > 0;
    if(lp_n) { NODE* o = nondet_bool() ? opaque : NULL; lp_last = full(1, 1, lp_cmp == 0 || i_d ? o : NULL, lp_cmp == 0 || !i_d ? o : NULL, nondet_bool()); STACK(lp_n - 1) = lp_last; }
    ROOT = i_root = lp_n == 0 ? NULL : lp_n == 1 ? lp_last : opaque; path_witness(lp_n);
    int r = rbtree_insert(&tree, &key, cmp_fn);
    if(lp_n && lp_cmp == 0) { ENSURES(r == -1 && s_called == 0 && kept(1) && ROOT == i_root && key.lc == i_keep.lc && key.r == i_keep.r, "C15: refused, nothing changes, if an equal node is stored"); COVER(1, "refused"); }
    else { ENSURES(r == 0 && s_called == 1 && ROOT == opaque && kept(1) && key.lc == i_keep.lc && key.r == i_keep.r, "C15,C16: inserted, then re-balanced"); COVER(lp_n > 0, "inserted"); COVER(lp_n == 0, "first"); }
}
/* ---- removal around its callees ---- */
/* X=nn0, parent nn9 (side r_d), left A=nn2, right R=nn3, M=nn4, successor Y=nn5, T=nn6 */
#ifndef CASE
#define CASE 1
#endif
static int r_d; static NODE* r_c, * r_x, * r_y, * r_m; static _Bool r_yred, r_xred; static NODE* r_A, * r_R, * r_T; static NODE* r_root;
static void removed_state(RBTREE_CURSOR* p)
{
    NODE* top = CASE <= 2 ? r_c : r_y;
    ENSURES(lp_n == 1 ? ROOT == top : (ROOT == r_root && side(r_d, &nn9) == top && ISRED(&nn9) == gn9.ored && (r_d ? LFT(&nn9) == gn9.ol : RGT(&nn9) == gn9.or_)), "C15,C16: only the removed node's place is relinked above it");
    ENSURES(kept(2) && (CASE > 2 || kept(3)) && kept(6), "C15: subtrees stay as they are");
    if(CASE >= 3) {
        ENSURES(ISRED(r_y) == r_xred, "C16: the successor takes over the colour");
        ENSURES(LFT(r_y) == r_A, "C15: and the left subtree");
        ENSURES(RGT(r_y) == (CASE == 3 ? r_T : r_R), "C15: and the rest of the right subtree");
        if(CASE >= 4) ENSURES(LFT(r_m) == r_T && RGT(r_m) == (CASE == 4 ? gn3.or_ : gn4.or_) && ISRED(r_m) == (CASE == 4 ? gn3.ored : gn4.ored), "C15,C16: the successor's right subtree takes the successor's place");
        if(CASE == 5) ENSURES(kept(3), "C15: the rest of the right subtree stays");
    }
}
static void stub_remove_fixup(RBTREE* t, RBTREE_CURSOR* p)
{
    s_called++; removed_state(p);
    size_t n = CASE <= 2 ? lp_n : CASE == 3 ? lp_n + 1 : lp_n + m_cnt;
    ENSURES(t == &tree && p == s_path && p->n == n && n <= NMAX + 1, "C15,C16: re-balancing gets the path to the place that lost a black node");
    ENSURES(p->stack[n - 1] == (CASE <= 2 ? r_c : r_T), "C15,C16: that ends with the child moved up");
    if(CASE >= 3) ENSURES(p->stack[lp_n - 1] == r_y, "C15,C16: that runs through the successor");
    if(CASE >= 4) ENSURES(p->stack[n - 2] == r_m && p->stack[lp_n] == r_R, "C15,C16: and the right subtree");
    ENSURES(!(t_w < n && t_w != n - 1 && t_w != lp_n - 1) || p->stack[t_w] == (t_w < lp_n ? t_sw : t_w == lp_n ? r_R : t_w == n - 2 ? r_m : opaque), "C15,C16: all other entries stay");
    ROOT = opaque; for(int i = 0; i < NG; i++) { set_node(NN_[i], opaque, opaque, nondet_bool()); keep(i); }
}
void unit_remove(void)
{
    rbw_init(); opaque_path(); s_key = &key; lp_n = nd_path(1, NMAX); r_d = nondet_bool(); lp_cmp = 0; m_dir = 0; m_n = lp_n;
#if CASE == 0
    REQUIRES(1); lp_cmp = nondet_int(); if(nondet_bool()) lp_n = 0; else REQUIRES(lp_cmp != 0);
    if(lp_n) { lp_last = full(0, 1, opaque, opaque, nondet_bool()); STACK(lp_n - 1) = lp_last; } ROOT = r_root = lp_n ? opaque : NULL;
    NODE* r0 = rbtree_remove(&tree, &key, cmp_fn);
    ENSURES(r0 == NULL && ROOT == r_root && kept(0) && s_called == 0, "C15: nothing to remove, nothing changes"); COVER(lp_n > 0, "not found"); COVER(lp_n == 0, "empty");
#else
    r_xred = nondet_bool(); r_T = token(6, 1, nondet_bool()); size_t ba = nondet_bool();
    if(CASE == 1) { r_A = token(2, 1, ba); r_R = NULL; r_c = r_A; }
    if(CASE == 2) { r_A = NULL; r_R = r_c = full(3, 1, NULL, opaque, nondet_bool()); }
    if(CASE == 3) { r_A = token(2, 1, ba); REQUIRES(r_A != NULL); r_y = r_R = full(3, 1, NULL, r_T, nondet_bool()); }
    if(CASE >= 4) { r_A = token(2, 1, ba); r_y = full(5, 1, NULL, r_T, nondet_bool());
        if(CASE == 4) r_m = r_R = full(3, 1, r_y, nondet_bool() ? opaque : NULL, nondet_bool());
        else { r_m = full(4, 1, r_y, nondet_bool() ? opaque : NULL, nondet_bool()); r_R = full(3, 1, opaque, nondet_bool() ? opaque : NULL, nondet_bool()); }
        m_node = r_R; m_last = r_y; m_prelast = r_m; m_cnt = CASE == 4 ? 2 : nd_path(3, NMAX); REQUIRES(lp_n + m_cnt <= NMAX); }
    if(CASE == 3) REQUIRES(lp_n + 1 <= NMAX);
    if(CASE >= 3) r_yred = ISRED(r_y);
    if(nondet_bool()) s_key = &nn0;              /* the stored node itself may serve as the key */
    r_x = full(0, 1, r_A, r_R, r_xred); STACK(lp_n - 1) = r_x;
    if(lp_n > 1) { full(9, 1, r_d ? opaque : r_x, r_d ? r_x : opaque, nondet_bool()); STACK(lp_n - 2) = &nn9; }
    ROOT = r_root = lp_n == 1 ? r_x : lp_n == 2 ? &nn9 : opaque; path_witness(lp_n);
    NODE* r = rbtree_remove(&tree, s_key, cmp_fn);
    ENSURES(r == r_x, "C15: returns the removed node");
    ENSURES((s_called == 1 + (CASE >= 4)) == (CASE <= 2 ? !r_xred : !r_yred) && (s_called >= (CASE >= 4)), "C16: re-balanced exactly if a black node left its place");
    if(s_called == 1 + (CASE >= 4)) { _Bool k = ROOT == opaque; for(int i = 0; i < NG; i++) k &= i == 0 || kept(i); ENSURES(k, "C15,C16: nothing changes after re-balancing"); COVER(1, "re-balanced"); }
    else { removed_state(NULL); COVER(1, "red removed"); }
#endif
}
#pragma CPROVER check pop
#endif
