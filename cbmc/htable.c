/* C13, C14: hash table, data/htable.c.
 *
 * The table is any number P of planes (P <= 46: a larger one cannot be allocated)
 * of 59 << p slots; each slot holds a chain of any length.  Representation: a node
 * of hash h stored in plane p lies in the chain of slot h % (59 << p); n counts the
 * stored nodes.  Chains are described by their length and the nodes at the places
 * a step touches; all else is opaque.  Facts about % used at the loop heads are
 * proved in lean/HT.lean. */
#define NW 8
#define STUB_LIBC
#include "contract.h"
#include "cut.h"
#include "data/htable.h"
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
#define NODE HTABLE_NODE
#define PMAX 46
#define PSIZE(p) ((size_t) 59 << (p))
int nondet_int(void); uint32_t nondet_u32(void);
static NODE n0, n1, n2, n3, x, key; static NODE* opaque;
static HTABLE T, T0; static NODE** pl; static size_t P;
static size_t nd(size_t lo, size_t hi) { size_t v = nondet_size(); REQUIRES(v >= lo && v <= hi); return v; }
static void start(size_t lo)
{
    opaque = __CPROVER_allocate(sizeof(NODE), 0); __CPROVER_deallocate(opaque);
    P = nd(lo, PMAX); T.n_planes = (int) P; T.n = nondet_size(); T.planes = P > 0 ? __CPROVER_allocate(P * sizeof(void*), 0) : NULL; T0 = T;
    n0.next = n1.next = n2.next = n3.next = x.next = opaque;
}
static _Bool same(void) { return T.planes == T0.planes && T.n_planes == T0.n_planes && T.n == T0.n; }
static uint32_t l_hash; static int l_calls;
static uint32_t hash_fn(const NODE* p) { ENSURES(p == &key, "C13: the hash of the key is asked for"); return l_hash; }
/* what a % b is known to be: the same for the same operands, and less than b
 * (CV_MOD stands for % where the unit asks for it, see lib/cutloops.py) */
static size_t mod_a, mod_b, mod_r; static _Bool mod_set;
static size_t CV_MOD(size_t a, size_t b)
{
    ENSURES(b != 0, "C13: remainder by a size that is not zero");
    if(mod_set && a == mod_a && b == mod_b) return mod_r;
    size_t r = nondet_size(); REQUIRES(r < b); return r;
}
static size_t mod_is(size_t a, size_t b) { mod_a = a; mod_b = b; mod_r = nondet_size(); REQUIRES(mod_r < b); mod_set = 1; return mod_r; }
static void set_plane(size_t i) { pl = __CPROVER_allocate(PSIZE(i) * sizeof(NODE*), 0); T.planes[i] = (void*) pl; }

/* ---- lookup ----  x: the stored node equal to the key (l_has), in plane l_pe at place l_ce of its chain */
static _Bool l_has; static size_t l_pe, l_ce, l_c, l_len; static long l_i; static int l_ph; static NODE* l_head, * l_node, * l_next; static NODE** l_ref; static size_t l_idx; static NODE** l_slot;
static _Bool l_here(void) { return l_has && l_pe == l_i; }
static NODE* l_at(size_t c, NODE* other) { return c >= l_len ? NULL : l_here() && c == l_ce ? &x : other; }
static void arb_plane(long i)
{
    l_i = i; l_ph = 0; l_len = nondet_size(); REQUIRES(!l_here() || l_ce < l_len);
    if(i >= 0) { set_plane(i); l_idx = mod_is(l_hash, PSIZE(i)); l_head = l_at(0, &n3); pl[l_idx] = l_head; l_slot = &pl[l_idx]; }
}
static void arb_chain(void)
{
    l_ph = 1; l_c = nondet_size(); REQUIRES(l_c <= l_len && (!l_here() || l_c <= l_ce));
    l_node = l_at(l_c, &n0); l_next = l_at(l_c + 1, &n2);
    if(l_node != NULL) l_node->next = l_next;
    if(l_c == 0) { pl[l_idx] = l_node; l_ref = l_slot; } else { n1.next = l_node; pl[l_idx] = l_c == 1 ? &n1 : opaque; l_ref = &n1.next; }
}
static _Bool chain_inv(NODE* node, NODE** ref)
{
    if(l_ph == 0) return node == l_head && ref == l_slot;
    if(l_ph == 1) return node == l_node && ref == l_ref;
    return l_node != NULL && l_node != &x && node == l_next && ref == &l_node->next && l_node->next == l_next;
}
#define CUT_LINKV_htable_lookup_internal_0_ref NULL
#define CUT_LINKV_htable_lookup_internal_0_node NULL
#define LINKED_htable_lookup_internal_0
#define MEM_htable_lookup_internal_0 REQUIRES(i >= -1 && i < (long) P); arb_plane(i);
#define INV_htable_lookup_internal_0(Q) Q(i >= -1 && i < (long) P && (!l_has || (long) l_pe <= i), "C13: every plane passed holds no equal node")
#define GHOST_htable_lookup_internal_0 (void) 0
#define DEC_htable_lookup_internal_0 ((size_t) (i + 1))
#define CUT_LINKV_htable_lookup_internal_1_ref l_ref
#define CUT_LINKV_htable_lookup_internal_1_node l_node
#define LINKED_htable_lookup_internal_1 arb_chain()
#define MEM_htable_lookup_internal_1
#define INV_htable_lookup_internal_1(Q) Q(chain_inv(node, ref), "C13: the reference followed holds the node; every node passed is different from the key")
#define GHOST_htable_lookup_internal_1 l_ph = 2
#define DEC_htable_lookup_internal_1 (l_ph == 2 ? l_len - l_c - 1 : l_len - l_c)
static int cmp_fn(const NODE* a, const NODE* b)
{
    ENSURES((a == &key && b == l_node) || (b == &key && a == l_node), "C13: the comparator sees the key and the node reached");
    int r = nondet_int(); REQUIRES((r == 0) == (l_node == &x)); return r;
}
/* ---- teardown ---- x: any stored node, in plane l_pe, slot f_s, place l_ce */
static size_t f_s, f_index; static int f_cnt, f_ph; static NODE* f_cur, * f_next; static _Bool f_free;
static _Bool f_here(void) { return l_has && l_pe == l_i && f_s == f_index; }
static NODE* f_at(size_t c, NODE* other) { return c >= l_len ? NULL : f_here() && c == l_ce ? &x : other; }
static void fini_plane(size_t i) { l_i = i; if(i < P) { set_plane(i); REQUIRES(!(l_has && l_pe == i) || f_s < PSIZE(i)); } }
static void fini_slot(size_t index)
{
    f_index = index; f_ph = 0; l_len = nondet_size(); REQUIRES(!f_here() || l_ce < l_len);
    if(index < PSIZE(l_i)) pl[index] = f_at(0, &n3);
}
static void fini_chain(void)
{
    l_c = nondet_size(); REQUIRES(l_c <= l_len); f_cur = f_at(l_c, &n0); f_next = f_at(l_c + 1, &n2); pl[f_index] = f_cur; if(f_cur != NULL) f_cur->next = f_next; f_ph = 1;
    f_cnt = nondet_bool();
}
#define PASSED(i, s, c) (l_has && (l_pe < (i) || (l_pe == (i) && (f_s < (s) || (f_s == (s) && l_ce < (c))))))
static _Bool fini_inv(NODE** plane, size_t index)
{
    if(f_ph == 0) { l_c = 0; return plane == pl && index == f_index && f_cnt == PASSED(l_i, f_index, 0); }
    if(f_ph == 1) return f_cnt == PASSED(l_i, f_index, l_c);
    return f_cur == NULL && plane[f_index] == f_next && f_cnt == PASSED(l_i, f_index, l_c + 1);
}
static void dtor(NODE* p)
{
    ENSURES(p == f_cur && p != NULL, "C14: the destructor gets the next stored node, once");
    ENSURES(pl[f_index] != p, "C14: which is not reachable any more"); if(p == &x) f_cnt++; p->next = opaque; f_cur = NULL;
}
#define LINKED_htable_fini_0
#define MEM_htable_fini_0 f_cnt = nondet_bool(); fini_plane(i);
#define INV_htable_fini_0(Q) Q(i <= P && f_cnt == PASSED(i, 0, 0), "C14: exactly the nodes of the planes passed were destroyed, once each")
#define GHOST_htable_fini_0 (void) 0
#define DEC_htable_fini_0 (P - i)
#define LINKED_htable_fini_1
#define MEM_htable_fini_1 f_cnt = nondet_bool(); fini_slot(index);
#define INV_htable_fini_1(Q) Q(i == l_i && plane == pl && index <= PSIZE(i) && f_cnt == PASSED(i, index, 0), "C14: exactly the nodes of the slots passed were destroyed, once each")
#define GHOST_htable_fini_1 (void) 0
#define DEC_htable_fini_1 (PSIZE(l_i) - index)
#define LINKED_htable_fini_2 fini_chain()
#define MEM_htable_fini_2
#define INV_htable_fini_2(Q) Q(fini_inv(plane, index), "C14: the slot holds the rest of its chain, the nodes before were destroyed, once each")
#define GHOST_htable_fini_2 f_ph = 2
#define DEC_htable_fini_2 (f_ph == 2 ? l_len - l_c - 1 : l_len - l_c)
/* ---- release of the planes ---- */
static size_t a_w, a_i; static void* a_wp, * a_cur; static int a_freed, a_planes, a_others; static void** a_arr;
static void all_plane(size_t i) { a_i = i; if(i < P) { a_cur = i == a_w ? a_wp : (void*) &n3; a_arr[i] = a_cur; } a_others = 0; a_freed = a_w < i && a_w < P; }
#define LINKED_htable_free_all_planes_0
#define MEM_htable_free_all_planes_0 REQUIRES(i >= 0); all_plane(i);
#define INV_htable_free_all_planes_0(Q) Q(i >= 0 && i <= (long) P && T.n_planes == (int) P && T.planes == a_arr && a_planes == 0 && a_freed == (a_w < (size_t) i && a_w < P), "C14: the planes passed are released, once each")
#define GHOST_htable_free_all_planes_0 (void) 0
#define DEC_htable_free_all_planes_0 (P - i)
static void unit_free(void* p);
/* ---- merging the last plane into the one before ---- */
/* witness residue s_r: chains A: slot r of the last plane, B: slot r + ps, C: slot r of the plane before; D: another slot at i */
struct CH { size_t len; NODE f, l; NODE* fn; };             /* first and last node (the same if len == 1), link of the first */
static struct CH A, B, C, D; static NODE m, m2; static NODE** pp; static size_t s_r, s_ps, s_i, s_t; static int s_ph, s_freed; static NODE* s_tail, * s_next; static NODE* s_dprev;
static NODE* head(struct CH* c) { return c->len == 0 ? NULL : c->len == 1 ? &c->l : &c->f; }
static void chain(struct CH* c) { c->len = nondet_size(); c->l.next = NULL; c->f.next = c->fn = c->len == 2 ? &c->l : &m; }
static struct CH* s_cur(void) { return s_i == s_r ? &A : s_i == s_r + s_ps ? &B : &D; }
static _Bool doneA(size_t i) { return s_r < i; } static _Bool doneB(size_t i) { return s_r + s_ps < i; }
static NODE* headAC(void) { return A.len ? head(&A) : head(&C); }
static NODE* s_slot(size_t i) { return doneB(i) && B.len ? head(&B) : doneA(i) && A.len ? head(&A) : head(&C); }
static _Bool merge_inv(size_t i)
{
    return i <= 2 * s_ps && (A.len == 0 || (A.l.next == (doneA(i) ? head(&C) : NULL) && A.f.next == A.fn)) && (B.len == 0 || (B.l.next == (doneB(i) ? headAC() : NULL) && B.f.next == B.fn))
        && (C.len == 0 || (C.l.next == NULL && C.f.next == C.fn)) && pp[s_r] == s_slot(i);
}
static void arb_merge(size_t i)
{
    REQUIRES(i <= 2 * s_ps); s_i = i; s_ph = 0; chain(&A); chain(&B); chain(&C); chain(&D);
    A.l.next = doneA(i) ? head(&C) : NULL; B.l.next = doneB(i) ? headAC() : NULL; pp[s_r] = s_slot(i);
    if(i < 2 * s_ps) {
        REQUIRES(i % s_ps == (i < s_ps ? i : i - s_ps));            /* mod_two in lean/HT.lean */
        if(s_cur() == &D) { s_dprev = nondet_bool() ? opaque : NULL; pp[i < s_ps ? i : i - s_ps] = s_dprev; }
        pl[i] = head(s_cur());
    }
}
static void arb_tail(void)
{
    struct CH* c = s_cur(); s_t = nondet_size(); REQUIRES(s_t < c->len); s_ph = 1; m.next = s_t + 2 == c->len ? &c->l : &m2;
    s_tail = s_t == c->len - 1 ? &c->l : s_t == 0 ? &c->f : &m; s_next = s_tail->next;
    REQUIRES(s_t != 0 || c->len <= 2 || s_next == &m);
}
static _Bool tail_inv(NODE* tail, size_t i)
{
    if(s_ph == 0) return i == s_i && tail == head(s_cur()) && s_cur()->len > 0;
    if(s_ph == 1) return tail == s_tail;
    return s_next != NULL && tail == s_next;
}
#define LINKED_htable_shrink_0
#define MEM_htable_shrink_0 arb_merge(i);
#define INV_htable_shrink_0(Q) Q(merge_inv(i), "C13,C14: the slots passed are joined to the plane before, chain by chain, all others are as they were")
#define GHOST_htable_shrink_0 (void) 0
#define DEC_htable_shrink_0 (2 * s_ps - i)
#define LINKED_htable_shrink_1 arb_tail()
#define CUT_LINKV_htable_shrink_1_tail s_tail
#define MEM_htable_shrink_1
#define INV_htable_shrink_1(Q) Q(tail_inv(tail, i), "C13,C14: moves along the chain of this slot to its last node")
#define GHOST_htable_shrink_1 s_ph = 2
#define DEC_htable_shrink_1 (s_ph == 2 ? s_cur()->len - s_t - 1 : s_cur()->len - s_t)

/* ---- contracts standing in for callees ---- */
static int all_freed, s_calls, g_calls; static NODE* look_result; static NODE** look_ref; static _Bool look_needs_ref; static int look_calls;
static NODE* stub_lookup(HTABLE* t, uint32_t h, const NODE* k, NODE*** p_ref, HTABLE_CMP_FUNC f)
{
    ENSURES(t == &T && h == l_hash && k == &key && f == cmp_fn && same(), "C13: looks for the key with its hash"); look_calls++;
    if(look_result != NULL && p_ref != NULL) *p_ref = look_ref;
    return look_result;
}
#define STUB_htable_lookup_internal static HTABLE_NODE* htable_lookup_internal(HTABLE* t, uint32_t h, const HTABLE_NODE* k, HTABLE_NODE*** r, HTABLE_CMP_FUNC f) { return stub_lookup(t, h, k, r, f); }
static int stub_grow(void);
#define STUB_htable_grow static int htable_grow(HTABLE* t) { ENSURES(t == &T, "C13: this table grows"); return stub_grow(); }
static void stub_shrink(void);
#define STUB_htable_shrink static void htable_shrink(HTABLE* t) { ENSURES(t == &T, "C13: this table shrinks"); stub_shrink(); }
#define STUB_htable_free_all_planes static void htable_free_all_planes(HTABLE* t) { ENSURES(t == &T && all_freed == 0, "C14: all planes are released once"); all_freed++; t->planes = NULL; t->n_planes = 0; }
static int stub_insert(HTABLE* t, NODE* n, HTABLE_CMP_FUNC f, HTABLE_HASH_FUNC h, int skip);
#define STUB_htable_insert_internal static int htable_insert_internal(HTABLE* t, HTABLE_NODE* n, HTABLE_CMP_FUNC f, HTABLE_HASH_FUNC h, int skip) { return stub_insert(t, n, f, h, skip); }
#ifdef NODE_FREE
#undef free
#define free unit_free
#endif
#pragma CPROVER check pop
#include CUTSRC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
#ifdef UNIT_LOOKUP
static NODE* stub_arb;
void unit_lookup_internal(void)
{
    start(0); l_has = P > 0 && nondet_bool(); l_pe = nondet_size(); l_ce = nondet_size(); REQUIRES(!l_has || l_pe < P); l_hash = nondet_u32();
    NODE** ref = &opaque; _Bool want = nondet_bool();
    NODE* r = htable_lookup_internal(&T, l_hash, &key, want ? &ref : NULL, cmp_fn);
    ENSURES(r == (l_has ? &x : NULL), "C13: finds the stored equal node or decides that there is none");
    if(l_has && want) ENSURES(ref == (l_ce == 0 ? l_slot : &n1.next) && *ref == &x, "C13: and the reference that holds it");
    ENSURES(same(), "C13: looking up changes nothing");
    COVER(l_has && l_ce == 0, "first"); COVER(l_has && l_ce > 3 && l_pe == 2, "deep"); COVER(!l_has && P > 2, "none"); COVER(P == 0, "no planes");
}
#endif
#ifdef UNIT_FINI
void unit_fini(void)
{
    start(0); l_has = T.n > 0 && nondet_bool(); REQUIRES(T.n == 0 || P > 0); l_pe = nondet_size(); l_ce = nondet_size(); f_s = nondet_size(); REQUIRES(!l_has || l_pe < P);
    _Bool d = nondet_bool(); size_t n = T.n;
    htable_fini(&T, d ? dtor : NULL);
    ENSURES(f_cnt == (d && l_has), "C14: every stored node is handed to the destructor exactly once");
    ENSURES(all_freed == 1 && T.n == 0 && T.planes == NULL && T.n_planes == 0 && htable_is_empty(&T), "C14: all internal memory is released, the table is empty");
    COVER(d && l_has && l_ce > 2, "node"); COVER(!d && n > 0, "no destructor"); COVER(n == 0, "empty");
    HTABLE u; htable_init(&u); HTABLE w = HTABLE_INITIALIZER; ENSURES(htable_is_empty(&u) && u.planes == NULL && u.n_planes == 0 && u.n == 0 && w.planes == NULL && w.n_planes == 0 && w.n == 0, "C13: a new table is empty");
}
#endif
#ifdef UNIT_ALL
static void unit_free(void* p)
{
    if(p == (void*) a_arr) { a_planes++; return; }
    ENSURES(p == a_cur && p != NULL && a_planes == 0 && a_others == 0, "C14: each plane is released once"); if(p == a_wp) a_freed++; else a_others++;
    a_cur = NULL;
}
void unit_all(void)
{
    start(0); a_arr = T.planes; a_w = nondet_size(); REQUIRES(P == 0 || a_w < P); a_wp = &n0;
    htable_free_all_planes(&T);
    ENSURES(a_freed == (P > 0) && a_planes == 1, "C14: every plane and the list of planes are released, once each");
    ENSURES(T.planes == NULL && T.n_planes == 0 && T.n == T0.n, "C13,C14: no planes remain"); COVER(P > 3, "planes"); COVER(P == 0, "none");
}
#endif
#ifdef UNIT_SHRINK
static void unit_free(void* p) { ENSURES(p == (void*) pl && s_freed == 0, "C14: exactly the last plane is released"); s_freed++; }
void unit_shrink(void)
{
    start(0); REQUIRES(T.n == 0 || P > 0); size_t w = nondet_size(); REQUIRES(w < P || P == 0);
    if(P >= 2) {
        s_ps = PSIZE(P - 2); pp = __CPROVER_allocate(s_ps * sizeof(NODE*), 0); set_plane(P - 1); T.planes[P - 2] = (void*) pp; s_r = nondet_size(); REQUIRES(s_r < s_ps);
        chain(&A); chain(&B); chain(&C); pl[s_r] = head(&A); pl[s_r + s_ps] = head(&B); pp[s_r] = head(&C);
    }
    if(P > 0 && w + 2 < P) T.planes[w] = (void*) &n3; void* wp = P > 0 ? T.planes[w] : NULL;
    htable_shrink(&T);
    if(T0.n == 0) { ENSURES(all_freed == 1 && T.n == 0, "C14: an empty table releases all memory"); COVER(1, "empty"); return; }
    ENSURES(all_freed == 0 && T.n == T0.n && T.planes == T0.planes, "C13,C14: as many nodes as before");
    if(P <= 1) { ENSURES(T.n_planes == 1 && s_freed == 0, "C13,C14: a single plane stays"); COVER(1, "single"); return; }
    ENSURES(s_freed == (T.n_planes != (int) P), "C14: the last plane is released exactly if it is dropped");
    ENSURES(T.n_planes == (int) P - 1, "C14: one plane less");
    ENSURES(w == P - 1 || T.planes[w] == wp, "C13,C14: the other planes stay");
    ENSURES(merge_inv(2 * s_ps) && s_i == 2 * s_ps, "C13,C14: every chain of the last plane is joined to its slot of the plane before, none lost");
    COVER(A.len == 1 && B.len == 1 && C.len == 1, "three"); COVER(A.len > 3 && B.len > 3, "long"); COVER(A.len == 0, "hole");
}
#endif
#ifdef UNIT_GROW
void unit_grow(void)
{
    start(0); size_t w = nondet_size(), k = nondet_size(), allocs = g_allocs, frees = g_frees;
    void* wp = &n3; REQUIRES(w < P || P == 0); if(P > 0) T.planes[w] = wp;
    /* content at entry w survives realloc; arbitrary slot k of a new plane */
    _Bool slot = nondet_bool();
    for(int i = 0; i < 8; i++) W[i] = (slot ? k : w) * 8 + i; REQUIRES(w < 100 && k < MAX_OBJECT / 8);
    int r = htable_grow(&T);
    ENSURES(T.n == T0.n, "C13,C14: no node is added or lost"); ENSURES(P == 0 || slot || T.planes[w] == wp, "C13,C14: the existing planes stay");
    if(r != 0) { ENSURES(r == -1 && T.n_planes == T0.n_planes, "C13,C14: after a failure the table is as before"); }
    else { ENSURES(T.n_planes >= 1 && (T.n_planes == T0.n_planes || T.n_planes == T0.n_planes + 1), "C13,C14: goes on with one more plane or those there are"); }
    ENSURES(T.n_planes <= PMAX, "C13: bounded number of planes");
    ENSURES(T.n_planes == 0 || __CPROVER_r_ok(T.planes, T.n_planes * sizeof(void*)), "C13,C14: the list of planes has room for all");
    if(T.n_planes > T0.n_planes) {
        NODE** q = (NODE**) T.planes[T.n_planes - 1];
        ENSURES(__CPROVER_w_ok(q, PSIZE(P) * sizeof(NODE*)) && __CPROVER_POINTER_OFFSET(q) == 0 && __CPROVER_DYNAMIC_OBJECT(q), "C13,C14: the new plane has twice the slots");
        if(slot && k < PSIZE(P)) ENSURES(q[k] == NULL, "C13: all of its slots are empty");
        COVER(P == 5, "grown"); ENSURES(g_allocs - g_frees == allocs - frees + 1 + (P == 0), "C14: nothing is leaked");
    } else { COVER(r == 0, "goes on"); COVER(r != 0 && P > 0, "fails"); ENSURES(g_allocs - g_frees - (allocs - frees) == (P == 0 && T.planes != NULL), "C14: nothing is leaked"); }
}
#endif
#ifdef UNIT_OPS
static static size_t o_idx; static NODE* o_head; static void** o_planes; static NODE* o_wp; static size_t o_w; static _Bool o_more;
/* an arbitrary plane that is the last one, slot of the hash holding o_head; arbitrary other slot o_w */
static void last_plane(void)
{
    set_plane(P - 1); o_idx = mod_is(l_hash, PSIZE(P - 1)); o_w = nondet_size(); REQUIRES(o_w < PSIZE(P - 1) && o_w != o_idx); o_head = nondet_bool() ? &n0 : NULL; o_wp = nondet_bool() ? &n1 : NULL;
    pl[o_w] = o_wp; pl[o_idx] = o_head;
}
static int stub_grow(void)
{
    g_calls++; ENSURES(g_calls == 1 && same(), "C13,C14: grows at most once, before anything is changed");
    if(nondet_bool()) return -1;
    if(nondet_bool() || P == 0) {
        REQUIRES(P < PMAX); P++; T.planes = __CPROVER_allocate(P * sizeof(void*), 0); T.n_planes = (int) P; last_plane(); o_head = NULL; o_wp = NULL; pl[o_w] = NULL; pl[o_idx] = NULL; o_more = 1;
    }
    T0 = T; return 0;
}
static int sk; 
static int stub_insert(HTABLE* t, NODE* n, HTABLE_CMP_FUNC f, HTABLE_HASH_FUNC h, int skip) { s_calls++; ENSURES(t == &T && n == &key && f == cmp_fn && h == hash_fn, "C13: inserts this node"); ENSURES(!skip == !sk, "C13: with or without check"); return s_calls + 40; }
void unit_insert(void)
{
    start(0); l_hash = nondet_u32(); look_result = nondet_bool() && P > 0 ? &x : NULL; _Bool skip = nondet_bool(); REQUIRES(T.n < ((size_t) 1 << 60) && (T.n == 0 || P > 0)); size_t p0 = P;
    if(P > 0) last_plane(); key.next = opaque;
    int r = htable_insert_internal(&T, &key, cmp_fn, hash_fn, skip);
    ENSURES(skip || look_calls == 1, "C13: checked insertion looks for an equal node");
    if(!skip && look_result != NULL) { ENSURES(r == -1 && same() && g_calls == 0, "C13: refused, nothing changes, if an equal node is stored"); ENSURES(P == 0 || (pl[o_idx] == o_head && pl[o_w] == o_wp), "C13: chains stay"); COVER(1, "refused"); return; }
    if(r != 0) { ENSURES(r == -1 && g_calls == 1 && same() && (P == 0 || (pl[o_idx] == o_head && pl[o_w] == o_wp)), "C13,C14: fails only for lack of memory and then changes nothing"); COVER(P > 0, "no memory"); return; }
    ENSURES(T.n == T0.n + 1 && T.planes == T0.planes && T.n_planes == T0.n_planes, "C13: one node more");
    ENSURES(pl[o_idx] == &key && key.next == o_head && pl[o_w] == o_wp, "C13: the node is put in front of the chain of its slot, all other slots stay");
    ENSURES(!htable_is_empty(&T), "C13: not empty"); COVER(o_more && p0 > 0, "grown"); COVER(p0 > 0 && !o_more && g_calls == 1, "not grown"); COVER(g_calls == 0, "room"); COVER(skip, "unchecked"); COVER(p0 == 0, "first plane");
}
static NODE** o_ref; static _Bool o_empty;
static void stub_shrink(void)
{
    s_calls++; ENSURES(s_calls == 1 && T.n == T0.n - 1 && T.planes == T0.planes && T.n_planes == T0.n_planes && *o_ref == o_head, "C13,C14: shrinks once, after the node was unlinked");
    if(T.n == 0) { T.planes = NULL; T.n_planes = 0; } else if(P > 1) T.n_planes--;
    T0.planes = T.planes; T0.n_planes = T.n_planes;
}
void unit_remove(void)
{
    start(0); l_hash = nondet_u32(); look_result = nondet_bool() && P > 0 ? &x : NULL; o_head = nondet_bool() ? &n0 : NULL; x.next = o_head; n1.next = &x; NODE* slot = &x; o_ref = look_ref = nondet_bool() ? &n1.next : &slot; REQUIRES(look_result == NULL || T.n > 0);
    REQUIRES(P > 0 || T.n == 0);
    NODE* r = htable_remove(&T, &key, cmp_fn, hash_fn);
    ENSURES(look_calls == 1, "C13: looks for the key once");
    if(look_result == NULL) { ENSURES(r == NULL && same() && s_calls == 0 && n1.next == &x && slot == &x, "C13: nothing to remove, nothing changes"); COVER(1, "none"); return; }
    ENSURES(r == &x && T.n == T0.n - 1, "C13: returns the equal node, one node less"); ENSURES(T.planes == T0.planes && T.n_planes == T0.n_planes, "C13: planes as shrinking left them");
    ENSURES(*o_ref == o_head && (o_ref == &slot || slot == &x) && (o_ref == &n1.next || n1.next == &x), "C13: exactly this node is unlinked");
    ENSURES(htable_is_empty(&T) == (T0.n == 1), "C13: empty exactly after the last node"); COVER(s_calls == 1, "shrunk"); COVER(s_calls == 0, "not shrunk"); COVER(T.n == 0, "last");
}
void unit_wrappers(void)
{
    l_hash = nondet_u32(); look_result = nondet_bool() ? &x : NULL; start(0);
    NODE* r = htable_lookup(&T, &key, cmp_fn, hash_fn); ENSURES(r == look_result && look_calls == 1 && same(), "C13: lookup by key and its hash");
    sk = nondet_bool(); int q = sk ? htable_insert_unsafe(&T, &key, cmp_fn, hash_fn) : htable_insert(&T, &key, cmp_fn, hash_fn);
    ENSURES(q == 41 && s_calls == 1, "C13: its outcome is returned"); COVER(sk, "unsafe"); COVER(!sk, "checked");
    struct { int a; NODE n; char c; NODE k; } rec; ENSURES(HTABLE_DATA(&rec.n, __typeof__(rec), n) == &rec && HTABLE_DATA(&rec.k, __typeof__(rec), k) == &rec, "C13: enclosing record");
}
#endif
#pragma CPROVER check pop
