/* C23, C24, C25, C27: dictionaries of data/value.c.  See rbw.h for the window onto
 * an arbitrary tree, rbfix.h for the re-balancing loops, rbtree.c for the
 * ordered-set argument (every place owns an interval of ranks). */
#ifdef EXACT_MEM
#define STUB_NO_MEMFUNCS
#endif
#define STUB_LIBC
#include "contract.h"
#include "cut.h"
#include "data/value.h"
#define NODE struct RBTREE_tag
#define TS "C23: "
#define TB "C25: "
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
struct RBTREE_tag; struct DICT_tag;
/* ---- what the loop rules need (defined below, after the types are known) ---- */
static void back_insert(size_t n); static void back_remove(size_t n);
#define BACK_value_dict_fix_after_insert_0 back_insert(path_len)
#define BACK_value_dict_fix_after_remove_0 back_remove(path_len)
static NODE* d_cur; static int d_phase; static size_t d_h;
static void arb_step(NODE** path); static _Bool step_inv(const NODE* node, size_t n, int cmp); static _Bool plain_inv(const NODE* node, int cmp);
static void most_enter(NODE** path);
static size_t step_measure(void) { return d_phase == 2 ? d_h - 1 : d_h; }
#define LINKED_value_dict_get__0 arb_step(NULL)
#define CUT_LINK_value_dict_get__0 d_cur
#define MEM_value_dict_get__0
#define INV_value_dict_get__0(P) P(plain_inv(node, cmp), "C23: the search moves towards the key")
#define GHOST_value_dict_get__0 d_phase = 2
#define DEC_value_dict_get__0 step_measure()
#define LINKED_value_dict_get_or_add__0
#define CUT_LINK_value_dict_get_or_add__0 NULL
#define MEM_value_dict_get_or_add__0 arb_step(path); node = d_cur;
#define INV_value_dict_get_or_add__0(P) P(step_inv(node, path_len, cmp), "C23,C25: the path so far leads from the root towards the key, within its buffer")
#define GHOST_value_dict_get_or_add__0 d_phase = 2
#define DEC_value_dict_get_or_add__0 step_measure()
#define LINKED_value_dict_remove__0
#define CUT_LINK_value_dict_remove__0 NULL
#define MEM_value_dict_remove__0 arb_step(path); node = d_cur;
#define INV_value_dict_remove__0(P) P(step_inv(node, path_len, cmp), "C23,C25: the path so far leads from the root towards the key, within its buffer")
#define GHOST_value_dict_remove__0 d_phase = 2
#define DEC_value_dict_remove__0 step_measure()
#define LINKED_value_dict_leftmost_path_0
#define CUT_LINK_value_dict_leftmost_path_0 NULL
#define MEM_value_dict_leftmost_path_0 arb_step(path); node = d_cur;
#define INV_value_dict_leftmost_path_0(P) P(step_inv(node, most_depth(n), 0), "C23,C24,C25,C27: the path grows by the nodes down to the first one")
#define GHOST_value_dict_leftmost_path_0 d_phase = 2
#define DEC_value_dict_leftmost_path_0 step_measure()
static size_t most_depth(size_t n);
/* traversals */
static size_t it_n, it_N; static _Bool it_order; static NODE* it_node;
static void arb_iter(NODE** stack, const VALUE** buffer); static _Bool iter_inv(NODE** stack, long size, size_t n);
static void arb_list(const VALUE** buffer); static _Bool list_inv(const NODE* node, size_t n); static void list_step(void);
#define MEM_value_dict_keys_sorted_0 arb_iter(stack, buffer);
#define LINKED_value_dict_keys_sorted_0
#define CUT_LINK_value_dict_keys_sorted_0 NULL
#define INV_value_dict_keys_sorted_0(P) P(iter_inv(stack, stack_size, n), "C24: the next node in order is on top of the stack; the keys of all earlier ones are stored")
#define GHOST_value_dict_keys_sorted_0 it_n++
#define DEC_value_dict_keys_sorted_0 (it_N - n)
#define MEM_value_dict_walk_sorted_0 arb_iter(stack, NULL);
#define LINKED_value_dict_walk_sorted_0
#define CUT_LINK_value_dict_walk_sorted_0 NULL
#define INV_value_dict_walk_sorted_0(P) P(iter_inv(stack, stack_size, it_n), "C24: the next node in order is on top of the stack; all earlier ones were visited")
#define GHOST_value_dict_walk_sorted_0 it_n++
#define DEC_value_dict_walk_sorted_0 (it_N - it_n)
#define MEM_value_dict_clean_0 arb_iter(stack, NULL);
#define LINKED_value_dict_clean_0
#define CUT_LINK_value_dict_clean_0 NULL
#define INV_value_dict_clean_0(P) P(iter_inv(stack, stack_size, it_n), "C27: the next node in order is on top of the stack; exactly the earlier ones were released")
#define GHOST_value_dict_clean_0 it_n++
#define DEC_value_dict_clean_0 (it_N - it_n)
#define MEM_value_dict_keys_ordered_0
#define LINKED_value_dict_keys_ordered_0 arb_list(buffer)
#define CUT_LINK_value_dict_keys_ordered_0 it_node
#define INV_value_dict_keys_ordered_0(P) P(list_inv(node, n), "C24: the next node in order of addition; the keys of all earlier ones are stored")
#define GHOST_value_dict_keys_ordered_0 list_step()
#define DEC_value_dict_keys_ordered_0 (it_N - n)
#define MEM_value_dict_walk_ordered_0
#define LINKED_value_dict_walk_ordered_0 arb_list(NULL)
#define CUT_LINK_value_dict_walk_ordered_0 it_node
#define INV_value_dict_walk_ordered_0(P) P(list_inv(node, it_n), "C24: the next node in order of addition; all earlier ones were visited")
#define GHOST_value_dict_walk_ordered_0 list_step()
#define DEC_value_dict_walk_ordered_0 (it_N - it_n)

/* ---- contracts standing in for callees (each proved by its own unit) ---- */
static VALUE V;
static const char* s_key; static size_t s_len, d_slen; static long d_key, d_rank; static int s_called;
static const char* stub_string(const VALUE* v); static size_t stub_length(const VALUE* v);
static int stub_cmp(const VALUE* v, const void* d, const char* k1, size_t l1, const char* k2, size_t l2);
#define STUB_value_string const char* value_string(const VALUE* v) { return stub_string(v); }
#define STUB_value_string_length size_t value_string_length(const VALUE* v) { return stub_length(v); }
#define STUB_value_dict_cmp static int value_dict_cmp(const VALUE* v, const DICT* d, const char* k1, size_t l1, const char* k2, size_t l2) { return stub_cmp(v, d, k1, l1, k2, l2); }
static int stub_leftmost(NODE** path, NODE* node);
#define STUB_value_dict_leftmost_path static int value_dict_leftmost_path(RBTREE** path, RBTREE* node) { return stub_leftmost(path, node); }
static void stub_fix(int which, void* d, NODE** path, int n);
#define STUB_value_dict_fix_after_insert static void value_dict_fix_after_insert(DICT* d, RBTREE** path, int n) { stub_fix(0, d, path, n); }
#define STUB_value_dict_fix_after_remove static void value_dict_fix_after_remove(DICT* d, RBTREE** path, int n) { stub_fix(1, d, path, n); }
static int stub_init_string(VALUE* v, const char* s, size_t n);
#define STUB_value_init_string_ int value_init_string_(VALUE* v, const char* s, size_t n) { return stub_init_string(v, s, n); }
static void stub_fini(VALUE* v);
#define STUB_value_fini void value_fini(VALUE* v) { stub_fini(v); }
static VALUE* stub_get(int which, const VALUE* v, const char* key, size_t n);
#define STUB_value_dict_get_ VALUE* value_dict_get_(const VALUE* v, const char* key, size_t n) { return stub_get(0, v, key, n); }
#define STUB_value_dict_get_or_add_ VALUE* value_dict_get_or_add_(VALUE* v, const char* key, size_t n) { return stub_get(1, v, key, n); }
#define STUB_value_dict_add_ VALUE* value_dict_add_(VALUE* v, const char* key, size_t n) { return stub_get(2, v, key, n); }
#define STUB_value_dict_remove_ int value_dict_remove_(VALUE* v, const char* key, size_t n) { return stub_get(3, v, key, n) != NULL; }
static void stub_clean(int which, VALUE* v);
#define STUB_value_array_clean void value_array_clean(VALUE* v) { stub_clean(0, v); }
#define STUB_value_dict_clean void value_dict_clean(VALUE* v) { stub_clean(1, v); }
static size_t spec_strlen(const char* s);
#define strlen spec_strlen
static void unit_free(void* p);
#ifdef NODE_FREE                /* nodes of the window are not heap objects of the verifier */
#undef free
#define free unit_free
#endif
#ifdef MEMCMP_STUB
static int spec_memcmp(const void* a, const void* b, size_t n);
#undef memcmp
#define memcmp spec_memcmp
#endif
#pragma CPROVER check pop
#include CUTSRC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
static NODE* LFT(const NODE* p) { return p->left; }
static NODE* RGT(const NODE* p) { return p->right; }
static _Bool ISRED(const NODE* p) { return (p->key.data[0] & HAS_REDCOLOR) != 0; }
static void set_node(NODE* p, NODE* l, NODE* r, _Bool red) { p->left = l; p->right = r; p->key.data[0] = (p->key.data[0] & IS_MALLOCED) | VALUE_STRING | (red ? HAS_REDCOLOR : 0); }
static RBTREE* spath[RBTREE_MAX_HEIGHT];
static DICT tree;
#define ROOT tree.root
#define STACK(i) spath[i]
#define CALL_INSERT_FIX(len) do { fix_frame(); value_dict_fix_after_insert(&tree, spath, (int) (len)); } while(0)
#define CALL_REMOVE_FIX(len) do { fix_frame(); value_dict_fix_after_remove(&tree, spath, (int) (len)); } while(0)
static void fix_frame(void);
#define EXTRA_FRAME fix_frame_ok()
static _Bool fix_frame_ok(void);
#pragma CPROVER check pop
#include "rbw.h"
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
static void any_nodes(void)
{
    for(int i = 0; i < NG; i++) { __CPROVER_havoc_object(NN_[i]); set_node(NN_[i], NULL, NULL, 0); }
}
/* the payload part of one arbitrary node: key, value, order links (colour and tree links apart) */
static unsigned char ff_i, ff_k, ff_v; static RBTREE ff_old; static size_t ff_size;
static _Bool payload_same(const RBTREE* a, const RBTREE* b)
{
    return a->order_prev == b->order_prev && a->order_next == b->order_next && (a->key.data[ff_k] ^ b->key.data[ff_k] & (ff_k == 0 ? 0xef : 0xff)) == (ff_k == 0 ? a->key.data[0] & 0x10 : 0)
        && a->value.data[ff_v] == b->value.data[ff_v];
}
static void payload_witness(void) { ff_i = nondet_u8(); ff_k = nondet_u8(); ff_v = nondet_u8(); REQUIRES(ff_i < NG && ff_k < sizeof(VALUE) && ff_v < sizeof(VALUE)); ff_old = *NN_[ff_i]; }
static _Bool payload_kept(void) { RBTREE x = *NN_[ff_i]; return payload_same(&x, &ff_old); }
static void fix_frame(void) { payload_witness(); ff_size = tree.size; }
static _Bool fix_frame_ok(void) { return payload_kept() && tree.size == ff_size; }

#if defined FIX_INSERT || defined FIX_REMOVE
#pragma CPROVER check pop
#include "rbfix.h"
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#else
static void back_insert(size_t n) {} static void back_remove(size_t n) {}
#endif

/* ---- the dictionary value: payload of exactly the size its flags call for ---- */
#ifndef FL
#define FL 0
#endif
#define ORD (FL & 1)
#define CUS (FL & 2)
static DICT* D; static DICT D0; static VALUE V0;
int nondet_int(void); RBTREE nondet_node(void); DICT nondet_dict(void); VALUE nondet_value(void);
static int any_cmp(const char* a, size_t n, const char* b, size_t m) { return nondet_int(); }
static void make_dict(void)
{
    D = __CPROVER_allocate(FL ? sizeof(DICT) : OFFSETOF(DICT, order_head), 0);
    V.data[0] = VALUE_DICT | IS_MALLOCED | (ORD ? HAS_ORDERLIST : 0) | (CUS ? HAS_CUSTOMCMP : 0);
    *((void**) &V.data[sizeof(void*)]) = D; V0 = V;
    D->root = NULL; D->size = nondet_size();
#if FL
    D->order_head = D->order_tail = NULL; D->cmp_func = CUS ? any_cmp : NULL;
#endif
}
static void dict_snapshot(void) { D0.root = D->root; D0.size = D->size;
#if FL
    D0.order_head = D->order_head; D0.order_tail = D->order_tail; D0.cmp_func = D->cmp_func;
#endif
}
static _Bool dict_value_same(void) { size_t k = W[0] & 15; return V.data[k] == V0.data[k]; }
static _Bool cmp_same(void) {
#if FL
    return D->cmp_func == D0.cmp_func;
#else
    return 1;
#endif
}
static _Bool order_same(void) {
#if FL
    return D->order_head == D0.order_head && D->order_tail == D0.order_tail;
#else
    return 1;
#endif
}
static _Bool dict_same(void) { return D->root == D0.root && D->size == D0.size && order_same() && cmp_same() && dict_value_same(); }

/* ---- descent: one arbitrary step of a search from the root (as in rbtree.c) ---- */
static int d_dir; static size_t d_n, d_n0, d_off, d_k, d_bh; static long d_prank; static NODE* d_par; static NODE* d_start; static int d_only, d_dead;
static const char d_strtok[2];
static size_t t_w; static NODE* t_sw; static NODE** t_path;
static NODE* side(int d, const NODE* p) { return d ? RGT(p) : LFT(p); }
static int sgn(long a, long b) { return (a > b) - (a < b); }
static size_t nd_path(size_t lo, size_t hi) { size_t n = nondet_size(); REQUIRES(n >= lo && n <= hi); return n; }
static const char* stub_string(const VALUE* v) { ENSURES(d_cur != NULL && v == &d_cur->key, "C23: the key of the node reached is read"); return d_strtok; }
static size_t stub_length(const VALUE* v) { ENSURES(d_cur != NULL && v == &d_cur->key, "C23: the length of the key of the node reached is read"); return d_slen; }
static int stub_cmp(const VALUE* v, const void* d, const char* k1, size_t l1, const char* k2, size_t l2)
{
    _Bool fwd = k1 == s_key && l1 == s_len && k2 == d_strtok && l2 == d_slen, bwd = k2 == s_key && l2 == s_len && k1 == d_strtok && l1 == d_slen;
    ENSURES(v == &V && d == D && (fwd || bwd), "C23: compares the key with that of the node reached, both in full length");
    int s = sgn(fwd ? d_key : d_rank, fwd ? d_rank : d_key), r = nondet_int();
    REQUIRES((s < 0) == (r < 0) && (s > 0) == (r > 0));
    return r;
}
#ifndef CASE
#define CASE 0
#endif
static void remove_node(void);
static void arb_step(NODE** path)
{
    d_phase = 1; if(d_dead) { d_n = 0; d_cur = NULL; t_path = path; return; }
    d_n = nd_path(d_n0, NMAX); d_k = nondet_size(); d_h = nondet_size(); REQUIRES(d_h <= NMAX && d_k <= BHMAX);
    d_rank = nondet_size(); d_bh = nondet_size(); REQUIRES(d_bh <= BHMAX && d_k + d_bh <= BHMAX);
    d_dir = d_only > 0 ? 0 : nondet_bool(); d_cur = NULL; _Bool red = 0; d_slen = nondet_size();
    t_path = path;
    if(path != NULL) for(int i = 0; i < RBTREE_MAX_HEIGHT; i++) if(!d_only || (i >= d_off && i - d_off < RBTREE_MAX_HEIGHT - d_off)) path[i - (d_only ? d_off : 0)] = opaque;
#if CASE >= 1
    REQUIRES(d_rank == d_key); remove_node(); d_h = 1;
#else
    if(d_h > 0) {
        red = nondet_bool(); REQUIRES(red || d_bh >= 1);
        NODE* l = token(2, 1, d_bh - !red), * r = token(3, 3, d_bh - !red);
        REQUIRES(!(red && (red_(l) || red_(r))));
#ifdef REMOVE_UNIT
        REQUIRES(d_rank != d_key);
#endif
        d_cur = full(0, 2, l, r, red);
    } else REQUIRES(d_bh == 0);
#endif
    if(d_n > d_n0) {
        _Bool pred = nondet_bool();
        full(1, 4, d_dir ? opaque : d_cur, d_dir ? d_cur : opaque, pred); d_par = &nn1; if(path != NULL) path[d_n - 1 - d_n0] = d_par;
        if(d_cur != NULL) REQUIRES(!(pred && ISRED(d_cur)));
        REQUIRES(d_n + !pred <= 2 * d_k);               /* reds above never outnumber blacks: the root is black */
        REQUIRES(d_n != 1 || !pred);
        REQUIRES(d_only || (d_dir ? d_prank < d_key : d_prank > d_key));
        if(d_n0 == 0 && !d_only) D->root = d_n == 1 ? d_par : opaque;
        if(d_n == d_n0 + 1) d_start = d_par;
    } else {
        d_start = d_cur;
        if(d_n0 == 0 && !d_only) { D->root = d_cur; REQUIRES(!red && d_k == 0); }
        else REQUIRES(d_n <= 2 * d_k && (d_n0 > 0 || !red) && (red ? d_n + 1 <= 2 * d_k : 1));
    }
    if(!d_only) { D0.root = D->root; }
    t_w = nondet_size(); t_sw = path != NULL && t_w < d_n - d_n0 ? path[t_w] : NULL;
}
static _Bool path_kept(NODE** path, size_t n) { return !(t_w < n) || path[t_w] == t_sw; }
static _Bool step_inv(const NODE* node, size_t n, int cmp)
{
    if(d_phase == 0) return n == d_n0 && node == d_start;
    if(d_phase == 1) return n == d_n && node == d_cur && (d_only || n == d_n0 || sgn(cmp, 0) == (d_dir ? 1 : -1));
    if(d_cur == NULL) return 0;
    int dir = d_only > 0 ? 0 : d_key > d_rank;
    size_t k = d_k + !ISRED(d_cur);
    return (d_only || (d_key != d_rank && sgn(cmp, 0) == sgn(d_key, d_rank))) && n == d_n + 1 && t_path[d_n - d_n0] == d_cur && path_kept(t_path, d_n - d_n0) && node == side(dir, d_cur)
        && n + !ISRED(d_cur) <= 2 * k && n <= NMAX && kept(0) && kept(1) && kept(2) && kept(3);
}
static _Bool plain_inv(const NODE* node, int cmp)
{
    if(d_phase == 0) return node == d_start;
    if(d_phase == 1) return node == d_cur;
    return d_cur != NULL && d_key != d_rank && node == side(d_key > d_rank, d_cur);
}
static size_t most_depth(size_t n) { return d_n0 + n; }
static void descent_start(void)
{
    rbw_init(); any_nodes(); make_dict(); d_key = nondet_size(); d_prank = nondet_size(); d_phase = 0; d_n0 = 0; d_only = 0;
    D->root = d_start = nondet_bool() ? opaque : NULL; s_len = nondet_size(); s_key = stub_must_malloc(1); dict_snapshot(); W[0] = nondet_size();
}

#ifdef UNIT_GET
void unit_get(void)
{
    if(nondet_bool()) {         /* anything but a dictionary */
        VALUE v = nondet_value(); REQUIRES((v.data[0] & TYPE_MASK) != VALUE_DICT);
        d_dead = 1; d_start = NULL; ENSURES(value_dict_get_(nondet_bool() ? &v : NULL, s_key, s_len) == NULL, "C23: nothing is found in what is no dictionary"); COVER(1, "no dictionary"); return;
    }
    descent_start(); payload_witness();
    VALUE* r = value_dict_get_(&V, s_key, s_len);
    ENSURES(d_cur == NULL ? r == NULL : (d_rank == d_key && r == &d_cur->value), "C23: finds the item stored under the key or decides that there is none");
    ENSURES(dict_same() && payload_kept() && kept(0) && kept(1) && kept(2) && kept(3), "C23: looking up changes nothing");
    COVER(r != NULL, "found"); COVER(r == NULL && d_n > 0, "not found"); COVER(r == NULL && d_n == 0, "empty");
}
#endif

#ifdef UNIT_ADD
/* ---- get-or-add around its callees ---- */
static RBTREE* a_new; static int a_dir; static int a_init_failed, a_inits; static size_t a_w; static RBTREE* a_tail, * a_left0, * a_right0;
static int stub_init_string(VALUE* v, const char* s, size_t n)
{
    a_inits++; ENSURES(s == s_key && n == s_len, "C23: the new key is the given one in full length");
    a_new = (RBTREE*) ((char*) v - OFFSETOF(RBTREE, key));
    ENSURES(__CPROVER_w_ok(v, sizeof(VALUE)), "C23: the key is initialised in place");
    a_init_failed = nondet_bool();
    v->data[0] = a_init_failed ? VALUE_NULL : VALUE_STRING | (nondet_bool() ? IS_MALLOCED : 0);
    return a_init_failed ? -1 : 0;
}
static void stub_fix(int which, void* d, NODE** path, int n)
{
    s_called++;
    ENSURES(which == 0 && d == D && path == t_path && n == d_n + 1 && path[d_n] == a_new && path_kept(path, d_n), "C23,C25: re-balancing gets the path to the new node");
    ENSURES(a_new->left == NULL && a_new->right == NULL && ISRED(a_new), "C23,C25: the new node is a red leaf");
    if(d_n == 0) ENSURES(D->root == a_new, "C23,C25: the first node is the root");
    else ENSURES(D->root == D0.root && side(d_dir, d_par) == a_new && (d_dir ? LFT(d_par) == gn1.ol : RGT(d_par) == gn1.or_) && ISRED(d_par) == gn1.ored, "C23,C25: linked at the free place on the side of the key, nothing else changes");
    D->root = opaque; set_node(&nn1, opaque, opaque, nondet_bool()); keep(1);
    a_new->left = a_new->right = opaque; a_new->key.data[0] ^= nondet_bool() ? HAS_REDCOLOR : 0;
}
void unit_add(void)
{
    if(nondet_bool()) {
        VALUE v = nondet_value(); REQUIRES((v.data[0] & TYPE_MASK) != VALUE_DICT); size_t c = g_alloc_calls;
        d_dead = 1; d_start = NULL; ENSURES(value_dict_get_or_add_(nondet_bool() ? &v : NULL, s_key, s_len) == NULL && g_alloc_calls == c, "C23: nothing is added to what is no dictionary"); COVER(1, "no dictionary"); return;
    }
    descent_start();
    /* insertion order: the tail is any stored node, the place above the new one included */
    _Bool tail_is_par = nondet_bool();
    full(10, 9, opaque, opaque, nondet_bool());
    a_tail = ORD && d_start != NULL ? (tail_is_par ? &nn1 : &nn10) : NULL;
#if FL
    D->order_tail = a_tail; D->order_head = a_tail == NULL ? NULL : nondet_bool() ? a_tail : opaque;
#endif
    if(!ORD) { nn1.order_prev = nn1.order_next = opaque; }
    if(a_tail != NULL) a_tail->order_next = NULL;
    dict_snapshot(); payload_witness(); REQUIRES(ff_i != 0);
    size_t allocs = g_allocs, frees = g_frees; REQUIRES(D->size < ((size_t)1 << 60));
    VALUE* r = value_dict_get_or_add_(&V, s_key, s_len);
    if(d_cur != NULL) {
        ENSURES(d_rank == d_key && r == &d_cur->value && dict_same() && g_allocs == allocs && s_called == 0 && payload_kept() && kept(1), "C23: an existing item is returned, nothing changes"); COVER(1, "existing"); return;
    }
    if(r == NULL) {
        ENSURES(dict_same() && payload_kept() && kept(1) && s_called == 0, "C23: if memory runs out the dictionary is unchanged");
        ENSURES(g_allocs - allocs == g_frees - frees && (a_inits == 0 || a_init_failed), "C23,C27: fails only for lack of memory, and keeps none"); COVER(a_inits == 1, "no memory for the key"); COVER(a_inits == 0, "no memory for the node"); return;
    }
    ENSURES(a_inits == 1 && !a_init_failed && s_called == 1 && r == &a_new->value, "C23: a new item");
    ENSURES(r->data[0] == (VALUE_NULL | IS_NEW), "C23: null and marked new");
    ENSURES((a_new->key.data[0] & TYPE_MASK) == VALUE_STRING, "C23: with its key");
    ENSURES(D->root == opaque && kept(1), "C23,C25: nothing changes after re-balancing");
    ENSURES(D->size == D0.size + 1 && cmp_same() && dict_value_same(), "C23: one more item");
    ENSURES(g_allocs == allocs + 1 && g_frees == frees, "C27: one block for the item");
#if FL & 1
    ENSURES(D->order_tail == a_new && a_new->order_next == NULL && a_new->order_prev == a_tail, "C24: the new item is the last one");
    if(a_tail != NULL) { ENSURES(a_tail->order_next == a_new && D->order_head == D0.order_head, "C24: behind the former last one"); a_tail->order_next = NULL; COVER(1, "appended"); }
    else { ENSURES(D->order_head == a_new, "C24: and the first one if it is the only one"); COVER(1, "first"); }
#elif FL
    ENSURES(order_same(), "C24: no order is kept");
#endif
    ENSURES(payload_kept(), "C23,C24: all other items keep key, value and order");
    COVER(d_n > 0, "added"); COVER(d_n == 0, "first item");
}
#endif

#ifdef REMOVE_UNIT
/* X=nn0 below nn1 (side d_dir); A=nn2 left, R=nn3 right, M=nn4, successor Y=nn5, T=nn6; nn10, nn11 other neighbours in order of addition */
static NODE* r_c, * r_x, * r_y, * r_m, * r_A, * r_R, * r_T; static _Bool r_xred, r_yred; static size_t m_cnt; static int r_finik, r_finiv, r_freed; static NODE* r_op, * r_on;
#define lp_n (d_n + 1)
static void remove_node(void)
{
#if CASE >= 1
    r_xred = nondet_bool(); r_T = token(6, 1, nondet_bool()); size_t ba = nondet_bool();
    if(CASE == 1) { r_A = token(2, 1, ba); r_R = NULL; r_c = r_A; }
    if(CASE == 2) { r_A = NULL; r_R = r_c = full(3, 1, NULL, opaque, nondet_bool()); }
    if(CASE == 3) { r_A = token(2, 1, ba); REQUIRES(r_A != NULL); r_y = r_R = full(3, 1, NULL, r_T, nondet_bool()); }
    if(CASE >= 4) { r_A = token(2, 1, ba); r_y = full(5, 1, NULL, r_T, nondet_bool());
        if(CASE == 4) r_m = r_R = full(3, 1, r_y, nondet_bool() ? opaque : NULL, nondet_bool());
        else { r_m = full(4, 1, r_y, nondet_bool() ? opaque : NULL, nondet_bool()); r_R = full(3, 1, opaque, nondet_bool() ? opaque : NULL, nondet_bool()); }
        m_cnt = CASE == 4 ? 2 : nd_path(3, NMAX); REQUIRES(lp_n + m_cnt <= NMAX); }
    if(CASE == 3) REQUIRES(lp_n + 1 <= NMAX);
    if(CASE >= 3) r_yred = ISRED(r_y);
    d_cur = r_x = full(0, 1, r_A, r_R, r_xred);
#endif
}
/* neighbours of X in order of addition: any other node */
static NODE* order_pick(void) { int i = nondet_int(); REQUIRES(i >= 1 && i < NG); return NN_[i]; }
static void order_setup(void)
{
#if FL & 1
    int p = nondet_int(), q = nondet_int();
    r_op = nondet_bool() ? NULL : order_pick(); r_on = nondet_bool() ? NULL : order_pick(); REQUIRES(r_op == NULL || r_op != r_on);
    nn0.order_prev = r_op; nn0.order_next = r_on;
    if(r_op != NULL) { r_op->order_next = &nn0; D->order_head = r_op->order_prev == NULL ? r_op : opaque; } else D->order_head = &nn0;
    if(r_on != NULL) { r_on->order_prev = &nn0; D->order_tail = r_on->order_next == NULL ? r_on : opaque; } else D->order_tail = &nn0;
#else
    for(int i = 0; i < NG; i++) NN_[i]->order_prev = NN_[i]->order_next = opaque;
#endif
    dict_snapshot();
}
static void removed_state(void)
{
    NODE* top = CASE <= 2 ? r_c : r_y;
    ENSURES(lp_n == 1 ? D->root == top : (D->root == D0.root && side(d_dir, &nn1) == top && ISRED(&nn1) == gn1.ored && (d_dir ? LFT(&nn1) == gn1.ol : RGT(&nn1) == gn1.or_)), "C23,C25: only the removed node's place is relinked above it");
    ENSURES(kept(2) && (CASE > 2 || kept(3)) && kept(6), "C23: subtrees stay as they are");
    if(CASE >= 3) {
        ENSURES(ISRED(r_y) == r_xred, "C25: the successor takes over the colour");
        ENSURES(LFT(r_y) == r_A, "C23: and the left subtree");
        ENSURES(RGT(r_y) == (CASE == 3 ? r_T : r_R), "C23: and the rest of the right subtree");
        if(CASE >= 4) ENSURES(LFT(r_m) == r_T && RGT(r_m) == (CASE == 4 ? gn3.or_ : gn4.or_) && ISRED(r_m) == (CASE == 4 ? gn3.ored : gn4.ored), "C23,C25: the successor's right subtree takes the successor's place");
        if(CASE == 5) ENSURES(kept(3), "C23: the rest of the right subtree stays");
    }
}
static int stub_leftmost(NODE** path, NODE* node)
{
    s_called++;
    ENSURES(path == t_path + lp_n && node == r_R && node != NULL, "C23,C25: descends the right subtree from the end of the path");
    for(int i = 0; i < RBTREE_MAX_HEIGHT; i++) if(i >= lp_n && i < lp_n + m_cnt) t_path[i] = opaque;
    t_path[lp_n] = r_R; t_path[lp_n + m_cnt - 2] = r_m; t_path[lp_n + m_cnt - 1] = r_y;
    return (int) m_cnt;
}
static void stub_fix(int which, void* d, NODE** p, int n)
{
    s_called++; removed_state();
    size_t n0 = CASE <= 2 ? lp_n : CASE == 3 ? lp_n + 1 : lp_n + m_cnt;
    ENSURES(which == 1 && d == D && p == t_path && n == n0 && n <= NMAX + 1, "C23,C25: re-balancing gets the path to the place that lost a black node");
    ENSURES(p[n0 - 1] == (CASE <= 2 ? r_c : r_T), "C23,C25: that ends with the child moved up");
    if(CASE >= 3) ENSURES(p[lp_n - 1] == r_y, "C23,C25: that runs through the successor");
    if(CASE >= 4) ENSURES(p[n0 - 2] == r_m && p[lp_n] == r_R, "C23,C25: and the right subtree");
    ENSURES(!(t_w < n0 && t_w != n0 - 1 && t_w != lp_n - 1) || p[t_w] == (t_w < lp_n ? t_sw : t_w == lp_n ? r_R : t_w == n0 - 2 ? r_m : opaque), "C23,C25: all other entries stay");
    D->root = opaque; for(int i = 1; i < NG; i++) { set_node(NN_[i], opaque, opaque, nondet_bool()); keep(i); }
}
static void stub_fini(VALUE* v)
{
    ENSURES(!r_freed, "C27: nothing is touched after its release");
    if(v == &nn0.key) r_finik++; else if(v == &nn0.value) r_finiv++; else ENSURES(0, "C23,C27: only the removed item is finalised");
}
static void unit_free(void* p)
{
    ENSURES(p == &nn0 && !r_freed && r_finik == 1 && r_finiv == 1, "C23,C27: only the removed item's block is released, once, after key and value");
    r_freed++; nn0.left = nn0.right = nn0.order_prev = nn0.order_next = opaque;
}
void unit_remove(void)
{
    if(CASE == 0 && nondet_bool()) {
        VALUE v = nondet_value(); REQUIRES((v.data[0] & TYPE_MASK) != VALUE_DICT);
        d_dead = 1; d_start = NULL; ENSURES(value_dict_remove_(nondet_bool() ? &v : NULL, s_key, s_len) == -1 && !r_freed && !r_finik && !r_finiv, "C23: nothing is removed from what is no dictionary"); COVER(1, "no dictionary"); return;
    }
    descent_start(); order_setup(); payload_witness(); REQUIRES(ff_i != 0);
    if(nondet_bool()) s_key = d_strtok, s_len = d_slen;          /* the stored key itself may be given */
    REQUIRES(D->size >= 1 || d_start == NULL); REQUIRES(CASE == 0 || D->size >= 1);
    int rc = value_dict_remove_(&V, s_key, s_len);
#if CASE == 0
    ENSURES(d_cur == NULL && rc == -1 && dict_same() && kept(1) && payload_kept() && s_called == 0 && !r_freed && !r_finik && !r_finiv, "C23: nothing to remove, nothing changes"); COVER(d_n > 0, "not found"); COVER(d_n == 0, "empty");
#else
    ENSURES(rc == 0 && r_freed == 1 && r_finik == 1 && r_finiv == 1, "C23,C27: the item is finalised and its block released");
    ENSURES(D->size == D0.size - 1 && cmp_same() && dict_value_same(), "C23: one item less");
    ENSURES((s_called == 1 + (CASE >= 4)) == (CASE <= 2 ? !r_xred : !r_yred) && (s_called >= (CASE >= 4)), "C25: re-balanced exactly if a black node left its place");
    if(s_called == 1 + (CASE >= 4)) { _Bool k = D->root == opaque; for(int i = 1; i < NG; i++) k &= kept(i); ENSURES(k, "C23,C25: nothing changes after re-balancing"); COVER(1, "re-balanced"); }
    else { removed_state(); COVER(1, "red removed"); }
#if FL & 1
    ENSURES(r_op != NULL ? r_op->order_next == r_on && D->order_head == D0.order_head : D->order_head == r_on, "C24: the item before is now followed by the item after");
    ENSURES(r_on != NULL ? r_on->order_prev == r_op && D->order_tail == D0.order_tail : D->order_tail == r_op, "C24: and the other way round");
    if(r_op != NULL) r_op->order_next = &nn0; if(r_on != NULL) r_on->order_prev = &nn0;
    COVER(r_op != NULL && r_on != NULL, "middle"); COVER(r_op == NULL && r_on == NULL, "only");
#elif FL
    ENSURES(order_same(), "C24: no order is kept");
#endif
    ENSURES(payload_kept(), "C23,C24: all other items keep key, value and order");
#endif
}
#endif

#ifdef UNIT_MOST
void unit_leftmost(void)
{
    rbw_init(); any_nodes(); d_phase = 0; d_only = 1; d_n0 = nd_path(0, NMAX); d_off = nd_path(0, NMAX); REQUIRES(d_off <= d_n0); d_start = nondet_bool() ? opaque : NULL;
    size_t w = nondet_size(); for(int i = 0; i < RBTREE_MAX_HEIGHT; i++) spath[i] = opaque; if(w < d_off) spath[w] = &nn7;
    payload_witness();
    int n = value_dict_leftmost_path(spath + d_off, d_start);
    ENSURES(d_cur == NULL && d_n0 + n == d_n && path_kept(spath + d_off, n) && kept(1), "C23,C24,C25,C27: ends at a node without a left child, appended last");
    ENSURES(payload_kept() && !(w < d_off && spath[w] != &nn7), "C23,C24: earlier entries and all nodes stay");
    ENSURES(d_n <= NMAX, "C25: path within bounds");
    COVER(n > 0, "some"); COVER(n == 0, "none");
}
#endif

#ifdef UNIT_MISC
static int c_res, c_calls; static const char* c_k1, * c_k2; static size_t c_l1, c_l2;
static int spec_memcmp(const void* a, const void* b, size_t n)
{
    c_calls++; ENSURES(a == c_k1 && b == c_k2 && n == (c_l1 < c_l2 ? c_l1 : c_l2), "C23: compares the common part of both keys");
    ENSURES(n == 0 || (__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n)), "C23: reads within the keys");
    c_res = nondet_int(); REQUIRES(n > 0 || c_res == 0); return c_res;
}
static int c_cus(const char* a, size_t n, const char* b, size_t m)
{
    c_calls++; ENSURES(a == c_k1 && b == c_k2 && n == c_l1 && m == c_l2, "C23: the caller's comparator gets both keys in full length"); return c_res = nondet_int();
}
static void any_keys(void)
{
    c_l1 = nondet_size(); c_l2 = nondet_size(); REQUIRES(c_l1 <= MAX_OBJECT && c_l2 <= MAX_OBJECT); c_k1 = stub_must_malloc(c_l1); c_k2 = stub_must_malloc(c_l2); if(nondet_bool()) { c_k2 = c_k1; REQUIRES(c_l2 <= c_l1); }
}
static int lex(void) { return c_res != 0 ? sgn(c_res, 0) : (c_l1 > c_l2) - (c_l1 < c_l2); }
void unit_default_cmp(void)
{
    any_keys(); int r = value_dict_default_cmp(c_k1, c_l1, c_k2, c_l2);
    ENSURES(sgn(r, 0) == lex(), "C23,C24: lexicographic order of whole keys, a proper prefix first"); COVER(r < 0 && c_res == 0, "prefix"); COVER(r == 0 && c_l1 > 9, "equal"); COVER(r > 0 && c_l1 < c_l2, "shorter but larger");
}
void unit_cmp(void)
{
    make_dict(); any_keys();
#if FL
    if(CUS) D->cmp_func = c_cus;
#endif
    int r = value_dict_cmp(&V, D, c_k1, c_l1, c_k2, c_l2);
    if(CUS) ENSURES(c_calls == 1 && r == c_res, "C23,C24: the caller's comparator decides"); else ENSURES(sgn(r, 0) == lex(), "C23,C24: lexicographic order by default");
    COVER(1, "compared");
}
static _Bool zero_dict(DICT* d, _Bool large) { return d->root == NULL && d->size == 0 && (!large || (d->order_head == NULL && d->order_tail == NULL)); }
void unit_init(void)
{
    VALUE v = nondet_value(); unsigned fl = nondet_size(); _Bool cus = nondet_bool(), plain = nondet_bool(); size_t a0 = g_allocs;
    if(plain) { cus = 0; fl = 0; }
    _Bool ord = (fl & VALUE_DICT_MAINTAINORDER) != 0;
    int rc = plain ? value_init_dict(&v) : value_init_dict_ex(&v, cus ? any_cmp : NULL, fl);
    if(rc != 0) { ENSURES(rc == -1 && v.data[0] == VALUE_NULL && g_allocs == a0, "C23,C27: fails only for lack of memory and keeps none"); COVER(1, "no memory"); return; }
    ENSURES(value_type(&v) == VALUE_DICT && g_allocs - a0 == ((v.data[0] & IS_MALLOCED) != 0), "C23,C27: a dictionary with at most one block");
    DICT* d = value_dict_payload(&v);
    ENSURES(__CPROVER_w_ok(d, (cus || ord) ? sizeof(DICT) : OFFSETOF(DICT, order_head)), "C23: room for its payload");
    ENSURES(zero_dict(d, cus || ord) && value_dict_size(&v) == 0, "C23,C24: empty");
    ENSURES(((v.data[0] & HAS_ORDERLIST) != 0) == ord && value_dict_flags(&v) == (ord ? VALUE_DICT_MAINTAINORDER : 0), "C23,C24: order is kept exactly if asked for");
    ENSURES(((v.data[0] & HAS_CUSTOMCMP) != 0) == cus && (!cus || d->cmp_func == any_cmp), "C23: the caller's comparator exactly if given");
    ENSURES(value_init_dict(NULL) == -1 && value_init_dict_ex(NULL, any_cmp, fl) == -1, "C23: nowhere to initialise");
    COVER(cus && ord, "both"); COVER(plain, "plain"); COVER(ord && !cus, "ordered");
}
void unit_size(void)
{
    make_dict(); dict_snapshot(); W[0] = nondet_size();
    ENSURES(value_dict_size(&V) == D0.size && value_dict_flags(&V) == (ORD ? VALUE_DICT_MAINTAINORDER : 0) && dict_same(), "C23: size and flags as stored");
    VALUE v = nondet_value(); REQUIRES((v.data[0] & TYPE_MASK) != VALUE_DICT); const VALUE* p = nondet_bool() ? &v : NULL;
    ENSURES(value_dict_size(p) == 0 && value_dict_flags(p) == 0, "C23: no dictionary, no items"); COVER(1, "size");
}
#endif
#ifdef UNIT_WRAP
/* wrappers: zero-terminated keys; add refuses used keys */
static int w_calls; static VALUE* w_res[4]; static _Bool w_seen[4]; static VALUE w_v; static const VALUE* w_arg;
static size_t spec_strlen(const char* s) { ENSURES(s == s_key && s != NULL, "C23: length of the given key"); return s_len; }
static VALUE* stub_get(int which, const VALUE* v, const char* key, size_t n)
{
    ENSURES(v == w_arg && key == s_key && n == s_len && !w_seen[which], "C23: passes the key on in full length, once"); w_seen[which] = 1; w_calls++;
    return w_res[which] = nondet_bool() ? &w_v : NULL;
}
void unit_wrap(void)
{
    s_key = nondet_bool() ? d_strtok : NULL; s_len = s_key != NULL ? nondet_size() : 0; w_arg = nondet_bool() ? &V : NULL;
    int op = nondet_int(); REQUIRES(op >= 0 && op <= 3);
    if(op == 3) { int r = value_dict_remove((VALUE*) w_arg, s_key); ENSURES(w_calls == 1 && w_seen[3] && r == (w_res[3] != NULL), "C23: removal by zero-terminated key"); COVER(1, "remove"); return; }
    VALUE* r = op == 0 ? value_dict_get(w_arg, s_key) : op == 1 ? value_dict_get_or_add((VALUE*) w_arg, s_key) : value_dict_add((VALUE*) w_arg, s_key);
    ENSURES(w_calls == 1 && w_seen[op] && r == w_res[op], "C23: the result for the zero-terminated key"); COVER(op == 1, "get or add"); COVER(op == 2, "add"); COVER(op == 0 && s_key == NULL, "no key");
}
void unit_add_(void)
{
    s_key = d_strtok; s_len = nondet_size(); w_arg = nondet_bool() ? &V : NULL;
    VALUE* r = value_dict_add_((VALUE*) w_arg, s_key, s_len);
    ENSURES(w_seen[0], "C23: an equal key is looked for");
    if(w_res[0] != NULL) { ENSURES(r == NULL && !w_seen[1], "C23: a used key is refused whatever its value, nothing is added"); COVER(1, "refused"); }
    else { ENSURES(w_seen[1] && r == w_res[1], "C23: otherwise the item is added"); COVER(r != NULL, "added"); }
}
#endif
#ifdef UNIT_ITER
/* ---- in-order traversal with an explicit stack ----
 * Items carry their place 0..N-1 in the order; the subtree at a node of place i
 * owns places lo <= i < hi.  A stack slot k holds a node of place i whose subtree
 * ends before place h, at depth d of the tree; i is where the next slot's subtree
 * ends (for the top: the next place).  Stated at the top and an arbitrary slot w.
 * (The invariant at all slots is checked at arbitrary w, used at w, top and below.) */
struct SLOT { size_t i, h; unsigned char d; } sT, sW, sW1; struct SLOT nondet_slot(void);
static size_t it_j, it_w; static NODE* it_sw; static NODE** it_stack; static NODE* it_top, * it_right; static long it_size; static int it_phase; static const VALUE** it_buf; static size_t it_bs;
static int v_calls, v_stop, v_ret; static void* v_ctx; static int f_k, f_v, f_n;
static _Bool buffer_ok(size_t n) { return it_buf == NULL || !(it_j < n) || it_buf[it_j] == &nn1.key; }
static _Bool slot_ok(struct SLOT x, size_t k, size_t next) { return x.d >= k && x.d < NMAX && x.i == next && x.i < x.h && x.h <= it_N && (k > 0 || x.h == it_N); }
static _Bool iter_inv(NODE** stack, long size, size_t n)
{
    _Bool ok = n == it_n && n <= it_N && (size == 0) == (n == it_N) && size >= 0 && size <= NMAX && size == it_size;
    ok = ok && (!(it_w < size) || (slot_ok(sW, it_w, it_w + 1 < size ? sW1.h : n) && stack[it_w] == it_sw));
    if(it_phase == 1) ok = ok && (size == 0 || (slot_ok(sT, size - 1, n) && (size == 1 || sT.h < it_N /* the slot below */) && (it_w != size - 1 || (sW.i == sT.i && sW.h == sT.h && sW.d == sT.d)) && (it_w + 1 != size - 1 || sW1.h == sT.h)));
    it_phase = 2;
    return ok && stack == it_stack && buffer_ok(n) && (it_buf == NULL || n <= it_bs);
}
static void push(NODE** stack, size_t slot, size_t lo, size_t hi, size_t depth, size_t m)
{
    ENSURES(slot <= depth, "C24,C25,C27: the stack never is longer than the tree is high");
    size_t last = slot + m - 1; NODE* x = lo == it_j ? &nn1 : &nn2;
    if(it_w >= slot && it_w <= last) {
        sW = nondet_slot(); REQUIRES(sW.d == depth + (it_w - slot) && (it_w != slot || sW.h == hi) && (it_w != last || sW.i == lo) && lo <= sW.i && sW.i < sW.h && sW.h <= hi);
        sW1.h = sW.i; it_sw = it_w == last ? x : opaque; stack[it_w] = it_sw;
    } else if(it_w + 1 == slot) sW1.h = hi;
    stack[last] = x;
    it_size = slot + m;
}
static int stub_leftmost(NODE** path, NODE* node)
{
    size_t m = node == NULL ? 0 : nd_path(1, NMAX);
    if(it_phase == 0) {
        it_stack = path; ENSURES(node == D->root, "C24,C27: starts with the whole tree"); it_size = 0;
        if(m > 0) push(path, 0, 0, it_N, 0, m);
    } else {
        it_size--;
        size_t slot = it_size, depth = sT.d + 1;
        ENSURES(path == it_stack + slot && node == it_right, "C24,C27: goes on with the right subtree of the node just done, in its slot"); REQUIRES(m + depth <= NMAX);
        if(m > 0) push(it_stack, slot, it_n + 1, sT.h, depth, m);
    }
    return (int) m;
}
static void arb_iter(NODE** stack, const VALUE** buffer)
{
    it_n = nondet_size(); it_size = nd_path(0, NMAX); it_stack = stack; it_w = nondet_size(); f_k = f_v = f_n = 0;
    sT = nondet_slot(); sW = nondet_slot(); sW1 = nondet_slot();
    for(int i = 0; i < RBTREE_MAX_HEIGHT; i++) stack[i] = opaque;
    if(it_size > 0) {
        it_top = it_n == it_j ? &nn1 : &nn0; it_right = it_n + 1 < sT.h ? opaque : NULL;
        /* whatever was on the left has been dealt with (and maybe released) */
        full(it_top == &nn1 ? 1 : 0, 1, nondet_bool() ? opaque : NULL, it_right, nondet_bool());
        stack[it_size - 1] = it_top;
    }
    it_sw = it_w < RBTREE_MAX_HEIGHT ? stack[it_w] : NULL;
    if(buffer != NULL && it_j < it_bs) { const VALUE* x = stub_must_malloc(1); buffer[it_j] = it_j < it_n ? &nn1.key : x; }
    it_phase = 1;
}
static void iter_start(void)
{
    rbw_init(); any_nodes(); make_dict(); it_N = nondet_size(); REQUIRES(it_N <= ((size_t)1 << BHMAX)); D->size = it_N; D->root = it_N > 0 ? opaque : NULL; it_j = nondet_size(); REQUIRES(it_j < it_N || it_N == 0);
    it_n = 0; it_phase = 0; it_w = nondet_size(); W[0] = nondet_size(); payload_witness(); dict_snapshot();
}
static void iter_list_start(void)
{
    it_order = 1; rbw_init(); any_nodes(); make_dict(); it_N = nondet_size(); REQUIRES(it_N <= ((size_t)1 << BHMAX)); D->size = it_N; D->root = opaque; it_j = nondet_size(); REQUIRES(it_j < it_N || it_N == 0);
    it_n = 0; it_phase = 0; W[0] = nondet_size();
#if FL & 1
    D->order_head = it_N == 0 ? NULL : it_j == 0 ? &nn1 : &nn2; D->order_tail = opaque;
#endif
    payload_witness(); REQUIRES(ff_i > 2); dict_snapshot();
}
static NODE* it_next;
static void arb_list(const VALUE** buffer)
{
    it_phase = 1; it_n = nondet_size(); REQUIRES(it_n <= it_N);
    it_node = it_n == it_N ? NULL : it_n == it_j ? &nn1 : &nn0;
    it_next = it_n + 1 >= it_N ? NULL : it_n + 1 == it_j ? &nn1 : &nn2;
    if(it_node != NULL) { it_node->order_next = it_next; it_node->order_prev = opaque; }
    if(buffer != NULL && it_j < it_bs) { const VALUE* x = stub_must_malloc(1); buffer[it_j] = it_j < it_n ? &nn1.key : x; }
}
static void list_step(void) { it_n++; it_phase = 2; }
static _Bool list_inv(const NODE* node, size_t n)
{
    _Bool ok = n == it_n && n <= it_N && buffer_ok(n) && (it_buf == NULL || n <= it_bs);
    if(it_phase == 0) return ok && node == (it_N == 0 ? NULL : it_j == 0 ? &nn1 : &nn2);
    if(it_phase == 1) return ok && node == it_node;
    return ok && node == it_next;
}
#ifdef UNIT_KEYS
static void keys_post(size_t r)
{
    ENSURES(r == (it_N < it_bs ? it_N : it_bs), "C24: as many keys as there are and fit");
    ENSURES(buffer_ok(r), "C24: the key of place j is stored at place j"); ENSURES(dict_same(), "C24: the dictionary stays");
    COVER(r == it_N && r > 3, "all"); COVER(r == it_bs && r > 3 && r < it_N, "some"); COVER(it_N == 0, "empty"); COVER(r > it_j, "place j stored");
}
static void make_buf(void) { it_bs = nondet_size(); REQUIRES(it_bs <= MAX_OBJECT / 8); it_buf = stub_must_malloc(it_bs * sizeof(const VALUE*)); }
void unit_keys_sorted(void) { make_buf(); iter_start(); size_t r = value_dict_keys_sorted(&V, it_buf, it_bs); keys_post(r); }
void unit_keys_ordered(void)
{
    make_buf(); iter_list_start(); size_t r = value_dict_keys_ordered(&V, it_buf, it_bs);
#if FL & 1
    keys_post(r);
#else
    ENSURES(r == 0 && it_phase == 0 && dict_same(), "C24: refused where no order is kept"); COVER(1, "refused");
#endif
}
void unit_keys_nodict(void)
{
    VALUE v = nondet_value(); REQUIRES((v.data[0] & TYPE_MASK) != VALUE_DICT); const VALUE* p = nondet_bool() ? &v : NULL; make_buf();
    ENSURES(value_dict_keys_sorted(p, it_buf, it_bs) == 0 && value_dict_keys_ordered(p, it_buf, it_bs) == 0, "C24: no keys of what is no dictionary"); COVER(1, "no dictionary");
}
#endif
#ifdef UNIT_WALK
static int visit(const VALUE* k, VALUE* v, void* ctx)
{
    NODE* x = it_order ? it_node : it_top;
    ENSURES(!v_stop, "C24: no visit after the walk was stopped");
    ENSURES(x != NULL && k == &x->key && v == &x->value && ctx == v_ctx && v_calls == 0, "C24: the visitor gets the next item in order, once");
    v_calls++; v_ret = nondet_int(); v_stop = v_ret != 0; return v_ret;
}
static void walk_post(int r)
{
    if(v_stop) { ENSURES(r == v_ret, "C24: a non-zero result of the visitor stops the walk and is returned"); COVER(it_n > 2 && it_n + 2 < it_N, "stopped"); }
    else { ENSURES(r == 0 && it_n == it_N, "C24: otherwise all items are visited and the result is 0"); COVER(it_N > 2, "all"); COVER(it_N == 0, "empty"); }
    ENSURES(dict_same(), "C24: the dictionary stays");
}
void unit_walk_sorted(void) { iter_start(); v_ctx = stub_must_malloc(1); walk_post(value_dict_walk_sorted(&V, visit, v_ctx)); }
void unit_walk_ordered(void)
{
    iter_list_start(); v_ctx = stub_must_malloc(1); int r = value_dict_walk_ordered(&V, visit, v_ctx);
#if FL & 1
    walk_post(r);
#else
    ENSURES(r == -1 && v_calls == 0, "C24: refused where no order is kept"); COVER(1, "refused");
#endif
}
void unit_walk_nodict(void)
{
    VALUE v = nondet_value(); REQUIRES((v.data[0] & TYPE_MASK) != VALUE_DICT); const VALUE* p = nondet_bool() ? &v : NULL;
    ENSURES(value_dict_walk_sorted(p, visit, NULL) == -1 && value_dict_walk_ordered(p, visit, NULL) == -1, "C24: refused for what is no dictionary"); COVER(1, "no dictionary");
}
#endif
#ifdef UNIT_CLEAN
static void stub_fini(VALUE* v)
{
    ENSURES(f_n == 0, "C27: nothing is touched after its release");
    if(v == &it_top->key) f_k++; else if(v == &it_top->value) f_v++; else ENSURES(0, "C27: exactly the next item's key and value are finalised");
}
static void unit_free(void* p)
{
    ENSURES(p == it_top && f_n == 0 && f_k == 1 && f_v == 1, "C27: each item's block is released once, after key and value");
    f_n++; it_top->left = it_top->right = it_top->order_next = it_top->order_prev = opaque;
}
void unit_clean(void)
{
    iter_start();
#if FL & 1
    D->order_head = it_N ? opaque : NULL; D->order_tail = it_N ? opaque : NULL; dict_snapshot();
#endif
    value_dict_clean(&V);
    ENSURES(it_n == it_N, "C27: every item was released");
    ENSURES(D->root == NULL && D->size == 0 && cmp_same() && dict_value_same(), "C23,C27: an empty dictionary of the same kind remains");
#if FL & 1
    ENSURES(D->order_head == NULL && D->order_tail == NULL, "C24,C27: with an empty order list");
#endif
    COVER(it_N > 2, "some"); COVER(it_N == 0, "none");
    VALUE v = nondet_value(), v0 = v; REQUIRES((v.data[0] & TYPE_MASK) != VALUE_DICT); value_dict_clean(&v); size_t k = W[0] & 15; ENSURES(v.data[k] == v0.data[k], "C27: anything else stays"); value_dict_clean(NULL);
}
#endif
#endif
#ifdef UNIT_FINI
/* finalising: items first (their contracts), then the value's own block */
static int c_n[2], c_freed; static void* c_block; static uint8_t c_type;
static void stub_clean(int which, VALUE* v)
{
    ENSURES(v == &V && !c_freed, "C27: the container's items go first");
    c_n[which]++;
    ENSURES((V.data[0] & 0xf) == c_type, "C27: while it still is a container"); ENSURES(which == 0 ? c_type == VALUE_ARRAY || 1 : 1, "C27: ");
}
static void unit_free(void* p) { ENSURES(p != NULL && p == c_block && !c_freed, "C27: the value's block is released once"); c_freed++; }
void unit_fini(void)
{
    V = nondet_value(); c_type = V.data[0] & 0xf; _Bool own = (V.data[0] & IS_MALLOCED) != 0; c_block = own ? stub_must_malloc(1) : NULL; if(own) *((void**) &V.data[sizeof(void*)]) = c_block;
    value_fini(&V);
    ENSURES(c_type != VALUE_ARRAY || c_n[0] == 1, "C27: the elements of an array are released"); ENSURES(c_type != VALUE_DICT || c_n[1] == 1, "C27: the items of a dictionary are released");
    ENSURES(c_freed == own, "C27: the value's own block is released exactly if it has one");
    ENSURES(V.data[0] == VALUE_NULL, "C27: a null value remains");
    value_fini(NULL); ENSURES(c_freed == own, "C27: nothing to release");
    COVER(own && c_type == VALUE_DICT, "dictionary"); COVER(!own, "inline"); COVER(c_type == VALUE_ARRAY, "array");
    VALUE n; n.data[0] = VALUE_NULL; value_fini(&V); ENSURES(c_freed == own, "C27: finalising twice releases nothing twice");
}
#endif
#pragma CPROVER check pop
