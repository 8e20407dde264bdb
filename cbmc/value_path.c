/* C26: value_path, value_build_path (data/value.c), for paths of any length and
 * values of any kind, against the contracts of the functions they call (C20, C22,
 * C23).  One arbitrary component of the path is described by its bounds b, e, the
 * number in it by the place g behind its digits and its exact value N; all other
 * bytes are opaque. */
#include "contract.h"
#include "cut.h"
#include "data/value.h"
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
int nondet_int(void);
typedef unsigned __int128 U128;
#define T_NEW 0
#define T_ARR 1
#define T_DICT 2
#define T_OTHER 3                  /* anything else, or no value at all */
#define K_KEY 0
#define K_IDX 1                    /* [n] */
#define K_NEG 2                    /* [-n] */
#define K_APP 3                    /* [] */
#define K_BAD 4
#define NL 8
#define ST(c) ((c) == '/' || (c) == '[' || (c) == 0)
#define DG(c) ((c) >= '0' && (c) <= '9')
/* component, and the value it is looked up in */
struct COMP { int kind; size_t b, e; U128 N; int type; size_t size; _Bool has, failed, added; };
static VALUE lv[NL], other; static struct COMP comp[NL]; static char* path; static size_t L, p_n; static _Bool build, p_null; static VALUE* root;
static VALUE* p_at(size_t k) { return k == 0 && p_null ? NULL : &lv[k]; }
static VALUE* p_next(size_t k)      /* what the component resolves to */
{
    struct COMP* c = &comp[k];
    switch(c->kind) {
        case K_KEY: return c->has || c->added ? &lv[k + 1] : NULL;
        case K_IDX: return c->N < c->size ? &lv[k + 1] : NULL;
        case K_NEG: return 1 <= c->N && c->N <= c->size ? &lv[k + 1] : NULL;
        case K_APP: return c->added ? &lv[k + 1] : NULL;
    }
    return NULL;
}
/* resolving to nothing is right: nothing there, and nothing that had to be created */
static _Bool p_nothing(size_t k)
{
    struct COMP* c = &comp[k];
    if(p_next(k) != NULL) return 0;
    if(build && c->kind == K_KEY) return c->failed || (c->type != T_DICT && c->type != T_NEW);
    if(build && c->kind == K_APP) return c->failed || (c->type != T_ARR && c->type != T_NEW);
    return 1;
}
static void p_state(size_t k)
{
    struct COMP* c = &comp[k];
    c->type = nondet_int(); c->size = nondet_size(); c->has = nondet_bool(); c->failed = c->added = 0;
    REQUIRES(c->type >= T_NEW && c->type <= T_OTHER && c->size < ((size_t) 1 << 50) && (c->type == T_ARR || c->size == 0) && (c->type == T_DICT || !c->has) && (k > 0 || !p_null || c->type == T_OTHER));
}
/* ---- the callees ---- */
static struct COMP* p_lev(const VALUE* v)
{
    if(v == NULL) { ENSURES(p_null, "C26: looks into the value reached"); return &comp[0]; }
    ENSURES(__CPROVER_same_object(v, lv), "C26: looks into the value reached"); size_t k = __CPROVER_POINTER_OFFSET(v) / sizeof(VALUE);
    ENSURES(k < p_n && (k == 0 || p_next(k - 1) != NULL), "C26: looks into the value reached"); return &comp[k];
}
static VALUE* p_val(struct COMP* c) { return &lv[(c - comp) + 1]; }
static _Bool p_isindex(struct COMP* c) { return c->kind == K_IDX || c->kind == K_NEG || c->kind == K_APP; }
static int f_is_new(const VALUE* v) { return v != NULL && p_lev(v)->type == T_NEW; }
static int f_init(VALUE* v, _Bool arr)
{
    struct COMP* c = p_lev(v);
    ENSURES(build, "C26: lookup changes nothing"); ENSURES(c->type == T_NEW, "C26: only new values are initialised");
    ENSURES(arr ? p_isindex(c) : c->kind == K_KEY, "C26: as the container the component asks for");
    if(nondet_bool()) { c->failed = 1; return -1; }
    c->type = arr ? T_ARR : T_DICT; return 0;
}
static VALUE* f_get(const VALUE* v, size_t i)
{
    struct COMP* c = p_lev(v);
    if(i >= c->size) return NULL;
    return (c->kind == K_IDX && i == c->N) || (c->kind == K_NEG && c->N >= 1 && c->N <= c->size && i == c->size - c->N) ? p_val(c) : &other;
}
static void f_added(struct COMP* c) { c->added = 1; size_t k = c - comp; if(k + 1 < p_n) { comp[k + 1].type = T_NEW; comp[k + 1].size = 0; comp[k + 1].has = 0; } }
static VALUE* f_append(VALUE* v)
{
    struct COMP* c = p_lev(v);
    ENSURES(build, "C26: lookup changes nothing"); ENSURES(c->kind == K_APP && !c->added && c->type != T_NEW, "C26: appends once, for empty brackets");
    if(c->type != T_ARR) return NULL;
    if(nondet_bool()) { c->failed = 1; return NULL; }
    f_added(c); return p_val(c);
}
static _Bool p_key(struct COMP* c, const char* key, size_t len) { return c->kind == K_KEY && key == path + c->b && len == c->e - c->b; }
static VALUE* f_find(const VALUE* v, const char* key, size_t len)
{
    struct COMP* c = p_lev(v); ENSURES(len <= L && __CPROVER_r_ok(key, len), "C26: the key lies in the path");
    if(!p_key(c, key, len)) return nondet_bool() && c->type == T_DICT ? &other : NULL;
    return c->has ? p_val(c) : NULL;
}
static VALUE* f_get_or_add(VALUE* v, const char* key, size_t len)
{
    struct COMP* c = p_lev(v);
    ENSURES(build, "C26: lookup changes nothing"); ENSURES(p_key(c, key, len) && c->type != T_NEW, "C26: adds exactly the key of the component, to a container");
    if(c->has || c->added) return p_val(c);
    if(c->type != T_DICT) return NULL;
    if(nondet_bool()) { c->failed = 1; return NULL; }
    f_added(c); return p_val(c);
}
#define STUB_value_is_new int value_is_new(const VALUE* v) { return f_is_new(v); }
#define STUB_value_init_array int value_init_array(VALUE* v) { return f_init(v, 1); }
#define STUB_value_init_dict int value_init_dict(VALUE* v) { return f_init(v, 0); }
#define STUB_value_array_size size_t value_array_size(const VALUE* v) { return p_lev(v)->size; }
#define STUB_value_array_get VALUE* value_array_get(const VALUE* v, size_t index) { return f_get(v, index); }
#define STUB_value_array_append VALUE* value_array_append(VALUE* v) { return f_append(v); }
#define STUB_value_dict_get_ VALUE* value_dict_get_(const VALUE* v, const char* key, size_t key_len) { return f_find(v, key, key_len); }
#define STUB_value_dict_get_or_add_ VALUE* value_dict_get_or_add_(VALUE* v, const char* key, size_t key_len) { return f_get_or_add(v, key, key_len); }
#ifndef BOUND
/* ---- loops: components; slashes before the component; its bytes; its digits ---- */
static size_t a_p, a_d, a_g, a_q; static int a_ph; static U128 a_val; static VALUE* a_v; static _Bool a_sign;
static void arb_comp(void)
{
    struct COMP* c = &comp[0]; a_ph = 1; a_p = nondet_size(); c->b = nondet_size(); c->e = nondet_size(); a_g = nondet_size(); p_null = nondet_bool(); a_v = p_at(0); p_n = 1; p_state(0); c->N = 0;
    REQUIRES(a_p <= c->b && c->b <= c->e && c->e <= L && path[c->b] != '/' && (path[c->b] == 0) == (c->b == L));
    if(c->b == L) return;
    size_t s = c->b + (path[c->b] == '['); REQUIRES(c->e >= s && (path[c->b] == '[' || c->e > s) && ST(path[c->e]) && (path[c->e] == 0) == (c->e == L));
    if(c->e - c->b >= 2 && path[c->b] == '[' && path[c->e - 1] == ']') {
        a_sign = path[c->b + 1] == '+' || path[c->b + 1] == '-'; a_d = c->b + 1 + a_sign; REQUIRES(a_d <= a_g && a_g <= c->e && !DG(path[a_g]) && (a_d == a_g || DG(path[a_d])));
        c->kind = a_g != c->e - 1 || (a_sign && a_g == a_d) ? K_BAD : a_g == a_d ? K_APP : path[c->b + 1] == '-' ? K_NEG : K_IDX;
        if(c->kind == K_IDX || c->kind == K_NEG) { c->N = nondet_size(); if(nondet_bool()) c->N += ((U128) 1 << 64) * (1 + nondet_u8()); }
    } else c->kind = K_KEY;
}
#define OFF(q) ((size_t)((q) - path))
#define INPATH(q) (__CPROVER_same_object(q, path))
static _Bool comp_inv(const char* beg, const VALUE* v)
{
    if(a_ph == 0) return beg == path && v == root;
    if(a_ph == 1) return beg == path + a_p && v == a_v;
    return beg == path + comp[0].e && comp[0].b < L && v != NULL && v == p_next(0);
}
#define CUT_LINKV_value_path_ex_0_token_beg path + a_p
#define CUT_LINKV_value_path_ex_0_token_end path + a_p
#define CUT_LINKV_value_path_ex_0_v a_v
#define LINKED_value_path_ex_0 arb_comp()
#define MEM_value_path_ex_0
#define INV_value_path_ex_0(Q) Q(comp_inv(token_beg, v), "C26: the value reached is the one the components passed lead to")
#define GHOST_value_path_ex_0 a_ph = 2
#define DEC_value_path_ex_0 (L - OFF(token_beg))
#define CUT_LINKV_value_path_ex_1_token_beg path + a_q
#define LINKED_value_path_ex_1 a_q = nondet_size(); REQUIRES(a_p <= a_q && a_q <= comp[0].b && (path[a_q] == '/') == (a_q < comp[0].b))
#define MEM_value_path_ex_1
#define INV_value_path_ex_1(Q) Q(INPATH(token_beg) && OFF(token_beg) >= a_p && OFF(token_beg) <= comp[0].b, "C26: skips the slashes before the component")
#define GHOST_value_path_ex_1 (void) 0
#define DEC_value_path_ex_1 (L - OFF(token_beg))
#define P_S (comp[0].b + (path[comp[0].b] == '['))
#define CUT_LINKV_value_path_ex_2_token_end path + a_q
#define LINKED_value_path_ex_2 a_q = nondet_size(); REQUIRES(P_S <= a_q && a_q <= comp[0].e && ST(path[a_q]) == (a_q == comp[0].e))
#define MEM_value_path_ex_2
#define INV_value_path_ex_2(Q) Q(INPATH(token_end) && token_beg == path + comp[0].b && OFF(token_end) >= P_S && OFF(token_end) <= comp[0].e, "C26: finds the end of the component")
#define GHOST_value_path_ex_2 (void) 0
#define DEC_value_path_ex_2 (L - OFF(token_end))
/* exact value of the digits before a_q; N is the value of all: at least that of any prefix */
static void arb_digit(void)
{
    struct COMP* c = &comp[0]; a_q = nondet_size(); a_val = nondet_size(); a_ph = 3;
    REQUIRES(a_d <= a_q && a_q <= a_g && DG(path[a_q]) == (a_q < a_g) && (a_q > a_d || a_val == 0));
    if(c->kind == K_IDX || c->kind == K_NEG) REQUIRES(a_q == a_g ? c->N == a_val : c->N >= 10 * a_val + (path[a_q] - '0'));
}
static _Bool digit_inv(const char* q, const char* end, size_t index)
{
    if(!INPATH(q) || end != path + comp[0].e) return 0;
    if(a_ph == 4) return q == path + a_q + 1 && index == 10 * a_val + (path[a_q] - '0') && a_q < a_g;
    if(a_ph == 3) return q == path + a_q && index == a_val;
    return q == path + a_d && index == 0;
}
#define CUT_LINKV_value_path_ex_3_token_beg path + a_q
#define LINKED_value_path_ex_3 arb_digit()
#define MEM_value_path_ex_3
#define INV_value_path_ex_3(Q) Q(digit_inv(token_beg, token_end, index), "C26: the index is the exact value of the digits passed")
#define GHOST_value_path_ex_3 a_ph = 4
#define DEC_value_path_ex_3 (L - OFF(token_beg))
#endif
#pragma CPROVER check pop
#include CUTSRC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
#ifndef BOUND
void unit_path(void)
{
    L = nondet_size(); REQUIRES(L < ((size_t) 1 << 50)); path = __CPROVER_allocate(L + 1, 0); path[L] = 0; build = nondet_bool(); p_null = nondet_bool(); root = p_at(0); p_n = 1;
    VALUE* r = build ? value_build_path(root, path) : value_path(root, path);
    struct COMP* c = &comp[0];
    if(c->b == L) { ENSURES(r == a_v, "C26: the value reached at the end of the path is returned"); COVER(a_p > 5 && r != NULL, "end"); COVER(r == NULL, "no root"); }
    else {
        ENSURES(r == NULL, "C26: stops before the end only if there is nothing to return"); ENSURES(p_nothing(0), "C26: returns nothing only if the component does not resolve");
        COVER(c->kind == K_BAD, "bad"); COVER(c->kind == K_NEG && c->size > 0, "below"); COVER(c->kind == K_IDX && c->size > 0 && c->N < 1000, "above"); COVER(c->N >> 64, "huge"); COVER(c->kind == K_APP && !build, "append"); COVER(build && c->failed, "failed"); COVER(c->kind == K_KEY && !build, "key");
    }
    ENSURES(build || (!c->added && !c->failed), "C26: lookup changes nothing");
}
#else
/* unrolled stand-in: a complete path of at most BOUND bytes against the grammar read left to right */
void unit_path(void)
{
    L = nondet_size(); REQUIRES(L <= BOUND); path = __CPROVER_allocate(BOUND + 1, 0); build = nondet_bool(); p_null = nondet_bool(); root = p_at(0);
    for(size_t i = 0; i < BOUND; i++) if(i < L) REQUIRES(path[i] != 0);
    path[L] = 0; size_t i = 0; p_n = 0;
    for(size_t k = 0; k < BOUND; k++) {
        for(size_t j = 0; j < BOUND; j++) if(path[i] == '/') i++;
        if(i >= L) break;
        struct COMP* c = &comp[k]; p_n = k + 1; c->b = i++; for(size_t j = 0; j < BOUND; j++) if(!ST(path[i])) i++;
        c->e = i; c->N = 0;
        c->kind = K_KEY;
        if(c->e - c->b >= 2 && path[c->b] == '[' && path[c->e - 1] == ']') {
            size_t d = c->b + 1; _Bool s = path[d] == '-' || path[d] == '+'; d += s; c->kind = d == c->e - 1 ? (s ? K_BAD : K_APP) : path[c->b + 1] == '-' ? K_NEG : K_IDX;
            for(size_t j = 0; j < BOUND; j++) if(d + j < c->e - 1) { if(!DG(path[d + j])) c->kind = K_BAD; c->N = c->N * 10 + (path[d + j] - '0'); }
        }
        p_state(k);
    }
    VALUE* r = build ? value_build_path(root, path) : value_path(root, path);
    VALUE* x = p_at(0); size_t k;
    for(k = 0; k < BOUND && k < p_n; k++) {
        VALUE* y = p_next(k);
        if(y == NULL) { ENSURES(p_nothing(k), "C26: returns nothing only if the component does not resolve"); x = NULL; break; }
        x = y;
    }
    if(p_n > 0 && p_null) x = NULL;
    ENSURES(r == x, "C26: returns the value the components lead to"); COVER(r != NULL && p_n > 1, "deep"); COVER(r == NULL, "nothing");
}
#endif
#pragma CPROVER check pop
