/* C22: array values.  Arbitrary array (any size, capacity, elements); elements by an
 * arbitrary witness: byte offset W[0] before and W[1] after the operation. */
#define STUB_LIBC
#include "contract.h"
#include "cut.h"
#undef memset
#undef memcpy
#include "data/value.h"
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
/* contract of value_fini on an element: releases what the element holds (C27), leaves null, touches nothing else */
static VALUE* g_wit; static size_t g_wit_fini, g_fini; static const VALUE* g_base; static size_t g_lo, g_hi;
static void fini_contract(VALUE* v)
{
    __CPROVER_assert(__CPROVER_w_ok(v, sizeof(VALUE)), "value_fini(): precondition: a valid value");
    __CPROVER_assert(__CPROVER_same_object(v, g_base) && __CPROVER_POINTER_OFFSET(v) % sizeof(VALUE) == 0 &&
                     __CPROVER_POINTER_OFFSET(v) / sizeof(VALUE) >= g_lo && __CPROVER_POINTER_OFFSET(v) / sizeof(VALUE) < g_hi, "ENSURES C22: only elements to be removed are finalised");
    g_fini++;
    if(v == g_wit) g_wit_fini++;
    v->data[0] = 0;
}
#define STUB_value_fini void value_fini(VALUE* v) { fini_contract(v); }
#define STUB_value_dict_clean void value_dict_clean(VALUE* v) { __CPROVER_assert(0, "ENSURES an array is not treated as a dictionary"); }

/* the loop finalises elements in order: [index, i) done */
#define INV_value_array_remove_range_0(P) \
    P(i >= index && i <= index + count, "finalising in range"), \
    P(g_fini == i - index, "one finalisation per element"), \
    P(g_wit_fini == (size_t)(g_wit != NULL && (size_t)(g_wit - g_base) >= index && (size_t)(g_wit - g_base) < i), "each removed element once")
#define MEM_value_array_remove_range_0 __CPROVER_havoc_object(&g_fini); __CPROVER_havoc_object(&g_wit_fini); if(count > 0) __CPROVER_havoc_slice(a->value_buf + index, count * sizeof(VALUE));
#define GHOST_value_array_remove_range_0 (void)0
#define DEC_value_array_remove_range_0 (index + count - i)

#define INV_value_array_clean_0(P) \
    P(i <= a->size, "finalising in range"), \
    P(g_fini == i, "one finalisation per element"), \
    P(g_wit_fini == (size_t)(g_wit != NULL && (size_t)(g_wit - g_base) < i), "each element once")
#define MEM_value_array_clean_0 __CPROVER_havoc_object(&g_fini); __CPROVER_havoc_object(&g_wit_fini); if(a->size > 0) __CPROVER_havoc_slice(a->value_buf, a->size * sizeof(VALUE));
#define GHOST_value_array_clean_0 (void)0
#define DEC_value_array_clean_0 (a->size - i)
#pragma CPROVER check pop
#include CUTSRC

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "signed-overflow"
#ifndef APP
#define APP 0
#endif
#ifndef BOUND
#define BOUND (((size_t)1) << 49)
#endif
VALUE nondet_value(void);
static VALUE v; static ARRAY* a; static VALUE* buf0; static size_t size0, alloc0, wi, wb; static uint8_t byte0; static size_t have;

static int consistent(const ARRAY* a)
{
    return a->size <= a->alloc && (a->value_buf == NULL ? a->alloc == 0
        : __CPROVER_POINTER_OFFSET(a->value_buf) == 0 && __CPROVER_DYNAMIC_OBJECT(a->value_buf) && a->alloc > 0 && a->alloc <= MAX_OBJECT / sizeof(VALUE) && __CPROVER_OBJECT_SIZE(a->value_buf) >= a->alloc * sizeof(VALUE));
}
/* an arbitrary array value; the witness byte wb of element wi */
static void any_array(void)
{
    v = nondet_value();
    g_malloc_must = 1; int rc = value_init_array(&v); g_malloc_must = 0;
    ENSURES(rc == 0, "C22: initialisation fails only without memory");
    a = value_array_payload(&v);
    ENSURES(value_type(&v) == VALUE_ARRAY && value_array_size(&v) == 0 && consistent(a) && !value_is_new(&v), "C22: a new array is empty");
    size0 = nondet_size(); alloc0 = nondet_size();
    REQUIRES(alloc0 <= BOUND && size0 <= alloc0);
    buf0 = alloc0 ? stub_must_malloc(alloc0 * sizeof(VALUE)) : NULL;
    a->size = size0; a->alloc = alloc0; a->value_buf = buf0;
    wi = nondet_size(); wb = nondet_size();
    REQUIRES(wb < sizeof(VALUE));
    have = wi < size0;
    if(have) { byte0 = buf0[wi].data[wb]; W[0] = wi * sizeof(VALUE) + wb; } else W[0] = SIZE_MAX;
    W[1] = W[0];
    g_wit = have ? buf0 + wi : NULL; g_base = buf0; g_wit_fini = g_fini = 0; g_lo = g_hi = 0;
    g_allocs = g_frees = g_alloc_calls = 0;
}
static void unchanged(void)
{
    ENSURES(value_type(&v) == VALUE_ARRAY && a->size == size0 && a->alloc == alloc0 && a->value_buf == buf0 && consistent(a), "C22: a failed operation leaves the array unchanged");
    if(have) ENSURES(buf0[wi].data[wb] == byte0, "C22: a failed operation leaves the elements unchanged");
    ENSURES(g_frees == 0 && g_fini == 0, "C22: a failed operation releases nothing");
}

void unit_get(void)
{
    any_array();
    size_t index = nondet_size();
    VALUE* r = value_array_get(&v, index);
    ENSURES(r == (index < size0 ? buf0 + index : NULL), "C22: the element at a valid index, nothing otherwise");
    ENSURES(value_array_size(&v) == size0 && value_array_get_all(&v) == buf0, "C22: size and storage");
    unchanged();
    COVER(r != NULL, "[get] valid"); COVER(r == NULL && size0 > 0, "[get] invalid");
}

void unit_noarray(void)
{
    size_t index = nondet_size();
    VALUE x = nondet_value(), * p = &x; int32_t i;
    if(APP == 0) p = NULL; else if(APP == 1) value_init_null(&x); else value_init_int32(&x, i);
    ENSURES(value_array_get(p, index) == NULL && value_array_get_all(p) == NULL && value_array_size(p) == 0 && value_array_insert(p, index) == NULL && value_array_append(p) == NULL &&
            value_array_remove(p, index) == -1 && value_array_remove_range(p, index, 0) == -1, "C22: a value that is no array is refused");
    value_array_clean(p);
    COVER(1, "[noarray] end");
}

void unit_insert(void)
{
    any_array();
    size_t index = nondet_size();
    size_t app = APP;
    if(app) index = size0;
    if(have) W[1] = (wi + (wi >= index)) * sizeof(VALUE) + wb;
    VALUE* r = app ? value_array_append(&v) : value_array_insert(&v, index);
    if(r == NULL) {
        unchanged();
        ENSURES(index > size0 || g_alloc_calls > 0, "C22: insertion fails only for a bad index or when memory runs out");
        COVER(index <= size0, "[insert] out of memory");
        return;
    }
    ENSURES(index <= size0, "C22: an index beyond the end is refused");
    ENSURES(value_type(&v) == VALUE_ARRAY && value_array_size(&v) == size0 + 1 && consistent(a), "C22: one element more");
    ENSURES(r == value_array_get(&v, index) && r == a->value_buf + index, "C22: the new element is at the addressed position");
    ENSURES(value_type(r) == VALUE_NULL && value_is_new(r), "C22: the new element is null and marked new");
    ENSURES(!(r->data[0] & 0x80), "C22: the new element owns nothing");
    if(have) ENSURES(value_array_get(&v, wi + (wi >= index))->data[wb] == byte0, "C22: all other elements are kept in order");
    ENSURES(g_fini == 0 && g_allocs == g_frees + (buf0 == NULL ? 1 : 0) , "C22: insertion releases no element and keeps one block");
    COVER(have && (wi >= index || APP) && g_allocs > 0, "[insert] grow and shift"); COVER(have && wi < index && (index < size0 || APP) && g_allocs == 0, "[insert] in place");
}

void unit_remove(void)
{
    any_array();
    size_t index = nondet_size(), count = nondet_size(), one = APP;
    if(one) count = 1;
    size_t valid = index <= size0 && count <= size0 - index;
    if(valid) { g_lo = index; g_hi = index + count; }
    size_t gone = have && valid && wi >= index && wi < index + count;
    size_t ni = wi < index ? wi : wi - count;
    if(have && !gone) W[1] = ni * sizeof(VALUE) + wb;
    int rc = one ? value_array_remove(&v, index) : value_array_remove_range(&v, index, count);
    if(!valid) {
        ENSURES(rc != 0, "C22: an invalid range is refused");
        unchanged();
        COVER(index <= size0 && count > size0, "[remove] invalid");
        return;
    }
    ENSURES(rc == 0, "C22: a valid range is removed");
    ENSURES(value_type(&v) == VALUE_ARRAY && value_array_size(&v) == size0 - count && consistent(a), "C22: exactly count elements less");
    ENSURES(g_fini == count && (!have || g_wit_fini == gone), "C22: exactly the removed elements are finalised, once each");
    if(have && !gone) ENSURES(value_array_get(&v, ni)->data[wb] == byte0, "C22: all other elements are kept in order");
    ENSURES(g_allocs == g_frees, "C22: the array keeps its block");
    COVER(have && !gone && ni != wi && g_allocs == 0, "[remove] shift"); COVER(gone && (count > 5 || APP), "[remove] gone"); COVER(g_allocs > 0 && have && !gone, "[remove] shrunk"); COVER(g_alloc_calls > g_allocs, "[remove] shrinking fails");
}

void unit_clean(void)
{
    any_array();
    g_lo = 0; g_hi = size0;
    value_array_clean(&v);
    ENSURES(value_type(&v) == VALUE_ARRAY && value_array_size(&v) == 0 && consistent(a) && a->value_buf == NULL, "C22: a cleaned array is empty");
    ENSURES(g_fini == size0 && (!have || g_wit_fini == 1), "C22,C27: every element is finalised once");
    ENSURES(g_frees == (size_t)(buf0 != NULL) && (buf0 == NULL || g_last_freed == buf0), "C22,C27: the storage is released");
    COVER(size0 > 3, "[clean] end");
}

void unit_init(void)
{
    VALUE x = nondet_value();
    g_allocs = g_alloc_calls = 0;
    int rc = value_init_array(&x);
    if(rc != 0) { ENSURES(rc == -1 && value_type(&x) == VALUE_NULL && !value_is_new(&x) && g_allocs == 0 && g_alloc_calls > 0, "C22: initialisation fails only without memory and leaves null"); COVER(1, "[init] failure"); }
    else { ENSURES(value_type(&x) == VALUE_ARRAY && value_array_size(&x) == 0 && value_array_get_all(&x) == NULL, "C22: a new array is empty"); COVER(1, "[init] success"); }
    ENSURES(value_init_array(NULL) == -1, "C22: no value, no array");
}
#pragma CPROVER check pop
