/* Contract vocabulary and the trusted model of the C library used by all CBMC
 * units.  A unit states, for one public function of /repo, its precondition
 * (REQUIRES), calls the real function on fully symbolic state, and states the
 * postcondition (ENSURES).  COVER(x) is a reachability obligation: the verifier
 * must be able to reach it, otherwise the unit is vacuous.
 *
 * Universal quantification over bytes is by arbitrary-but-fixed witness offsets
 * W[0..NW-1] (unconstrained symbols): a postcondition proved for arbitrary W
 * holds for every offset. */
#ifndef CONTRACT_H
#define CONTRACT_H
#include <stddef.h>
#include <stdint.h>
#include <limits.h>

#define REQUIRES(...)      __CPROVER_assume(__VA_ARGS__)
#define ENSURES(x, name)   __CPROVER_assert((x), "ENSURES " name)
#define INVARIANT(x, name) __CPROVER_assert((x), "INVARIANT " name)
#define COVER(x, name)     __CPROVER_assert(!(x), "COVER " name)

/* The specification text itself is not an object of verification: no automatic
 * safety checks inside it (they would repeat the explicit range assertions). */
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
size_t  nondet_size(void);
_Bool   nondet_bool(void);
uint8_t nondet_u8(void);

#ifndef NW
#define NW 2
#endif
extern size_t W[NW];                 /* witness offsets, object relative; declared only: CBMC gives them arbitrary values */

/* allocation bookkeeping (ghost) */
static size_t g_allocs, g_frees, g_alloc_calls;
static size_t g_last_alloc_size;
static void* g_last_freed;
static _Bool g_malloc_must;          /* set while a harness builds its arbitrary state */

#define MAX_OBJECT (((size_t)1) << 54)   /* larger requests cannot be satisfied */

/* NB: __CPROVER_allocate is CBMC's primitive for a fresh object of that size. */
static void* stub_malloc(size_t n)
{
    g_alloc_calls++;
    g_last_alloc_size = n;
    if(!g_malloc_must && (n > MAX_OBJECT || nondet_bool()))
        return NULL;
    void* p = __CPROVER_allocate(n, 0);
    g_allocs++;
    return p;
}

static void* stub_must_malloc(size_t n)      /* harness use only */
{
    return __CPROVER_allocate(n, 0);
}

static void stub_free(void* p)
{
    if(p == NULL)
        return;
    g_frees++;
    g_last_freed = p;
    __CPROVER_assert(__CPROVER_r_ok(p, 0) && __CPROVER_POINTER_OFFSET(p) == 0 && __CPROVER_DYNAMIC_OBJECT(p),
                     "free() of a live heap block");
    __CPROVER_deallocate(p);
}

static void* stub_realloc(void* p, size_t n)
{
    if(p == NULL)
        return stub_malloc(n);
    __CPROVER_assert(__CPROVER_r_ok(p, 0) && __CPROVER_POINTER_OFFSET(p) == 0 && __CPROVER_DYNAMIC_OBJECT(p),
                     "realloc() of a live heap block");
    g_alloc_calls++;
    g_last_alloc_size = n;
    if(n == 0) {
        stub_free(p);
        return NULL;
    }
    if(n > MAX_OBJECT || nondet_bool())
        return NULL;
    size_t old = __CPROVER_OBJECT_SIZE(p);
    uint8_t* q = __CPROVER_allocate(n, 0);
    g_allocs++;
    for(int i = 0; i < NW; i++) {
        if(W[i] < old && W[i] < n)
            __CPROVER_assume(q[W[i]] == ((uint8_t*)p)[W[i]]);
    }
    stub_free(p);
    return q;
}

static void* stub_memmove(void* d, const void* s, size_t n)
{
    if(n == 0)
        return d;
    __CPROVER_assert(__CPROVER_r_ok(s, n), "memory copy: source range readable");
    __CPROVER_assert(__CPROVER_w_ok(d, n), "memory copy: destination range writable");
    size_t off = __CPROVER_POINTER_OFFSET(d);
    uint8_t v[NW];
    for(int i = 0; i < NW; i++)
        if(W[i] >= off && W[i] - off < n) v[i] = ((const uint8_t*)s)[W[i] - off];
    __CPROVER_havoc_slice(d, n);
    for(int i = 0; i < NW; i++)
        if(W[i] >= off && W[i] - off < n) __CPROVER_assume(((uint8_t*)d)[W[i] - off] == v[i]);
    return d;
}

static void* stub_memcpy(void* d, const void* s, size_t n)
{
    if(n > 0)
        __CPROVER_assert(!__CPROVER_same_object(d, s) ||
            __CPROVER_POINTER_OFFSET(d) >= __CPROVER_POINTER_OFFSET(s) + n ||
            __CPROVER_POINTER_OFFSET(s) >= __CPROVER_POINTER_OFFSET(d) + n, "memcpy(): ranges do not overlap");
    return stub_memmove(d, s, n);
}

static void* stub_memset(void* d, int c, size_t n)
{
    if(n == 0)
        return d;
    __CPROVER_assert(__CPROVER_w_ok(d, n), "memset(): destination range writable");
    size_t off = __CPROVER_POINTER_OFFSET(d);
    __CPROVER_havoc_slice(d, n);
    for(int i = 0; i < NW; i++)
        if(W[i] >= off && W[i] - off < n) __CPROVER_assume(((uint8_t*)d)[W[i] - off] == (uint8_t)c);
    return d;
}

#pragma CPROVER check pop

#ifdef STUB_LIBC
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#define malloc  stub_malloc
#define realloc stub_realloc
#define free    stub_free
#ifndef STUB_NO_MEMFUNCS
#define memmove stub_memmove
#define memcpy  stub_memcpy
#define memset  stub_memset
#endif
#endif
#endif
