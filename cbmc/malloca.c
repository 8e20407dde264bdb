/* C29: MALLOCA_(), MALLOCA(), FREEA().  One unit per way of writing the
 * arguments (the macros are expanded from /repo's current header). */
#define STUB_LIBC
#define NW 1
#include "contract.h"
#include "mem/malloca.h"

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
static void* g_stack; static size_t g_stack_size; static size_t g_allocas;
/* alloca(): a fresh block that is not a heap block */
static void* stub_alloca(size_t n)
{
    g_allocas++; g_stack_size = n;
    REQUIRES(n <= MAX_OBJECT);                /* a caller-chosen threshold bounds it; running out of stack is undetectable */
    g_stack = __CPROVER_allocate(n, 0);
    return g_stack;
}
#pragma CPROVER check pop
#undef alloca
#undef __builtin_alloca
#define alloca stub_alloca
#define _alloca stub_alloca

#ifndef ST
#define ST size_t
#endif
#ifndef TT
#define TT size_t
#endif
#ifndef PT
#define PT void
#endif

typedef unsigned __int128 big;
/* the postconditions of an allocation of `size` bytes under `threshold` */
static void allocated(void* p, size_t size, size_t threshold)
{
    if((big)size + sizeof(void*) < threshold) {
        ENSURES(g_allocas == 1 && g_alloc_calls == 0, "small enough: on the stack");
        ENSURES(p != NULL && __CPROVER_same_object(p, g_stack), "small enough: block on the stack");
        ENSURES(__CPROVER_w_ok(p, size), "the whole requested size is usable");
        COVER(size > 100, "stack block"); COVER(size == 0, "empty stack block");
    } else {
        ENSURES(g_allocas == 0, "too large: not on the stack");
        if(p == NULL) {
            ENSURES(g_alloc_calls == 1 || size > MAX_OBJECT, "fails only for lack of memory");
            ENSURES(g_allocs == 0, "failure leaks nothing");
            COVER(g_alloc_calls == 1, "out of memory");
        } else {
            ENSURES(g_alloc_calls == 1 && g_allocs == 1, "too large: one heap block");
            ENSURES(__CPROVER_w_ok(p, size), "the whole requested size is usable");
            ENSURES(size <= MAX_OBJECT, "requests that cannot be satisfied return nothing");
            COVER(size > 100, "heap block");
        }
    }
    ENSURES(g_frees == 0, "allocation frees nothing");
}
static void scribble(void* p, size_t size) { if(p != NULL && size > 0) __CPROVER_havoc_slice(p, size); }
static void released(size_t a, void* p)
{
    ENSURES(g_frees == a, "release frees exactly the heap blocks");
    ENSURES(p == NULL || a == 0 || __CPROVER_same_object(g_last_freed, p), "release frees the block itself");
    COVER(a == 1, "heap block released"); COVER(p != NULL && a == 0, "stack block released"); COVER(p == NULL, "nothing released");
}
#define FITS(s, t) REQUIRES((s) >= 0 && (t) >= 0)
#ifndef SIZE_EXPR
#define SIZE_EXPR a
#define THR_EXPR  t
#endif
#ifndef NAME
#define NAME p
#endif
void unit_alloc_free(void)
{
    ST a, b, cnd; TT t, u;
    FITS(a, t); FITS(b, u);
    (void)b; (void)u; (void)cnd;
    REQUIRES((SIZE_EXPR) >= 0);
    PT* NAME = (PT*) MALLOCA_(SIZE_EXPR, THR_EXPR);
    size_t sz = (SIZE_EXPR), th = (THR_EXPR);
    allocated(NAME, sz, th);
    scribble(NAME, sz);
    size_t heap = g_allocs; void* q = NAME;
    if(cnd) FREEA(NAME); else FREEA(NAME);
    released(heap, q);
}
/* default threshold; it is at least large enough for the bookkeeping */
void unit_default(void)
{
    ST a, b, cnd; (void)b; (void)cnd;
    REQUIRES((SIZE_EXPR) >= 0);
    PT* NAME = (PT*) MALLOCA(SIZE_EXPR);
    size_t sz = (SIZE_EXPR);
    allocated(NAME, sz, MALLOCA_THRESHOLD);
    scribble(NAME, sz);
    size_t heap = g_allocs; void* q = NAME;
    FREEA(NAME);
    released(heap, q);
}
/* two blocks, released through an argument expression */
void unit_two(void)
{
    size_t a, t, b, u, any; int sel = any & 1;
    PT* p[2]; size_t h[2];
    p[0] = (PT*) MALLOCA_(a, t); h[0] = g_allocs;
    p[1] = (PT*) MALLOCA_(b, u); h[1] = g_allocs - h[0];
    scribble(p[0], a); scribble(p[1], b);
    void* q = p[sel];
    ENSURES(p[0] == NULL || p[1] == NULL || !__CPROVER_same_object(p[0], p[1]), "blocks are distinct");
    FREEA(sel ? p[1] : p[0]);
    released(h[sel], q);
    ENSURES(q == p[!sel] || p[!sel] == NULL || __CPROVER_w_ok(p[!sel], sel ? a : b), "releasing one block keeps the other");
    FREEA(p[!sel]);
    ENSURES(g_frees == h[0] + h[1], "release frees exactly the heap blocks");
    PT* none = NULL;
    FREEA(none); FREEA(NULL); FREEA((PT*)0);
    ENSURES(g_frees == h[0] + h[1], "releasing a null pointer does nothing");
}
