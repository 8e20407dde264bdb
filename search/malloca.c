/* C29: the macros with real alloca() and malloc(); sizes and thresholds as expressions. */
#define SEARCH_ALLOC
#include "search.h"
#include <malloc.h>
#include "mem/malloca.h"

static char* g_base;
static int on_stack(void* p) { return (char*)p > (char*)__builtin_frame_address(0) - 4096 && (char*)p < g_base; }
static size_t pick(void)
{
    static const size_t sp[] = { 0, 1, 7, 8, 9, 15, 16, 100, 1015, 1016, 1017, 1023, 1024, 1025, 4000, 100000 };
    return g_small ? sp[choose(16)] : choose(3) ? sp[choose(16)] : choose(5000);
}
/* kind: 0 none expected, 1 stack, 2 heap */
static void verify(void* p, size_t size, size_t thr, long before, int faulty)
{
    long got = live_blocks - before;
    describe("%zu bytes under threshold %zu -> %s", size, thr, p == NULL ? "NULL" : got ? "heap" : "stack");
    if((unsigned __int128)size + sizeof(void*) < thr) {
        CHECK(p != NULL && got == 0, "small enough: on the stack");
        CHECK(on_stack(p), "small enough: block on the stack");
    } else if(p == NULL) {
        CHECK(faulty || size > ((size_t)1 << 34) - 8, "fails only for lack of memory"); CHECK(got == 0, "failure leaks nothing");
    } else {
        CHECK(got == 1, "too large: one heap block"); CHECK(!on_stack(p), "too large: not on the stack");
        CHECK(size <= ((size_t)1 << 34), "requests that cannot be satisfied return nothing");
    }
    if(p != NULL) { for(size_t i = 0; i < size; i++) ((uint8_t*)p)[i] = (uint8_t)(i % 4 == 0 ? 0xdd : i % 4 == 1 ? 0xdd : 0); if(size) nontrivial(); }
}
#define RUN(ST, TT, NAME, PT, SEXP, TEXP) { ST a = (ST)x, b = (ST)y; TT t = (TT)z, u = (TT)w; (void)b; (void)u; long before = live_blocks; fail_at = faulty ? 0 : -1; \
    PT* NAME = (PT*) MALLOCA_(SEXP, TEXP); verify(NAME, (size_t)(SEXP), (size_t)(TEXP), before, faulty); fail_at = -1; if(c) FREEA(NAME); else FREEA(NAME); \
    CHECK(live_blocks == before, "release frees exactly the heap blocks"); \
    before = live_blocks; fail_at = faulty ? 0 : -1; PT* q = (PT*) MALLOCA(SEXP); verify(q, (size_t)(SEXP), 1024, before, faulty); fail_at = -1; FREEA(d ? q : q); \
    CHECK(live_blocks == before, "release frees exactly the heap blocks"); break; }
static __attribute__((noinline)) void run_case(unsigned k, size_t x, size_t y, size_t z, size_t w, int c, int d, int faulty)
{
    switch(k) {
    case 0: RUN(size_t, size_t, p, void, a, t)
    case 1: RUN(int, int, mark, char, c ? a : b, t)
    case 2: RUN(int, int, x1, int, a, d ? t : u)
    case 3: RUN(unsigned, unsigned, ptr, double, a + b, t | u)
    case 4: RUN(size_t, size_t, size, char*, a & b, t + u)
    case 5: RUN(size_t, int, mark_, void, a | b, t)
    case 6: RUN(int, size_t, block, void, a ^ b, t & u)
    case 7: RUN(long, long, threshold, void, a > b ? a - b : b - a, t > u ? t : u)
    case 8: RUN(size_t, size_t, x2, void, c ? a : b, c ? t : u)
    }
    FREEA(NULL);
}
static void t_malloca(void)
{
    g_base = __builtin_frame_address(0); live_blocks = 0;
    unsigned k = choose(9); size_t x = pick(), y = pick(), z = choose(3) ? pick() : 1024, w = pick();
    run_case(k, x, y, z, w, choose(2), choose(2), choose(3) == 0);
}
static void t_huge(void)
{
    g_base = __builtin_frame_address(0); live_blocks = 0;
    static const size_t sp[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 6, SIZE_MAX - 7, SIZE_MAX - 8, SIZE_MAX - 9, SIZE_MAX / 2, SIZE_MAX / 2 + 1, (size_t)1 << 40 };
    static const size_t th[] = { 0, 1, 7, 8, 9, 1024 };
    size_t n = sp[choose(9)], t = th[choose(6)]; char* p = MALLOCA_(n, t);
    describe("MALLOCA_(%zu, %zu)", n, t); CHECK(p == NULL, "unrepresentable size returns nothing"); FREEA(p);
    p = MALLOCA(n); CHECK(p == NULL, "unrepresentable size returns nothing"); FREEA(p); CHECK(live_blocks == 0, "nothing leaks");
}
static TEST TESTS[] = { { "malloca", t_malloca, 200000, 0 }, { "malloca_huge", t_huge, 1000, 1 }, { 0 } };
