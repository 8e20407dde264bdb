/* C09, C10: stacks and typed arrays, all nine families. */
#define SEARCH_ALLOC
#include "search.h"
#include "data/buffer.h"
#include "data/buffer.c"

#define MAXEL 600
typedef void* ptr_t_;
static const char* FAM[] = { "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "ptr" };
static uint64_t value(void)
{
    static const uint64_t sp[] = { 0, 1, (uint64_t)-1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x0123456789abcdefull, 0xfedcba9876543210ull };
    if(g_small) return sp[choose(3) * 7];
    return choose(2) ? sp[choose(16)] : rnd64();
}
static uint64_t valueT(void) { if(g_small) return value(); uint32_t k = choose(20); static const uint64_t sp[] = { 0, 1, (uint64_t)-1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x0123456789abcdefull, 0xfedcba9876543210ull };
    return k < 16 ? sp[k] : choose64(); }

#define FAMILY(T, TY) \
static void arr_##T(int nops) { \
    static TY m[MAXEL], src[MAXEL]; size_t n = 0; ARRAY_##T a; if(choose(2)) array_##T##_init(&a); else { ARRAY_##T z = ARRAY_##T##_INITIALIZER; a = z; } \
    live_blocks = 0; int faulty = g_small ? choose(2) : choose(3) == 0; \
    for(int s = 0; s < nops; s++) { \
        size_t i = choose((uint32_t)n + 1), c; TY v = (TY)(uintptr_t)valueT(); int r = 0; fail_at = faulty && choose(2) ? 0 : -1; BUFFER old = a.buf; long calls = alloc_count; \
        unsigned op = choose(g_small ? 8 : 12); TY* d; (void)src; \
        switch(op) { \
        case 0: describe("insert(%zu) of %zu", i, n); r = array_##T##_insert(&a, i, v); if(r == 0) { memmove(m+i+1, m+i, (n-i)*sizeof(TY)); m[i] = v; n++; } break; \
        case 1: describe("append to %zu", n); r = array_##T##_append(&a, v); if(r == 0) m[n++] = v; break; \
        case 2: c = choose(g_small ? 3 : 9); describe("insert_n(%zu,%zu) of %zu", i, c, n); r = array_##T##_insert_n_raw(&a, i, c); if(r == 0) { memmove(m+i+c, m+i, (n-i)*sizeof(TY)); d = array_##T##_data(&a); for(size_t k = 0; k < c; k++) { m[i+k] = (TY)(uintptr_t)(k * 77 + s); array_##T##_set(&a, i+k, m[i+k]); } n += c; } break; \
        case 3: c = choose(g_small ? 3 : 9); describe("append_n(%zu) to %zu", c, n); r = array_##T##_append_n(&a, c); if(r == 0) { for(size_t k = 0; k < c; k++) { m[n+k] = (TY)(uintptr_t)(k * 99 + s); array_##T##_set(&a, n+k, m[n+k]); } n += c; } break; \
        case 4: if(i < n) { describe("remove(%zu) of %zu", i, n); array_##T##_remove(&a, i); memmove(m+i, m+i+1, (n-i-1)*sizeof(TY)); n--; } break; \
        case 5: c = choose((uint32_t)(n - i) + 1); describe("remove_n(%zu,%zu) of %zu", i, c, n); array_##T##_remove_n(&a, i, c); memmove(m+i, m+i+c, (n-i-c)*sizeof(TY)); n -= c; break; \
        case 6: if(i < n) { describe("set(%zu)", i); array_##T##_set(&a, i, v); m[i] = v; } break; \
        case 7: { size_t sz = 12345; int ask = choose(2); describe("acquire of %zu", n); d = array_##T##_acquire(&a, ask ? &sz : NULL); CHECK(sz == (ask ? n : 12345), "acquire counts elements"); for(size_t k = 0; k < n; k++) CHECK(d[k] == m[k], "acquired contents"); s_free(d); n = 0; } break; \
        case 8: describe("insert_raw(%zu) of %zu", i, n); r = array_##T##_insert_raw(&a, i); if(r == 0) { memmove(m+i+1, m+i, (n-i)*sizeof(TY)); array_##T##_data(&a)[i] = v; m[i] = v; n++; } break; \
        case 9: describe("append_raw to %zu", n); r = array_##T##_append_raw(&a); if(r == 0) { array_##T##_data(&a)[n] = v; m[n++] = v; } break; \
        case 10: { static const size_t big[] = { SIZE_MAX, SIZE_MAX/2, SIZE_MAX/2+1, SIZE_MAX/4+1, SIZE_MAX/8+1, SIZE_MAX/8+2, SIZE_MAX/16+1 }; c = big[choose(7)] + choose(3); if(c < SIZE_MAX / 32) break; describe("insert_n(%zu,%zu) of %zu", i, c, n); \
            r = choose(2) ? array_##T##_insert_n_raw(&a, i, c) : array_##T##_append_n(&a, c); CHECK(r != 0, "insertion of an impossible count fails"); CHECK(!memcmp(&old, &a.buf, sizeof old), "failed insert changes nothing"); r = 0; } break; \
        default: if(n + 200 < MAXEL) { for(int k = 0; k < 100; k++) { fail_at = -1; array_##T##_append(&a, (TY)(uintptr_t)(uint64_t)(k * 3)); m[n++] = (TY)(uintptr_t)(uint64_t)(k * 3); } describe("append x100"); } break; \
        } \
        if(r != 0) { CHECK(r == -1 && faulty && alloc_count > calls, "insert fails only for lack of memory"); CHECK(!memcmp(&old, &a.buf, sizeof old), "failed insert changes nothing"); } \
        CHECK(array_##T##_size(&a) == n && (array_##T##_is_empty(&a) != 0) == (n == 0), "size counts elements, emptiness agrees"); \
        for(size_t k = 0; k < n; k++) { CHECK(array_##T##_get(&a, k) == m[k], "elements"); CHECK(array_##T##_const_data(&a)[k] == m[k], "elements"); } \
        if(n) nontrivial(); if(n > MAXEL - 120) break; \
    } \
    fail_at = -1; array_##T##_fini(&a); CHECK(live_blocks == 0, "every block is released exactly once"); \
}
FAMILY(int8, int8_t) FAMILY(uint8, uint8_t) FAMILY(int16, int16_t) FAMILY(uint16, uint16_t) FAMILY(int32, int32_t) FAMILY(uint32, uint32_t) FAMILY(int64, int64_t) FAMILY(uint64, uint64_t) FAMILY(ptr, ptr_t_)
static void (*AF[])(int) = { arr_int8, arr_uint8, arr_int16, arr_uint16, arr_int32, arr_uint32, arr_int64, arr_uint64, arr_ptr };
static void t_array(void) { unsigned f = choose(9); describe("array_%s:", FAM[f]); AF[f](g_small ? 2 : 14); }

/* stack: model of typed items */
typedef struct { int t; uint64_t v; size_t n; uint8_t raw[64]; } ITEM;
static ITEM st[400];
#define EACH(X) X(0,int8,int8_t) X(1,uint8,uint8_t) X(2,int16,int16_t) X(3,uint16,uint16_t) X(4,int32,int32_t) X(5,uint32,uint32_t) X(6,int64,int64_t) X(7,uint64,uint64_t) X(8,ptr,ptr_t_)
static int push(STACK* s, int t, uint64_t v, size_t* w) { switch(t) {
#define P(i, T, TY) case i: *w = sizeof(TY); return stack_push_##T(s, (TY)(uintptr_t)v);
    EACH(P) } return -1; }
static int top_ok(STACK* s, int t, uint64_t v, int pop) { switch(t) {
#define Q(i, T, TY) case i: return (pop ? stack_pop_##T(s) : stack_peek_##T(s)) == (TY)(uintptr_t)v;
    EACH(Q) } return 0; }
static void t_stack(void)
{
    STACK s; stack_init(&s); int n = 0, nops = g_small ? 3 : 60; size_t bytes = 0; live_blocks = 0; int faulty = g_small ? 0 : choose(3) == 0;
    for(int o = 0; o < nops; o++) {
        fail_at = faulty && choose(2) ? 0 : -1; BUFFER old = s.buf; long calls = alloc_count; size_t w = 0; int r;
        int doit = n == 0 || choose(g_small ? 2 : 5) < (g_small ? 1 : 3);
        if(doit && n < 390) {
            int t = (int)choose(g_small ? 10 : 12); uint64_t v = valueT(); ITEM* it = &st[n];
            if(t < 9) { describe("push_%s(%llx)", FAM[t], (unsigned long long)v); r = push(&s, t, v, &w); it->t = t; it->v = v; it->n = w; }
            else { w = choose(g_small ? 3 : 60); for(size_t k = 0; k < w; k++) it->raw[k] = fillb(); it->t = 9; it->n = w;
                if(t == 9) { describe("push(%zu bytes)", w); r = stack_push(&s, it->raw, w); } else { describe("push_raw(%zu)", w); void* p = stack_push_raw(&s, w); r = p ? 0 : -1; if(p) memcpy(p, it->raw, w); } }
            if(r == 0) { n++; bytes += w; } else { CHECK(r == -1 && faulty && alloc_count > calls, "push fails only for lack of memory"); CHECK(!memcmp(&old, &s.buf, sizeof old), "failed push leaves the stack unchanged"); }
        } else if(n) {
            ITEM* it = &st[n-1]; uint8_t tmp[64];
            if(it->t < 9) { describe("peek/pop_%s", FAM[it->t]); CHECK(top_ok(&s, it->t, it->v, 0), "peek returns the top item"); CHECK(!memcmp(&old, &s.buf, sizeof old), "peek changes nothing"); CHECK(top_ok(&s, it->t, it->v, 1), "pop returns the top item"); }
            else { describe("peek/pop(%zu)", it->n); if(it->n) { stack_peek(&s, tmp, it->n); CHECK(!memcmp(tmp, it->raw, it->n), "peek returns the top block"); CHECK(!memcmp(stack_peek_raw(&s, it->n), it->raw, it->n), "peek_raw points at the top block"); }
                if(choose(2) || it->n == 0) { if(s.buf.data) { void* p = stack_pop_raw(&s, it->n); CHECK(it->n == 0 || !memcmp(p, it->raw, it->n), "pop_raw points at the popped block"); } } else { stack_pop(&s, tmp, it->n); CHECK(!memcmp(tmp, it->raw, it->n), "pop returns the top block"); } }
            n--; bytes -= it->n; nontrivial();
        }
        CHECK(stack_size(&s) == bytes && (stack_is_empty(&s) != 0) == (bytes == 0), "size of the stack");
    }
    fail_at = -1;
    if(choose(3) == 0) { STACK z; stack_init(&z); stack_swap(&s, &z); CHECK(stack_size(&s) == 0 && stack_size(&z) == bytes, "swap"); stack_swap(&s, &z); }
    while(n) { ITEM* it = &st[n-1]; uint8_t tmp[64]; if(it->t < 9) CHECK(top_ok(&s, it->t, it->v, 1), "items come off in reverse order"); else if(it->n) { stack_pop(&s, tmp, it->n); CHECK(!memcmp(tmp, it->raw, it->n), "items come off in reverse order"); } n--; }
    CHECK(stack_is_empty(&s), "empty after popping everything");
    stack_fini(&s); CHECK(live_blocks == 0, "every block is released exactly once");
}
static TEST TESTS[] = {
#ifdef STACKS
    { "stack", t_stack, 300000, 0 },
#endif
#ifdef ARRAYS
    { "array", t_array, 300000, 0 },
#endif
    { 0 } };
