/* C31: helper macros on concrete operands, against plain reference functions. */
#include "search.h"
#undef MIN
#undef MAX
#include "misc/defs.h"

static uint64_t val(void)
{
    static const uint64_t sp[] = { 0, 1, (uint64_t)-1, 2, (uint64_t)-2, 0x7f, 0x80, 0x7fff, 0x8000, 0x7fffffff, 0x80000000u, 0x80000001u, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, 5 };
    return g_small ? sp[choose(6)] : choose(2) ? sp[choose(16)] : choose64();
}
#define FAM(T, N, LOW, SGN) \
static T lt_##N(T a, T b) { return a < b; } static T mn_##N(T a, T b) { return b < a ? b : a; } static T mx_##N(T a, T b) { return a < b ? b : a; } \
static void t_##N(void) { T a = (T)val(), b = (T)val(), c = (T)val(), d = (T)val(); int k = choose(2); (void)lt_##N; nontrivial(); \
    describe("%s: a=%lld b=%lld c=%lld d=%lld k=%d", #T, (long long)a, (long long)b, (long long)c, (long long)d, k); \
    CHECK(MIN(a, b) == mn_##N(a, b) && MAX(a, b) == mx_##N(a, b), "MIN, MAX"); \
    CHECK(MIN3(a, b, c) == mn_##N(mn_##N(a, b), c) && MAX3(a, b, c) == mx_##N(mx_##N(a, b), c), "MIN3, MAX3"); \
    CHECK(MIN(k ? a : b, c) == mn_##N(k ? a : b, c) && MIN(c, k ? a : b) == mn_##N(c, k ? a : b) && MAX(k ? a : b, c) == mx_##N(k ? a : b, c) && MAX(c, k ? a : b) == mx_##N(c, k ? a : b), "MIN, MAX: conditional arguments"); \
    CHECK(MIN3(k ? a : b, k ? b : c, k ? c : d) == mn_##N(mn_##N(k ? a : b, k ? b : c), k ? c : d) && MAX3(k ? a : b, k ? b : c, k ? c : d) == mx_##N(mx_##N(k ? a : b, k ? b : c), k ? c : d), "MIN3, MAX3: conditional arguments"); \
    CHECK(MIN((T)(a & b), (T)(c | d)) == mn_##N((T)(a & b), (T)(c | d)) && MIN(a & b, c | d) == ((c | d) < (a & b) ? (c | d) : (a & b)) && MAX(a ^ b, c & d) == ((c & d) > (a ^ b) ? (c & d) : (a ^ b)), "MIN, MAX: bit operations as arguments"); \
    CHECK(MIN(a < b, c < d) == (a < b && c < d) && MAX(a == b, c == d) == (a == b || c == d), "MIN, MAX: comparisons as arguments"); \
    CHECK((MIN(a, b) & 3) == (mn_##N(a, b) & 3) && (3 & MAX(a, b)) == (3 & mx_##N(a, b)) && !MIN(a, b) == !mn_##N(a, b) && MAX3(a, b, c) % 3 == mx_##N(mx_##N(a, b), c) % 3 && (MIN3(a, b, c) < d) == (mn_##N(mn_##N(a, b), c) < d) && (d < MIN(a, b)) == (d < mn_##N(a, b)), "MIN, MAX inside other expressions"); \
    T lo = mn_##N(c, d), hi = mx_##N(c, d); \
    CHECK(CLAMP(a, lo, hi) == (a < lo ? lo : a > hi ? hi : a), "CLAMP"); \
    CHECK(CLAMP(k ? a : b, k ? lo : lo, k ? hi : hi) == (T)((k ? a : b) < lo ? lo : (k ? a : b) > hi ? hi : (k ? a : b)), "CLAMP: conditional arguments"); \
    CHECK(CLAMP((T)(a & b), lo, hi) == mn_##N(mx_##N((T)(a & b), lo), hi) && CLAMP(a < b, 0, 1) == (a < b), "CLAMP: expressions as arguments"); \
    CHECK((CLAMP(a, lo, hi) & 5) == (mn_##N(mx_##N(a, lo), hi) & 5) && !CLAMP(a, lo, hi) == !mn_##N(mx_##N(a, lo), hi) && (CLAMP(a, lo, hi) < b) == (mn_##N(mx_##N(a, lo), hi) < b), "CLAMP inside other expressions"); \
    T e = SGN && a == (T)LOW ? (T)1 : a, f = SGN && b == (T)LOW ? (T)1 : b, ab = e < 0 ? (T)-e : e, kf = k ? e : f; \
    CHECK(ABS(e) == ab && (ABS(e) & 3) == (ab & 3) && ABS(e) % 7 == ab % 7 && (!SGN || ABS(-e) == ab), "ABS"); \
    CHECK(ABS(k ? e : f) == (kf < 0 ? (T)-kf : kf) && ABS(a < b) == (a < b) && !ABS(e) == !ab, "ABS: expressions"); \
    CHECK(!SGN || ABS((e & 63) - (f & 63)) == ((e & 63) < (f & 63) ? (f & 63) - (e & 63) : (e & 63) - (f & 63)), "ABS: difference as argument"); \
}
FAM(int8_t, i8, INT8_MIN, 1) FAM(int16_t, i16, INT16_MIN, 1) FAM(int32_t, i32, INT32_MIN, 1) FAM(int64_t, i64, INT64_MIN, 1)
FAM(uint8_t, u8, 0, 0) FAM(uint16_t, u16, 0, 0) FAM(uint32_t, u32, 0, 0) FAM(uint64_t, u64, 0, 0)
static double dval(void) { static const double sp[] = { 0.0, -0.0, 1, -1, 0.5, -0.5, 1e300, -1e300, 1e-300, 1.0 / 0.0, -1.0 / 0.0, 3 }; return choose(2) ? sp[choose(12)] : (double)(int64_t)choose64() / 1e6; }
#define FLTFAM(T, N) static void t_##N(void) { T a = (T)dval(), b = (T)dval(), c = (T)dval(), d = (T)dval(), lo = c < d ? c : d, hi = c < d ? d : c; int k = choose(2); nontrivial(); \
    describe("%s: a=%g b=%g c=%g d=%g", #T, (double)a, (double)b, (double)c, (double)d); T m = MIN(a, b), M = MAX(a, b), m3 = MIN3(a, b, c), M3 = MAX3(a, b, c), r = CLAMP(a, lo, hi); \
    CHECK(m <= a && m <= b && (m == a || m == b) && M >= a && M >= b && (M == a || M == b), "MIN, MAX"); \
    CHECK(m3 <= a && m3 <= b && m3 <= c && (m3 == a || m3 == b || m3 == c) && M3 >= a && M3 >= b && M3 >= c && (M3 == a || M3 == b || M3 == c), "MIN3, MAX3"); \
    CHECK(r >= lo && r <= hi && (a < lo ? r == lo : a > hi ? r == hi : r == a), "CLAMP"); CHECK(ABS(a) == (a < 0 ? -a : a) && ABS(k ? a : b) == ABS((k ? a : b)), "ABS"); \
    CHECK(MIN(k ? a : b, c) == MIN((k ? a : b), c) && !MAX(a, b) == !M && (MIN(a, b) < c) == (m < c), "MIN, MAX: expressions"); }
FLTFAM(float, flt) FLTFAM(double, dbl)

typedef struct { int x; double y; } INNER;
typedef struct { char c; INNER in; int arr[7]; struct { short s; INNER deep[3]; } nest; char last; } OUTER;
#define VER_MAJOR 5
#define VER_MINOR 3
#define EMPTY_
static void t_cont(void)
{
    OUTER o[4]; int a7[7], m[3][5]; size_t i = choose(4), j = choose(4); int k = choose(2); OUTER* w = &o[i]; INNER* in = &o[i].in, *jn = &o[j].in; double* y = &o[i].in.y; nontrivial();
    describe("containers i=%zu j=%zu k=%d", i, j, k);
    CHECK(SIZEOF_ARRAY(a7) == 7 && SIZEOF_ARRAY(m) == 3 && SIZEOF_ARRAY(m[1]) == 5 && SIZEOF_ARRAY(w->arr) == 7 && 100 / SIZEOF_ARRAY(a7) == 14 && SIZEOF_ARRAY(*m) == 5 && 36 / SIZEOF_ARRAY(m) == 12, "SIZEOF_ARRAY");
    CHECK(OFFSETOF(OUTER, in) == (size_t)((char*)&w->in - (char*)w) && OFFSETOF(OUTER, nest.deep[2].y) == (size_t)((char*)&w->nest.deep[2].y - (char*)w) && OFFSETOF(OUTER, arr[3]) == (size_t)((char*)&w->arr[3] - (char*)w), "OFFSETOF");
    CHECK(CONTAINEROF(in, OUTER, in) == w && CONTAINEROF(y, OUTER, in.y) == w && CONTAINEROF(y, INNER, y) == in && CONTAINEROF(&w->nest.deep[1], OUTER, nest.deep[1]) == w, "CONTAINEROF");
    CHECK(CONTAINEROF(k ? in : jn, OUTER, in) == (k ? w : &o[j]) && CONTAINEROF(w->arr + 2, OUTER, arr[2]) == w && &CONTAINEROF(in, OUTER, in)->last == &w->last && CONTAINEROF(in, OUTER, in) - o == (ptrdiff_t)i, "CONTAINEROF: expressions");
    CHECK(!strcmp(STRINGIZE(VER_MAJOR.VER_MINOR), "5.3") && !strcmp(STRINGIZE(VER_MAJOR), "5") && !strcmp(STRINGIZE(abc), "abc") && !strcmp(STRINGIZE(EMPTY_), "") && !strcmp("v" STRINGIZE(VER_MINOR), "v3"), "STRINGIZE");
}
static TEST TESTS[] = { { "cont", t_cont, 100, 1 }, { "int8", t_i8, 20000, 0 }, { "int16", t_i16, 20000, 0 }, { "int32", t_i32, 20000, 0 }, { "int64", t_i64, 20000, 0 },
    { "uint8", t_u8, 20000, 0 }, { "uint16", t_u16, 20000, 0 }, { "uint32", t_u32, 20000, 0 }, { "uint64", t_u64, 20000, 0 }, { "float", t_flt, 20000, 0 }, { "double", t_dbl, 20000, 0 }, { 0 } };
