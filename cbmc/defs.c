/* C31: the helper macros, expanded from /repo's current misc/defs.h, for all operand values of type TY. */
#include "contract.h"
#include <stdlib.h>
#if OFFSETOF_VARIANT >= 1            /* the header chooses between three definitions of OFFSETOF */
#undef offsetof
#endif
#if OFFSETOF_VARIANT == 2
#undef __GNUC__
#endif
#include "misc/defs.h"

#ifndef TY
#define TY int
#endif
#ifdef FLT
#define NUM(x) REQUIRES((x) == (x))
#define BITS(a, op, b) ((a) * 2 < (b) ? (a) : (b))
#define LESS(x, y) ((x) < (y))
#else
#define NUM(x) (void)0
#define BITS(a, op, b) ((a) op (b))
typedef __int128 wide;
#define LESS(x, y) ((wide)(x) < (wide)(y))
#endif
static TY min2(TY a, TY b) { return LESS(b, a) ? b : a; }
static TY max2(TY a, TY b) { return LESS(a, b) ? b : a; }
#define EQ(x, y) ((x) == (y))

void unit_minmax(void)
{
    TY a, b, c; int k; NUM(a); NUM(b); NUM(c);
    TY m = MIN(a, b), M = MAX(a, b), m3 = MIN3(a, b, c), M3 = MAX3(a, b, c);
    ENSURES(EQ(m, min2(a, b)), "MIN"); ENSURES(EQ(M, max2(a, b)), "MAX");
    ENSURES(EQ(m3, min2(min2(a, b), c)), "MIN3"); ENSURES(EQ(M3, max2(max2(a, b), c)), "MAX3");
    /* definition: below both, and one of them */
    ENSURES(!LESS(a, m) && !LESS(b, m) && (EQ(m, a) || EQ(m, b)), "MIN is the lesser of both");
    ENSURES(!LESS(M, a) && !LESS(M, b) && (EQ(M, a) || EQ(M, b)), "MAX is the greater of both");
    ENSURES(!LESS(a, m3) && !LESS(b, m3) && !LESS(c, m3) && (EQ(m3, a) || EQ(m3, b) || EQ(m3, c)), "MIN3 is the least of all");
    ENSURES(!LESS(M3, a) && !LESS(M3, b) && !LESS(M3, c) && (EQ(M3, a) || EQ(M3, b) || EQ(M3, c)), "MAX3 is the greatest of all");
    ENSURES(EQ(MIN3(c, a, b), m3) && EQ(MIN3(b, c, a), m3) && EQ(MAX3(c, a, b), M3) && EQ(MAX3(b, c, a), M3), "MIN3, MAX3: any order");
    /* argument expressions of lower precedence than comparison or ?: */
    ENSURES(EQ(MIN(k ? a : b, c), min2((k ? a : b), c)) && EQ(MIN(c, k ? a : b), min2(c, (k ? a : b))), "MIN: conditional arguments");
    ENSURES(EQ(MAX(k ? a : b, c), max2((k ? a : b), c)) && EQ(MAX(c, k ? a : b), max2(c, (k ? a : b))), "MAX: conditional arguments");
    ENSURES(EQ(MIN3(k ? a : b, k ? b : c, k ? c : a), min2(min2((k ? a : b), (k ? b : c)), (k ? c : a))), "MIN3: conditional arguments");
    ENSURES(EQ(MAX3(k ? a : b, k ? b : c, k ? c : a), max2(max2((k ? a : b), (k ? b : c)), (k ? c : a))), "MAX3: conditional arguments");
    ENSURES(MIN(a < b, b < c) == ((a < b) && (b < c)) && MAX(a < b, b < c) == ((a < b) || (b < c)), "MIN, MAX: comparisons as arguments");
    ENSURES(MIN(a == b, b == c) == ((a == b) && (b == c)) && MAX(a && b, b || c) == (b || c), "MIN, MAX: logical expressions as arguments");
#ifndef FLT
    ENSURES(EQ(MIN((TY)(a & b), (TY)(b | c)), min2((TY)(a & b), (TY)(b | c))), "MIN: bit operations as arguments");
    ENSURES(MIN(a & b, b | c) == (LESS((b | c), (a & b)) ? (b | c) : (a & b)), "MIN: bit operations as arguments");
    ENSURES(MAX(a ^ b, b & c) == (LESS((a ^ b), (b & c)) ? (b & c) : (a ^ b)), "MAX: bit operations as arguments");
    ENSURES(MIN3(a & b, b | c, a ^ c) == MIN3((a & b), (b | c), (a ^ c)) && MAX3(a & b, b | c, a ^ c) == MAX3((a & b), (b | c), (a ^ c)), "MIN3, MAX3: bit operations as arguments");
    /* the macro inside other expressions */
    ENSURES((MIN(a, b) & 3) == (m & 3) && (3 & MIN(a, b)) == (3 & m) && (MAX(a, b) ^ c) == (M ^ c) && (c ^ MAX(a, b)) == (c ^ M), "MIN, MAX inside bit operations");
    ENSURES((~MIN(a, b)) == (~m) && (~MAX3(a, b, c)) == (~M3) && (~MIN3(a, b, c)) == (~m3), "MIN, MAX under unary operators");
    ENSURES(MIN(a, b) % 2 == m % 2 && MAX3(a, b, c) % 2 == M3 % 2 && MIN3(a, b, c) / 3 == m3 / 3 && MAX(a, b) / 3 == M / 3, "MIN, MAX inside products");
#endif
    ENSURES((!MIN(a, b)) == (!m) && (!MAX(a, b)) == (!M) && (!MAX3(a, b, c)) == (!M3) && (!MIN3(a, b, c)) == (!m3), "MIN, MAX under negation");
    ENSURES((MIN(a, b) == c) == (m == c) && (c == MIN(a, b)) == (c == m) && (c < MAX(a, b)) == (c < M) && (MAX(a, b) < c) == (M < c), "MIN, MAX inside comparisons");
    ENSURES((MIN3(a, b, c) < a) == (m3 < a) && (a < MAX3(a, b, c)) == (a < M3) && (MIN(a, b) ? 1 : 2) == (m ? 1 : 2) && (k ? MIN(a, b) : MAX(a, b)) == (k ? m : M), "MIN, MAX inside other expressions");
    COVER(a < b && b < c, "ascending"); COVER(c < a && a < b, "mixed"); COVER(a == b, "equal");
}
void unit_clamp(void)
{
    TY v, lo, hi, u; int k; NUM(v); NUM(lo); NUM(hi); NUM(u); REQUIRES(!LESS(hi, lo));
    TY r = CLAMP(v, lo, hi);
    ENSURES(EQ(r, min2(max2(v, lo), hi)), "CLAMP");
    ENSURES(!LESS(r, lo) && !LESS(hi, r), "CLAMP lies in the range");
    ENSURES(LESS(v, lo) ? EQ(r, lo) : LESS(hi, v) ? EQ(r, hi) : EQ(r, v), "CLAMP is the value, or the nearer end");
    ENSURES(EQ(CLAMP(k ? v : u, k ? lo : lo, k ? hi : hi), min2(max2((k ? v : u), lo), hi)), "CLAMP: conditional arguments");
    ENSURES(EQ(CLAMP(v, k ? lo : v, hi), min2(max2(v, (k ? lo : v)), hi)), "CLAMP: conditional arguments");
    ENSURES(CLAMP(v < u, 0, 1) == (v < u) && CLAMP(v == u || k, 0, 1) == (v == u || k), "CLAMP: comparisons as arguments");
    ENSURES((!CLAMP(v, lo, hi)) == (!r) && (CLAMP(v, lo, hi) == u) == (r == u) && (u < CLAMP(v, lo, hi)) == (u < r), "CLAMP inside other expressions");
#ifndef FLT
    ENSURES((CLAMP(v, lo, hi) & 5) == (r & 5) && (~CLAMP(v, lo, hi)) == (~r) && CLAMP(v, lo, hi) % 3 == r % 3, "CLAMP inside other expressions");
    ENSURES(EQ(CLAMP(v & u, lo, hi), CLAMP((v & u), lo, hi)) && EQ(CLAMP(v | u, lo, hi), CLAMP((v | u), lo, hi)) && EQ(CLAMP(v ^ u, lo, hi), CLAMP((v ^ u), lo, hi)), "CLAMP: bit operations as arguments");
    ENSURES(EQ(CLAMP(v, lo & hi, hi), min2(max2(v, (lo & hi)), hi)) || LESS(hi, (lo & hi)), "CLAMP: bit operations as arguments");
    ENSURES(EQ(CLAMP(v, lo, lo | hi), min2(max2(v, lo), (lo | hi))) || LESS((lo | hi), lo), "CLAMP: bit operations as arguments");
#endif
    COVER(LESS(v, lo), "below"); COVER(LESS(hi, v), "above"); COVER(LESS(lo, v) && LESS(v, hi), "inside");
}
#ifdef UNS
#define NEG(x) (x)
#define ABSOK(x) (void)0
#define ABSIS(r, x) ((r) == (x))
#elif defined(FLT)
#define ABSOK(x) (void)0
#define ABSIS(r, x) ((x) < 0 ? (r) == -(x) : (r) == (x))
#else
#define ABSOK(x) REQUIRES((x) != LOW)
#define ABSIS(r, x) ((wide)(r) == ((wide)(x) < 0 ? -(wide)(x) : (wide)(x)))
#endif
void unit_abs(void)
{
    TY a, b; int k; NUM(a); NUM(b); ABSOK(a); ABSOK(b);
    ENSURES(ABSIS(ABS(a), a), "ABS");
    ENSURES(ABS(a) >= 0, "ABS is not negative");
    ENSURES(ABSIS(ABS(k ? a : b), (k ? a : b)), "ABS: conditional argument");
    ENSURES(ABS(a < b) == (a < b) && ABS(a == b || k) == (a == b || k), "ABS: comparison as argument");
#if !defined(UNS)
    ENSURES(ABSIS(ABS(-a), a), "ABS: negated argument");
    ENSURES(-ABS(a) <= 0 && ABSIS(-(-ABS(a)), a), "ABS under unary minus");
#endif
#ifndef FLT
    ENSURES(k == 0 || ABS((a & 127) - (b & 127)) == ((a & 127) < (b & 127) ? (b & 127) - (a & 127) : (a & 127) - (b & 127)) || sizeof(TY) >= 4 && (TY)-1 > 0, "ABS: difference as argument");
    ENSURES(ABS(a & 127) == (a & 127) && ABS(a % 100) == (a % 100 < 0 ? -(a % 100) : a % 100), "ABS: other operators in the argument");
    ENSURES((ABS(a) & 3) == ((ABS(a)) & 3) && (~ABS(a)) == (~(ABS(a))) && ABS(a) % 7 == (ABS(a)) % 7, "ABS inside other expressions");
    TY d = ABS(a); ENSURES((ABS(a) & 3) == (d & 3) && ABS(a) % 7 == d % 7 && (b ^ ABS(a)) == (b ^ d), "ABS inside other expressions");
#endif
    ENSURES((!ABS(a)) == (!a) && (ABS(a) == b) == ((ABS(a)) == b), "ABS inside other expressions");
    COVER(a > b, "positive");
#if !defined(UNS)
    COVER(a < 0, "negative");
#endif
}

/* containers */
typedef struct { int x; TY y; } INNER;
typedef struct { char c; INNER in; TY arr[7]; struct { short s; INNER deep[3]; } nest; TY last; } OUTER;
#define VER_MAJOR 5
#define VER_MINOR 3
#define EMPTY_
#define CALL(x) x
static int streq(const char* a, const char* b, size_t n) { for(size_t i = 0; i < n; i++) if(a[i] != b[i]) return 0; return 1; }
#define STR_IS(m, lit) ENSURES(sizeof(m) == sizeof(lit) && streq(m, lit, sizeof(lit)), "STRINGIZE expands its argument")
void unit_containers(void)
{
    TY a1[1], a2[2], a7[7], m[3][5]; OUTER o[4], *po = o; char s[] = "hello";
    ENSURES(SIZEOF_ARRAY(a1) == 1 && SIZEOF_ARRAY(a2) == 2 && SIZEOF_ARRAY(a7) == 7 && SIZEOF_ARRAY(m) == 3 && SIZEOF_ARRAY(m[1]) == 5 && SIZEOF_ARRAY(s) == 6, "SIZEOF_ARRAY is the number of elements");
    ENSURES(SIZEOF_ARRAY(po->arr) == 7 && SIZEOF_ARRAY(o) == 4 && SIZEOF_ARRAY(po->nest.deep) == 3 && SIZEOF_ARRAY((*po).arr) == 7 && SIZEOF_ARRAY(*m) == 5, "SIZEOF_ARRAY of array expressions");
    ENSURES(100 / SIZEOF_ARRAY(a7) == 14 && 100 % SIZEOF_ARRAY(a7) == 2 && SIZEOF_ARRAY(a7) * 2 == 14 && SIZEOF_ARRAY(a7) - 1 == 6 && !SIZEOF_ARRAY(a7) == 0 && (1u << SIZEOF_ARRAY(a2)) == 4 && 36 / SIZEOF_ARRAY(m) == 12, "SIZEOF_ARRAY inside other expressions");
    ENSURES(sizeof(char[SIZEOF_ARRAY(a7)]) == 7, "SIZEOF_ARRAY is a constant");
    size_t i; REQUIRES(i < 4);
    ENSURES((char*)&o[i] + OFFSETOF(OUTER, c) == (char*)&o[i].c && (char*)&o[i] + OFFSETOF(OUTER, in) == (char*)&o[i].in && (char*)&o[i] + OFFSETOF(OUTER, last) == (char*)&o[i].last, "OFFSETOF");
    ENSURES((char*)&o[i] + OFFSETOF(OUTER, in.y) == (char*)&o[i].in.y && (char*)&o[i] + OFFSETOF(OUTER, arr[3]) == (char*)&o[i].arr[3] && (char*)&o[i] + OFFSETOF(OUTER, nest.deep[2].y) == (char*)&o[i].nest.deep[2].y, "OFFSETOF of nested members");
    ENSURES(sizeof(char[OFFSETOF(OUTER, last)]) == OFFSETOF(OUTER, last) && 2 * OFFSETOF(INNER, y) == 2 * (OFFSETOF(INNER, y)) && OFFSETOF(INNER, y) % 3 == (OFFSETOF(INNER, y)) % 3, "OFFSETOF is a constant");
    OUTER* want = &o[i]; INNER* in = &o[i].in; TY* y = &o[i].in.y; TY* last = &o[i].last; char* c = &o[i].c; size_t j; REQUIRES(j < 4); int k;
    ENSURES(CONTAINEROF(in, OUTER, in) == want && CONTAINEROF(y, OUTER, in.y) == want && CONTAINEROF(last, OUTER, last) == want && CONTAINEROF(c, OUTER, c) == want, "CONTAINEROF gives the enclosing object");
    ENSURES(CONTAINEROF(&want->nest.deep[1], OUTER, nest.deep[1]) == want && CONTAINEROF(&want->arr[2], OUTER, arr[2]) == want && CONTAINEROF(y, INNER, y) == in, "CONTAINEROF of nested members");
    INNER* jn = &o[j].in;
    ENSURES(CONTAINEROF(k ? in : jn, OUTER, in) == (k ? want : &o[j]), "CONTAINEROF: conditional argument");
    ENSURES(CONTAINEROF(o[0].arr + 2, OUTER, arr[2]) == &o[0] && CONTAINEROF(&o[i].arr[6] - 4, OUTER, arr[2]) == want, "CONTAINEROF: pointer arithmetic as argument");
    ENSURES(&CONTAINEROF(in, OUTER, in)->last == last && CONTAINEROF(in, OUTER, in) + 0 == want && CONTAINEROF(in, OUTER, in) - o == (ptrdiff_t)i && &CONTAINEROF(in, OUTER, in)[0] == want && &(*CONTAINEROF(in, OUTER, in)).in == in, "CONTAINEROF inside other expressions");
    STR_IS(STRINGIZE(VER_MAJOR.VER_MINOR), "5.3"); STR_IS(STRINGIZE(VER_MAJOR), "5"); STR_IS(STRINGIZE(abc), "abc"); STR_IS(STRINGIZE(a + b), "a + b");
    STR_IS(STRINGIZE(EMPTY_), ""); STR_IS(STRINGIZE(CALL(VER_MINOR)), "3"); STR_IS("v" STRINGIZE(VER_MAJOR) "!", "v5!"); STR_IS(STRINGIZE("q"), "\"q\"");
    COVER(i == 3 && k, "containers");
}
