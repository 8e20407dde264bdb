/* C19, C20: scalar values.  For every stored number of type ST (and every prior
 * content of the value object): type, own getter, the getter of type GT, the
 * compatibility with every type. */
#define STUB_LIBC
#define STUB_NO_MEMFUNCS
#include "contract.h"
#include "data/value.c"

#ifndef ST
#define ST int32
#define STY int32_t
#define SV VALUE_INT32
#endif
#ifndef GT
#define GT int32
#define GTY int32_t
#define GV VALUE_INT32
#define GMIN INT32_MIN
#define GMAXCHK r <= INT32_MAX
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define INIT CAT(value_init_, ST)
#define GETOWN CAT(value_, ST)
#define GET CAT(value_, GT)

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "signed-overflow"
#pragma CPROVER check disable "float-overflow"
#pragma CPROVER check disable "conversion"
VALUE nondet_value(void); STY nondet_st(void);

/* the number rounded to an integer, halves away from zero; exact */
static int round_fits_signed(double x, double lo, double hi, int64_t* r)
{
    if(!(x > -9.3e18 && x < 9.3e18)) return 0;
    if(x < -4503599627370496.0 || x > 4503599627370496.0) { if(!(x >= lo && x <= hi)) return 0; if(x >= 9223372036854775808.0 || x < -9223372036854775808.0) return 0; *r = (int64_t)x; return 1; }
    int64_t t = (int64_t)x; double f = x - (double)t;
    if(f >= 0.5) t++; else if(f <= -0.5) t--;
    *r = t;
    return 1;
}

void unit_numeric(void)
{
    VALUE v = nondet_value();
    STY x = nondet_st();
    int rc = INIT(&v, x);
    ENSURES(rc == 0, "C19: initialising a numeric value succeeds");
    ENSURES(value_type(&v) == SV, "C19: the value reports the type it was initialised with");
    ENSURES(!value_is_new(&v), "C19: an initialised value is not marked new");
    STY own = GETOWN(&v);
    ENSURES(own == x || (x != x && own != own), "C19: the getter of the own type returns the stored value");
    VALUE w = v;
    value_fini(&w);
    ENSURES(value_type(&w) == VALUE_NULL && g_frees == 0, "C19: a finalised value is null");
    ENSURES(INIT(NULL, x) == -1, "C19: no value, no initialisation");

#if !defined GFLOAT
#if !defined SFLOAT
    GTY g = GET(&v);
    ENSURES(g == (GTY)x, "C19: integer to integer gives the C conversion");
    COVER(g != 0, "[numeric] conversion");
#else
    int64_t r; double d = (double)x; int fits = 0; GTY want = 0;
    if(d == d) {
#if defined GU64
        if(d >= 9223372036854775808.0) { if(d < 18446744073709551616.0) { fits = 1; want = (uint64_t)d; } }
        else
#endif
        if(round_fits_signed(d, -9223372036854775808.0, 9223372036854775808.0, &r)) {
            if(r >= (int64_t)(GMIN) && (GMAXCHK)) { fits = 1; want = (GTY)r; }
        }
    }
    if(fits) {
        GTY g = GET(&v);
        ENSURES(g == want, "C19: floating point to integer rounds to the nearest integer, halves away from zero");
        COVER(g != 0 && (double)g != d, "[numeric] rounded");
        COVER(d - (double)(int64_t)d == 0.5, "[numeric] half");
    }
#endif
#else
    GTY g = GET(&v);
    ENSURES(g == (GTY)x || (x != x && g != g), "C19: conversion to floating point gives the C conversion");
    COVER(g != 0, "[numeric] conversion");
#endif
}

/* a number as (sign, magnitude) when it is an integer of at most 64 bits */
static int is_integral(double x, int* neg, uint64_t* mag)
{
    if(!(x > -18446744073709551616.0 && x < 18446744073709551616.0)) return 0;
    *neg = x < 0; double a = *neg ? -x : x; *mag = (uint64_t)a;
    return (double)*mag == a;
}

void unit_compatible(void)
{
    VALUE v = nondet_value();
    STY x = nondet_st();
#if defined NO_LOW_BOUND     /* CBMC's conversion check is off by one exactly at the lower bound */
    REQUIRES(x != -2147483648.0f && x != -9223372036854775808.0f);
#endif
    INIT(&v, x);
    int neg = 0, integral = 1; uint64_t mag;
#if defined SFLOAT
    integral = is_integral((double)x, &neg, &mag);
#else
    neg = x < 0; mag = neg ? -(uint64_t)x : (uint64_t)x;
#endif
    int c32 = value_is_compatible(&v, VALUE_INT32), cu32 = value_is_compatible(&v, VALUE_UINT32), c64 = value_is_compatible(&v, VALUE_INT64), cu64 = value_is_compatible(&v, VALUE_UINT64);
    int own = value_is_compatible(&v, SV);
    ENSURES(own != 0, "C20: compatible with the own type");
    if(SV != VALUE_INT32)  ENSURES((c32 != 0) == (integral && (neg ? mag <= 2147483648u : mag <= 2147483647u)), "C20: INT32 exactly when the number is an integer in its range");
    if(SV != VALUE_UINT32) ENSURES((cu32 != 0) == (integral && (!neg || mag == 0) && mag <= 4294967295u), "C20: UINT32 exactly when the number is an integer in its range");
    if(SV != VALUE_INT64)  ENSURES((c64 != 0) == (integral && (neg ? mag <= ((uint64_t)1 << 63) : mag < ((uint64_t)1 << 63))), "C20: INT64 exactly when the number is an integer in its range");
    if(SV != VALUE_UINT64) ENSURES((cu64 != 0) == (integral && (!neg || mag == 0)), "C20: UINT64 exactly when the number is an integer in its range");
    ENSURES(value_is_compatible(&v, VALUE_FLOAT) && value_is_compatible(&v, VALUE_DOUBLE), "C20: numbers are compatible with floating point types");
    ENSURES(!value_is_compatible(&v, VALUE_NULL) && !value_is_compatible(&v, VALUE_BOOL) && !value_is_compatible(&v, VALUE_STRING) &&
            !value_is_compatible(&v, VALUE_ARRAY) && !value_is_compatible(&v, VALUE_DICT), "C20: numbers are not compatible with non-numeric types");
    COVER(integral && mag > 4294967295u || sizeof(x) == 4 && mag > 2147483647u, "[compatible] large"); COVER(SV == VALUE_UINT32 || SV == VALUE_UINT64 || neg, "[compatible] negative");
}

#ifndef WHICH
#define WHICH 0
#endif
/* values without numeric meaning: which = 0 no value, 1 null, 2 new, 3 bool, 4 string, 5 array, 6 dict */
void unit_other(void)
{
    VALUE v = nondet_value(), * p = &v;
    char s[3] = { 'a', 0, 'b' };
    size_t which = WHICH, len = nondet_size(); int b;
    REQUIRES(len <= 3);
    VALUE_TYPE want = VALUE_NULL;
    switch(which) {
        case 0: p = NULL; break;
        case 1: value_init_null(p); break;
        case 2: value_init_null(p); v.data[0] |= IS_NEW; break;
        case 3: ENSURES(value_init_bool(p, b) == 0, "C19: initialising a boolean succeeds"); want = VALUE_BOOL; break;
        case 4: if(value_init_string_(p, s, len) == 0) want = VALUE_STRING; break;
        case 5: if(value_init_array(p) == 0) want = VALUE_ARRAY; break;
        case 6: if(value_init_dict_ex(p, NULL, nondet_bool() ? VALUE_DICT_MAINTAINORDER : 0) == 0) want = VALUE_DICT; break;
    }
    ENSURES(value_type(p) == want, "C19: the value reports the type it was initialised with");
    ENSURES(!value_is_new(p) == (which != 2), "C19: an initialised value is not marked new");
    ENSURES(which != 3 || value_bool(p) == (b != 0), "C19: a boolean value returns the stored truth value");
    ENSURES(which == 3 || value_bool(p) == -1, "C19: other values are no booleans");
    /* the getters return something without touching anything they must not (pointer checks) */
    (void)value_int32(p); (void)value_uint32(p); (void)value_int64(p); (void)value_uint64(p); (void)value_float(p); (void)value_double(p);
    ENSURES(value_type(p) == want, "C19: getters leave the value alone");
    size_t t = nondet_size();
    REQUIRES(t <= VALUE_DICT);
    ENSURES((value_is_compatible(p, (VALUE_TYPE)t) != 0) == ((VALUE_TYPE)t == want), "C20: non-numeric values are compatible with their own type only");
    COVER(want != VALUE_NULL || which <= 2, "[other] initialised"); COVER(which != 3 || b > 1, "[other] bool");
}
#pragma CPROVER check pop
