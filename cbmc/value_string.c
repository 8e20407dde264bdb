/* C21: string values, every length and every byte (witness offset W[0], arbitrary). */
#define STUB_LIBC
#include "contract.h"
#include "data/value.h"
#define STUB_value_array_clean void value_array_clean(VALUE* v) { __CPROVER_assert(0, "ENSURES a string is not treated as an array"); }
#define STUB_value_dict_clean  void value_dict_clean(VALUE* v)  { __CPROVER_assert(0, "ENSURES a string is not treated as a dictionary"); }
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
static const char* g_str; static size_t g_str_n;
static size_t spec_strlen(const char* s)       /* the terminator of this C string is at g_str_n */
{
    __CPROVER_assert(s == g_str, "ENSURES C21: strlen() of the given string");
    return g_str_n;
}
#define strlen spec_strlen
#pragma CPROVER check pop
#include CUTSRC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "signed-overflow"
VALUE nondet_value(void);
static void any_witness(void) { W[0] = nondet_size(); }

static void check(VALUE* v, int rc, const char* src, size_t len, size_t allocs0, size_t calls0)
{
    if(rc != 0) {
        ENSURES(rc == -1 && value_type(v) == VALUE_NULL && !value_is_new(v), "C21: after a failure the value is null");
        ENSURES(g_allocs == allocs0, "C21: a failed initialisation keeps no memory");
        ENSURES(g_alloc_calls > calls0, "C21: initialisation fails only when memory is insufficient");
        COVER(1, "[string,cstring] failure");
        value_fini(v);
        ENSURES(value_type(v) == VALUE_NULL && g_frees == 0, "C21: finalising a null value does nothing");
        return;
    }
    ENSURES(value_type(v) == VALUE_STRING && !value_is_new(v), "C21: the value is a string");
    ENSURES(value_string_length(v) == len, "C21: exactly the given length is stored");
    const char* s = value_string(v);
    ENSURES(__CPROVER_r_ok(s, len + 1), "C21: the string and its terminator lie in valid memory");
    ENSURES(s[len] == '\0', "C21: the string is zero terminated");
    size_t k = W[0] - __CPROVER_POINTER_OFFSET(s);
    if(k < len) {
        ENSURES(s[k] == src[k], "C21: every byte is stored");
        COVER(g_allocs > allocs0 && len > 70000 && src[k] == 0, "[string] long string with a zero byte");
        COVER(g_allocs == allocs0 && len > 4, "[string,cstring] short string");
    }
    COVER(len == 0, "[string,cstring] empty string"); COVER(len > 20000 && len < 2097152, "[string,cstring] three length bytes"); COVER(len == 13, "[string,cstring] thirteen"); COVER(len == 14, "[string,cstring] fourteen");
    size_t live = g_allocs - allocs0;
    value_fini(v);
    ENSURES(value_type(v) == VALUE_NULL, "C21: a finalised value is null");
    ENSURES(g_frees == live, "C21: finalising releases the memory of the string");
}

void unit_string(void)
{
    VALUE v = nondet_value();
    any_witness();
    size_t n = nondet_size(), len = nondet_size();
    REQUIRES(n <= MAX_OBJECT && len <= n);
#if defined BOUND
    REQUIRES(n <= BOUND);
#endif
    char* src = nondet_bool() ? stub_must_malloc(n) : NULL;
    size_t want = src ? len : 0, a0 = g_allocs, c0 = g_alloc_calls;
    check(&v, value_init_string_(&v, src, len), src, want, a0, c0);
    ENSURES(value_init_string_(NULL, src, len) == -1, "C21: no value, no initialisation");
}

void unit_cstring(void)
{
    VALUE v = nondet_value();
    any_witness();
    size_t n = nondet_size();
    REQUIRES(n < MAX_OBJECT);
    char* src = nondet_bool() ? stub_must_malloc(n + 1) : NULL;
    g_str = src; g_str_n = n;
    if(src) REQUIRES(src[n] == '\0');
    size_t a0 = g_allocs, c0 = g_alloc_calls;
    check(&v, value_init_string(&v, src), src, src ? n : 0, a0, c0);
    ENSURES(value_string(NULL) == NULL && value_string_length(NULL) == 0, "C21: no value has no string");
}

/* values of other types have no string */
void unit_nostring(void)
{
    VALUE v = nondet_value(); int32_t x; int b;
    if(nondet_bool()) value_init_null(&v); else if(nondet_bool()) value_init_bool(&v, b); else value_init_int32(&v, x);
    ENSURES(value_string(&v) == NULL && value_string_length(&v) == 0, "C21: a value of another type has no string");
    COVER(1, "[nostring] end");
}
#pragma CPROVER check pop
