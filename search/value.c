/* C19-C27: the variant value.  Everything is observed through the public
 * functions; with -DWHITE the shape of the dictionary tree is inspected too. */
#define SEARCH_ALLOC
#include "search.h"
#include <math.h>
#include "data/value.h"
#include "data/value.c"

static const uint8_t* fill(size_t n) { static uint8_t b[2200000]; for(size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 31 + (i >> 8) * 7 + n); return b; }

/* ---- C19, C20: scalars ---- */
static const int NUMT[] = { VALUE_INT32, VALUE_UINT32, VALUE_INT64, VALUE_UINT64, VALUE_FLOAT, VALUE_DOUBLE };
static int64_t pick_i(void)
{
    static const int64_t sp[] = { 0, 1, -1, 2, -2, 127, 128, 255, 256, 32767, 65535, 65536, 2147483646, 2147483647, 2147483648LL, -2147483647LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, 16777215, 16777216, 16777217,
        9007199254740991LL, 9007199254740992LL, 9007199254740993LL, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1 };
    uint32_t k = choose(sizeof(sp)/sizeof(sp[0]) + 2);
    return k < sizeof(sp)/sizeof(sp[0]) ? sp[k] : (int64_t)choose64() >> choose(64);
}
static double pick_d(int isf)
{
    static const double sp[] = { 0.0, -0.0, 0.25, 0.5, -0.5, 0.75, -0.75, 1.0, -1.0, 1.5, -1.5, 2.5, -2.5, 0.49999999999999994, -0.49999999999999994, 0.99999, 2147483646.5, 2147483647.0, 2147483647.25, 2147483647.4999, 2147483648.0, -2147483648.0, -2147483648.25, -2147483648.5, -2147483649.0,
        4294967294.5, 4294967295.0, 4294967295.25, 4294967296.0, 9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0, 18446744073709549568.0, 18446744073709551616.0, 4503599627370495.5, 4503599627370496.5, 9007199254740993.0, 1e300, -1e300, 1e38, 1e39,
        INFINITY, -INFINITY, NAN, 16777216.0, 8388607.5, 8388608.5, -8388607.5, 5e-324, 1e-40, 2147483520.0, 4294967040.0, 9223371487098961920.0, 18446742974197923840.0, -2147483904.0, -9223373136366403584.0 };
    uint32_t k = choose(sizeof(sp)/sizeof(sp[0]) + 4); double d;
    if(k < sizeof(sp)/sizeof(sp[0])) { d = sp[k]; if(choose(2)) d = nextafter(d, choose(2) ? INFINITY : -INFINITY); }
    else if(k & 1) d = (double)((int64_t)choose64() >> choose(64)) + choose(5) * 0.25;
    else { uint64_t b = choose64(); memcpy(&d, &b, 8); }
    return isf ? (double)(float)d : d;
}
static int fits(long double x, int t)     /* x is an integer or any number for the floats */
{
    switch(t) {
        case VALUE_INT32: return x >= -2147483648.0L && x <= 2147483647.0L; case VALUE_UINT32: return x >= 0 && x <= 4294967295.0L;
        case VALUE_INT64: return x >= -9223372036854775808.0L && x <= 9223372036854775807.0L; case VALUE_UINT64: return x >= 0 && x <= 18446744073709551615.0L;
        default: return 1; }
}
static void t_scalar(void)
{
    int s = NUMT[choose(6)]; VALUE v; memset(&v, 0xee, sizeof v); int r = -1; long double x = 0; int64_t i = 0; double d = 0; float f = 0;
    live_blocks = 0; fail_at = 0;        /* scalars need no memory */
    switch(s) {
        case VALUE_INT32: i = (int32_t)pick_i(); r = value_init_int32(&v, (int32_t)i); x = (int32_t)i; break;
        case VALUE_UINT32: i = pick_i(); r = value_init_uint32(&v, (uint32_t)i); x = (uint32_t)i; break;
        case VALUE_INT64: i = pick_i(); r = value_init_int64(&v, i); x = i; break;
        case VALUE_UINT64: i = pick_i(); r = value_init_uint64(&v, (uint64_t)i); x = (uint64_t)i; break;
        case VALUE_FLOAT: f = (float)pick_d(1); r = value_init_float(&v, f); x = f; break;
        case VALUE_DOUBLE: d = pick_d(0); r = value_init_double(&v, d); x = d; break; }
    describe("type %d value %.25Lg", s, x);
    CHECK(r == 0 && value_type(&v) == s, "C19: initialised value has its type"); VALUE keep = v;
    if(s == VALUE_FLOAT) { float g = value_float(&v); CHECK(!memcmp(&g, &f, 4) || (isnan(g) && isnan(f)), "C19: own getter"); }
    if(s == VALUE_DOUBLE) { double g = value_double(&v); CHECK(!memcmp(&g, &d, 8) || (isnan(g) && isnan(d)), "C19: own getter"); }
    if(!(s == VALUE_FLOAT || s == VALUE_DOUBLE) || !isnan((double)x)) {
        long double y = (s == VALUE_FLOAT || s == VALUE_DOUBLE) && !isinf((double)x) ? roundl(x) : x; int fin = !isinf((double)x) || s < VALUE_FLOAT;
        if(fin && fits(y, VALUE_INT32)) CHECK(value_int32(&v) == (int32_t)y, "C19: int32 getter");
        if(fin && fits(y, VALUE_UINT32)) CHECK(value_uint32(&v) == (uint32_t)y, "C19: uint32 getter");
        if(fin && fits(y, VALUE_INT64)) CHECK(value_int64(&v) == (int64_t)y, "C19: int64 getter");
        if(fin && fits(y, VALUE_UINT64)) CHECK(value_uint64(&v) == (uint64_t)y, "C19: uint64 getter");
        if(s < VALUE_FLOAT) { uint64_t u = s == VALUE_INT32 ? (uint64_t)(int64_t)(int32_t)i : s == VALUE_UINT32 ? (uint64_t)(uint32_t)i : (uint64_t)i; CHECK(value_uint32(&v) == (uint32_t)u, "C19: uint32 getter"); CHECK(value_uint64(&v) == u, "C19: uint64 getter"); }
        if(s != VALUE_FLOAT) { float e = s == VALUE_INT32 ? (float)(int32_t)i : s == VALUE_UINT32 ? (float)(uint32_t)i : s == VALUE_INT64 ? (float)i : s == VALUE_UINT64 ? (float)(uint64_t)i : (float)d; CHECK(value_float(&v) == e, "C19: float getter"); }
        if(s != VALUE_DOUBLE) { double e = s == VALUE_INT32 ? (double)(int32_t)i : s == VALUE_UINT32 ? (double)(uint32_t)i : s == VALUE_INT64 ? (double)i : s == VALUE_UINT64 ? (double)(uint64_t)i : (double)f; CHECK(value_double(&v) == e, "C19: double getter"); }
    }
    for(int t = VALUE_NULL; t <= VALUE_DICT; t++) {
        int e = t == s || t == VALUE_FLOAT || t == VALUE_DOUBLE;
        if(t >= VALUE_INT32 && t <= VALUE_UINT64 && !isnan((double)x) && !isinf((double)x)) e |= roundl(x) == x && fits(x, t);
        CHECK((value_is_compatible(&v, t) != 0) == e, "C20: compatible exactly when the conversion keeps the value");
    }
    CHECK(!memcmp(&keep, &v, sizeof v), "C19,C20: getters change nothing"); value_fini(&v); CHECK(value_type(&v) == VALUE_NULL, "C27,C19: finalised value is null"); nontrivial();
}
static void t_other(void)
{
    VALUE v; memset(&v, 0xee, sizeof v); live_blocks = 0; int k = (int)choose(7), type = VALUE_NULL; describe("other kind %d", k);
    switch(k) {
        case 0: value_init_null(&v); break;
        case 1: { int b = (int)choose(0); if(choose(2)) b = (int)choose(3) - 1; CHECK(value_init_bool(&v, b) == 0, "C19: bool"); CHECK(value_bool(&v) == (b != 0), "C19: bool round trip"); type = VALUE_BOOL; break; }
        case 2: { size_t n = choose(40); value_init_string_(&v, (const char*)fill(n), n); type = VALUE_STRING; break; }
        case 3: value_init_array(&v); type = VALUE_ARRAY; break;
        case 4: value_init_dict(&v); type = VALUE_DICT; break;
        case 5: value_init_dict_ex(&v, NULL, VALUE_DICT_MAINTAINORDER); type = VALUE_DICT; break;
        default: { VALUE n0 = VALUE_NULL_INITIALIZER; v = n0; } }
    CHECK(value_type(&v) == type && value_type(NULL) == VALUE_NULL, "C19: type");
    for(int w = 0; w < 2; w++) { const VALUE* q = w ? NULL : &v; if(w || k != 1) value_bool(q); value_int32(q); value_uint32(q); value_int64(q); value_uint64(q); value_float(q); value_double(q); }
    for(int t = VALUE_NULL; t <= VALUE_DICT; t++) CHECK((value_is_compatible(&v, t) != 0) == (t == type), "C20: only its own type");
    value_fini(&v); value_fini(NULL); CHECK(live_blocks == 0, "C27,C19: everything released"); nontrivial();
}

/* ---- C21: strings ---- */
static void t_string(void)
{
    static const size_t L[] = { 0, 1, 11, 12, 13, 14, 15, 16, 17, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 2097151, 2097152, 2097153 };
    size_t n = g_small ? L[choose(20)] : choose(40) == 0 ? L[19 + choose(3)] : choose(2) ? L[choose(19)] : choose(20000); VALUE v; memset(&v, 0xee, sizeof v); int f = choose(2); int how = choose(4);
    live_blocks = 0; uint8_t* src; int r; if(how == 1) n = 0;
    describe("string of %zu bytes%s how=%d", n, f ? " (no memory)" : "", how);
#undef malloc
#undef free
    src = how == 1 ? NULL : malloc(n + (how == 2)); if(src) { memcpy(src, fill(n), n); if(how == 2) { for(size_t i = 0; i < n; i++) if(!src[i]) src[i] = 1; src[n] = 0; } }
    fail_at = f ? 0 : -1; long calls = alloc_count;
    if(how == 2) r = value_init_string(&v, (char*)src); else if(how == 1) r = choose(2) ? value_init_string(&v, NULL) : value_init_string_(&v, NULL, choose(100)); else r = value_init_string_(&v, (char*)src, n);
    if(r != 0) { CHECK(r == -1 && f && alloc_count > calls, "C21: fails only for lack of memory"); CHECK(value_type(&v) == VALUE_NULL, "C21: null after failure"); CHECK(live_blocks == 0, "C21,C27: nothing held after failure"); }
    else { CHECK(value_type(&v) == VALUE_STRING && value_string_length(&v) == n, "C21: length"); const char* s = value_string(&v); CHECK((!n || !memcmp(s, src, n)) && s[n] == 0, "C21: bytes and terminator"); }
    value_fini(&v); CHECK(live_blocks == 0, "C21,C27: finalising releases the memory"); CHECK(value_type(&v) == VALUE_NULL && value_string(&v) == NULL && value_string_length(&v) == 0, "C21: null after finalising");
    free(src); nontrivial();
#define malloc s_malloc
#define free s_free
}

/* ---- a payload for container items: id -> value owning 0, 1 or 2 blocks ---- */
static void item_set(VALUE* v, int id)
{
    long f = fail_at; fail_at = -1;
    switch(id % 4) {
        case 0: value_init_int32(v, id); break;
        case 1: { char b[64]; int n = snprintf(b, sizeof b, "string number %d, long enough for the heap", id); value_init_string_(v, b, (size_t)n); break; }
        case 2: { value_init_array(v); VALUE* e = value_array_append(v); value_init_int32(e, id); e = value_array_append(v); value_init_string(e, "a string that is long enough"); break; }
        default: { value_init_dict(v); VALUE* e = value_dict_add(v, "id"); value_init_int32(e, id); break; } }
    fail_at = f;
}
static int item_is(VALUE* v, int id)      /* -1 new, -2 null */
{
    char b[64];
    if(v == NULL) return 0;
    if(id == -1) return value_type(v) == VALUE_NULL && value_is_new(v);
    if(id == -2) return value_type(v) == VALUE_NULL && !value_is_new(v);
    switch(id % 4) {
        case 0: return value_type(v) == VALUE_INT32 && value_int32(v) == id;
        case 1: { int n = snprintf(b, sizeof b, "string number %d, long enough for the heap", id); return value_type(v) == VALUE_STRING && value_string_length(v) == (size_t)n && !strcmp(value_string(v), b); }
        case 2: return value_type(v) == VALUE_ARRAY && value_array_size(v) == 2 && value_int32(value_array_get(v, 0)) == id && value_string_length(value_array_get(v, 1)) == 28;
        default: return value_type(v) == VALUE_DICT && value_dict_size(v) == 1 && value_int32(value_dict_get(v, "id")) == id; }
}
static long item_blocks(int id) { return id < 0 ? 0 : id % 4 == 0 ? 0 : id % 4 == 1 ? 1 : 3; }   /* array: payload, buffer, string; dict: payload, node (short key) */
static long item_blocks_(int id) { long b = item_blocks(id); return id >= 0 && id % 4 == 3 ? 2 : b; }

/* ---- C22: arrays ---- */
static void t_array(void)
{
    static int m[3000]; size_t n = 0; VALUE a; int id = 0, nops = g_small ? 4 : 40; int faulty = choose(2); live_blocks = 0;
    CHECK(value_init_array(&a) == 0 && value_array_size(&a) == 0, "C22: new array is empty");
    for(int o = 0; o < nops; o++) {
        size_t i = choose((uint32_t)n + (g_small ? 1 : 2)), c; VALUE* e; int r; long before = live_blocks, owned; fail_at = faulty && choose(3) == 0 ? 0 : -1;
        switch(choose(g_small ? 6 : 10)) {
        case 0: case 8: describe("append to %zu", n); e = value_array_append(&a); i = n; goto added;
        case 1: case 9: describe("insert(%zu) of %zu", i, n); e = value_array_insert(&a, i); CHECK(i <= n || e == NULL, "C22: an index beyond the end is refused");
        added: if(e) { CHECK(i <= n, "C22: in range"); CHECK(item_is(e, -1), "C22: new element is null and new"); CHECK(value_array_get(&a, i) == e, "C22: at the addressed position"); memmove(m+i+1, m+i, (n-i)*sizeof(int)); n++; m[i] = -1;
                   if(choose(5) != 0) { item_set(e, id); m[i] = id++; } else if(choose(2)) { value_init_null(e); m[i] = -2; } }
               else CHECK(i > n || (faulty && fail_at == -1), "C22: fails only for lack of memory"); break;
        case 2: describe("remove(%zu) of %zu", i, n); owned = i < n ? item_blocks_(m[i]) : 0; r = value_array_remove(&a, i); CHECK((r == 0) == (i < n), "C22: removal refused exactly for invalid indexes"); c = r == 0; goto removed;
        case 3: case 7: c = choose(8) == 0 ? SIZE_MAX - choose(3) - (choose(2) ? i : 0) : choose((uint32_t)(i <= n ? n - i : 0) + 2); describe("remove_range(%zu,%zu) of %zu", i, c, n);
               owned = 0; if(i <= n && c <= n - i) for(size_t k = 0; k < c; k++) owned += item_blocks_(m[i+k]);
               r = value_array_remove_range(&a, i, c); CHECK((r == 0) == (i <= n && c <= n - i), "C22: invalid ranges are refused"); if(r != 0) c = 0;
        removed: if(c) { memmove(m+i, m+i+c, (n-i-c)*sizeof(int)); n -= c; } long low = before - owned - 1; CHECK(live_blocks <= before - owned && live_blocks >= low, "C22,C27: exactly the removed elements are finalised"); break;
        case 4: describe("clean %zu", n); value_array_clean(&a); n = 0; CHECK(live_blocks <= 1, "C22,C27: clean releases the elements"); break;
        case 5: if(n) { i = choose((uint32_t)n); describe("replace(%zu) of %zu", i, n); e = value_array_get(&a, i); CHECK(e != NULL, "C22: get"); value_fini(e); m[i] = -2; CHECK(item_is(e, -2), "C22: finalised is null"); item_set(e, id); m[i] = id++; } break;
        case 6: if(n < 2000) { fail_at = -1; c = choose(300); describe("append x%zu", c); while(c--) { e = value_array_append(&a); CHECK(e != NULL, "C22: append"); item_set(e, id); m[n++] = id++; } } break;
        }
        fail_at = -1;
        CHECK(value_type(&a) == VALUE_ARRAY && value_array_size(&a) == n, "C22: size"); VALUE* all = value_array_get_all(&a);
        for(size_t k = 0; k < n; k++) { e = value_array_get(&a, k); CHECK(e == all + k && item_is(e, m[k]), "C22: elements and order"); }
        CHECK(value_array_get(&a, n) == NULL && value_array_get(&a, SIZE_MAX) == NULL && value_array_get(&a, SIZE_MAX / sizeof(VALUE) + 1) == NULL, "C22: nothing beyond the end");
        if(n > 1) nontrivial();
    }
    if(choose(2)) { value_array_clean(&a); CHECK(value_array_size(&a) == 0 && value_type(&a) == VALUE_ARRAY, "C22: empty after clean"); }
    value_fini(&a); CHECK(value_type(&a) == VALUE_NULL && live_blocks == 0, "C22,C27: finalising releases every block");
    VALUE x; item_set(&x, 4 * (int)choose(2) + 1); CHECK(value_array_append(&x) == NULL && value_array_insert(&x, 0) == NULL && value_array_get(&x, 0) == NULL && value_array_size(&x) == 0 && value_array_remove(&x, 0) != 0 && value_array_get_all(&x) == NULL, "C22: not an array"); value_array_clean(&x); value_fini(&x);
}

/* ---- C23, C24, C25: dictionaries ---- */
typedef struct { uint8_t k[40]; size_t n; int id; } ENT;
static ENT E[1500]; static size_t NE; static long cmp_calls; static int mode, keyed;
static int sgn(int x) { return (x > 0) - (x < 0); }
static int lex(const char* a, size_t n, const char* b, size_t m) { size_t i = 0; for(; i < n && i < m; i++) if(a[i] != b[i]) return (uint8_t)a[i] < (uint8_t)b[i] ? -1 : 1; return n < m ? -1 : n > m; }
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int ord(const char* a, size_t n, const char* b, size_t m)
{
    switch(mode) {
        case 1: return -lex(a, n, b, m);
        case 2: return n != m ? (n < m ? -7 : 7) : 100 * lex(a, n, b, m);
        case 3: { size_t i = 0; for(; i < n && i < m; i++) if(up(a[i]) != up(b[i])) return up(a[i]) < up(b[i]) ? INT_MIN : INT_MAX; return n < m ? -1 : n > m; }
        default: return lex(a, n, b, m); }
}
static int custom(const char* a, size_t n, const char* b, size_t m) { cmp_calls++; CHECK(a[n] == 0 || b[m] == 0, "C23: stored keys are zero-terminated"); return ord(a, n, b, m); }
static long find(const uint8_t* k, size_t n) { for(size_t i = 0; i < NE; i++) if(ord((char*)k, n, (char*)E[i].k, E[i].n) == 0) return (long)i; return -1; }
static size_t pick_key(uint8_t* k)
{
    static const char* const SK[] = { "a", "b", "c", "d", "e", "f", "g", "h", "", "a\0", "a\0b", "\0", "A", "abcdefghijklm", "abcdefghijklmn", "\xff", "abcdefghijklmnopqrstuvwxyz" };
    static const uint8_t SL[] = { 1, 1, 1, 1, 1, 1, 1, 1, 0, 2, 3, 1, 1, 13, 14, 1, 26 }; size_t n;
    if(g_small || keyed == 0) { uint32_t i = choose(g_small ? (keyed ? 17 : 3) : 17); memcpy(k, SK[i], SL[i]); n = SL[i]; }
    else if(keyed == 1) n = (size_t)sprintf((char*)k, "%u", choose(300));
    else if(keyed == 2) { n = choose(5); for(size_t i = 0; i < n; i++) k[i] = "\0\1ab\xff\x80"[choose(6)]; }
    else { n = 4; uint32_t x = choose(1000); k[0] = 'k'; k[1] = (uint8_t)(x >> 8); k[2] = (uint8_t)x; k[3] = 'Z'; }
    k[n] = 0; return n;
}
static int cmp_e(const void* a, const void* b) { const ENT* x = *(const ENT* const*)a, * y = *(const ENT* const*)b; return sgn(ord((char*)x->k, x->n, (char*)y->k, y->n)); }
static struct { VALUE* v; ENT** e; size_t seen, stop; int bad; } W_;
static int visit(const VALUE* key, VALUE* val, void* ctx)
{
    if(ctx != (void*)&W_ || W_.seen >= NE) { W_.bad = 1; return 0; }
    ENT* e = W_.e[W_.seen++];
    if(value_type(key) != VALUE_STRING || value_string_length(key) != e->n || memcmp(value_string(key), e->k, e->n) || !item_is(val, e->id) || val != value_dict_get_(W_.v, (char*)e->k, e->n)) W_.bad = 1;
    return W_.seen == W_.stop ? 77 : 0;
}
#ifdef WHITE
static int bh(RBTREE* n, int* h) { int a, b, x, y; *h = 0; if(!n) return 1; if(IS_RED(n) && ((n->left && IS_RED(n->left)) || (n->right && IS_RED(n->right)))) return -1;
    a = bh(n->left, &x); b = bh(n->right, &y); if(a < 0 || a != b) return -1; *h = 1 + (x > y ? x : y); return a + !IS_RED(n); }
#endif
static void dict_check(VALUE* d, int order, int full)
{
    static ENT* s[1500]; static const VALUE* buf[1502]; static ENT* in[1500]; if(full) { for(size_t i = 0; i < NE; i++) s[i] = in[i] = &E[i]; qsort(s, NE, sizeof(ENT*), cmp_e); }
    CHECK(value_type(d) == VALUE_DICT && value_dict_size(d) == NE, "C23: size"); CHECK(value_dict_flags(d) == (order ? VALUE_DICT_MAINTAINORDER : 0), "C23: flags");
#ifdef WHITE
    { int h; DICT* p = value_dict_payload(d); CHECK(p->root == NULL || !IS_RED(p->root), "C25: the root is black"); CHECK(bh(p->root, &h) > 0, "C25: red-black tree"); }
#endif
    if(!full) return;
    int lim = 0; while(((size_t)1 << lim) < NE + 1) lim++;     /* ceil(log2(n+1)) */
    for(size_t i = 0; i < NE; i++) { cmp_calls = 0; CHECK(item_is(value_dict_get_(d, (char*)E[i].k, E[i].n), E[i].id), "C23: get returns the stored value"); CHECK(cmp_calls <= 2 * lim, "C25: a lookup compares at most 2*log2(n+1) keys"); }
    for(int w = 0; w < 2; w++) {
        ENT** e = w ? in : s; size_t want = w && !order ? 0 : NE, cap = choose(4) == 0 ? choose((uint32_t)NE + 2) : NE + choose(2), got;
        for(size_t i = 0; i < NE + 2; i++) buf[i] = (const VALUE*)&W_;
        got = w ? value_dict_keys_ordered(d, buf, cap) : value_dict_keys_sorted(d, buf, cap); CHECK(got == (cap < want ? cap : want), "C24: number of keys stored");
        for(size_t i = 0; i < NE + 2; i++) { if(i < got) CHECK(value_type(buf[i]) == VALUE_STRING && value_string_length(buf[i]) == e[i]->n && !memcmp(value_string(buf[i]), e[i]->k, e[i]->n), "C24: the first keys in order"); else CHECK(buf[i] == (const VALUE*)&W_, "C24: nothing written beyond"); }
        W_.v = d; W_.e = e; W_.seen = 0; W_.bad = 0; W_.stop = choose(3) == 0 && NE ? 1 + choose((uint32_t)NE) : 0;
        int r = w ? value_dict_walk_ordered(d, visit, &W_) : value_dict_walk_sorted(d, visit, &W_);
        if(w && !order) CHECK(r == -1 && W_.seen == 0, "C24: ordered enumeration refused"); else CHECK(!W_.bad && r == (W_.stop ? 77 : 0) && W_.seen == (W_.stop ? W_.stop : NE), "C24: walk visits every item once in order");
    }
    if(NE > 1) nontrivial();
}
static long dict_blocks(int order) { (void)order; long n = 1; for(size_t i = 0; i < NE; i++) n += 1 + (E[i].n + 3 > 16) + item_blocks_(E[i].id); return n; }
static void t_dict(void)
{
    VALUE d; int order = (int)choose(2), id = 0, nops = g_small ? 5 : 80, faulty; uint8_t k[64]; mode = (int)choose(g_small ? 2 : 5); keyed = g_small ? (int)choose(2) : (int)choose(4); faulty = choose(2); NE = 0; live_blocks = 0;
    int dir = g_small ? 0 : (int)choose(6), bulk = 0; if(dir == 1 || dir == 2) { nops = 300; bulk = dir; keyed = 3; }
    describe("dict order=%d cmp=%d keys=%d%s", order, mode, keyed, bulk ? " bulk" : "");
    memset(&d, 0xee, sizeof d); if(choose(4) == 0) { fail_at = 0; int r = value_init_dict_ex(&d, mode ? custom : NULL, order ? VALUE_DICT_MAINTAINORDER : 0); if(r != 0) CHECK(value_type(&d) == VALUE_NULL && live_blocks == 0, "C23,C27: failed init"); else value_fini(&d); fail_at = -1; }
    CHECK(value_init_dict_ex(&d, mode ? custom : NULL, order ? VALUE_DICT_MAINTAINORDER : 0) == 0, "C23: init");
    for(int o = 0; o < nops; o++) {
        size_t n = pick_key(k); VALUE* v; int r; uint32_t op = choose(g_small ? 3 : 12); fail_at = -1;
        if(bulk == 1) { k[1] = (uint8_t)(o >> 8); k[2] = (uint8_t)o; op = 0; if(o > 220) { op = 2; } } else if(bulk == 2) { k[1] = (uint8_t)((600 - o) >> 8); k[2] = (uint8_t)(600 - o); op = 0; if(o > 200) op = 2; }
        if(bulk && op == 2 && NE) { ENT* e = &E[choose((uint32_t)NE)]; memcpy(k, e->k, 40); n = e->n; }
        long f = find(k, n), before = live_blocks; if(faulty && choose(3) == 0) fail_at = (long)choose(2); int was = (int)fail_at; int zs = 0; for(size_t i = 0; i < n; i++) if(!k[i]) zs = 1;
        /* keys are passed in exactly sized memory */
#undef malloc
#undef free
        char* key = malloc(n + !zs); memcpy(key, k, n); if(!zs) key[n] = 0;
        int cstr = !zs && choose(2);
        if(mode) { /* the comparator checks the terminator of one side only */ free(key); key = malloc(n + 1); memcpy(key, k, n); key[n] = 0; }
        switch(op) {
        case 0: case 3: case 5: describe("add(%.*s/%zu)", (int)n, k, n); v = cstr ? value_dict_add(&d, key) : value_dict_add_(&d, key, n); CHECK(f < 0 || v == NULL, "C23: adding a used key fails");
            if(v) goto added; CHECK(f >= 0 || (was >= 0 && fail_at < 0), "C23: add fails only for lack of memory"); CHECK(live_blocks == before, "C27: failed add leaks nothing"); break;
        case 1: case 4: case 6: describe("get_or_add(%.*s/%zu)", (int)n, k, n); v = cstr ? value_dict_get_or_add(&d, key) : value_dict_get_or_add_(&d, key, n);
            if(f >= 0) { CHECK(item_is(v, E[f].id), "C23: get_or_add returns the existing value"); if(E[f].id < 0 && choose(2)) { item_set(v, id); E[f].id = id++; } break; }
            if(!v) { CHECK(was >= 0 && fail_at < 0, "C23: get_or_add fails only for lack of memory"); CHECK(live_blocks == before, "C27: failed add leaks nothing"); break; }
        added: CHECK(item_is(v, -1), "C23: a new item is null and new"); memcpy(E[NE].k, k, 40); E[NE].n = n; E[NE].id = -1; if(choose(4)) { item_set(v, id); E[NE].id = id++; } else if(choose(2)) { value_init_null(v); E[NE].id = -2; } NE++; break;
        case 2: case 7: case 8: describe("remove(%.*s/%zu)", (int)n, k, n); r = cstr ? value_dict_remove(&d, key) : value_dict_remove_(&d, key, n); CHECK(r == (f >= 0 ? 0 : -1), "C23: removal succeeds exactly for a stored key");
            if(f >= 0) { long own = 1 + (E[f].n + 3 > 16) + item_blocks_(E[f].id); CHECK(live_blocks == before - own, "C27,C23: exactly that item is finalised"); memmove(&E[f], &E[f+1], (NE - (size_t)f - 1) * sizeof(ENT)); NE--; } else CHECK(live_blocks == before, "C23: nothing removed"); break;
        case 9: describe("get(%.*s/%zu)", (int)n, k, n); v = cstr ? value_dict_get(&d, key) : value_dict_get_(&d, key, n); CHECK(f >= 0 ? item_is(v, E[f].id) : v == NULL, "C23: get"); break;
        case 10: if(choose(10) == 0) { describe("clean"); value_dict_clean(&d); NE = 0; } break;
        case 11: for(int c = 0; c < 40 && keyed != 0 && NE < (keyed == 1 ? 1200 : 150); c++) { fail_at = -1; n = pick_key(k); if(find(k, n) >= 0) continue; v = value_dict_add_(&d, (char*)k, n); CHECK(v != NULL, "C23: add"); memcpy(E[NE].k, k, 40); E[NE].n = n; E[NE].id = -1; NE++; } describe("adds"); break;
        }
        free(key);
#define malloc s_malloc
#define free s_free
        fail_at = -1; CHECK(live_blocks <= dict_blocks(order), "C27: nothing leaks"); dict_check(&d, order, g_small || (bulk ? o % 64 == 0 : choose(10) == 0));
    }
    dict_check(&d, order, 1);
    if(choose(2)) { value_dict_clean(&d); NE = 0; dict_check(&d, order, 1); CHECK(live_blocks <= 1, "C27: clean releases every item"); uint8_t q[2] = "q"; VALUE* v = value_dict_add_(&d, (char*)q, 1); CHECK(v && item_is(v, -1), "C23,C27: usable after clean"); memcpy(E[0].k, q, 2); E[0].n = 1; E[0].id = -1; NE = 1; dict_check(&d, order, 1); }
    value_fini(&d); CHECK(value_type(&d) == VALUE_NULL && live_blocks == 0, "C27: finalising releases every block");
    VALUE x; item_set(&x, 1); const VALUE* b1[1]; CHECK(!value_dict_add(&x, "a") && !value_dict_get(&x, "a") && !value_dict_get_or_add(&x, "a") && value_dict_remove(&x, "a") == -1 && value_dict_size(&x) == 0 && !value_dict_keys_sorted(&x, b1, 1) && !value_dict_keys_ordered(&x, b1, 1) && value_dict_walk_sorted(&x, visit, NULL) == -1 && value_dict_walk_ordered(&x, visit, NULL) == -1 && value_dict_flags(&x) == 0, "C23: not a dictionary"); value_dict_clean(&x); value_fini(&x);
}

/* ---- C26: paths ---- */
static void grow(VALUE* v, int depth)
{
    static const char* const K[] = { "a", "b", "", "[", "]", "[0", "0]", "a b", "-1", "[0]x" };
    switch(choose(depth ? 5 : 3)) {
        case 0: value_init_int32(v, (int)choose(5)); break;
        case 1: value_init_string(v, "str"); break;
        case 2: if(choose(2)) value_init_null(v); break;      /* else: stays new */
        case 3: { value_init_array(v); uint32_t n = choose(4); while(n--) grow(value_array_append(v), depth - 1); break; }
        case 4: { value_init_dict(v); uint32_t n = choose(5); while(n--) { VALUE* e = value_dict_add(v, K[choose(10)]); if(e) grow(e, depth - 1); } break; } }
}
static char* sp; static size_t sl;
static const VALUE* mark_v; static char* mark_at;
static void put(const char* s, size_t n) { if(sl + n < 60000) { memcpy(sp + sl, s, n); sl += n; } }
static void ser(const VALUE* v);
static int ser_it(const VALUE* k, VALUE* v, void* c) { (void)c; put("K", 1); put(value_string(k), value_string_length(k)); put("=", 1); ser(v); return 0; }
static void ser(const VALUE* v)
{
    if(v == mark_v) put("@", 1); char b[32]; int n = sprintf(b, "%d%c", value_type(v), value_is_new(v) ? 'n' : '.'); put(b, (size_t)n);
    switch(value_type(v)) { case VALUE_INT32: n = sprintf(b, "%d", value_int32(v)); put(b, (size_t)n); break; case VALUE_STRING: put(value_string(v), value_string_length(v)); break;
        case VALUE_ARRAY: put("[", 1); for(size_t i = 0; i < value_array_size(v); i++) { ser(value_array_get(v, i)); put(",", 1); } put("]", 1); break;
        case VALUE_DICT: put("{", 1); value_dict_walk_sorted(v, ser_it, NULL); put("}", 1); break; default: break; }
}
static size_t serial(const VALUE* root, const VALUE* m, char* buf) { sp = buf; sl = 0; mark_v = m; ser(root); mark_v = NULL; return sl; }
/* the documented grammar, on the public getters */
static VALUE* resolve(VALUE* v, const char* p, int build)
{
    for(;;) {
        while(*p == '/') p++;
        if(!*p) return v;
        size_t n = 1; while(p[n] && p[n] != '/' && p[n] != '[') n++;
        if(p[0] == '[' && n >= 2 && p[n-1] == ']') {
            size_t i = 1; int neg = 0, dig = 0, sign = 0, big = 0; unsigned __int128 x = 0; if(p[1] == '-' || p[1] == '+') { neg = p[1] == '-'; sign = 1; i = 2; }
            for(; i < n - 1; i++) { if(p[i] < '0' || p[i] > '9') return NULL; dig = 1; x = x * 10 + (unsigned)(p[i] - '0'); if(x > SIZE_MAX) { big = 1; x = SIZE_MAX; } }
            if(!dig && (sign || !build)) return NULL;
            if(build && value_is_new(v)) { if(value_init_array(v) != 0) return NULL; }
            if(value_type(v) != VALUE_ARRAY) return NULL;
            size_t sz = value_array_size(v);
            if(!dig) v = value_array_append(v);
            else { if(big) return NULL; size_t ix = (size_t)x; if(neg) { if(ix == 0 || ix > sz) return NULL; ix = sz - ix; } if(ix >= sz) return NULL; v = value_array_get(v, ix); }
        } else {
            if(build && value_is_new(v)) { if(value_init_dict(v) != 0) return NULL; }
            if(value_type(v) != VALUE_DICT) return NULL;
            v = build ? value_dict_get_or_add_(v, p, n) : value_dict_get_(v, p, n);
        }
        if(!v) return NULL;
        p += n;
    }
}
static size_t pick_path(char* p)
{
    static const char* const S[] = { "a", "/", "[0]", "[]", "b", "[-1]", "[1]", "[", "]", "[+0]", "[-0]", "[-]", "[+]", "[2]", "[x]", "[0x]", "[ 0]", "[-2]", "[00000000000000000000000000001]", "[18446744073709551616]", "[18446744073709551615]", "[-18446744073709551615]", "[-18446744073709551616]", "[36893488147419103232]", "[99999999999999999999999999999]", "[9223372036854775808]", "[4294967296]", "[--1]", "[0", "0]", "a b", "-1", "//", "[0]x", "[1844674407370955162]", "[184467440737095516150]" };
    size_t n = 0; uint32_t c = choose(g_small ? 3 : 7); int prev = 0;
    while(c--) { const char* s = S[choose(g_small ? 14 : 36)]; if(s[0] != '/' && s[0] != '[' && prev && choose(4)) p[n++] = '/'; strcpy(p + n, s); n += strlen(s); prev = 1; }
    p[n] = 0; return n;
}
static void t_path(void)
{
    VALUE r1 = VALUE_NULL_INITIALIZER, r2 = VALUE_NULL_INITIALIZER; static char b1[60100], b2[60100], b3[60100]; char p[400]; int depth = g_small ? 2 : 3; live_blocks = 0;
    uint32_t shape = g_small ? choose(6) : 6; uint32_t start = t_pos;
    for(int w = 0; w < 2; w++) {           /* the same tree twice */
        VALUE* r = w ? &r2 : &r1; VALUE* e;
        switch(shape) {
        case 0: value_init_dict(r); value_dict_add(r, "a"); e = value_dict_add(r, "b"); value_init_array(e); value_init_int32(value_array_append(e), 5); value_array_append(e); break;
        case 1: value_init_array(r); e = value_array_append(r); value_init_dict(e); value_init_int32(value_dict_add(e, "a"), 3); value_array_append(r); value_init_int32(value_array_append(r), 9); break;
        case 2: value_init_null(r); break;
        case 3: { VALUE t; value_init_array(&t); *r = *value_array_append(&t); value_array_clean(&t); value_fini(&t); break; }    /* marked new */
        case 4: value_init_int32(r, 1); break;
        case 5: value_init_array(r); value_init_array(value_array_append(r)); break;
        default: if(w == 0) { start = t_pos; grow(r, depth); } else { uint32_t end = t_pos; int m = t_mode; uint32_t g = t_given; t_mode = 2; t_given = end; t_pos = start; grow(r, depth); t_mode = m; t_given = g; t_pos = end; } }
    }
    size_t pl = pick_path(p); int build = (int)choose(2);
#undef malloc
#undef free
    char* path = malloc(pl + 1); memcpy(path, p, pl + 1);
    size_t n1 = serial(&r1, NULL, b1), n2 = serial(&r2, NULL, b2); if(n1 != n2 || memcmp(b1, b2, n1)) { printf("driver error\n"); _exit(5); }
    describe("%s \"%s\" in %.*s", build ? "build_path" : "path", p, (int)(n1 < 200 ? n1 : 200), b1);
    VALUE* e0 = resolve(&r2, p, 0);
    if(!build) {
        VALUE* g = value_path(&r1, path); n2 = serial(&r1, NULL, b2); CHECK(n1 == n2 && !memcmp(b1, b2, n1), "C26: path lookup changes nothing");
        n2 = serial(&r2, e0, b2); n1 = serial(&r1, g, b1); CHECK((g == NULL) == (e0 == NULL), "C26: resolves exactly when every component does"); CHECK(n1 == n2 && !memcmp(b1, b2, n1), "C26: the value reached");
    } else if(choose(5) == 0) {
        fail_at = (long)choose(4); VALUE* g = value_build_path(&r1, path); (void)g; fail_at = -1;
    } else {
        VALUE* g = value_build_path(&r1, path); VALUE* e = resolve(&r2, p, 1);
        CHECK((g == NULL) == (e == NULL), "C26: build_path fails exactly for wrong types and bad indexes");
        if(g) { n2 = serial(&r2, e, b2); n1 = serial(&r1, g, b3); CHECK(n1 == n2 && !memcmp(b3, b2, n1), "C26: exactly the missing components are created"); }
        if(e0) CHECK(g != NULL, "C26: an existing path resolves");
    }
    free(path);
#define malloc s_malloc
#define free s_free
    value_fini(&r1); value_fini(&r2); CHECK(live_blocks == 0, "C27,C26: everything is released"); if(pl) nontrivial();
}

/* long keys: equal but for one place or for their length */
static void t_longkeys(void)
{
    static const uint32_t L[] = { 1, 100, 127, 128, 129, 255, 256, 257, 511, 4096, 16383, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 65636, 131072, 131073 };
    static struct { uint32_t n, at; uint8_t c; } K[24]; static char b[131100], b2[131100]; int nk = 0, order = (int)choose(2); VALUE d; uint32_t base = choose(21);
    live_blocks = 0; CHECK(value_init_dict_ex(&d, NULL, order ? VALUE_DICT_MAINTAINORDER : 0) == 0, "C23: init"); describe("long keys");
    for(int o = 0; o < 16; o++) {
        uint32_t n = L[choose(3) ? base : choose(21)], at; uint8_t c = "kz\0\377a"[choose(5)]; switch(choose(4)) { case 0: at = n - 1; break; case 1: at = 0; break; case 2: at = n / 2; break; default: at = choose(n); }
        if(choose(3) == 0) { n += choose(3); at = n - 1; } memset(b, 'k', n); b[at] = (char)c; if(c == 'k') at = 0;
        int f = -1; for(int i = 0; i < nk; i++) if(K[i].n == n && K[i].at == at && K[i].c == c) f = i;
        if(choose(4)) { describe("add %u bytes, %02x at %u", n, c, at); VALUE* v = value_dict_add_(&d, b, n); CHECK((v != NULL) == (f < 0), "C23: added exactly when not there"); if(v) { value_init_int32(v, (int)(n * 7 + at * 3 + c)); K[nk].n = n; K[nk].at = at; K[nk++].c = c; } }
        else { describe("remove %u bytes, %02x at %u", n, c, at); CHECK((value_dict_remove_(&d, b, n) == 0) == (f >= 0), "C23: removed exactly when there"); if(f >= 0) { memmove(&K[f], &K[f+1], (size_t)(nk - f - 1) * sizeof K[0]); nk--; } }
        CHECK(value_dict_size(&d) == (size_t)nk, "C23: size");
        for(int i = 0; i < nk; i++) { memset(b, 'k', K[i].n); b[K[i].at] = (char)K[i].c; VALUE* v = value_dict_get_(&d, b, K[i].n); CHECK(v && value_int32(v) == (int)(K[i].n * 7 + K[i].at * 3 + K[i].c), "C23: get"); }
    }
    const VALUE* s[24]; CHECK(value_dict_keys_sorted(&d, s, 24) == (size_t)nk, "C24: every key");
    for(int i = 0; i + 1 < nk; i++) CHECK(lex(value_string(s[i]), value_string_length(s[i]), value_string(s[i+1]), value_string_length(s[i+1])) < 0, "C24: ascending order");
    if(order) { CHECK(value_dict_keys_ordered(&d, s, 24) == (size_t)nk, "C24: every key"); for(int i = 0; i < nk; i++) { memset(b2, 'k', K[i].n); b2[K[i].at] = (char)K[i].c; CHECK(value_string_length(s[i]) == K[i].n && !memcmp(value_string(s[i]), b2, K[i].n), "C24: order of insertion"); } }
    value_fini(&d); CHECK(live_blocks == 0, "C27: finalising releases every block"); if(nk > 2) nontrivial();
}
/* indexes of longer arrays */
static void t_index(void)
{
    VALUE r, * a; uint32_t n = choose(g_small ? 14 : 1200), k = choose(n + 3); char p[64]; int form = (int)choose(3), zeros = (int)choose(3), build = (int)choose(2), key = (int)choose(3); live_blocks = 0;
    value_init_dict(&r); a = key ? value_dict_add(&r, key == 1 ? "k" : "a-key") : &r; if(!key) value_fini(&r); value_init_array(a);
    for(uint32_t i = 0; i < n; i++) value_init_int32(value_array_append(a), (int)i);
    snprintf(p, sizeof p, "%s%s[%s%s%u]", choose(2) ? "/" : "", key == 1 ? "k" : key ? "a-key" : "", form == 0 ? "" : form == 1 ? "+" : "-", "00" + zeros, k); describe("\"%s\" in %u elements", p, n);
    VALUE* e = form == 2 ? (k >= 1 && k <= n ? value_array_get(a, n - k) : NULL) : k < n ? value_array_get(a, k) : NULL;
    CHECK((build ? value_build_path(&r, p) : value_path(&r, p)) == e, "C26: index"); CHECK(value_array_size(a) == n, "C26: an index creates nothing");
    value_fini(&r); CHECK(live_blocks == 0, "C27: everything is released"); nontrivial();
}
static TEST TESTS[] = {
    { "longkeys", t_longkeys, 1, 0 }, { "index", t_index, 20000, 0 },
    { "scalar", t_scalar, 100000, 0 }, { "other", t_other, 3000, 0 }, { "string", t_string, 400, 0 }, { "array", t_array, 40000, 0 }, { "dict", t_dict, 20000, 0 }, { "path", t_path, 200000, 0 },
    { 0 } };
