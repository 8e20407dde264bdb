/* C10: the array family of element type TY (-DT=int8 -DTY=int8_t ...). */
#define STUB_LIBC
#define NW 1
#include "contract.h"
#include "buffer_contracts.h"
#define CAT_(a, b, c) a##b##c
#define CAT(a, b, c)  CAT_(a, b, c)
#define A(op)   CAT(array_, T, op)
#define ARRAY   CAT(ARRAY_, T,)
#define SZ      sizeof(TY)
#define MAXN    (MAX_OBJECT / 8)
/* element i of a buffer, as a value of type TY */
#define EL(b, i) (((TY*)(b).data)[i])
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"

static ARRAY a; static BUFFER old; static size_t n0, e; static int has; static TY ev;
/* any array holding n0 elements; e an arbitrary element with value ev */
static void any_array(void)
{
    size_t k, i; any_buffer(&a.buf);
    REQUIRES(k <= MAXN && a.buf.size == k * SZ); n0 = k; old = a.buf; e = i; has = e < n0;
    REQUIRES(e <= MAXN);
    if(has) ev = EL(old, e);
    E = e * SZ;
}
#define VALID() ENSURES(buf_valid(&a.buf), "array: valid")

void unit_access(void)
{
    ARRAY s = CAT(ARRAY_, T, _INITIALIZER); ARRAY i;
    ENSURES(s.buf.data == NULL && s.buf.size == 0 && s.buf.alloc == 0, "static initializer is the empty array");
    A(_init)(&i); ENSURES(i.buf.data == NULL && i.buf.size == 0 && i.buf.alloc == 0, "init gives the empty array");
    ENSURES(A(_size)(&i) == 0 && A(_is_empty)(&i), "the empty array is empty");
    any_array();
    ENSURES(A(_size)(&a) == n0, "size counts elements");
    ENSURES((A(_is_empty)(&a) != 0) == (n0 == 0), "emptiness agrees with size");
    ENSURES((void*)A(_data)(&a) == old.data && (const void*)A(_const_data)(&a) == old.data, "data accessors");
    if(has) ENSURES(A(_get)(&a, e) == ev, "get returns the element, without loss of width or sign");
    ENSURES(SAME(a.buf, old), "accessors change nothing");
    if(has) ENSURES(EL(a.buf, e) == ev, "accessors change nothing");
    size_t j; TY v;
    if(j < n0) {
        A(_set)(&a, j, v);
        ENSURES(SAME(a.buf, old), "set does not change the size");
        ENSURES(EL(a.buf, j) == v && A(_get)(&a, j) == v, "set stores the value, without loss of width or sign");
        if(has && e != j) ENSURES(EL(a.buf, e) == ev, "set leaves the other elements");
        COVER(has && e != j, "set");
    }
    size_t f = g_frees; A(_fini)(&a); ENSURES(g_frees - f == (old.data != NULL), "fini releases the block");
}
void unit_insert(void)
{
    any_array(); size_t j, cnt; TY v; int r, op; REQUIRES(j <= n0);
    REQUIRES(op >= 0 && op < 6);
    if(op < 3) REQUIRES(j <= n0); else j = n0;
    if(op != 2 && op != 5) cnt = 1;
    switch(op) {
        case 0: r = A(_insert)(&a, j, v); break;
        case 1: r = A(_insert_raw)(&a, j); break;
        case 2: r = A(_insert_n_raw)(&a, j, cnt); break;
        case 3: r = A(_append)(&a, v); break;
        case 4: r = A(_append_raw)(&a); break;
        case 5: r = A(_append_n)(&a, cnt); break;
    }
    VALID();
    ENSURES(r == 0 || r == -1, "insert returns 0 or -1");
    if(r == 0) {
        ENSURES(cnt <= MAX_OBJECT / SZ && a.buf.size == (n0 + cnt) * SZ && A(_size)(&a) == n0 + cnt, "insert: size grows by the inserted elements");
        if(has && e < j) ENSURES(EL(a.buf, e) == ev, "insert: elements before keep their index");
        if(has && e >= j) ENSURES(EL(a.buf, e + cnt) == ev, "insert: elements behind move up by the inserted count");
        if(op == 0 || op == 3) ENSURES(EL(a.buf, j) == v, "insert: the value is stored at the index, without loss of width or sign");
        COVER(op == 0 && has && e >= j, "insert"); COVER(op == 2 && cnt > 1 && has && e < j, "insert n"); COVER(op == 3, "append"); COVER(op == 5 && cnt > 3, "append n"); COVER(op == 1 || op == 4, "raw");
    } else {
        ENSURES(SAME(a.buf, old), "insert: failure changes nothing");
        if(has) ENSURES(EL(a.buf, e) == ev, "insert: failure changes nothing");
        ENSURES(g_fail > 0 || cnt > MAXN, "insert: fails only for lack of memory");
        COVER(g_fail == 0, "insert fails for size"); COVER(cnt == 1, "insert fails");
    }
}
void unit_remove(void)
{
    any_array(); size_t j, cnt; _Bool one; REQUIRES(j <= n0 && cnt <= SIZE_MAX / SZ);
    if(one) { REQUIRES(j < n0); cnt = 1; A(_remove)(&a, j); } else A(_remove_n)(&a, j, cnt);
    size_t m = cnt < n0 - j ? cnt : n0 - j;
    VALID();
    ENSURES(a.buf.size == (n0 - m) * SZ && A(_size)(&a) == n0 - m, "remove: size shrinks by the removed elements");
    if(has && e < j) ENSURES(EL(a.buf, e) == ev, "remove: elements before keep their index");
    if(has && e >= j && e - j >= m) ENSURES(EL(a.buf, e - m) == ev, "remove: elements behind move down");
    COVER(one && has && e > j, "remove"); COVER(!one && m > 2 && has && e > j, "remove n");
}
void unit_acquire(void)
{
    any_array(); size_t s, s0 = s; _Bool ask;
    TY* p = A(_acquire)(&a, ask ? &s : NULL);
    ENSURES((void*)p == old.data, "acquire hands over the block");
    ENSURES(s == (ask ? n0 : s0), "acquire reports the number of elements, if asked");
    ENSURES(a.buf.data == NULL && a.buf.size == 0 && a.buf.alloc == 0, "acquire leaves the empty array");
    if(has) ENSURES(p[e] == ev, "acquired block holds the elements");
    ENSURES(g_frees == 0 && g_alloc_calls == 0, "acquire: no allocation");
    COVER(ask && n0 > 2, "acquire"); COVER(!ask && n0 > 2, "acquire without size");
}
