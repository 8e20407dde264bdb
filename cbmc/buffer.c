#define STUB_LIBC
#include "contract.h"
#include "data/buffer.h"
#include "data/buffer.c"

/* -DPART splits a unit by where the arbitrary old byte k lies:
 * 0 before the edited range, 1 behind it, 2 not tracked (new bytes, sizes, frame) */
#ifndef PART
#define PART 0
#endif
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"
#define BYTES(b)  ((uint8_t*)(b)->data)
/* Representation invariant of BUFFER. */
static int buf_valid(const BUFFER* b)
{
    if(b->data == NULL)
        return b->size == 0 && b->alloc == 0;
    return b->alloc > 0 && b->size <= b->alloc && __CPROVER_rw_ok(b->data, b->alloc) &&
           __CPROVER_POINTER_OFFSET(b->data) == 0 && __CPROVER_OBJECT_SIZE(b->data) == b->alloc;
}
static void any_buffer(BUFFER* b)
{
    if(nondet_bool()) { b->data = NULL; b->size = 0; b->alloc = 0; return; }
    b->alloc = nondet_size(); b->size = nondet_size();
    REQUIRES(b->alloc > 0 && b->alloc <= MAX_OBJECT && b->size <= b->alloc);
    b->data = stub_must_malloc(b->alloc);
}
#define SAME(a,b) ((a).data == (b).data && (a).size == (b).size && (a).alloc == (b).alloc)

/* insert: old prefix, the new bytes, old suffix; failure changes nothing */
static void insert_generic(int variant)
{
    BUFFER b, old; any_buffer(&b); old = b;
    size_t off = nondet_size(), n = nondet_size(), k = nondet_size(), j = nondet_size();
    REQUIRES(off <= b.size);
    uint8_t v = 0, nv = 0; uint8_t* src = NULL;
    if(variant >= 2) off = b.size;
    int has = k < b.size;                       /* arbitrary old byte k */
    if(has) v = BYTES(&b)[k];
    size_t k2 = k < off ? k : k + n;            /* where it has to be afterwards */
#if PART == 0
    REQUIRES(has && k < off); W[0] = k;
#elif PART == 1
    REQUIRES(has && k >= off); W[0] = k; W[1] = k2;
#else
    has = 0; W[0] = off + j;
#endif
    void* p; int ret;
    if(variant == 1 || variant == 3) {
        REQUIRES(n <= MAX_OBJECT);              /* the caller really has n bytes */
        src = stub_must_malloc(n);
        if(j < n) nv = src[j];
        ret = variant == 1 ? buffer_insert(&b, off, src, n) : buffer_append(&b, src, n);
        ENSURES(ret == 0 || ret == -1, "C07: insert: returns 0 or -1");
    } else {
        p = variant == 0 ? buffer_insert_raw(&b, off, n) : buffer_append_raw(&b, n);
        ret = p != NULL ? 0 : -1;
    }
    ENSURES(buf_valid(&b), "C08: insert: size within capacity, capacity within the allocated block");
    if(ret == 0) {
        ENSURES(n <= SIZE_MAX - old.size && b.size == old.size + n, "C07: insert: size grows by n");
        if(has) ENSURES(BYTES(&b)[k2] == v, "C07: insert: every old byte kept in order around the gap");
        if(variant == 1 || variant == 3) {
#if PART == 2
            if(j < n) ENSURES(BYTES(&b)[off + j] == nv, "C07: insert: new bytes are in place");
#endif
        }
        else ENSURES(p == BYTES(&b) + off, "C07: insert_raw: returns the gap");
        COVER(n > 1 && g_alloc_calls == 0, "insert without allocation");
        COVER(g_alloc_calls > 0 && old.size > 100, "insert grows");
    } else {
        ENSURES(SAME(b, old), "insert: failure leaves the buffer unchanged");
        if(has) ENSURES(BYTES(&b)[k] == v, "insert: failure leaves the contents unchanged");
        ENSURES(g_alloc_calls > 0 || n > SIZE_MAX / 4, "C07: insert: fails only for lack of memory");
        COVER(1, "insert fails");
    }
}
void unit_insert_raw(void) { insert_generic(0); }
void unit_insert(void) { insert_generic(1); }
void unit_append_raw(void) { insert_generic(2); }
void unit_append(void) { insert_generic(3); }

static void remove_generic(int clear)
{
    BUFFER b, old; any_buffer(&b); old = b;
    size_t off = nondet_size(), n = nondet_size(), k = nondet_size();
    if(clear) { off = 0; n = b.size; }
    REQUIRES(off <= b.size);
    size_t m = n < b.size - off ? n : b.size - off;
    size_t src = k < off ? k : k + m;
    int has = k < b.size - m;
    uint8_t v = 0;
    if(has) v = BYTES(&b)[src];
#if PART == 0
    REQUIRES(has && k < off); W[0] = k;
#elif PART == 1
    REQUIRES(has && k >= off); W[0] = k; W[1] = src;
#else
    has = 0;
#endif
    if(clear) buffer_clear(&b); else buffer_remove(&b, off, n);
    ENSURES(buf_valid(&b), "C08: remove: size within capacity, capacity within the allocated block");
    ENSURES(b.size == old.size - m, "C07: remove: size shrinks by the removed bytes");
    if(has) ENSURES(BYTES(&b)[k] == v, "C07: remove: prefix followed by what lies beyond the range");
    if(b.size == 0) ENSURES(b.data == NULL, "C08: remove: empty buffer owns no memory");
    COVER(m > 0 && g_alloc_calls > 0 && b.size > 0, "[remove] remove moves and reallocates");
#if PART == 2
    COVER(b.size == 0, "remove empties");
#endif
}
void unit_remove(void) { remove_generic(0); }
void unit_clear(void) { remove_generic(1); }

void unit_realloc(void)
{
    BUFFER b, old; any_buffer(&b); old = b;
    size_t a = nondet_size(), k = nondet_size(); uint8_t v = 0; W[0] = k;
    int has = k < b.size; if(has) v = BYTES(&b)[k];
    int ret = buffer_realloc(&b, a);
    ENSURES(buf_valid(&b), "realloc: valid");
    ENSURES(ret == 0 || ret == -1, "realloc: 0 or -1");
    if(ret == 0) {
        ENSURES(b.alloc == a, "realloc: capacity is the requested one");
        ENSURES(b.size == (old.size < a ? old.size : a), "realloc: truncates only beyond capacity");
        if(has && k < a) ENSURES(BYTES(&b)[k] == v, "realloc: keeps contents");
        COVER(has && a > old.alloc, "realloc grows"); COVER(has && a < old.size, "realloc truncates"); COVER(a == 0, "realloc frees");
    } else {
        ENSURES(SAME(b, old), "realloc: failure changes nothing");
        if(has) ENSURES(BYTES(&b)[k] == v, "realloc: failure keeps contents");
        COVER(1, "realloc fails");
    }
}

void unit_reserve(void)
{
    BUFFER b, old; any_buffer(&b); old = b;
    size_t n = nondet_size(), m = nondet_size(), k = nondet_size(); uint8_t v = 0; W[0] = k;
    int has = k < b.size; if(has) v = BYTES(&b)[k];
    int ret = buffer_reserve(&b, n);
    ENSURES(buf_valid(&b), "reserve: valid");
    ENSURES(b.size == old.size, "reserve: size unchanged");
    ENSURES(ret == 0 || ret == -1, "reserve: 0 or -1");
    if(has) ENSURES(BYTES(&b)[k] == v, "reserve: contents unchanged");
    if(ret == 0) {
        ENSURES(b.alloc >= b.size && b.alloc - b.size >= n, "reserve: room for n more bytes");
        ENSURES(b.alloc >= old.alloc, "reserve: never lowers the capacity");
        size_t calls = g_alloc_calls, bs = b.size;
        if(m <= n && m > 0) {
            void* p = buffer_append_raw(&b, m);
            ENSURES(p != NULL && b.size == bs + m && g_alloc_calls == calls, "reserve: reserved bytes need no further allocation");
            COVER(1, "reserve then append");
        }
    } else {
        ENSURES(SAME(b, old), "reserve: failure changes nothing");
        COVER(1, "reserve fails");
    }
}

void unit_shrink(void)
{
    BUFFER b, old; any_buffer(&b); old = b;
    size_t k = nondet_size(); uint8_t v = 0; W[0] = k;
    int has = k < b.size; if(has) v = BYTES(&b)[k];
    buffer_shrink(&b);
    ENSURES(buf_valid(&b), "shrink: valid");
    ENSURES(b.size == old.size, "shrink: size unchanged");
    ENSURES(b.alloc <= old.alloc, "shrink: capacity not raised");
    if(has) ENSURES(BYTES(&b)[k] == v, "shrink: contents unchanged");
    COVER(b.alloc < old.alloc && b.size > 0, "shrink shrinks");
}

void unit_acquire(void)
{
    BUFFER b, old; any_buffer(&b); old = b;
    size_t sz = nondet_size(), sz0 = sz; _Bool ask = nondet_bool();
    void* p = buffer_acquire(&b, ask ? &sz : NULL);
    ENSURES(p == old.data, "acquire: hands over the block");
    ENSURES(sz == (ask ? old.size : sz0), "acquire: reports the size if asked");
    ENSURES(b.data == NULL && b.size == 0 && b.alloc == 0, "acquire: buffer becomes empty");
    ENSURES(g_frees == 0 && g_alloc_calls == 0, "acquire: no allocation");
    COVER(p != NULL && !ask, "acquire without size");
}

void unit_swap(void)
{
    BUFFER a, b; any_buffer(&a); any_buffer(&b); BUFFER oa = a, ob = b;
    buffer_swap(&a, &b);
    ENSURES(SAME(a, ob) && SAME(b, oa), "swap: exchanges the complete state");
    COVER(oa.size != ob.size && oa.alloc != ob.alloc, "swap of different buffers");
}

void unit_init_access(void)
{
    BUFFER b;
    BUFFER s = BUFFER_INITIALIZER;
    ENSURES(s.data == NULL && s.size == 0 && s.alloc == 0, "static initializer is the empty buffer");
    buffer_init(&b);
    ENSURES(b.data == NULL && b.size == 0 && b.alloc == 0, "init gives the empty buffer");
    any_buffer(&b); BUFFER old = b; size_t k = nondet_size(); REQUIRES(k <= b.size);
    ENSURES(buffer_size(&b) == old.size, "size accessor");
    ENSURES((buffer_is_empty(&b) != 0) == (old.size == 0), "emptiness accessor");
    ENSURES(buffer_data(&b) == old.data && buffer_const_data(&b) == old.data, "data accessors");
    if(b.data != NULL) ENSURES(buffer_data_at(&b, k) == BYTES(&old) + k && buffer_const_data_at(&b, k) == BYTES(&old) + k, "data_at accessors");
    ENSURES(SAME(b, old), "accessors change nothing");
    size_t fr = g_frees;
    buffer_fini(&b);
    ENSURES(g_frees - fr == (old.data != NULL ? 1 : 0), "fini releases the block");
    COVER(old.size > 0, "fini of nonempty");
}
