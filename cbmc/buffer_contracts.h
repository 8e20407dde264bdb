/* The contracts of data/buffer.c, in executable form: callers (stack and array
 * families in data/buffer.h) are checked against these and not against the
 * bodies.  The same pre/postconditions are proved for the bodies by the units in
 * buffer.c.  Contents: the ES bytes at the arbitrary offset E keep their values
 * and move as specified (E, ES are unconstrained symbols in every unit). */
#ifndef BUFFER_CONTRACTS_H
#define BUFFER_CONTRACTS_H
#include "data/buffer.h"
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"
#ifndef ES
#define ES 1
#endif
#define BYTES(b)  ((uint8_t*)(b)->data)
extern size_t E;      /* declared only: arbitrary */
static size_t g_calls_insert, g_fail;

static int buf_valid(const BUFFER* b)
{
    if(b->data == NULL)
        return b->size == 0 && b->alloc == 0;
    return b->alloc > 0 && b->size <= b->alloc && __CPROVER_rw_ok(b->data, b->alloc) &&
           __CPROVER_POINTER_OFFSET(b->data) == 0 && __CPROVER_OBJECT_SIZE(b->data) == b->alloc;
}
static void any_buffer(BUFFER* b)
{
    if(nondet_bool()) { b->data = NULL; b->size = 0; b->alloc = 0; return; }
    b->alloc = nondet_size(); b->size = nondet_size();
    REQUIRES(b->alloc > 0 && b->alloc <= MAX_OBJECT && b->size <= b->alloc);
    b->data = stub_must_malloc(b->alloc);
}
static void fresh(BUFFER* b, size_t size)
{
    size_t a; __CPROVER_assume(a > 0 && a >= size && a <= 2 * MAX_OBJECT);
    b->data = stub_must_malloc(a); b->alloc = a; b->size = size;
}
void* buffer_insert_raw(BUFFER* b, size_t off, size_t n)
{
    BUFFER old = *b;
    __CPROVER_assert(off <= b->size, "REQUIRES buffer_insert_raw: offset within the contents");
    if(n > MAX_OBJECT - b->size || nondet_bool()) { g_fail++; return NULL; }
    fresh(b, old.size + n);
    for(int i = 0; i < ES; i++)
        if(E + i < old.size) __CPROVER_assume(BYTES(b)[E + i < off ? E + i : E + i + n] == BYTES(&old)[E + i]);
    return BYTES(b) + off;
}
int buffer_insert(BUFFER* b, size_t off, const void* data, size_t n)
{
    __CPROVER_assert(n == 0 || __CPROVER_r_ok(data, n), "REQUIRES buffer_insert: data readable");
    size_t k = E - off;      /* also the ES bytes at E if they are among the new ones */
    uint8_t* p = buffer_insert_raw(b, off, n);
    if(p == NULL) return -1;
    for(int i = 0; i < 8; i++) if(i < n) __CPROVER_assume(p[i] == ((const uint8_t*)data)[i]);
    for(int i = 0; i < ES; i++) if(k + i < n) __CPROVER_assume(p[k + i] == ((const uint8_t*)data)[k + i]);
    return 0;
}
void buffer_remove(BUFFER* b, size_t off, size_t n)
{
    BUFFER old = *b;
    __CPROVER_assert(off <= b->size, "REQUIRES buffer_remove: offset within the contents");
    size_t m = n < b->size - off ? n : b->size - off;
    if(b->size == m) { b->data = NULL; b->size = 0; b->alloc = 0; return; }
    fresh(b, old.size - m);
    for(int i = 0; i < ES; i++)
        if(E + i < old.size && (E + i < off || E + i - off >= m)) __CPROVER_assume(BYTES(b)[E + i < off ? E + i : E + i - m] == BYTES(&old)[E + i]);
}
#define SAME(a,b) ((a).data == (b).data && (a).size == (b).size && (a).alloc == (b).alloc)
#pragma CPROVER check pop
#endif
