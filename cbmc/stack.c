/* C09: stack operations; typed family selected by -DT=int8 -DTY=int8_t. */
#define STUB_LIBC
#ifdef T
#define STUB_NO_MEMFUNCS        /* constant sizes: exact built-in copies */
#endif
#define NW 1
#include "contract.h"
#include "buffer_contracts.h"
#define CAT_(a, b) a##b
#define CAT(a, b)  CAT_(a, b)
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"

static STACK s; static BUFFER old; static size_t k; static uint8_t kv;
static void any_stack(void)       /* k: arbitrary byte below, with value kv */
{
    size_t i; any_buffer(&s.buf); old = s.buf; k = i; E = k;
    if(k < old.size) kv = BYTES(&old)[k];
}
#define BELOW(lim, name) if(k < (lim)) ENSURES(BYTES(&s.buf)[k] == kv, name)
#define VALID() ENSURES(buf_valid(&s.buf), "stack: valid")
#ifdef T
void unit_typed(void)
{
    TY v; any_stack();
    int r = CAT(stack_push_, T)(&s, v);
    VALID();
    if(r == 0) {
        ENSURES(s.buf.size == old.size + sizeof(TY), "push: adds one item");
        BELOW(old.size, "push: what lies below is unchanged");
        BUFFER mid = s.buf;
        ENSURES(CAT(stack_peek_, T)(&s) == v, "peek returns the pushed value");
        ENSURES(SAME(s.buf, mid), "peek changes nothing");
        ENSURES(stack_size(&s) == s.buf.size && !stack_is_empty(&s), "size and emptiness");
        BELOW(old.size, "peek: what lies below is unchanged");
        TY w = CAT(stack_pop_, T)(&s);
        VALID();
        ENSURES(w == v, "pop returns the pushed value");
        ENSURES(s.buf.size == old.size, "pop: restores the size");
        BELOW(old.size, "pop: restores what lies below");
        COVER(k < old.size && s.buf.size > 100, "push and pop");
    } else {
        ENSURES(r == -1, "push returns 0 or -1");
        ENSURES(SAME(s.buf, old), "push: failure leaves the stack unchanged");
        BELOW(old.size, "push: failure leaves the contents unchanged");
        ENSURES(g_fail > 0, "push: fails only for lack of memory");
        COVER(1, "push fails");
    }
}
/* pop and peek of whatever bytes are on top (mixed widths) */
void unit_typed_top(void)
{
    any_stack(); REQUIRES(old.size >= sizeof(TY));
    TY top = *(TY*)(BYTES(&old) + (old.size - sizeof(TY)));
    ENSURES(CAT(stack_peek_, T)(&s) == top, "peek returns the top item");
    ENSURES(SAME(s.buf, old), "peek changes nothing");
    ENSURES(CAT(stack_pop_, T)(&s) == top, "pop returns the top item");
    VALID();
    ENSURES(s.buf.size == old.size - sizeof(TY), "pop: removes exactly the top item");
    BELOW(old.size - sizeof(TY), "pop: what lies below is unchanged");
    COVER(k + 1 == old.size - sizeof(TY), "pop leaves items");
    COVER(old.size == sizeof(TY), "pop empties");
}
#else
void unit_push_raw(void)
{
    any_stack(); size_t n;
    uint8_t* p = stack_push_raw(&s, n);
    VALID();
    if(p != NULL) {
        ENSURES(s.buf.size - old.size == n && p == BYTES(&s.buf) + old.size, "push_raw: room on top");
        BELOW(old.size, "push_raw: what lies below is unchanged");
        COVER(n > 10 && k < old.size, "push_raw");
    } else {
        ENSURES(SAME(s.buf, old), "push_raw: failure changes nothing"); BELOW(old.size, "push_raw: failure changes nothing");
        ENSURES(g_fail > 0 || n > SIZE_MAX / 4, "push_raw: fails only for lack of memory"); COVER(1, "push_raw fails");
    }
}
void unit_push(void)
{
    any_stack(); size_t n, j; REQUIRES(n <= MAX_OBJECT && j < n);
    uint8_t* d = stub_must_malloc(n); uint8_t jv = d[j];
    if(nondet_bool()) E = old.size + j;      /* observe a byte below, or a new one */
    int r = stack_push(&s, d, n);
    VALID();
    if(r == 0) {
        ENSURES(s.buf.size - old.size == n, "push: adds the block");
        if(E == k) BELOW(old.size, "push: what lies below is unchanged");
        if(E == old.size + j) ENSURES(BYTES(&s.buf)[old.size + j] == jv, "push: the block is on top");
        ENSURES(d[j] == jv, "push: source unchanged");
        COVER(E == k && k < old.size, "push below"); COVER(E == old.size + j && j > 20, "push block");
    } else {
        ENSURES(r == -1 && SAME(s.buf, old), "push: failure changes nothing"); BELOW(old.size, "push: failure changes nothing"); COVER(1, "push fails");
    }
}
void unit_peek_pop(void)
{
    any_stack(); size_t n, j; _Bool pop; REQUIRES(n <= old.size && old.data != NULL);
    ENSURES(stack_peek_raw(&s, n) == BYTES(&old) + (old.size - n), "peek_raw points at the top block");
    REQUIRES(n > 0);
    uint8_t* d = stub_must_malloc(n); REQUIRES(j < n); uint8_t top = BYTES(&old)[old.size - n + j];
    W[0] = j;
    if(pop) stack_pop(&s, d, n); else stack_peek(&s, d, n);
    VALID();
    ENSURES(d[j] == top, "peek, pop: every byte of the top block");
    ENSURES(s.buf.size == (pop ? old.size - n : old.size), "pop removes exactly the block, peek nothing");
    if(!pop) ENSURES(SAME(s.buf, old), "peek changes nothing");
    BELOW(pop ? old.size - n : old.size, "peek, pop: what lies below is unchanged");
    COVER(pop && n > 20 && k < old.size - n, "pop"); COVER(!pop && n > 20, "peek");
}
void unit_pop_raw(void)
{
    any_stack(); size_t n; REQUIRES(n <= old.size && old.data != NULL);
    void* p = stack_pop_raw(&s, n);
    ENSURES(p == BYTES(&old) + (old.size - n), "pop_raw points at the popped block");
    ENSURES(s.buf.size == old.size - n && s.buf.data == old.data && s.buf.alloc == old.alloc, "pop_raw removes exactly the block");
    BELOW(old.size - n, "pop_raw: what lies below is unchanged");
    COVER(n > 3 && k < old.size - n, "pop_raw");
}
void unit_misc(void)
{
    STACK i, j = STACK_INITIALIZER; stack_init(&i);
    ENSURES(i.buf.data == NULL && i.buf.size == 0 && i.buf.alloc == 0 && j.buf.data == NULL && j.buf.size == 0 && j.buf.alloc == 0, "init gives the empty stack");
    any_stack();
    ENSURES(stack_size(&s) == old.size && (stack_is_empty(&s) != 0) == (old.size == 0), "size and emptiness");
    ENSURES(stack_data(&s) == old.data && stack_const_data(&s) == old.data, "data accessors");
    STACK o; any_buffer(&o.buf); BUFFER oo = o.buf; stack_swap(&s, &o);
    ENSURES(SAME(s.buf, oo) && SAME(o.buf, old), "swap exchanges the complete state");
    size_t sz, s0 = sz; _Bool ask; void* p = stack_acquire(&o, ask ? &sz : NULL);
    ENSURES(p == old.data && sz == (ask ? old.size : s0) && o.buf.data == NULL && o.buf.size == 0 && o.buf.alloc == 0, "acquire hands over the contents");
    size_t f = g_frees; _Bool clr; if(clr) { stack_clear(&s); ENSURES(s.buf.size == 0 && s.buf.data == NULL, "clear empties the stack"); }
    else { stack_fini(&s); ENSURES(g_frees - f == (oo.data != NULL), "fini releases the block"); }
    COVER(ask && old.size > 3 && oo.size > 3, "misc");
}
#endif
