/* C28: memchunk_init(), memchunk_alloc(), memchunk_fini(). */
#define STUB_LIBC
#define NW 1
#include "contract.h"
#include "cut.h"
#include <stdlib.h>

/* ---- ghost block list for memchunk_fini(): node k of a list of g_N blocks.  Only the
 * current and the next block are materialised; an arbitrary-length list is the
 * ghost length g_N. */
static size_t g_N, g_k;          /* length of the list, position of the block the loop is at */
static void* g_cur;              /* block number g_k (fresh heap object), or NULL if g_k == g_N */
static void* g_next;
#define INV_memchunk_fini_0(P) \
    P(g_k <= g_N, "no block is visited after the last"), \
    P((void*)block == g_cur && (void*)chunk->head == g_cur, "the next block in the list is the one visited"), \
    P((g_k == g_N) == (block == NULL), "the loop ends exactly at the end of the list"), \
    P(g_frees == g_k, "every block visited so far has been freed once")
static void next_block(void);
#define LINKED_memchunk_fini_0 { size_t g_any; g_k = g_any; size_t g_anyf; g_frees = g_k; } REQUIRES(g_k <= g_N); materialise()
#define MEM_memchunk_fini_0 chunk->head = (MEMCHUNK_BLOCK*) g_cur;
#define CUT_LINK_memchunk_fini_0 (MEMCHUNK_BLOCK*) (nondet_bool() ? g_cur : nondet_bool() ? g_next : NULL)
#define GHOST_memchunk_fini_0 next_block()
#define DEC_memchunk_fini_0 (g_N - g_k)
static void materialise(void);

#include CUTSRC

/* the block number g_k, with its link to block number g_k + 1 */
static void materialise(void)
{
    if(g_k == g_N) { g_cur = NULL; return; }
    size_t n; REQUIRES(n >= sizeof(MEMCHUNK_BLOCK) && n <= MAX_OBJECT);
    MEMCHUNK_BLOCK* b = stub_must_malloc(n);
    if(g_k + 1 < g_N) { size_t m; REQUIRES(m >= sizeof(MEMCHUNK_BLOCK) && m <= MAX_OBJECT); g_next = stub_must_malloc(m); }
    else g_next = NULL;
    b->next = g_next;
    g_cur = b;
}
/* after an iteration: exactly the current block was freed, no other one */
static void next_block(void)
{
    INVARIANT(g_frees == g_k + 1, "memchunk_fini_0: one block is freed per iteration");
    INVARIANT(g_last_freed == g_cur, "memchunk_fini_0: the block visited is freed");
    INVARIANT(g_next == NULL || __CPROVER_w_ok(g_next, 1), "memchunk_fini_0: the following block is not freed");
    g_k++;
    g_cur = g_next;
}

/* The representation invariant: no head block yet, or free_off lies within the
 * block size and the head block has room for all of it unless it is full. */
static int valid(const MEMCHUNK* c)
{
    if(c->head == NULL) return 1;
    if(c->free_off > c->block_size || !__CPROVER_w_ok(c->head, sizeof(MEMCHUNK_BLOCK)) || __CPROVER_POINTER_OFFSET(c->head) != 0) return 0;
    return c->free_off == c->block_size ||
           (c->block_size <= MAX_OBJECT && __CPROVER_OBJECT_SIZE(c->head) >= sizeof(MEMCHUNK_BLOCK) + c->block_size);
}

static MEMCHUNK c, old;
static uint8_t *r1; static size_t r1n;        /* an arbitrary region handed out earlier */
static size_t rx; static uint8_t rxv; static MEMCHUNK_BLOCK* head_next;
static void any(void)
{
    size_t bs, fo; int h = nondet_bool();
    REQUIRES(bs > 0);                          /* memchunk_init() turns 0 into the default */
    c.block_size = bs; c.free_off = fo; c.head = NULL;
    if(h) {
        size_t n; REQUIRES(n >= sizeof(MEMCHUNK_BLOCK) && n <= MAX_OBJECT);
        c.head = stub_must_malloc(n);
        c.head->next = nondet_bool() ? NULL : stub_must_malloc(sizeof(MEMCHUNK_BLOCK));
        head_next = c.head->next;
    }
    REQUIRES(valid(&c));
    old = c;
    /* R: in the head block below free_off, in the head block if that is a dedicated one, or in another block */
    size_t n, off; REQUIRES(n <= MAX_OBJECT && off <= MAX_OBJECT);
    if(c.head != NULL && nondet_bool()) {
        size_t end = c.free_off == c.block_size ? __CPROVER_OBJECT_SIZE(c.head) : sizeof(MEMCHUNK_BLOCK) + c.free_off;
        REQUIRES(off >= sizeof(MEMCHUNK_BLOCK) && off <= end && n <= end - off);
        r1 = (uint8_t*)c.head + off;
    } else {
        size_t m; REQUIRES(m <= MAX_OBJECT && off >= sizeof(MEMCHUNK_BLOCK) && off <= m && n <= m - off);
        r1 = (uint8_t*)stub_must_malloc(m) + off;
    }
    r1n = n;
    size_t q; rx = q;
    if(rx < r1n) rxv = r1[rx];
}
static int disjoint(const void* a, size_t an, const void* b, size_t bn)
{
    if(an == 0 || bn == 0 || !__CPROVER_same_object(a, b)) return 1;
    size_t x = __CPROVER_POINTER_OFFSET(a), y = __CPROVER_POINTER_OFFSET(b);
    return x + an <= y || y + bn <= x;
}

void unit_alloc(void)
{
    any();
    size_t size;
    uint8_t* p = memchunk_alloc(&c, size);
    if(rx < r1n) ENSURES(__CPROVER_r_ok(r1, r1n) && r1[rx] == rxv, "an earlier block stays valid and unchanged");
    ENSURES(g_frees == 0, "nothing is freed before teardown");
    ENSURES(g_allocs <= 1, "at most one underlying block per request");
    ENSURES(c.block_size == old.block_size, "the block size stays");
    if(p == NULL) {
        ENSURES(c.head == old.head && c.free_off == old.free_off, "a failed request changes nothing");
        ENSURES(old.head == NULL || old.head->next == head_next, "a failed request changes nothing in the list");
        ENSURES(g_allocs == 0, "a failed request leaks nothing");
        /* it fails only for lack of memory: malloc() failed, or no object of the size can exist */
        ENSURES(g_alloc_calls == 1 || size > MAX_OBJECT || old.block_size > MAX_OBJECT, "fails only for lack of memory");
        ENSURES(old.head == NULL || size > old.block_size - old.free_off, "never fails if the head block has room");
        COVER(g_alloc_calls == 0 && size > MAX_OBJECT, "impossible size");
        COVER(g_alloc_calls == 1, "out of memory");
    } else {
        ENSURES(size == 0 || __CPROVER_w_ok(p, size), "the whole requested size is usable");
        ENSURES(size <= MAX_OBJECT, "requests that cannot be satisfied return nothing");
        ENSURES(valid(&c), "representation invariant");
        ENSURES(disjoint(p, size, r1, r1n), "disjoint from every block handed out before");
        ENSURES(c.head != NULL, "there is a head block");
        /* bookkeeping: the headers of all blocks, here head, head->next */
        ENSURES(disjoint(p, size, c.head, sizeof(MEMCHUNK_BLOCK)), "disjoint from the header of the head block");
        if(c.head->next != NULL) ENSURES(disjoint(p, size, c.head->next, sizeof(MEMCHUNK_BLOCK)), "disjoint from the header of the second block");
        ENSURES(!__CPROVER_same_object(p, &c), "disjoint from the allocator itself");
        if(c.head != NULL && c.free_off < c.block_size && __CPROVER_same_object(p, c.head))
            ENSURES(__CPROVER_POINTER_OFFSET(p) + size <= sizeof(MEMCHUNK_BLOCK) + c.free_off, "handed-out bytes are never offered again");
        if(g_allocs == 0) {
            ENSURES(c.head == old.head && c.head->next == head_next, "list of blocks unchanged");
            ENSURES(__CPROVER_same_object(p, c.head) && size <= c.free_off - old.free_off, "served from the head block");
            COVER(size > 3, "served from the head block");
        } else if(c.head == old.head) {
            ENSURES(c.head->next != NULL && c.head->next != head_next && c.head->next->next == head_next, "dedicated block is linked into the list");
            ENSURES(__CPROVER_same_object(p, c.head->next), "served from the dedicated block");
            ENSURES(c.free_off == old.free_off, "dedicated block leaves the head block as it was");
            COVER(size > 3, "dedicated block");
        } else {
            ENSURES(c.head->next == old.head, "new block is linked into the list");
            ENSURES(old.head == NULL || old.head->next == head_next, "rest of the list unchanged");
            ENSURES(__CPROVER_same_object(p, c.head), "served from the new block");
            COVER(old.head != NULL, "new head block"); COVER(old.head == NULL && size > c.block_size, "dedicated block first");
        }
    }
}

void unit_init(void)
{
    size_t bs;
    memchunk_init(&c, bs);
    ENSURES(c.head == NULL && c.block_size == (bs ? bs : 1024) && valid(&c), "init: valid, empty, zero means the default");
    MEMCHUNK d = MEMCHUNK_INITIALIZER(bs);
    ENSURES(d.head == NULL && d.block_size == (bs ? bs : 1024) && valid(&d), "initializer: valid, empty, zero means the default");
    size_t x, y;
    MEMCHUNK e = MEMCHUNK_INITIALIZER(x & y);
    ENSURES(e.block_size == ((x & y) ? (x & y) : 1024), "initializer: argument expression");
    MEMCHUNK f = MEMCHUNK_INITIALIZER(x ? y : bs);
    size_t want = x ? y : bs;
    ENSURES(f.block_size == (want ? want : 1024), "initializer: argument expression");
    ENSURES(g_allocs == 0, "init allocates nothing");
    COVER(bs == 0, "default"); COVER(bs == 1, "tiny");
}

void unit_fini(void)
{
    size_t n, bs, fo; 
    REQUIRES(n < MAX_OBJECT && bs > 0);
#ifdef BOUND
    REQUIRES(n <= BOUND);
    MEMCHUNK_BLOCK *nx = NULL;
    for(size_t i = 0; i < BOUND; i++) if(i < n) { MEMCHUNK_BLOCK* b = stub_must_malloc(sizeof(MEMCHUNK_BLOCK) + 8); b->next = nx; nx = b; }
    c.head = nx;
#else
    g_N = n; g_k = 0; materialise();
    c.head = g_cur; 
#endif
    c.block_size = bs; c.free_off = fo; REQUIRES(fo <= bs);
    memchunk_fini(&c);
    ENSURES(g_frees == n, "teardown frees every underlying block exactly once");
    ENSURES(c.head == NULL && c.block_size == bs, "teardown leaves an empty allocator with its block size");
    ENSURES(valid(&c), "teardown leaves an allocator that can be used again");
    COVER(n == 0, "empty"); COVER(n > 1, "several blocks");
}
