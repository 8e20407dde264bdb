#define SEARCH_ALLOC
#include "search.h"
#include "data/buffer.h"
#include "data/buffer.c"

#define MCAP 70000
static uint8_t M[2][MCAP], MO[MCAP]; static size_t ML[2];
static uint8_t tmp[MCAP];
static BUFFER B[2];

static void check_state(int i, const char* nm)
{
    CHECK(buffer_size(&B[i]) == ML[i], nm);
    CHECK((buffer_is_empty(&B[i]) != 0) == (ML[i] == 0), nm);
    CHECK(B[i].size <= B[i].alloc, "C08: size within capacity");
    CHECK((B[i].alloc == 0) == (B[i].data == NULL), "C08: capacity zero exactly without a block");
    if(B[i].alloc) {
        /* the block really has that capacity (ASan checks the store), and free room is writable */
        volatile uint8_t* p = (volatile uint8_t*)B[i].data; uint8_t c = p[B[i].alloc - 1]; p[B[i].alloc - 1] = c;
    }
    if(ML[i]) CHECK(memcmp(B[i].data, M[i], ML[i]) == 0, nm);
    CHECK(buffer_data(&B[i]) == B[i].data && buffer_const_data(&B[i]) == B[i].data, "C08: data accessors");
}
static size_t huge_size(size_t sz)
{
    switch(choose(6)) { case 0: return SIZE_MAX; case 1: return SIZE_MAX - sz; case 2: return SIZE_MAX - sz + 1 + choose(4);
        case 3: return SIZE_MAX / 2 + choose(3); case 4: return SIZE_MAX - 15 - choose(64); default: return ((size_t)1 << 63) - sz - choose(2); }
}
static void m_insert(int i, size_t off, const uint8_t* d, size_t n)
{ memmove(M[i]+off+n, M[i]+off, ML[i]-off); memcpy(M[i]+off, d, n); ML[i] += n; }

static void seq(int nops, int big)
{
    for(int i = 0; i < 2; i++) { buffer_init(&B[i]); ML[i] = 0; }
    live_blocks = 0;
    size_t smax = g_small ? 2 : 40, bmax = big;
    int faulty = g_small ? choose(2) : choose(4) == 0;
    for(int s = 0; s < nops; s++) {
        int i = g_small ? 0 : choose(8) == 7;
        BUFFER old = B[i]; memcpy(MO, M[i], ML[i]);
        uint32_t op = g_small ? choose(6) : choose(14);
        size_t sz = ML[i], off, n;
        fail_at = -1; if(faulty && choose(2)) fail_at = 0;
        long calls = alloc_count;
        switch(op) {
        case 0: case 8: { off = choose(3) == 0 ? sz : choose((uint32_t)sz + 1); n = pick_len(smax, bmax); if(sz + n > MCAP) break;
            for(size_t k = 0; k < n; k++) tmp[k] = fillb();
            describe("insert(%zu,%zu) into %zu%s", off, n, sz, fail_at == 0 ? " [alloc fails]" : "");
            int r = buffer_insert(&B[i], off, tmp, n);
            if(r == 0) { m_insert(i, off, tmp, n); nontrivial(); } else { CHECK(r == -1, "C07: insert returns 0 or -1"); CHECK(faulty && alloc_count > calls, "C07: insert fails only for lack of memory"); CHECK(!memcmp(&old, &B[i], sizeof old), "failed insert leaves the buffer unchanged"); }
            check_state(i, "C07: insert: contents are prefix, new bytes, suffix"); } break;
        case 1: { n = pick_len(smax, bmax); if(n > sz) n = choose(2) ? sz : (sz ? n % sz : 0); off = choose((uint32_t)sz + 1); if(off > sz) off = sz;
            if(choose(8) == 7) n = SIZE_MAX - choose(3) * (off ? off : 1);
            describe("remove(%zu,%zu) from %zu%s", off, n, sz, fail_at == 0 ? " [alloc fails]" : "");
            buffer_remove(&B[i], off, n);
            { size_t m = n < sz - off ? n : sz - off; memmove(M[i]+off, M[i]+off+m, sz-off-m); ML[i] -= m; }
            check_state(i, "C07: remove: prefix followed by what lies beyond the range"); nontrivial(); } break;
        case 2: case 9: { n = pick_len(smax, bmax); if(sz + n > MCAP) break;
            for(size_t k = 0; k < n; k++) tmp[k] = fillb();
            int raw = choose(2); describe("append%s(%zu) to %zu%s", raw ? "_raw" : "", n, sz, fail_at == 0 ? " [alloc fails]" : "");
            int r; if(raw) { uint8_t* p = buffer_append_raw(&B[i], n); r = p ? 0 : -1; if(p) { CHECK(p == (uint8_t*)B[i].data + sz, "C07: append_raw returns the end"); memcpy(p, tmp, n); } } else r = buffer_append(&B[i], tmp, n);
            if(r == 0) m_insert(i, sz, tmp, n); else { CHECK(faulty && alloc_count > calls, "C07: append fails only for lack of memory"); CHECK(!memcmp(&old, &B[i], sizeof old), "failed append leaves the buffer unchanged"); }
            check_state(i, "C07: append: old contents then new"); nontrivial(); } break;
        case 3: { n = g_small ? choose(5) : choose(3) ? choose(100) : choose((uint32_t)bmax);
            describe("realloc(%zu) of %zu%s", n, sz, fail_at == 0 ? " [alloc fails]" : "");
            int r = buffer_realloc(&B[i], n);
            if(r == 0) { if(n < ML[i]) ML[i] = n; CHECK(B[i].alloc == n, "C08: realloc sets the capacity"); }
            else { CHECK(r == -1 && faulty, "C08: realloc fails only for lack of memory"); CHECK(!memcmp(&old, &B[i], sizeof old), "C08: failed realloc leaves the buffer unchanged"); }
            check_state(i, "C08: realloc: keeps contents up to the new capacity"); } break;
        case 4: { n = g_small ? choose(5) : choose(8) == 7 ? huge_size(sz) : choose(300);
            describe("reserve(%zu) of %zu%s", n, sz, fail_at == 0 ? " [alloc fails]" : "");
            int r = buffer_reserve(&B[i], n);
            check_state(i, "C08: reserve: contents unchanged");
            if(r == 0) { CHECK(n <= SIZE_MAX/2, "C08: reserve of an impossible size fails"); CHECK(B[i].alloc - B[i].size >= n, "C08: reserve makes room"); fail_at = 0; calls = alloc_count;
                size_t done = 0; while(done < n) { size_t m = 1 + choose((uint32_t)(n - done)); for(size_t k = 0; k < m; k++) tmp[k] = fillb(); if(ML[i] + m > MCAP) break;
                    CHECK(buffer_append(&B[i], tmp, m) == 0 && alloc_count == calls, "C08: reserved bytes need no allocation"); m_insert(i, ML[i], tmp, m); done += m; }
                check_state(i, "C08: reserve then append"); nontrivial(); }
            else { CHECK(n > SIZE_MAX/4 || faulty, "C08: reserve fails only for lack of memory"); CHECK(!memcmp(&old, &B[i], sizeof old), "C08: failed reserve leaves the buffer unchanged"); } } break;
        case 5: case 10: switch(g_small ? choose(4) : choose(5)) {
            case 0: describe("shrink%s", fail_at == 0 ? " [alloc fails]" : ""); { size_t a0 = B[i].alloc; buffer_shrink(&B[i]); CHECK(B[i].alloc <= a0, "C08: shrink does not raise the capacity"); } check_state(i, "C07,C08: shrink: contents unchanged"); break;
            case 1: describe("clear"); buffer_clear(&B[i]); ML[i] = 0; check_state(i, "C07: clear empties"); break;
            case 2: { size_t as = 77; int ask = choose(2); describe("acquire"); void* p = buffer_acquire(&B[i], ask ? &as : NULL);
                CHECK(p == old.data && as == (ask ? sz : 77), "C08: acquire hands over block and size"); if(sz) CHECK(!memcmp(p, M[i], sz), "C08: acquired contents"); ML[i] = 0; check_state(i, "C08: acquire leaves an empty buffer"); s_free(p); } break;
            case 3: { describe("C08: swap"); BUFFER a = B[0], b = B[1]; buffer_swap(&B[0], &B[1]); CHECK(!memcmp(&a, &B[1], sizeof a) && !memcmp(&b, &B[0], sizeof b), "C08: swap exchanges the complete state");
                buffer_swap(&B[1], &B[0]); CHECK(!memcmp(&a, &B[0], sizeof a) && !memcmp(&b, &B[1], sizeof b), "C08: swap exchanges the complete state"); check_state(0, "C08: swap"); check_state(1, "C08: swap"); } break;
            case 4: if(sz) { size_t k = choose((uint32_t)sz); CHECK(*(uint8_t*)buffer_data_at(&B[i], k) == M[i][k] && *(const uint8_t*)buffer_const_data_at(&B[i], k) == M[i][k], "C07: data_at"); } break; } break;
        case 6: { off = choose((uint32_t)sz + 1); n = pick_len(smax, bmax); if(sz + n > MCAP) break; for(size_t k = 0; k < n; k++) tmp[k] = fillb();
            describe("insert_raw(%zu,%zu) into %zu%s", off, n, sz, fail_at == 0 ? " [alloc fails]" : "");
            uint8_t* p = buffer_insert_raw(&B[i], off, n);
            if(p) { CHECK(p == (uint8_t*)B[i].data + off, "C07: insert_raw returns the gap"); memcpy(p, tmp, n); m_insert(i, off, tmp, n); }
            else { CHECK(faulty, "C07: insert_raw fails only for lack of memory"); CHECK(!memcmp(&old, &B[i], sizeof old), "failed insert leaves the buffer unchanged"); }
            check_state(i, "C07: insert_raw"); } break;
        case 7: { n = huge_size(sz); if(n < SIZE_MAX/4) break; off = choose((uint32_t)sz + 1); describe("insert_raw(%zu, %zu) into %zu", off, n, sz);
            void* p = buffer_insert_raw(&B[i], off, n); CHECK(p == NULL, "request for an impossible size fails"); CHECK(!memcmp(&old, &B[i], sizeof old), "failed insert leaves the buffer unchanged"); check_state(i, "failed insert leaves contents"); nontrivial(); } break;
        default: break;
        }
    }
    fail_at = -1;
    buffer_fini(&B[0]); buffer_fini(&B[1]);
    CHECK(live_blocks == 0, "every block is released exactly once");
}
static void t_seq(void) { seq(g_small ? 3 : 30, 600); }
static void t_big(void) { if(g_small) { seq(1, 4); return; } seq(10, 6000); }
static TEST TESTS[] = { { "edits", t_seq, 200000, 0 }, { "big_edits", t_big, 1000, 0 }, { 0 } };
