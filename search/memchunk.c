/* C28: chunk allocator against a list of handed-out regions. */
#define SEARCH_ALLOC
#include "search.h"
#include <malloc.h>
#include "mem/memchunk.c"

#define MAXR 300
static struct { uint8_t* p; size_t n; uint8_t v; } R[MAXR];
static int nr;
static const size_t SPECIAL[] = { SIZE_MAX, SIZE_MAX - 7, SIZE_MAX - 8, SIZE_MAX - 15, SIZE_MAX / 2, SIZE_MAX / 2 + 1, (size_t)1 << 62, (size_t)1 << 63 };
static void t_memchunk(void)
{
    static const size_t BS[] = { 0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 32, 100, 1024, 5000 };
    size_t bs = g_small ? BS[choose(6)] : choose(20) == 0 ? SPECIAL[choose(8)] : choose(2) ? BS[choose(14)] : 1 + choose(300), eff = bs ? bs : 1024;
    MEMCHUNK c; if(choose(2)) memchunk_init(&c, bs); else { MEMCHUNK z = MEMCHUNK_INITIALIZER(bs); c = z; }
    int rounds = g_small ? 1 : 1 + choose(2), faulty = g_small ? choose(2) : choose(3) == 0; live_blocks = 0;
    for(int rd = 0; rd < rounds; rd++) {
        describe("%sblock_size=%zu", rd ? "after fini: " : "", bs); nr = 0;
        int ops = g_small ? 4 : 1 + choose(80);
        for(int o = 0; o < ops && nr < MAXR; o++) {
            size_t n = 0;
            if(g_small) { unsigned k = choose(8); n = k < 6 ? k : k == 6 ? eff : SPECIAL[0]; }
            else switch(choose(8)) { case 0: n = choose(8); break; case 1: n = eff / 4 + choose(3); break; case 2: n = eff > 4096 ? 3 : eff - choose(2); break;
                case 3: n = c.head && c.free_off <= eff ? eff - c.free_off + choose(3) - 1 : choose(50); if(n == SIZE_MAX) n = 0; break; case 4: n = SPECIAL[choose(8)] - choose(3); break;
                case 5: n = choose(3000); break; default: n = choose(eff < 1000 ? (uint32_t)eff + 2 : 60); break; }
            fail_at = faulty && choose(2) ? 0 : -1; long calls = alloc_count, lb = live_blocks; MEMCHUNK old = c;
            uint8_t* p = memchunk_alloc(&c, n);
            if(nr < 20) describe("alloc(%zu)=%s", n, p ? "ok" : "NULL");
            CHECK(c.block_size == eff, "the block size stays");
            if(p == NULL) {
                CHECK(n > ((size_t)1 << 34) || eff > ((size_t)1 << 34) || (faulty && alloc_count > calls), "fails only for lack of memory");
                CHECK(!memcmp(&c, &old, sizeof c) && live_blocks == lb, "a failed request changes nothing");
            } else {
                CHECK(n <= ((size_t)1 << 34), "requests that cannot be satisfied return nothing");
                uint8_t v = (uint8_t)(o * 7 + 1); if(n) memset(p, v, n);            /* address sanitizer: usable at full size */
                CHECK(n == 0 || p + n <= (uint8_t*)&c || (uint8_t*)(&c + 1) <= p, "disjoint from the allocator");
                for(int i = 0; i < nr; i++) CHECK(n == 0 || R[i].n == 0 || p + n <= R[i].p || R[i].p + R[i].n <= p, "disjoint from every block handed out before");
                for(MEMCHUNK_BLOCK* b = c.head; b; b = b->next) CHECK(n == 0 || p + n <= (uint8_t*)b || (uint8_t*)(b + 1) <= p, "disjoint from the bookkeeping");
                R[nr].p = p; R[nr].n = n; R[nr].v = v; nr++;
            }
            long nb = 0; for(MEMCHUNK_BLOCK* b = c.head; b; b = b->next) { nb++; CHECK(nb < 1000, "block list ends"); }
            CHECK(nb == live_blocks, "every underlying block is on the list");
            for(int i = 0; i < nr; i++) for(size_t k = 0; k < R[i].n; k++) CHECK(R[i].p[k] == R[i].v, "blocks keep their contents");
        }
        if(nr > 1) nontrivial();
        memchunk_fini(&c);
        CHECK(live_blocks == 0, "teardown frees every underlying block exactly once");
    }
}
static TEST TESTS[] = { { "memchunk", t_memchunk, 400000, 0 }, { 0 } };
