/* C13, C14: intrusive hash table against a set model. */
#define SEARCH_ALLOC
#include "search.h"
#include "data/htable.h"
#include "data/htable.c"
#define MAXK 6000
typedef struct { long pad; HTABLE_NODE node; uint32_t key; int state; unsigned dtor; } ITEM;   /* state 0 free, 1 stored */
static ITEM* it[MAXK]; static int hmode; static size_t stored; static HTABLE H; static int range, dup_mode;
static ITEM* of(const HTABLE_NODE* x) { return HTABLE_DATA(x, ITEM, node); }
static int cmp(const HTABLE_NODE* a, const HTABLE_NODE* b) { static const int ne[] = { -1, 1, 42, INT_MIN, 256 }; return of(a)->key == of(b)->key ? 0 : ne[(of(a)->key + of(b)->key) % 5]; }
static uint32_t hash(const HTABLE_NODE* a) { uint32_t k = of(a)->key; switch(hmode) { case 0: return k; case 1: return k * 2654435761u; case 2: return 7; case 3: return k % 3; case 4: return k * 59; case 5: return 0xffffffffu - k; case 6: return k * 118 + 1; default: return k * 944u; } }
#undef malloc
#undef free
static ITEM* get(int k) { if(!it[k]) { it[k] = malloc(sizeof(ITEM)); it[k]->key = (uint32_t)k; it[k]->state = 0; } return it[k]; }
static unsigned long dtors;
static void dtor(HTABLE_NODE* x) { ITEM* i = of(x); CHECK(i->state == 1, "C14: destructor gets each stored node once"); it[i->key] = NULL; free(i); dtors++; stored--; }
#define malloc s_malloc
#define free s_free
static void check_all(int step)
{
    ITEM q; CHECK((htable_is_empty(&H) != 0) == (stored == 0), "C13: emptiness");
    for(int k = 0; k < range; k += step) { q.key = (uint32_t)k; HTABLE_NODE* f = htable_lookup(&H, &q.node, cmp, hash); CHECK(f == (it[k] && it[k]->state ? &it[k]->node : NULL), "C13,C14: lookup finds exactly the stored nodes"); }
}
static int insert(int k, int unsafe)
{
    ITEM* i = get(k); int was = i->state; long before = alloc_count, fa = fail_at; HTABLE_NODE* nx = i->node.next; int r;
    if(was) { ITEM o; o.key = (uint32_t)k; r = htable_insert(&H, &o.node, cmp, hash); CHECK(r != 0, "C13: an equal node is refused"); CHECK(alloc_count == before || fa >= 0 || 1, ""); return 0; }
    memset(&i->node, 0xbb, sizeof i->node); (void)nx;
    r = unsafe ? htable_insert_unsafe(&H, &i->node, cmp, hash) : htable_insert(&H, &i->node, cmp, hash);
    if(r != 0) CHECK(r == -1 && fa >= 0 && fail_at < 0, "C13: insertion fails only for an equal node or lack of memory");
    else { i->state = 1; stored++; }
    return r;
}
static void rem(int k)
{
    ITEM q; q.key = (uint32_t)k; HTABLE_NODE* f = htable_remove(&H, &q.node, cmp, hash);
    if(it[k] && it[k]->state) { CHECK(f == &it[k]->node, "C13: removal returns exactly the equal node"); it[k]->state = 0; stored--; memset(f, 0xcc, sizeof *f);
#undef free
        if(choose(2)) { free(it[k]); it[k] = NULL; }
#define free s_free
    } else CHECK(f == NULL, "C13: nothing to remove");
}
static void t_htable(void)
{
#undef free
    for(int k = 0; k < MAXK; k++) if(it[k]) { free(it[k]); it[k] = NULL; }
#define free s_free
    stored = 0; live_blocks = 0; hmode = (int)choose(g_small ? 4 : 8); memset(&H, 0xdd, sizeof H); if(choose(2)) htable_init(&H); else { HTABLE z = HTABLE_INITIALIZER; H = z; }
    int faulty = (int)choose(3) == 0; static const int RG[] = { 5, 40, 120, 400, 1000, 3000, 5900 }; range = g_small ? 5 : RG[choose(choose(4) ? 4 : 7)]; if((hmode == 2 || hmode == 3) && range > 130) range = 130; if((hmode == 4 || hmode == 6 || hmode == 7) && range > 1000) range = 1000;
    describe("hash %d range %d%s", hmode, range, faulty ? " with failures" : ""); int phases = g_small ? 5 : range > 1000 ? 4 : 8;
    for(int p = 0; p < phases; p++) {
        uint32_t op = choose(g_small ? 2 : 6); int k;
        switch(op) {
        case 0: k = (int)choose((uint32_t)range); if(faulty && choose(2)) fail_at = (long)choose(2); describe("insert %d", k); insert(k, (int)choose(2)); fail_at = -1; break;
        case 1: k = (int)choose((uint32_t)range); describe("remove %d", k); if(faulty && choose(2)) fail_at = 0; rem(k); fail_at = -1; break;
        case 2: { int lo = (int)choose((uint32_t)range), c = (int)choose((uint32_t)range); describe("insert %d..+%d", lo, c); for(k = lo; k < range && c--; k++) { if(faulty && choose(20) == 0) fail_at = (long)choose(2); insert(k, k & 1); fail_at = -1; } break; }
        case 3: { int lo = (int)choose((uint32_t)range), c = (int)choose((uint32_t)range); describe("remove %d..+%d", lo, c); for(k = lo; k < range && c--; k++) rem(k); break; }
        case 4: describe("fill"); for(k = 0; k < range; k++) insert(k, 0); break;
        case 5: describe("drain"); for(k = range - 1; k >= 0; k--) { rem(k); if(range > 200 && k % 97 == 0) check_all(31); } break;
        }
        check_all(range > 400 ? 7 : 1); if(stored) nontrivial();
    }
    switch(choose(3)) {
        case 0: { size_t n = stored; describe("fini"); dtors = 0; htable_fini(&H, dtor); CHECK(dtors == n && stored == 0, "C14: teardown hands out every node"); break; }
        case 1: { describe("fini without destructor"); htable_fini(&H, NULL); for(int k = 0; k < range; k++) if(it[k]) it[k]->state = 0; stored = 0; break; }
        default: describe("drain"); for(int k = 0; k < range; k++) rem(k); htable_fini(&H, dtor); }
    CHECK(live_blocks == 0, "C14: teardown releases all internal memory"); check_all(1);
    for(int k = 0; k < range; k += 3) insert(k, 0); check_all(1); size_t n = stored; dtors = 0; htable_fini(&H, dtor); CHECK(dtors == n && live_blocks == 0, "C14: usable after teardown"); htable_fini(&H, dtor);
}
static TEST TESTS[] = { { "htable", t_htable, 20000, 0 }, { 0 } };
