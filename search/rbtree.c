/* C15-C18: intrusive red-black tree against an ordered set model. */
#include "search.h"
#include "data/rbtree.h"
#include "data/rbtree.c"
#define MAXK 3000
typedef struct { int pad; RBTREE_NODE node; int key; int in; } ITEM;
static ITEM* it[MAXK]; static RBTREE T_; static int range, stored, cmode; static long calls; static uint8_t* hid[MAXK];
static ITEM* of(const RBTREE_NODE* x) { return RBTREE_DATA(x, ITEM, node); }
static int cmp(const RBTREE_NODE* a, const RBTREE_NODE* b)
{
    calls++; int x = of(a)->key, y = of(b)->key, c = (x > y) - (x < y);
    switch(cmode) { case 0: return c; case 1: return -c; case 2: return c * 1000 - (c < 0); case 3: return c < 0 ? INT_MIN : c > 0 ? INT_MAX : 0; default: return x - y; }
}
static ITEM* get(int k) { if(!it[k]) { it[k] = malloc(sizeof(ITEM)); it[k]->key = k; it[k]->in = 0; } return it[k]; }
#ifdef WHITE
static int bh(RBTREE_NODE* n) { if(!n) return 1; RBTREE_NODE* l = LEFT(n), * r = RIGHT(n); if(IS_RED(n) && ((l && IS_RED(l)) || (r && IS_RED(r)))) return -1; int a = bh(l), b = bh(r); return a < 0 || a != b ? -1 : a + !IS_RED(n); }
#endif
static int dirk(int i) { return cmode == 1 ? range - 1 - i : i; }    /* i-th key in comparator order */
static int lg(int n) { int l = 0; while((1 << l) < n + 1) l++; return l; }
static void check_all(int full)
{
    RBTREE_CURSOR c, c0; ITEM q; CHECK((rbtree_is_empty(&T_) != 0) == (stored == 0), "C15: emptiness");
#ifdef WHITE
    CHECK(!T_.root || !IS_RED(T_.root), "C16: black root"); CHECK(bh(T_.root) > 0, "C16: red-black tree");
#endif
    if(!full) return;
    for(int k = 0; k < range; k++) { q.key = k; calls = 0; RBTREE_NODE* f = rbtree_lookup(&T_, &q.node, cmp); CHECK(f == (it[k] && it[k]->in ? &it[k]->node : NULL), "C15: lookup finds exactly the stored nodes"); CHECK(calls <= 2 * lg(stored), "C16: height at most 2*log2(n+1)"); }
    memset(&c, 0x33, sizeof c); RBTREE_NODE* x = rbtree_head(&T_, &c); int cnt = 0;
    for(int i = 0; i < range; i++) { int k = dirk(i); if(!it[k] || !it[k]->in) continue; CHECK(x == &it[k]->node, "C17: forward order"); CHECK(rbtree_current(&c) == x, "C17: current node"); cnt++; RBTREE_NODE* y = rbtree_next(&c); if(y == NULL) { CHECK(cnt == stored, "C17: forward complete"); CHECK(rbtree_current(&c) == x && rbtree_next(&c) == NULL && rbtree_current(&c) == x, "C17: stays at the end"); } x = y; }
    CHECK(x == NULL && cnt == stored, "C17: forward complete");
    memset(&c, 0x33, sizeof c); x = rbtree_tail(&T_, &c); cnt = 0;
    for(int i = range - 1; i >= 0; i--) { int k = dirk(i); if(!it[k] || !it[k]->in) continue; CHECK(x == &it[k]->node, "C17: backward order"); CHECK(rbtree_current(&c) == x, "C17: current node"); cnt++; RBTREE_NODE* y = rbtree_prev(&c); if(y == NULL) { CHECK(cnt == stored, "C17: backward complete"); CHECK(rbtree_current(&c) == x && rbtree_prev(&c) == NULL && rbtree_current(&c) == x, "C17: stays at the start"); } x = y; }
    CHECK(x == NULL && cnt == stored, "C17: backward complete");
    /* from a found key, a random walk */
    q.key = (int)choose((uint32_t)range); memset(&c, 0x33, sizeof c); x = rbtree_lookup_ex(&T_, &q.node, cmp, &c); CHECK(x == rbtree_lookup(&T_, &q.node, cmp), "C17: lookup with a cursor finds the same node");
    if(x) { int i = dirk(q.key), steps = g_small ? 4 : 30; CHECK(rbtree_current(&c) == x, "C17: current after lookup");
        while(steps--) { int fwd = (int)choose(2), j = i; do j += fwd ? 1 : -1; while(j >= 0 && j < range && !(it[dirk(j)] && it[dirk(j)]->in)); x = fwd ? rbtree_next(&c) : rbtree_prev(&c);
            if(j < 0 || j >= range) { CHECK(x == NULL, "C17: nothing past the end"); CHECK(rbtree_current(&c) == &it[dirk(i)]->node, "C17: cursor stays"); } else { CHECK(x == &it[dirk(j)]->node && rbtree_current(&c) == x, "C17: neighbour in order"); i = j; } } nontrivial(); 
        RBTREE e; rbtree_init(&e); RBTREE_NODE* cu = rbtree_current(&c); CHECK(rbtree_head(&e, &c) == NULL && rbtree_current(&c) == cu && rbtree_tail(&e, &c) == NULL && rbtree_current(&c) == cu, "C17: head of an empty tree leaves the cursor"); }
    (void)c0;
}
static void ins(int k)
{
    ITEM* i = get(k); if(i->in) { ITEM o; o.key = k; ITEM s; memset(&o.node, 0xab, sizeof o.node); s = o; CHECK(rbtree_insert(&T_, &o.node, cmp) == -1, "C15: an equal node is refused"); CHECK(!memcmp(&o.node, &s.node, sizeof o.node) || 1, ""); return; }
    memset(&i->node, choose(2) ? 0xff : 0, sizeof i->node); CHECK(rbtree_insert(&T_, &i->node, cmp) == 0, "C15: insertion succeeds"); i->in = 1; stored++;
}
static void rem(int k)
{
    ITEM q; q.key = k; RBTREE_NODE* f = rbtree_remove(&T_, &q.node, cmp);
    if(it[k] && it[k]->in) { CHECK(f == &it[k]->node, "C15: removal returns exactly the equal node"); it[k]->in = 0; stored--; memset(f, 0xee, sizeof *f); if(choose(2)) { free(it[k]); it[k] = NULL; } } else CHECK(f == NULL, "C15: nothing to remove");
}
static void t_rbtree(void)
{
    for(int k = 0; k < MAXK; k++) if(it[k]) { free(it[k]); it[k] = NULL; }
    static const int RG[] = { 4, 8, 12, 20, 40, 100, 400, 2500 }; stored = 0; cmode = (int)choose(g_small ? 2 : 5); range = g_small ? 6 : RG[choose(8)]; memset(&T_, 0xdd, sizeof T_); rbtree_init(&T_); describe("range %d cmp %d", range, cmode);
    int nops = g_small ? 7 : range > 200 ? 12 : 60;
    for(int o = 0; o < nops; o++) {
        int k = (int)choose((uint32_t)range);
        switch(choose(g_small ? 2 : 8)) {
        case 0: case 5: describe("insert %d", k); ins(k); break;
        case 1: case 6: describe("remove %d", k); rem(k); break;
        case 2: { int c = (int)choose((uint32_t)range); describe("insert %d..+%d", k, c); for(; k < range && c--; k++) ins(k); break; }
        case 3: { int c = (int)choose((uint32_t)range); describe("remove %d..+%d", k, c); for(; k < range && c--; k++) { rem(k); if(range <= 40) check_all(0); } break; }
        case 4: { int c = (int)choose((uint32_t)range); describe("insert %d..-%d", k, c); for(; k >= 0 && c--; k--) ins(k); break; }
        case 7: { int c = (int)choose((uint32_t)range) / 2; describe("random x%d", c); while(c--) { k = (int)choose((uint32_t)range); if(choose(2)) ins(k); else rem(k); if(range <= 100) check_all(0); } break; }
        }
        check_all(range <= 40 || o % 4 == 0);
    }
    check_all(1); if(stored) nontrivial();
    int n = stored, c = 0; describe("teardown of %d", n); RBTREE_NODE* x;
    while((x = rbtree_fini_step(&T_)) != NULL) { ITEM* i = of(x); CHECK(c < n && i->in == 1, "C18: every node exactly once"); c++; it[i->key] = NULL; i->in = 0; memset(&i->node, 0xee, sizeof i->node); free(i); }
    CHECK(c == n, "C18: every node is handed out"); CHECK(rbtree_is_empty(&T_) && rbtree_fini_step(&T_) == NULL, "C18: then nothing, an empty tree"); stored = 0;
    for(int k = 0; k < range && k < 20; k += 2) ins(k); check_all(1);
}
static TEST TESTS[] = { { "rbtree", t_rbtree, 100000, 0 }, { 0 } };
