/* C11, C12: intrusive lists against a sequence model. */
#include "search.h"
#include "data/list.h"
#define MAXR 40
typedef struct { char pad[3]; LIST_NODE a; double x; SLIST_NODE b; QLIST_NODE c; int id; } REC;
static REC R[MAXR]; static LIST L; static SLIST S; static QLIST Q; static int m[MAXR], n, used[MAXR];
static int fresh(void) { for(int i = 0; i < MAXR; i++) if(!used[i]) { used[i] = 1; memset(&R[i], 0x5a, sizeof(REC)); R[i].id = i; return i; } return -1; }
static void ins(int at, int r) { memmove(m + at + 1, m + at, (size_t)(n - at) * sizeof(int)); m[at] = r; n++; }
static void del(int at) { used[m[at]] = 0; memmove(m + at, m + at + 1, (size_t)(n - at - 1) * sizeof(int)); n--; }
static void check_l(void)
{
    int k = 0; CHECK((list_is_empty(&L) != 0) == (n == 0), "emptiness"); CHECK(list_head(&L) == (n ? &R[m[0]].a : list_end(&L)) && list_tail(&L) == (n ? &R[m[n-1]].a : list_end(&L)), "head and tail");
    for(LIST_NODE* x = list_head(&L); x != list_end(&L); x = list_next(x)) { CHECK(k < n && x == &R[m[k]].a, "forward order"); CHECK(LIST_DATA(x, REC, a) == &R[m[k]] && LIST_DATA(x, REC, a)->id == m[k], "enclosing record"); CHECK(list_next(x) == (k + 1 < n ? &R[m[k+1]].a : list_end(&L)) && list_prev(x) == (k ? &R[m[k-1]].a : list_end(&L)), "next and prev"); k++; }
    CHECK(k == n, "forward traversal complete");
    for(LIST_NODE* x = list_tail(&L); x != list_end(&L); x = list_prev(x)) { k--; CHECK(k >= 0 && x == &R[m[k]].a, "backward order"); } CHECK(k == 0, "backward traversal complete"); if(n) nontrivial();
}
static void t_list(void)
{
    n = 0; memset(used, 0, sizeof used); memset(&L, 0x77, sizeof L); list_init(&L); check_l();
    for(int o = 0, nops = g_small ? 5 : 60; o < nops; o++) {
        int i = n ? (int)choose((uint32_t)n) : 0, r;
        switch(choose(8)) {
        case 0: if((r = fresh()) >= 0) { describe("append"); list_append(&L, &R[r].a); ins(n, r); } break;
        case 1: if((r = fresh()) >= 0) { describe("prepend"); list_prepend(&L, &R[r].a); ins(0, r); } break;
        case 2: if(n && (r = fresh()) >= 0) { describe("insert_after %d/%d", i, n); list_insert_after(&L, &R[m[i]].a, &R[r].a); ins(i + 1, r); } break;
        case 3: if(n && (r = fresh()) >= 0) { describe("insert_before %d/%d", i, n); list_insert_before(&L, &R[m[i]].a, &R[r].a); ins(i, r); } break;
        case 4: if(n) { describe("remove %d/%d", i, n); list_remove(&L, &R[m[i]].a); del(i); } break;
        case 5: if(n) { describe("remove_head"); list_remove_head(&L); del(0); } break;
        case 6: if(n) { describe("remove_tail"); list_remove_tail(&L); del(n - 1); } break;
        case 7: if(n && choose(5) == 0) { describe("init"); list_init(&L); n = 0; memset(used, 0, sizeof used); } break;
        }
        check_l();
    }
}
static void check_s(void)
{
    int k = 0; CHECK((slist_is_empty(&S) != 0) == (n == 0), "emptiness"); CHECK(slist_head(&S) == (n ? &R[m[0]].b : slist_end(&S)), "head");
    for(SLIST_NODE* x = slist_head(&S); x != slist_end(&S); x = slist_next(x)) { CHECK(k < n && x == &R[m[k]].b, "order"); CHECK(SLIST_DATA(x, REC, b) == &R[m[k]], "enclosing record"); k++; } CHECK(k == n, "traversal complete"); if(n) nontrivial();
}
static void t_slist(void)
{
    n = 0; memset(used, 0, sizeof used); memset(&S, 0x77, sizeof S); slist_init(&S); check_s();
    for(int o = 0, nops = g_small ? 5 : 60; o < nops; o++) {
        int i = n ? (int)choose((uint32_t)n) : 0, r;
        switch(choose(5)) {
        case 0: case 1: if((r = fresh()) >= 0) { describe("prepend"); slist_prepend(&S, &R[r].b); ins(0, r); } break;
        case 2: if(n && (r = fresh()) >= 0) { describe("insert_after %d/%d", i, n); slist_insert_after(&S, &R[m[i]].b, &R[r].b); ins(i + 1, r); } break;
        case 3: if(n) { describe("remove %d/%d", i, n); slist_remove(&S, i ? &R[m[i-1]].b : (SLIST_NODE*) slist_end(&S), &R[m[i]].b); del(i); } break;
        case 4: if(n) { describe("remove_head"); slist_remove_head(&S); del(0); } break;
        }
        check_s();
    }
}
static void check_q(void)
{
    int k = 0; CHECK((qlist_is_empty(&Q) != 0) == (n == 0), "emptiness"); CHECK(qlist_head(&Q) == (n ? &R[m[0]].c : qlist_end(&Q)) && qlist_tail(&Q) == (n ? &R[m[n-1]].c : qlist_end(&Q)), "head and tail");
    for(QLIST_NODE* x = qlist_head(&Q); x != qlist_end(&Q); x = qlist_next(x)) { CHECK(k < n && x == &R[m[k]].c, "order"); CHECK(QLIST_DATA(x, REC, c) == &R[m[k]], "enclosing record"); k++; } CHECK(k == n, "traversal complete"); if(n) nontrivial();
}
static void t_qlist(void)
{
    n = 0; memset(used, 0, sizeof used); memset(&Q, 0x77, sizeof Q); qlist_init(&Q); check_q();
    for(int o = 0, nops = g_small ? 5 : 60; o < nops; o++) {
        int i = n ? (int)choose((uint32_t)n) : 0, r;
        switch(choose(6)) {
        case 0: if((r = fresh()) >= 0) { describe("append"); qlist_append(&Q, &R[r].c); ins(n, r); } break;
        case 1: if((r = fresh()) >= 0) { describe("prepend"); qlist_prepend(&Q, &R[r].c); ins(0, r); } break;
        case 2: if(n && (r = fresh()) >= 0) { describe("insert_after %d/%d", i, n); qlist_insert_after(&Q, &R[m[i]].c, &R[r].c); ins(i + 1, r); } break;
        case 3: if(n) { describe("remove %d/%d", i, n); qlist_remove(&Q, i ? &R[m[i-1]].c : (QLIST_NODE*) qlist_end(&Q), &R[m[i]].c); del(i); } break;
        case 4: if(n) { describe("remove_head"); qlist_remove_head(&Q); del(0); } break;
        case 5: if(n) { describe("remove last"); qlist_remove(&Q, n > 1 ? &R[m[n-2]].c : (QLIST_NODE*) qlist_end(&Q), &R[m[n-1]].c); del(n - 1); } break;
        }
        check_q();
    }
}
static TEST TESTS[] = { { "list", t_list, 100000, 0 }, { "slist", t_slist, 100000, 0 }, { "qlist", t_qlist, 100000, 0 }, { 0 } };
