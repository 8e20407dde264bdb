/* C11, C12: intrusive lists.
 *
 * The list is an arbitrary circular sequence of N+1 places (place 0 is the list
 * head structure, places 1..N the nodes; N unbounded).  A window of at most 7 places is
 * materialised: the places the operation addresses and an arbitrary witness
 * place K with its successor; equal places share one object.  Links between
 * materialised places agree with the sequence; all other links are opaque.
 * The contract of every operation: in the new sequence (given by the spec as
 * new place -> old place or the added node) the links at the witness place and
 * its successor agree with the sequence.  As K is arbitrary, they agree
 * everywhere, hence traversal from the head visits exactly the new sequence in
 * order and comes back to the head, in both directions. */
#include "contract.h"
#include "data/list.h"
#if defined SL
#define NODE SLIST_NODE
#define LISTT SLIST
#define F(x) slist_##x
#define DATA SLIST_DATA
#elif defined QL
#define NODE QLIST_NODE
#define LISTT QLIST
#define F(x) qlist_##x
#define DATA QLIST_DATA
#else
#define DL
#define NODE LIST_NODE
#define LISTT LIST
#define F(x) list_##x
#define DATA LIST_DATA
#endif
#ifdef __CPROVER
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#endif
#define NP 7
static LISTT list; static NODE pool[NP]; static NODE* opaque; static NODE added;    /* opaque: no valid object, any access through it fails */
static size_t N, place[NP]; static NODE* at[NP]; static int np;
static NODE* opq(void) { return opaque; }
/* materialise place p */
static NODE* want(size_t p)
{
    for(int i = 0; i < np; i++) if(place[i] == p) return at[i];
    NODE* x = p == 0 ? &list.main : &pool[np];
    place[np] = p; at[np] = x; np++; return x;
}
static NODE* obj(size_t p) { for(int i = 0; i < NP; i++) if(i < np && place[i] == p) return at[i]; return opq(); }
static size_t succ(size_t p) { return p == N ? 0 : p + 1; }
static size_t pred(size_t p) { return p == 0 ? N : p - 1; }
static void link_all(void)
{
    for(int i = 0; i < NP; i++) if(i < np) { at[i]->n = obj(succ(place[i]));
#ifdef DL
        at[i]->p = obj(pred(place[i]));
#endif
    }
#ifdef QL
    list.tail = obj(N);
#endif
}
/* new sequence: M nodes; old(k): the object at new place k */
static size_t M; static int op; static size_t I;      /* I: old place of the addressed node (insert after I / remove I) */
static NODE* nobj(size_t k)
{
    if(op == 0) return k <= I ? obj(k) : k == I + 1 ? &added : obj(k - 1);
    if(op == 1) return k < I ? obj(k) : obj(k + 1);
    return obj(k);
}
static size_t oldplace(size_t k) { return op == 0 ? (k <= I ? k : k - 1) : op == 1 ? (k < I ? k : k + 1) : k; }
static size_t K;
static void setup(void)
{
    N = nondet_size(); __CPROVER_assume(N < MAX_OBJECT / sizeof(NODE)); np = 0; opaque = stub_must_malloc(sizeof(NODE)); __CPROVER_deallocate(opaque); want(0);
    __CPROVER_havoc_object(&added);
}
/* the witness place of the new sequence and its successor, and the tail */
static void witness(void)
{
    K = nondet_size(); __CPROVER_assume(K <= M);
    size_t k2 = K == M ? 0 : K + 1;
    if(!(op == 0 && K == I + 1)) want(oldplace(K));
    if(!(op == 0 && k2 == I + 1)) want(oldplace(k2));
    if(!(op == 0 && M == I + 1)) want(oldplace(M));
}
static void check_links(void)
{
    size_t k2 = K == M ? 0 : K + 1;
    ENSURES(nobj(K) != opq() && nobj(k2) != opq(), "witness is materialised");
    ENSURES(nobj(K)->n == nobj(k2), "forward links follow the new sequence");
#ifdef DL
    ENSURES(nobj(k2)->p == nobj(K), "backward links follow the new sequence");
#endif
    ENSURES(F(next)(nobj(K)) == nobj(k2), "next reports the sequence");
    if(K == 0) ENSURES(F(head)(&list) == nobj(k2), "head reports the sequence");
    ENSURES(F(end)(&list) == &list.main, "end is the head structure");
    if(M == 0) ENSURES(F(is_empty)(&list), "empty"); else if(K == 0) ENSURES(!F(is_empty)(&list), "not empty");
#ifdef DL
    ENSURES(list_prev(nobj(k2)) == nobj(K), "prev reports the sequence");
    if(k2 == 0) ENSURES(list_tail(&list) == nobj(K), "tail reports the sequence");
#endif
#ifdef QL
    ENSURES(list.tail == nobj(M), "tail designates the last node");
    ENSURES(qlist_tail(&list) == nobj(M), "tail reports the sequence");
#endif
}
void unit_init(void)
{
    LISTT l; F(init)(&l);
    ENSURES(F(is_empty)(&l), "new list is empty"); ENSURES(F(head)(&l) == &l.main && F(end)(&l) == &l.main && l.main.n == &l.main, "head of the empty list");
#ifdef DL
    ENSURES(list_tail(&l) == &l.main && l.main.p == &l.main, "tail of the empty list");
#endif
#ifdef QL
    ENSURES(qlist_tail(&l) == &l.main, "tail of the empty list");
#endif
    struct { char c; NODE a; double d; NODE b; } r;
    ENSURES(DATA(&r.a, __typeof__(r), a) == &r && DATA(&r.b, __typeof__(r), b) == &r, "enclosing record");
    struct { NODE a; } s; ENSURES(DATA(&s.a, __typeof__(s), a) == &s, "enclosing record"); COVER(1, "init");
}
/* inserting after place I */
#define INSERT(pre, call) do { setup(); op = 0; M = N + 1; pre; NODE* where = want(I); want(succ(I)); witness(); link_all(); \
    call; check_links(); COVER(K == I, "before the added"); COVER(K == I + 1, "the added"); COVER(K > I + 1, "beyond"); COVER(N == 0, "empty"); } while(0)
#define REMOVE(pre, call) do { setup(); __CPROVER_assume(N > 0); op = 1; M = N - 1; pre; NODE* victim = want(I); NODE* before = want(pred(I)); want(succ(I)); witness(); link_all(); \
    call; check_links(); COVER(K + 1 == I, "before the removed"); COVER(K >= I, "beyond"); COVER(M == 0, "emptied"); } while(0)
#define ANY_NODE I = nondet_size(); __CPROVER_assume(1 <= I && I <= N)
#define ANY_PLACE I = nondet_size(); __CPROVER_assume(I <= N)
void unit_insert_after(void) { INSERT(ANY_PLACE, F(insert_after)(&list, where, &added)); }
void unit_prepend(void) { INSERT(I = 0, F(prepend)(&list, &added)); }
void unit_remove_head(void) { REMOVE(I = 1, F(remove_head)(&list)); }
#ifdef DL
void unit_insert_before(void) { INSERT(I = nondet_size(); __CPROVER_assume(I <= N), list_insert_before(&list, want(succ(I)), &added)); (void)0; }
void unit_append(void) { INSERT(I = N, list_append(&list, &added)); }
void unit_remove(void) { REMOVE(ANY_NODE, list_remove(&list, victim)); }
void unit_remove_tail(void) { REMOVE(I = N, list_remove_tail(&list)); }
#else
void unit_remove(void) { REMOVE(ANY_NODE, F(remove)(&list, before, victim)); }
#endif
#ifdef QL
void unit_append(void) { INSERT(I = N, qlist_append(&list, &added)); }
#endif
