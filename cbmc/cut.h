/* The while rule, at the loop heads lib/cutloops.py has cut (see there).
 * For every cut loop <f>_<n> the unit defines
 *   INV_<f>_<n>(P)  comma-separated P(condition, "name"): the loop invariant
 *   MEM_<f>_<n>     statements that havoc the memory the loop may write
 *   GHOST_<f>_<n>   ghost step at the end of an iteration (expression)
 *   DEC_<f>_<n>     a measure (size_t), strictly smaller after each iteration */
#ifndef CUT_H
#define CUT_H
#ifdef CUT_STATE
/* State mode: the loop's whole state is in memory and in the function's
 * parameters, both arbitrary in the harness up to the invariant, so the start of
 * the function is an arbitrary iteration.  Locals are given arbitrary values at
 * the loop head; BACK_<f>_<n> checks invariant and progress at the back edge. */
#define CUT_HAVOC_VAR(v)    __CPROVER_havoc_object(&(v));
#define CUT_HAVOC_PTR(v, t) __CPROVER_havoc_object(&(v));
#define CUT_SAME(v, t)      (void)0
#define CUT_ENTRY(t, havoc) havoc
#define CUT_BACK(t)         BACK_##t, __CPROVER_assert(0, "COVER " #t ": back edge reached"), __CPROVER_assume(0)
#define CUT_EXIT(t)
#else

#define CUT_CHECK(c, name)  __CPROVER_assert((c), "INVARIANT " name)
#define CUT_TAKE(c, name)   __CPROVER_assume((c))
#define CUT_HAVOC_VAR(v)    __CPROVER_havoc_object(&(v));
#define CUT_HAVOC_PTR(v, t) __typeof__(v) cut_##t##_##v = v; \
                            v = (__typeof__(v)) ((uint8_t*)(v) + (nondet_size() - __CPROVER_POINTER_OFFSET(v)));
#define CUT_SAME(v, t)      __CPROVER_assert(__CPROVER_same_object(v, cut_##t##_##v), "INVARIANT " #t ": " #v " stays in its object")
#define CUT_ENTRY(t, havoc) INV_##t(CUT_CHECK); havoc MEM_##t; INV_##t(CUT_TAKE); size_t cut_m_##t = (DEC_##t);
#define CUT_BACK(t)         GHOST_##t, INV_##t(CUT_CHECK), \
                            __CPROVER_assert((size_t)(DEC_##t) < cut_m_##t, "INVARIANT " #t ": loop makes progress"), \
                            __CPROVER_assert(0, "COVER " #t ": back edge reached"), __CPROVER_assume(0)
#define CUT_EXIT(t)
#endif
#endif
