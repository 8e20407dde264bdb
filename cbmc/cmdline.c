/* C30: misc/cmdline.c, for option tables, argument lists and strings of any size.
 *
 * One arbitrary token T is read against the documented events: m is the first
 * option of the table that matches it (no: none), the options passed on the way do
 * not match.  Strings are opaque but for the places a step touches; whether T
 * begins with an option's name is a ghost fact, told by strncmp.  The witness q is
 * any option; what is shown for every q is used for q = m. */
#define STUB_LIBC
#define NW 2
#include "contract.h"
#include "cut.h"
#include <stdio.h>
#include <string.h>
#include "misc/cmdline.h"
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
int nondet_int(void);
#define COMP CMDLINE_OPTFLAG_COMPILERLIKE
#define REQ CMDLINE_OPTFLAG_REQUIREDARG
#define OPTARG CMDLINE_OPTFLAG_OPTIONALARG
struct NAME { char* p; size_t len; _Bool pre, pre2; };       /* T begins with it; T + 2 begins with it */
static CMDLINE_OPTION* tab; static size_t no, q, m; static struct NAME nq, nk; static char ud;
static char* T, * Next, ** av; static size_t tl, t_eq; static _Bool t_haseq; static int ac, a_i, a_dd, ph, b_ph, o_ph; static size_t a_k, b_k;
static int e_n, e_ret, e_next, e_group;
static char* a_string(size_t* n) { *n = nondet_size(); REQUIRES(*n < INT_MAX); char* p = __CPROVER_allocate(*n + 1, 0); p[*n] = 0; REQUIRES((p[0] == 0) == (*n == 0)); return p; }
static void end_at(const char* p, size_t n, size_t i) { if(i <= n) REQUIRES((p[i] == 0) == (i == n)); }
static void arb_entry(size_t k)
{
    if(k < no) {
        if(k != q) { nk.p = a_string(&nk.len); tab[k].longname = nondet_bool() ? nk.p : NULL; }
        REQUIRES(tab[k].id != 0 && tab[k].shortname != '-' && (!(tab[k].flags & COMP) || tab[k].longname != NULL));
    } else REQUIRES(tab[no].id == 0);
}
static _Bool dashdash(void) { return T[0] == '-' && T[1] == '-'; }
static _Bool is_dash(void) { return T[0] == '-' && T[1] == 0; }
static _Bool is_dd(void) { return dashdash() && T[2] == 0; }
static void relate(struct NAME* n)
{
    n->pre = nondet_bool(); n->pre2 = nondet_bool(); char* s = n->p;
    REQUIRES((!n->pre || n->len <= tl) && (n->len > 0 || n->pre) && (!n->pre || n->len == 0 || s[0] == T[0]));
    if(n->pre) end_at(T, tl, n->len);
    REQUIRES(!n->pre2 || (tl >= 2 && n->len + 2 <= tl)); REQUIRES(n->len > 0 || n->pre2 == (tl >= 2));
    if(n->pre2) end_at(T, tl, n->len + 2);
}
static _Bool match(size_t k)
{
    struct NAME* n = k == q ? &nq : &nk; CMDLINE_OPTION* o = &tab[k];
    if(o->flags & COMP) return n->pre;
    if(o->longname != NULL && dashdash()) return n->pre2 && (T[n->len + 2] == 0 || T[n->len + 2] == '=');
    return o->shortname != 0 && T[0] == '-' && T[1] == o->shortname;
}
static void arb_token(int i, int dd)
{
    REQUIRES(i >= 1 && (i <= ac || i == 1)); a_i = i; a_dd = dd; ph = 1; b_ph = 0; e_n = e_next = e_group = 0;
    if(i >= ac) return;
    T = a_string(&tl); if(tl > 0) end_at(T, tl, 1); if(tl > 1) end_at(T, tl, 2); av[i] = T; if(i + 1 < ac) av[i + 1] = Next;
    t_haseq = nondet_bool(); t_eq = nondet_size(); if(t_haseq) REQUIRES(t_eq < tl && T[t_eq] == '=');
    m = nondet_bool() ? q : no; if(q < no) { relate(&nq); REQUIRES(match(q) == (q == m)); }
}
static _Bool bad(size_t k) { return (tab[k].flags & COMP) && tab[k].longname[0] != '-'; }
static size_t o_pos(void) { return o_ph == 2 ? a_k + 1 : o_ph == 1 ? a_k : 0; }
#define LINKED_cmdline_read_0 a_k = nondet_size(); REQUIRES(a_k <= no); arb_entry(a_k); o_ph = 1
#define CUT_LINKV_cmdline_read_0_opt tab + a_k
#define MEM_cmdline_read_0
#define INV_cmdline_read_0(P) P(opt == tab + o_pos() && (!(q < o_pos() && bad(q)) || !fast_optarg_decision), "C30: notes every prefix option not starting with a dash")
#define GHOST_cmdline_read_0 o_ph = 2
#define DEC_cmdline_read_0 (no - o_pos())
static _Bool token_inv(int i, int dd, int ret)
{
    if(ret != 0) return 0;
    if(ph == 0) return i == 1 && !dd && e_n == 0;
    if(ph == 1) return i == a_i && dd == a_dd;
    _Bool end = !a_dd && is_dd(); CMDLINE_OPTION* o = &tab[m];
    return e_ret == 0 && e_n == (end ? 0 : 1) && i == a_i + 1 + e_next && !dd == !(a_dd || end)
        && e_group == (!a_dd && !is_dash() && !end && m < no && !(o->flags & (COMP | REQ)) && !(o->longname != NULL && dashdash()) && T[2] != 0);
}
#define LINKED_cmdline_read_1
#define CUT_LINKV_cmdline_read_1_opt tab
#define MEM_cmdline_read_1 arb_token(i, after_doubledash);
#define INV_cmdline_read_1(P) P(token_inv(i, after_doubledash, ret), "C30: each token passed caused exactly its documented events")
#define GHOST_cmdline_read_1 ph = 2
#define DEC_cmdline_read_1 ((size_t) (ac - i))
static void arb_opt(void) { b_k = nondet_size(); REQUIRES(b_k <= m); arb_entry(b_k); b_ph = 1; if(b_k < no) { if(b_k != q) relate(&nk); REQUIRES(match(b_k) == (b_k == m)); } }
#define LINKED_cmdline_read_2 arb_opt()
#define CUT_LINKV_cmdline_read_2_opt tab + b_k
#define MEM_cmdline_read_2
#define INV_cmdline_read_2(P) P(opt == tab + (b_ph == 2 ? b_k + 1 : b_ph == 1 ? b_k : 0) && (b_ph != 2 || b_k < m) && i == a_i && ret == 0 && e_n == 0, "C30: options that do not match are passed over")
#define GHOST_cmdline_read_2 b_ph = 2
#define DEC_cmdline_read_2 (no - (b_ph == 2 ? b_k + 1 : b_k))
/* a name that may be cut after 31 characters: x followed by y, of n bytes */
static void name_is(const char* arg, const char* x, size_t xn, const char* y, size_t n)
{
    size_t end = 99, w = W[0];
    if(n < 31) { if(arg[n] == 0) end = n; } else for(size_t j = 31; j < 36; j++) if(end == 99 && arg[j] == 0) end = j;
    ENSURES(end != 99 && end <= n, "C30: the name of the option, shortened only after 31 characters");
    if(w < end) { char c = w < xn ? x[w] : y[w - xn]; REQUIRES(c != 0); ENSURES(arg[w] == c, "C30: the name of the option"); COVER(w > 28, "any character of the name"); }
}
static int cb(int id, const char* arg, void* u)
{
    CMDLINE_OPTION* o = &tab[m]; struct NAME* n = &nq;
    ENSURES(u == (void*) &ud, "C30: user data is passed on"); ENSURES(e_ret == 0, "C30: a non-zero result stops parsing"); ENSURES(ph == 1 && e_n == 0 && a_i < ac, "C30: one event for the token"); e_n++;
    if(a_dd || is_dash()) { ENSURES(id == CMDLINE_OPTID_NONE && arg == T, "C30: positional argument"); COVER(a_dd, "after dashes"); COVER(!a_dd, "dash"); }
    else if(is_dd()) ENSURES(0, "C30: a lone double dash is not reported");
    else if(m < no && (o->flags & COMP)) {
        e_next = T[n->len] == 0 && a_i + 1 < ac;
        if(T[n->len] != 0 || e_next) { ENSURES(id == o->id && arg == (e_next ? Next : T + n->len), "C30: prefix option with the rest of the token or the next token"); COVER(e_next, "prefix, next"); COVER(!e_next, "prefix"); COVER(T[0] != '-', "prefix without dash"); }
        else { ENSURES(id == CMDLINE_OPTID_MISSINGARG && arg == nq.p, "C30: prefix option without argument"); COVER(1, "prefix, none"); }
    } else if(m < no && o->longname != NULL && dashdash()) {
        if(T[n->len + 2] == 0) { ENSURES((o->flags & REQ) ? id == CMDLINE_OPTID_MISSINGARG && arg == T : id == o->id && arg == NULL, "C30: long option without argument"); COVER(o->flags & REQ, "long, missing"); COVER(!(o->flags & REQ), "long"); }
        else if(o->flags & (REQ | OPTARG)) { ENSURES(id == o->id && arg == T + n->len + 3, "C30: long option with argument"); COVER(1, "long, argument"); }
        else { ENSURES(id == CMDLINE_OPTID_BOGUSARG, "C30: long option without need of the argument"); name_is(arg, "--", 2, nq.p, nq.len + 2); COVER(nq.len > 40, "bogus, long name"); COVER(nq.len == 0, "bogus"); }
    } else if(m < no && (o->flags & REQ)) {
        e_next = T[2] == 0 && a_i + 1 < ac;
        if(T[2] != 0 || e_next) { ENSURES(id == o->id && arg == (e_next ? Next : T + 2), "C30: short option with the rest of the token or the next token"); COVER(e_next, "short, next"); COVER(!e_next, "short, attached"); }
        else { ENSURES(id == CMDLINE_OPTID_MISSINGARG && arg == T, "C30: short option without argument"); COVER(1, "short, missing"); }
    } else if(m < no) { ENSURES(id == o->id && arg == NULL, "C30: short option"); COVER(T[2] == 0, "short"); }
    else if(T[0] != '-') { ENSURES(id == CMDLINE_OPTID_NONE && arg == T, "C30: positional argument"); COVER(tl == 0, "empty"); COVER(q < no && bad(q), "not fast"); }
    else {
        ENSURES(id == CMDLINE_OPTID_UNKNOWN, "C30: unknown option");
        if(dashdash() && t_haseq) { name_is(arg, T, tl, NULL, t_eq); COVER(t_eq > 40, "unknown, long name"); } else { ENSURES(arg == T, "C30: guilty token"); COVER(1, "unknown"); }
    }
    return e_ret = nondet_int();
}
/* ---- group of short options ---- */
static int g_cb(int id, const char* arg, void* u);
static char* grp; static size_t g_len, g_i, g_k; static int g_ph, gb_ph; static char g_c;
static _Bool g_match(size_t k) { return !(tab[k].flags & COMP) && tab[k].shortname == g_c; }
static void arb_char(int i)
{
    g_i = (size_t) i; REQUIRES(i >= 0 && g_i <= g_len); end_at(grp, g_len, g_i); g_c = grp[g_i]; g_ph = 1; gb_ph = 0; e_n = 0; m = nondet_size(); REQUIRES(m <= no);
}
#define LINKED_cmdline_handle_short_opt_group_0
#define CUT_LINKV_cmdline_handle_short_opt_group_0_opt tab
#define MEM_cmdline_handle_short_opt_group_0 arb_char(i);
#define INV_cmdline_handle_short_opt_group_0(P) P(ret == 0 && (g_ph == 2 ? g_i < g_len && (size_t) i == g_i + 1 && e_n == 1 && e_ret == 0 : g_ph == 1 ? (size_t) i == g_i : i == 0), "C30: each character passed caused exactly its event")
#define GHOST_cmdline_handle_short_opt_group_0 g_ph = 2
#define DEC_cmdline_handle_short_opt_group_0 (g_len - (size_t) i)
static void arb_gopt(void) { g_k = nondet_size(); REQUIRES(g_k <= m); arb_entry(g_k); gb_ph = 1; if(g_k < no) REQUIRES(g_match(g_k) == (g_k == m)); }
#define LINKED_cmdline_handle_short_opt_group_1 arb_gopt()
#define CUT_LINKV_cmdline_handle_short_opt_group_1_opt tab + g_k
#define MEM_cmdline_handle_short_opt_group_1
#define INV_cmdline_handle_short_opt_group_1(P) P(opt == tab + (gb_ph == 2 ? g_k + 1 : gb_ph == 1 ? g_k : 0) && (gb_ph != 2 || g_k < m) && (size_t) i == g_i && e_n == 0, "C30: options that do not match are passed over")
#define GHOST_cmdline_handle_short_opt_group_1 gb_ph = 2
#define DEC_cmdline_handle_short_opt_group_1 (no - (gb_ph == 2 ? g_k + 1 : g_k))
static int g_cb(int id, const char* arg, void* u)
{
    ENSURES(u == (void*) &ud, "C30: user data is passed on"); ENSURES(e_ret == 0, "C30: a non-zero result stops parsing"); ENSURES(g_ph == 1 && e_n == 0 && g_i < g_len, "C30: one event for the character"); e_n++;
    if(m < no && !(tab[m].flags & REQ)) { ENSURES(id == tab[m].id && arg == NULL, "C30: grouped option"); COVER(g_i > 3, "option"); }
    else {
        ENSURES(id == (m < no ? CMDLINE_OPTID_MISSINGARG : CMDLINE_OPTID_UNKNOWN), "C30: grouped option that needs an argument, or unknown"); ENSURES(__CPROVER_r_ok(arg, 3) && arg[0] == '-' && arg[1] == g_c && arg[2] == 0, "C30: names the guilty option");
        COVER(m < no, "needs argument"); COVER(m == no, "unknown");
    }
    return e_ret = nondet_int();
}
static int stub_group(const CMDLINE_OPTION* options, const char* g, int (*f)(int, const char*, void*), void* u)
{
    ENSURES(options == tab && f == cb && u == (void*) &ud && ph == 1 && e_n == 1 && e_ret == 0 && e_group == 0 && m < no && !a_dd, "C30: the rest of the group follows its first option");
    ENSURES(!(tab[m].flags & (COMP | REQ)) && !(tab[m].longname != NULL && dashdash()) && g == T + 2 && tl > 2, "C30: the rest of the group"); e_group = 1; COVER(1, "group");
    return e_ret = nondet_int();
}
#define STUB_cmdline_handle_short_opt_group static int cmdline_handle_short_opt_group(const CMDLINE_OPTION* o, const char* g, int (*f)(int, const char*, void*), void* u) { return stub_group(o, g, f, u); }
/* ---- string functions of libc ---- */
static struct NAME* name_of(const char* s) { return s == nq.p ? &nq : s == nk.p ? &nk : NULL; }
static size_t s_len(const char* s)
{
    struct NAME* n = name_of(s); if(n != NULL) return n->len;
    ENSURES(__CPROVER_same_object(s, T) && __CPROVER_POINTER_OFFSET(s) <= tl, "C30: length of a string there is"); return tl - __CPROVER_POINTER_OFFSET(s);
}
static int s_cmp(const char* a, const char* b, size_t n)
{
    struct NAME* x = name_of(b);
    if(x == NULL || n == 0) {           /* a literal: compared byte by byte */
        for(size_t i = 0; i < 4 && i < n; i++) { __CPROVER_assert(__CPROVER_r_ok(a, i + 1) && __CPROVER_r_ok(b, i + 1), "strncmp() within the strings"); if(a[i] != b[i]) return (unsigned char) a[i] < (unsigned char) b[i] ? -1 : 1; if(a[i] == 0) return 0; }
        __CPROVER_assert(n <= 4, "strncmp() with a literal"); return 0;
    }
    __CPROVER_assert(n == x->len && (a == T || (a == T + 2 && tl >= 2)), "strncmp() of the token with the whole name");
    return (a == T ? x->pre : x->pre2) ? 0 : nondet_bool() ? -1 : 1;
}
static char* s_chr(const char* s, int c) { __CPROVER_assert(s == T && c == '=', "strchr() in the token"); return t_haseq ? T + t_eq : NULL; }
static char* s_ncpy(char* d, const char* s, size_t n)
{
    __CPROVER_assert(s == T && n <= tl, "strncpy() from the token"); __CPROVER_assert(__CPROVER_w_ok(d, n), "strncpy() within the buffer");
    if(n > 0) __CPROVER_havoc_slice(d, n); if(W[0] < n) d[W[0]] = s[W[0]]; return d;
}
static int s_nprintf(char* d, size_t n, const char* f, const char* s)
{
    struct NAME* x = name_of(s); __CPROVER_assert(f[0] == '-' && f[1] == '-' && f[2] == '%' && f[3] == 's' && f[4] == 0 && x != NULL && n > 0, "snprintf() of an option name"); __CPROVER_assert(__CPROVER_w_ok(d, n), "snprintf() within the buffer");
    __CPROVER_havoc_slice(d, n); size_t e = x->len + 2 < n ? x->len + 2 : n - 1, w = W[0]; d[e] = 0; if(w < e) { d[w] = w < 2 ? '-' : s[w - 2]; REQUIRES(d[w] != 0); } return (int) x->len + 2;
}
#undef strlen
#undef strcmp
#undef strncmp
#undef strchr
#undef strncpy
#undef snprintf
#define strlen(s) s_len(s)
#define strcmp(a, b) s_cmp(a, b, (size_t) 3)
#define strncmp(a, b, n) s_cmp(a, b, n)
#define strchr(s, c) s_chr(s, c)
#define strncpy(d, s, n) s_ncpy(d, s, n)
#define snprintf(d, n, f, s) s_nprintf(d, n, f, s)
#pragma CPROVER check pop
#include CUTSRC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
static void start(void)
{
    no = nondet_size(); REQUIRES(no < ((size_t) 1 << 40)); tab = __CPROVER_allocate((no + 1) * sizeof(CMDLINE_OPTION), 0); tab[no].id = 0; q = nondet_size(); REQUIRES(no == 0 ? q == 0 : q < no);
    nq.p = a_string(&nq.len); if(q < no) { size_t k = q; tab[k].longname = nondet_bool() ? nq.p : NULL; arb_entry(k); } else nq.p = (char*) &ud + 1;
    m = no; nk.p = (char*) &ud + 1;
}
#ifdef UNIT_READ
void unit_read(void)
{
    start(); ac = nondet_int(); REQUIRES(ac >= 0); av = __CPROVER_allocate((size_t) ac * sizeof(char*), 0); size_t x; Next = a_string(&x);
    CMDLINE_OPTION o = tab[q]; 
    int r = cmdline_read(tab, ac, av, cb, &ud);
    ENSURES(r == e_ret, "C30: returns zero or the callback's result"); ENSURES(r != 0 || a_i >= ac, "C30: reads on to the last token"); COVER(r == 0 && ac > 3, "all read"); COVER(r != 0, "stopped"); COVER(ac == 0, "nothing");
    ENSURES(tab[q].id == o.id && tab[q].longname == o.longname && tab[q].flags == o.flags && tab[q].shortname == o.shortname, "C30: the table is only read");
    if(ph == 1 && a_i < ac) ENSURES(av[a_i] == T && (a_i + 1 >= ac || av[a_i + 1] == Next), "C30: the argument list is only read");
}
#else
void unit_group(void)
{
    start(); grp = a_string(&g_len); REQUIRES(no == 0 || q < no); q = no + 7;
    int r = cmdline_handle_short_opt_group(tab, grp, g_cb, &ud);
    ENSURES(r == e_ret, "C30: returns zero or the callback's result"); ENSURES(r != 0 || g_i == g_len, "C30: reads on to the last character"); COVER(r == 0 && g_len > 3, "all read"); COVER(r != 0, "stopped");
}
#endif
#pragma CPROVER check pop
