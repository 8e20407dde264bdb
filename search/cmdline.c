/* C30: command-line parsing against the documented event sequence. */
#include "search.h"
#include "misc/cmdline.h"
#include "misc/cmdline.c"
typedef struct { int id; int has; char s[400]; int name; } EV;     /* name: an option name, may be shortened after 31 characters */
static EV want[200]; static int nwant, got, stop_at, stop_ret; static int ud;
static void ev(int id, const char* s, size_t n, int name) { EV* e = &want[nwant++]; e->id = id; e->has = s != NULL; e->name = name; if(s) { memcpy(e->s, s, n); e->s[n] = 0; } }
static void evs(int id, const char* s) { ev(id, s, s ? strlen(s) : 0, 0); }
static int same(const EV* e, const char* a)
{
    if(!e->has) return a == NULL;
    if(!a) return 0;
    if(!e->name) return !strcmp(a, e->s);
    size_t n = strlen(a), m = strlen(e->s); return n <= m && !memcmp(a, e->s, n) && n >= (m < 31 ? m : 31);
}
static int cb(int id, const char* arg, void* u)
{
    CHECK(u == (void*)&ud, "user data passed on"); CHECK(got < nwant, "no event beyond the documented ones");
    CHECK(id == want[got].id, "event id"); CHECK(same(&want[got], arg), "event argument"); got++;
    return got == stop_at ? stop_ret : 0;
}
static int starts(const char* s, const char* p) { return strncmp(s, p, strlen(p)) == 0; }
static const CMDLINE_OPTION* by_char(const CMDLINE_OPTION* o, char c) { for(; o->id; o++) if(!(o->flags & CMDLINE_OPTFLAG_COMPILERLIKE) && o->shortname && o->shortname == c) return o; return NULL; }
static void spec(const CMDLINE_OPTION* T, int argc, char** argv)
{
    int dd = 0; nwant = 0;
    for(int i = 1; i < argc; i++) {
        const char* a = argv[i]; const CMDLINE_OPTION* o; char nm[400];
        if(dd || !strcmp(a, "-")) { evs(0, a); continue; }
        if(!strcmp(a, "--")) { dd = 1; continue; }
        for(o = T; o->id; o++) {
            if(o->flags & CMDLINE_OPTFLAG_COMPILERLIKE) { if(starts(a, o->longname)) break; }
            else if(starts(a, "--") && o->longname) { size_t n = strlen(o->longname); if(starts(a + 2, o->longname) && (a[2+n] == 0 || a[2+n] == '=')) break; }
            else if(a[0] == '-' && o->shortname && a[1] == o->shortname) break;
        }
        if(!o->id) {
            if(a[0] != '-') evs(0, a);
            else if(starts(a, "--") && strchr(a, '=')) ev(CMDLINE_OPTID_UNKNOWN, a, (size_t)(strchr(a, '=') - a), 1);
            else evs(CMDLINE_OPTID_UNKNOWN, a);
        } else if(o->flags & CMDLINE_OPTFLAG_COMPILERLIKE) {
            size_t n = strlen(o->longname); if(a[n]) evs(o->id, a + n); else if(i + 1 < argc) evs(o->id, argv[++i]); else evs(CMDLINE_OPTID_MISSINGARG, o->longname);
        } else if(starts(a, "--")) {
            const char* q = a + 2 + strlen(o->longname);
            if(*q == '=') { if(o->flags & 3) evs(o->id, q + 1); else { snprintf(nm, sizeof nm, "--%s", o->longname); ev(CMDLINE_OPTID_BOGUSARG, nm, strlen(nm), 1); } }
            else if(o->flags & CMDLINE_OPTFLAG_REQUIREDARG) evs(CMDLINE_OPTID_MISSINGARG, a); else evs(o->id, NULL);
        } else if(o->flags & CMDLINE_OPTFLAG_REQUIREDARG) {
            if(a[2]) evs(o->id, a + 2); else if(i + 1 < argc) evs(o->id, argv[++i]); else evs(CMDLINE_OPTID_MISSINGARG, a);
        } else {
            evs(o->id, NULL);
            for(const char* c = a + 2; *c; c++) { const CMDLINE_OPTION* g = by_char(T, *c); char b[3] = { '-', *c, 0 }; if(!g) evs(CMDLINE_OPTID_UNKNOWN, b); else if(g->flags & CMDLINE_OPTFLAG_REQUIREDARG) evs(CMDLINE_OPTID_MISSINGARG, b); else evs(g->id, NULL); }
        }
    }
}
static char* dup_(const char* s) { size_t n = strlen(s) + 1; char* p = malloc(n); memcpy(p, s, n); return p; }
static void t_cmdline(void)
{
    static const char* const LN[] = { NULL, "foo", "fo", "long", "a", "bar", "the-name-of-thirty-two-characters", "exactly-twenty-nine-characters", "a-very-very-long-option-name-of-more-than-forty-characters", "" };
    static const char* const CL[] = { "-D", "-I", "-isystem", "D", "--long", "-a", "-", "", "--", "cc" };
    static const char* const TK[] = { "-", "--", "-a", "x", "--foo", "--foo=1", "-ab", "-b", "--fo", "--foo=", "-c", "-cab", "-abc", "-x", "-ax", "--long=v", "--long", "", "-DX=1", "-D", "-I", "-isystem", "cc", "D1", "--unknown", "--unknown=3", "--a", "--a=", "---", "--=", "-a=1", "-=", "---=x",
        "--the-name-of-thirty-two-characters=1", "--exactly-twenty-nine-characters=2", "--a-very-very-long-option-name-of-more-than-forty-characters=3", "--a-very-very-long-option-name-of-more-than-forty-characters", "--an-unknown-option-with-a-name-longer-than-the-buffer=xyz", "--an-unknown-option-of-31-charss=", "--an-unknown-option-of-32-charsss=", "--an-unknown-option-of-33-charssss=", "-bbbb", "-ccc", "\xff\xfe", "-\xff", "--bar", "--bar=b=c", "--barr", "--foobar=1", "-axb", "-abx", "-a-", "-a--" };
    int no = (int)choose(g_small ? 3 : 7), argc = (int)choose(g_small ? 4 : 9); char* del[64]; int nd = 0;
    CMDLINE_OPTION* T = malloc(sizeof(CMDLINE_OPTION) * (size_t)(no + 1)); char lg[600] = "";
    for(int i = 0; i < no; i++) {
        memset(&T[i], 0, sizeof T[i]); uint32_t k = g_small ? choose(4) : choose(8); T[i].id = choose(4) == 0 ? -5 - i : 100 + i; const char* l;
        if(k == 3 || k == 7) { T[i].flags = CMDLINE_OPTFLAG_COMPILERLIKE | (choose(2) ? CMDLINE_OPTFLAG_REQUIREDARG : 0); T[i].shortname = choose(3) ? 0 : "abD"[choose(3)]; l = CL[choose(g_small ? 4 : 10)]; }
        else { T[i].flags = choose(4); T[i].shortname = "\0abcx\xff="[choose(g_small ? 4 : 7)]; l = LN[choose(g_small ? 3 : 10)]; }
        if(l) T[i].longname = del[nd++] = dup_(l);
        snprintf(lg + strlen(lg), 80, "{%d '%c' %.40s %x}", T[i].id, T[i].shortname ? T[i].shortname : '0', l ? l : "NULL", T[i].flags);
    }
    memset(&T[no], 0x99, sizeof T[no]); T[no].id = 0; T[no].longname = NULL;
    char** av = malloc(sizeof(char*) * (size_t)(argc + 1)); CMDLINE_OPTION* Tc = malloc(sizeof(CMDLINE_OPTION) * (size_t)(no + 1)); char* copy[12];
    for(int i = 0; i < argc; i++) {
        char b[300]; if(i == 0) strcpy(b, "-a"); else if(g_small || choose(3)) strcpy(b, TK[choose(g_small ? 13 : (uint32_t)(sizeof(TK)/sizeof(TK[0])))]); else { uint32_t n = choose(choose(4) ? 7 : 60); for(uint32_t j = 0; j < n; j++) b[j] = "--aabc=Dx\xff""foo"[choose(13)]; b[n] = 0; }
        av[i] = del[nd++] = dup_(b); copy[i] = dup_(b); snprintf(lg + strlen(lg) % 500, 90, " %s\"%.70s\"", i ? "" : "argv ", b);
    }
    av[argc] = NULL; memcpy(Tc, T, sizeof(CMDLINE_OPTION) * (size_t)(no + 1)); spec(T, argc, av);
    stop_at = choose(3) == 0 ? 1 + (int)choose((uint32_t)nwant + 1) : 0; static const int SR[] = { 1, -1, 7, INT_MIN, CMDLINE_OPTID_UNKNOWN }; stop_ret = SR[choose(5)]; got = 0; describe("%s stop at %d", lg, stop_at);
    int r = cmdline_read(T, argc, av, cb, &ud);
    if(stop_at && stop_at <= nwant) { CHECK(got == stop_at, "stops at once"); CHECK(r == stop_ret, "the callback's result is returned"); } else { CHECK(got == nwant, "every documented event is reported"); CHECK(r == 0, "zero is returned"); }
    CHECK(!memcmp(Tc, T, sizeof(CMDLINE_OPTION) * (size_t)(no + 1)), "table unchanged"); for(int i = 0; i < argc; i++) { CHECK(!strcmp(copy[i], av[i]), "arguments unchanged"); free(copy[i]); }
    for(int i = 0; i < nd; i++) free(del[i]); free(T); free(Tc); free(av); if(nwant) nontrivial();
}
static TEST TESTS[] = { { "cmdline", t_cmdline, 300000, 0 }, { 0 } };
