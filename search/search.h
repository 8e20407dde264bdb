/* Failing-input search: runs the real code (included from /repo) against the
 * executable form of a property's contract, natively, under ASan + UBSan.
 *
 * A case is a function of a tape of choices (choose(n)).  Three sources of
 * tapes: exhaustive enumeration in length-lexicographic DFS order of the small
 * scope, seeded pseudo-random tapes, and --replay FILE.  The current tape lives
 * in a shared mapping (--tape FILE), so it survives a crash and is the replay. */
#ifndef SEARCH_H
#define SEARCH_H
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <limits.h>
#include <time.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <setjmp.h>

#define TAPE_MAX 65536
typedef struct { uint32_t magic, n; char what[512]; char test[64]; uint32_t v[TAPE_MAX]; } TAPE_T;
static TAPE_T* T;                    /* choices made in this case */
static uint32_t t_bound[TAPE_MAX];   /* their ranges (for enumeration) */
static uint32_t t_pos, t_given;      /* position, length of the prescribed prefix */
static int t_mode;                   /* 0 enumerate, 1 random, 2 replay */
static int g_small;                  /* the case function may narrow ranges when set */
static int g_log;
static uint64_t g_rng;
static unsigned long g_cases, g_nontrivial;
static char g_sample[3][600]; static int g_nsample;
static char g_desc[600];             /* free-text description of the current case */

static inline uint64_t rnd64(void)
{
    g_rng += 0x9E3779B97F4A7C15ull; uint64_t z = g_rng;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

/* a choice in 0..n-1; n == 0 means the full 32-bit range */
static uint32_t choose(uint32_t n)
{
    uint32_t v;
    if(t_pos >= TAPE_MAX) return 0;
    if(t_mode == 1) v = n ? (uint32_t)(rnd64() % n) : (uint32_t)rnd64();
    else if(t_pos < t_given) { v = T->v[t_pos]; if(n && v >= n) v %= n; }
    else v = 0;
    T->v[t_pos] = v; t_bound[t_pos] = n; t_pos++; T->n = t_pos;
    return v;
}
static inline uint64_t choose64(void) { uint64_t h = choose(0); return (h << 32) | choose(0); }
static inline size_t pick_len(size_t small_max, size_t big_max)
{
    if(g_small) return choose((uint32_t)small_max + 1);
    switch(choose(4)) {
        case 0: return choose((uint32_t)(small_max < 4 ? small_max : 4) + 1);
        case 1: return choose((uint32_t)small_max + 1);
        default: return choose((uint32_t)big_max + 1);
    }
}

/* arbitrary, per-case reproducible data bytes */
static uint64_t g_fill;
static inline uint8_t fillb(void) { g_fill = g_fill * 6364136223846793005ull + 1442695040888963407ull; return (uint8_t)(g_fill >> 56); }

static void describe(const char* fmt, ...)
{
    size_t l = strlen(g_desc); va_list ap;
    if(g_log) { va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); printf("\n"); fflush(stdout); }
    if(l > sizeof(g_desc) - 80) return;
    va_start(ap, fmt); vsnprintf(g_desc + l, sizeof(g_desc) - l - 2, fmt, ap); va_end(ap);
    strcat(g_desc, "; ");
}

/* A check named "C07,C08: ..." belongs to those properties only; run for another
 * property (--property), a miss just ends the case (the model is off from there). */
static const char* g_prop;
static jmp_buf g_abandon;
static void fail_(const char* name, const char* file, int line)
{
    if(g_prop && name[0] == 'C' && name[1] >= '0' && name[1] <= '9') {
        const char* c = strchr(name, ':'), * f = strstr(name, g_prop);
        if(c && (!f || f > c)) longjmp(g_abandon, 1);
    }
    snprintf(T->what, sizeof(T->what), "%s (%s:%d) in: %s", name, file, line, g_desc);
    printf("FAILING-INPUT test=%s obligation=%s at %s:%d\n  case: %s\n", T->test, name, file, line, g_desc);
    fflush(stdout);
    _exit(3);
}
#define CHECK(c, name) do { if(!(c)) fail_(name, __FILE__, __LINE__); } while(0)
static int g_nt;
static void nontrivial(void) { g_nt = 1; }

/* allocation model: malloc() of the real code, with injected failures */
static long fail_at = -1;            /* the n-th allocation from now fails */
static long alloc_count, live_blocks;
static void* s_malloc(size_t n)  { alloc_count++; if(n > ((size_t)1 << 34) || (fail_at >= 0 && fail_at-- == 0)) return NULL;
                                   void* p = malloc(n ? n : 1); if(p) { live_blocks++; memset(p, 0xA5, n < 65536 ? n : 65536); } return p; }
static void  s_free(void* p)     { if(p) live_blocks--; free(p); }
static void* s_realloc(void* p, size_t n)
{
    if(p == NULL) return s_malloc(n);
    if(n == 0) { s_free(p); return NULL; }
    alloc_count++;
    if(n > ((size_t)1 << 34) || (fail_at >= 0 && fail_at-- == 0)) return NULL;
    return realloc(p, n);
}
static void* s_calloc(size_t a, size_t b) { if(b && a > SIZE_MAX / b) return NULL; void* p = s_malloc(a*b); if(p) memset(p, 0, a*b); return p; }
static char* s_strdup(const char* s) { size_t n = strlen(s)+1; char* p = s_malloc(n); if(p) memcpy(p, s, n); return p; }

typedef struct { const char* name; void (*fn)(void); unsigned long enum_max; int small_only; } TEST;
/* provided by the driver: */
static TEST TESTS[];

static void on_alarm(int s) { (void)s; static const char m[] = "FAILING-INPUT obligation=termination (case does not finish)\n";
    if(write(1, m, sizeof(m)-1)) {} snprintf(T->what, sizeof(T->what), "does not terminate: %s", g_desc); _exit(3); }

static void one(TEST* t)
{
    t_pos = 0; T->n = 0; g_desc[0] = 0; fail_at = -1; alloc_count = 0; g_fill = 12345;
    static unsigned tick; if((tick++ & 255) == 0) alarm(20);
    g_nt = 0;
    if(setjmp(g_abandon) == 0) t->fn();
    g_nontrivial += g_nt;
    g_cases++;
    if(g_nsample < 3 && (g_cases == 5 || g_cases == 500 || g_cases == 50000)) strcpy(g_sample[g_nsample++], g_desc);
}
/* advance T->v to the next tape in DFS order; 0 when exhausted */
static int next_tape(void)
{
    uint32_t i = t_pos;
    while(i > 0) {
        i--;
        if(t_bound[i] == 0 ? T->v[i] < 3 : T->v[i] + 1 < t_bound[i]) { T->v[i]++; t_given = i + 1; return 1; }
    }
    return 0;
}
static double now(void) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec / 1e9; }

int main(int argc, char** argv)
{
    double secs = 5; uint64_t seed = 1; const char* tape = NULL; const char* replay = NULL; const char* only[32]; int nonly = 0;
    for(int i = 1; i < argc; i++) {
        if(!strcmp(argv[i], "--seconds")) secs = atof(argv[++i]);
        else if(!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], NULL, 10);
        else if(!strcmp(argv[i], "--tape")) tape = argv[++i];
        else if(!strcmp(argv[i], "--replay")) replay = argv[++i];
        else if(!strcmp(argv[i], "--property")) g_prop = argv[++i];
        else if(!strcmp(argv[i], "--log")) g_log = 1;
        else if(nonly < 32) only[nonly++] = argv[i];
    }
    signal(SIGALRM, on_alarm);
    if(replay) {
        int fd = open(replay, O_RDONLY); static TAPE_T mem; T = &mem;
        if(fd < 0 || read(fd, &mem, sizeof(mem)) < (ssize_t)offsetof(TAPE_T, v)) { printf("cannot read %s\n", replay); return 2; }
        t_mode = 2; t_given = mem.n; g_log = 1;
        /* exhaustive ('s') or random ('r') case */
        g_small = mem.magic == 1;
        for(int i = 0; TESTS[i].name; i++) if(!strcmp(TESTS[i].name, mem.test)) { printf("replaying %s\n", mem.test); one(&TESTS[i]); printf("PASSES\n"); return 0; }
        printf("no such test\n"); return 2;
    }
    if(tape) {
        int fd = open(tape, O_RDWR | O_CREAT | O_TRUNC, 0644);
        if(fd < 0 || ftruncate(fd, sizeof(TAPE_T)) != 0) return 2;
        T = mmap(NULL, sizeof(TAPE_T), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if(T == MAP_FAILED) return 2;
    } else { static TAPE_T mem; T = &mem; }
    int nt = 0; for(int i = 0; TESTS[i].name; i++) { int use = nonly == 0; for(int j = 0; j < nonly; j++) if(!strcmp(only[j], TESTS[i].name)) use = 1; nt += use; }
    for(int i = 0; TESTS[i].name; i++) {
        int use = nonly == 0; for(int j = 0; j < nonly; j++) if(!strcmp(only[j], TESTS[i].name)) use = 1;
        if(!use) continue;
        TEST* t = &TESTS[i]; strncpy(T->test, t->name, sizeof(T->test)-1);
        double t0 = now(), slot = secs / nt; unsigned long c0 = g_cases; int exhausted = 0;
        /* small scope */
        t_mode = 0; t_given = 0; g_small = 1; T->magic = 1;
        for(;;) {
            one(t);
            if(!next_tape()) { exhausted = 1; break; }
            if(t->enum_max && g_cases - c0 >= t->enum_max) break;
            if(((g_cases & 63) == 0) && now() - t0 > slot * 0.5) break;
        }
        unsigned long ce = g_cases - c0;
        /* random */
        if(!(exhausted && t->small_only)) {
            t_mode = 1; g_small = 0; T->magic = 2; g_rng = seed * 1000003ull + (uint64_t)i;
            do { one(t); } while((g_cases & 15) != 0 || now() - t0 < slot);
        }
        printf("TEST %s enumerated=%lu exhausted=%d random=%lu\n", t->name, ce, exhausted, g_cases - c0 - ce);
    }
    printf("CASES %lu NONTRIVIAL %lu\n", g_cases, g_nontrivial);
    for(int i = 0; i < g_nsample; i++) printf("SAMPLE %s\n", g_sample[i]);
    return 0;
}

#ifdef SEARCH_ALLOC          /* the code under test is included after this header */
#define malloc s_malloc
#define free s_free
#define realloc s_realloc
#define calloc s_calloc
#define strdup s_strdup
#endif
#endif
