/* C05, C06: crc32(), fnv1a_32(), fnv1a_64() against the bit-level definition and
 * the published recurrence, over input of any length. */
#include "contract.h"
#include "cut.h"

static const uint8_t* g_in; static size_t g_n;
static size_t x; static uint8_t xv;

/* ghost: the specified state after the bytes seen so far; advanced one byte per
 * iteration at the back edge, arbitrary (together with the code's state) at the head */
static uint32_t s32; static uint64_t s64;
static uint32_t crc_byte(uint32_t c, uint8_t b)
{
    c ^= b;
    for(int k = 0; k < 8; k++) c = (c & 1) ? (c >> 1) ^ 0xEDB88320u : c >> 1;
    return c;
}
#define KEPT(P)             P(x >= g_n || g_in[x] == xv, "input is not written")
/* the specification recurrence as a function of the position: spec state at the
 * head belongs to position i; the step relates head and back edge */
static size_t g_pos;        /* number of bytes the ghost state has consumed */
#define STEP(f, S)          (g_pos < g_n ? (S = f(S, g_in[g_pos]), g_pos++, (void)0) : (void)0)
static uint32_t fnv32(uint32_t h, uint8_t b) { return (h ^ b) * 16777619u; }
static uint64_t fnv64(uint64_t h, uint8_t b) { return (h ^ b) * 1099511628211ull; }

#define INV_crc32_0(P)      P(i <= g_n && i == g_pos, "one byte per round, in order"), P(crcreg == s32, "register equals the specified one"), KEPT(P)
#define INV_fnv1a_32_0(P)   P(i <= g_n && i == g_pos, "one byte per round, in order"), P(fnv1a == s32, "state equals the specified one"), KEPT(P)
#define INV_fnv1a_64_0(P)   P(i <= g_n && i == g_pos, "one byte per round, in order"), P(fnv1a == s64, "state equals the specified one"), KEPT(P)
/* the ghost state is arbitrary but equal to the code's, as the invariant demands */
#define MEM_crc32_0         s32 = crcreg; g_pos = i;
#define MEM_fnv1a_32_0      s32 = fnv1a; g_pos = i;
#define MEM_fnv1a_64_0      s64 = fnv1a; g_pos = i;
#define GHOST_crc32_0       STEP(crc_byte, s32)
#define GHOST_fnv1a_32_0    STEP(fnv32, s32)
#define GHOST_fnv1a_64_0    STEP(fnv64, s64)
#define DEC_crc32_0         (g_n - i)
#define DEC_fnv1a_32_0      (g_n - i)
#define DEC_fnv1a_64_0      (g_n - i)

#include CUTSRC

static void any(void)
{
    size_t n, p; g_n = n; x = p;
#ifdef BOUND
    REQUIRES(g_n <= BOUND);
#endif
    REQUIRES(g_n <= MAX_OBJECT);
    g_in = stub_must_malloc(g_n);
    if(x < g_n) xv = g_in[x];
    g_pos = 0;
}
#ifdef BOUND
#define FINISH(f, S)        while(g_pos < g_n) STEP(f, S)
#else
#define FINISH(f, S)        ENSURES(g_pos == g_n, "the whole range is consumed")
#endif
#ifdef CRC
void unit_crc32(void)
{
    any(); s32 = 0xffffffffu;
    uint32_t r = crc32(g_in, g_n);
    FINISH(crc_byte, s32);
    ENSURES(r == (s32 ^ 0xffffffffu), "crc32: the inverted register");
    if(x < g_n) ENSURES(g_in[x] == xv, "crc32: input unchanged");
    COVER(g_n > 4, "crc32 of data"); COVER(g_n == 0, "crc32 of nothing");
}
#endif
#ifdef FNV
void unit_fnv32(void)
{
    uint32_t h; any(); s32 = h;
    uint32_t r = fnv1a_32(h, g_in, g_n);
    FINISH(fnv32, s32);
    ENSURES(r == s32, "fnv1a_32: the state after the last byte");
    if(x < g_n) ENSURES(g_in[x] == xv, "fnv1a_32: input unchanged");
    COVER(g_n > 4, "fnv32 of data"); COVER(g_n == 0, "fnv32 of nothing");
}
void unit_fnv64(void)
{
    uint64_t h; any(); s64 = h;
    uint64_t r = fnv1a_64(h, g_in, g_n);
    FINISH(fnv64, s64);
    ENSURES(r == s64, "fnv1a_64: the state after the last byte");
    if(x < g_n) ENSURES(g_in[x] == xv, "fnv1a_64: input unchanged");
    COVER(g_n > 4, "fnv64 of data"); COVER(g_n == 0, "fnv64 of nothing");
}
#endif
