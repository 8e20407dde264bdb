#include "search.h"
#include "hash/crc32.c"
#include "hash/fnv1a.c"

static size_t mklen(void) { return g_small ? choose(3) : choose(20) == 0 ? 1000 + choose(70000) : choose(4) ? choose(40) : choose(600); }
static uint8_t* mk(size_t n) { uint8_t* p = malloc(n); for(size_t i = 0; i < n; i++) p[i] = g_small ? (uint8_t)choose(256) : fillb(); return p; }
static uint32_t ref_crc(const uint8_t* p, size_t n)
{
    uint32_t c = 0xffffffffu;
    for(size_t i = 0; i < n; i++) for(int b = 0; b < 8; b++) { uint32_t bit = (c ^ (p[i] >> b)) & 1; c >>= 1; if(bit) c ^= 0xEDB88320u; }
    return ~c;
}
static void t_crc(void)
{
    size_t n = mklen(); uint8_t* p = mk(n); uint32_t r = crc32(p, n), e = ref_crc(p, n);
    describe("crc32(%zu bytes %02x %02x..) = %08x, expected %08x", n, n ? p[0] : 0, n > 1 ? p[1] : 0, r, e);
    CHECK(r == e, "crc32: polynomial checksum"); if(n) nontrivial(); free(p);
}
static void t_fnv(void)
{
    size_t n = mklen(); uint8_t* p = mk(n);
    uint32_t h = choose(2) ? FNV1A_BASE_32 : g_small ? choose(3) : choose(0), s = h; uint64_t H = choose(2) ? FNV1A_BASE_64 : g_small ? choose(3) : choose64(), S = H;
    for(size_t i = 0; i < n; i++) { s = (s ^ p[i]) * 0x01000193u; S = (S ^ p[i]) * 0x100000001B3ull; }
    uint32_t r = fnv1a_32(h, p, n); uint64_t R = fnv1a_64(H, p, n);
    describe("fnv1a of %zu bytes: %08x expected %08x, %016llx expected %016llx", n, r, s, (unsigned long long)R, (unsigned long long)S);
    CHECK(FNV1A_BASE_32 == 0x811c9dc5u && FNV1A_BASE_64 == 0xcbf29ce484222325ull, "published offset basis");
    CHECK(r == s, "fnv1a_32: recurrence"); CHECK(R == S, "fnv1a_64: recurrence");
    size_t k = n ? choose((uint32_t)n + 1) : 0;
    CHECK(fnv1a_32(fnv1a_32(h, p, k), p + k, n - k) == r && fnv1a_64(fnv1a_64(H, p, k), p + k, n - k) == R, "fnv1a: hashing in pieces");
    if(n) nontrivial(); free(p);
}
static TEST TESTS[] = {
#ifdef CRC
    { "crc32", t_crc, 70000, 0 },
#endif
#ifdef FNV
    { "fnv1a", t_fnv, 200000, 0 },
#endif
    { 0 } };
