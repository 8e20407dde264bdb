#include "search.h"
#include "encode/hex.h"
#include "encode/base64.h"
#include "encode/hex.c"
#include "encode/base64.c"
#include "search_encode_spec.h"

/* exactly sized heap blocks: ASan guards both ends */
static uint8_t* blk(size_t n) { return malloc(n ? n : 1) ; }
static uint8_t* exact(size_t n) { uint8_t* p = malloc(n); return p; }

static unsigned out_room(unsigned need)
{
    switch(choose(6)) { case 0: return need; case 1: return need + 1; case 2: return need ? need - 1 : 0; case 3: return need + 2 + choose(8); case 4: return need / 2; default: return choose(need + 3); }
}
static unsigned inlen(void) { return g_small ? choose(4) : choose(5) == 0 ? (choose(8) == 0 ? (1u << (4 + choose(13))) + choose(5) - 2u + (choose(4) == 0 ? choose(20000) : 0) : choose(3000)) : choose(3) ? choose(20) : choose(200); }

static void t_hex_encode(void)
{
    unsigned n = inlen(); int lower = choose(2); uint8_t* in = exact(n); for(unsigned i = 0; i < n; i++) in[i] = g_small ? (uint8_t)(choose(3) * 0x5b + 0x3c) : fillb();
    int lc = lower ? (choose(2) ? 1 : 2) : 0;
    describe("hex_encode(%u bytes, lower=%d)", n, lc);
    CHECK(hex_encode(in, n, NULL, choose(2) ? 0 : 77, lc) == (int)(2*n + 1), "encode: size query");
    unsigned room = out_room(2*n); uint8_t* out = exact(room); memset(out, 0x7e, room);
    int r = hex_encode(in, n, (char*)out, room, lc);
    describe("room=%u -> %d", room, r);
    if(room < 2*n) CHECK(r == -1, "encode: too small buffer");
    else {
        CHECK(r == (int)(2*n), "encode: returns twice the length");
        const char* dg = lower ? "0123456789abcdef" : "0123456789ABCDEF";
        for(unsigned i = 0; i < n; i++) { CHECK(out[2*i] == dg[in[i] >> 4] && out[2*i+1] == dg[in[i] & 15], "encode: digits"); }
        if(room > 2*n) CHECK(out[2*n] == 0, "encode: terminator if there is room");
        for(unsigned i = 2*n + 1; i < room; i++) CHECK(out[i] == 0x7e, "encode: nothing written behind the terminator");
        if(n) nontrivial();
    }
    free(in); free(out);
}
static void t_hex_encode_huge(void)
{
    static const unsigned base[] = { 0x3fffffffu, 0x40000000u, 0x7fffffffu, 0x80000000u, 0xbfffffffu, 0xc0000000u, 0xffffffffu };
    unsigned n = base[choose(7)] + (choose(5) - 2u); uint8_t in[4] = { 1, 2, 3, 4 };
    if(n < 1000) return;
    describe("hex_encode(%u bytes)", n);
    int q = hex_encode(in, n, NULL, 0, choose(2));
    if(2ull * n > INT_MAX) CHECK(q == -1, "encode: result that does not fit"); else CHECK(q == (int)(2*n+1) || (2ull*n+1 > INT_MAX && q == -1), "encode: size query");
    unsigned room = choose(40); uint8_t* out = exact(room);
    CHECK(hex_encode(in, n, (char*)out, room, 0) == -1, "encode: too small buffer"); free(out); nontrivial();
}
static void t_hex_decode(void)
{
    static const char pool[] = "0919afAFgG@`/:!zZ\x80\xff \0Gf";
    unsigned n = inlen(); uint8_t* in = exact(n); int mode = g_small ? 1 : choose(4);
    for(unsigned i = 0; i < n; i++) {
        if(mode == 0) in[i] = fillb(); else if(g_small) in[i] = n <= 2 ? (uint8_t)choose(256) : (uint8_t)pool[choose(sizeof(pool)-1)];
        else in[i] = "0123456789abcdefABCDEF"[fillb() % 22];
    }
    if(!g_small && mode >= 2 && n && choose(2)) in[choose(n)] = (uint8_t)choose(256);
    describe("hex_decode(%u chars)", n);
    for(unsigned i = 0; i < n && i < 8; i++) describe("%02x", in[i]);
    int ok = n % 2 == 0; for(unsigned i = 0; i < n; i++) if(sp_nib(in[i]) < 0) ok = 0;
    CHECK(hex_decode((char*)in, n, NULL, 5) == (int)(n / 2), "decode: size query");
    unsigned room = out_room(n/2); uint8_t* out = exact(room); memset(out, 0x7e, room);
    int r = hex_decode((char*)in, n, out, room);
    describe("room=%u -> %d", room, r);
    if(!ok || room < n/2) CHECK(r == -1, "decode: invalid text or too small buffer is rejected");
    else {
        CHECK(r == (int)(n/2), "decode: valid text is accepted");
        for(unsigned i = 0; i < n/2; i++) CHECK(out[i] == sp_nib(in[2*i]) * 16 + sp_nib(in[2*i+1]), "decode: bytes");
        for(unsigned i = n/2; i < room; i++) CHECK(out[i] == 0x7e, "decode: nothing written behind the result");
        if(n) nontrivial();
    }
    free(in); free(out);
}
static const BASE64_OPTIONS* variant(BASE64_OPTIONS* o)
{
    static const BASE64_OPTIONS V[] = { { '+', '/', '=' }, { '-', '_', 0 }, { '-', '_', '=' }, { '.', ':', '~' }, { (char)0xfe, (char)0x80, (char)0xff }, { '_', '-', '.' }, { '+', ',', 0 }, { '!', '-', 1 } };
    unsigned k = choose(g_small ? 5 : 9);
    if(k == 0) { *o = V[0]; return NULL; }
    *o = V[k - 1]; return o;
}
static void t_b64_encode(void)
{
    BASE64_OPTIONS o; const BASE64_OPTIONS* a = variant(&o);
    unsigned n = inlen(); uint8_t* in = exact(n); for(unsigned i = 0; i < n; i++) in[i] = g_small ? (uint8_t)"\xff\x00\xfb"[choose(3)] : fillb();
    char* exp = malloc(n / 3 * 4 + 8); size_t m = sp_b64(in, n, exp, &o);
    describe("base64_encode(%u bytes, '%c' '%c' pad %d%s)", n, o.ch62, o.ch63, o.pad, a ? "" : " default");
    CHECK(base64_encode(in, n, NULL, choose(2) * 9, a) == (int)m + 1, "encode: size query");
    unsigned room = out_room((unsigned)m); uint8_t* out = exact(room); memset(out, 0x7e, room);
    int r = base64_encode(in, n, (char*)out, room, a);
    describe("room=%u -> %d", room, r);
    if(room < m) CHECK(r < 0, "encode: too small buffer");
    else {
        CHECK(r == (int)m, "encode: returns the number of characters"); CHECK(!memcmp(out, exp, m), "encode: RFC 4648 text of the variant");
        if(room > m) CHECK(out[m] == 0, "encode: terminator if there is room");
        for(unsigned i = (unsigned)m + 1; i < room; i++) CHECK(out[i] == 0x7e, "encode: nothing written behind the terminator");
        if(n) nontrivial();
    }
    free(in); free(out); free(exp);
}
static void t_b64_encode_huge(void)
{
    static const unsigned base[] = { 0x40000000u, 0x5ffffffdu, 0x60000000u, 0x7fffffffu, 0x80000000u, 0xbfffffffu, 0xc0000000u, 0xfffffffdu };
    unsigned n = base[choose(8)] + (choose(7) - 3u); uint8_t in[4] = { 1, 2, 3, 4 }; BASE64_OPTIONS o; const BASE64_OPTIONS* a = variant(&o);
    if(n < 1000) return;
    uint64_t m = o.pad ? ((uint64_t)n + 2) / 3 * 4 : (uint64_t)n / 3 * 4 + (n % 3 ? n % 3 + 1 : 0);
    int q = base64_encode(in, n, NULL, 0, a); describe("base64_encode(%u bytes, NULL) -> %d", n, q);
    if(m + 1 > INT_MAX) CHECK(q < 0, "encode: result that does not fit"); else CHECK(q == (int)m + 1 || (m > INT_MAX - 8 && q < 0), "encode: size query");
    unsigned room = choose(40); uint8_t* out = exact(room);
    CHECK(base64_encode(in, n, (char*)out, room, a) < 0, "encode: too small buffer"); free(out); nontrivial();
}
static void t_b64_decode(void)
{
    BASE64_OPTIONS o; const BASE64_OPTIONS* a = variant(&o);
    unsigned n; uint8_t* in; int mode = g_small ? choose(2) : choose(4);
    if(mode == 0) {            /* arbitrary text over an interesting alphabet */
        n = g_small ? choose(6) : inlen(); in = exact(n);
        for(unsigned i = 0; i < n; i++) { uint32_t k = g_small ? choose(5) : choose(9); in[i] = k == 0 ? (uint8_t)o.pad : k == 1 ? (uint8_t)o.ch62 : k == 2 ? (uint8_t)o.ch63 : k == 3 ? 'A' : k == 4 ? 'Q' : k == 5 ? (uint8_t)choose(256) : (uint8_t)"ABCDwxyz0189gEYU"[choose(16)]; }
    } else {                   /* an encoding, perhaps damaged or with the padding cut */
        unsigned k = inlen(); uint8_t* raw = exact(k); for(unsigned i = 0; i < k; i++) raw[i] = g_small ? (uint8_t)"\xff\x00\xfb"[choose(3)] : fillb();
        char* t = malloc(k / 3 * 4 + 8); n = (unsigned)sp_b64(raw, k, t, &o);
        if(choose(3) == 0) while(n && o.pad && t[n-1] == o.pad) n--;
        if(n && choose(3) == 0) { unsigned i = choose(2) ? n - 1 - choose(n < 4 ? n : 4) : choose(n); t[i] = g_small ? "=A\x80\0?"[choose(5)] : (char)choose(256); }
        in = exact(n); memcpy(in, t, n); free(t); free(raw);
    }
    describe("base64_decode(%u chars, '%c' '%c' pad %d)", n, o.ch62, o.ch63, o.pad);
    for(unsigned i = n > 12 ? n - 12 : 0; i < n; i++) describe("%02x", in[i]);
    uint8_t* exp = malloc(n + 4); long need = sp_b64dec(in, n, exp, &o);
    int q = base64_decode((char*)in, n, NULL, 3, a);
    if(need < 0) CHECK(q < 0, "decode: malformed text is rejected (size query)"); else CHECK(q == need, "decode: size query");
    unsigned room = out_room(need < 0 ? n : (unsigned)need); uint8_t* out = exact(room); memset(out, 0x7e, room);
    int r = base64_decode((char*)in, n, out, room, a);
    describe("room=%u -> %d, expected %ld", room, r, need);
    if(need < 0 || room < (unsigned long)need) CHECK(r < 0, "decode: malformed text or too small buffer is rejected");
    else {
        CHECK(r == need, "decode: well-formed text is accepted"); CHECK(!memcmp(out, exp, need), "decode: bytes");
        for(unsigned i = (unsigned)need; i < room; i++) CHECK(out[i] == 0x7e, "decode: nothing written behind the result");
        if(need) nontrivial();
    }
    free(in); free(out); free(exp);
}
static TEST TESTS[] = {
#ifdef HEX_ENC
    { "hex_encode", t_hex_encode, 30000, 0 }, { "hex_encode_huge", t_hex_encode_huge, 3000, 1 },
#endif
#ifdef HEX_DEC
    { "hex_decode", t_hex_decode, 1500000, 0 },
#endif
#ifdef B64_ENC
    { "base64_encode", t_b64_encode, 60000, 0 }, { "base64_encode_huge", t_b64_encode_huge, 5000, 1 },
#endif
#ifdef B64_DEC
    { "base64_decode", t_b64_decode, 300000, 0 },
#endif
    { 0 } };
