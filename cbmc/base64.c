/* C03, C04: base64_encode(), base64_decode(). */
#include "contract.h"
#include "cut.h"
#include <string.h>
#include <errno.h>
#include "encode/base64.h"

static const uint8_t* g_in; static uint8_t* g_out; static unsigned g_in_size, g_out_size;
static BASE64_OPTIONS g_opt;           /* the variant in force */
static size_t G; static unsigned J;    /* arbitrary output position 4G+J (encode), 3G+J (decode) */
static size_t x; static uint8_t xv;    /* arbitrary input byte: not written */
static size_t y; static uint8_t yv;    /* arbitrary output byte behind the result: not written */
static size_t Q; static unsigned R;    /* g_in_size == 3Q+R (encode); significant size == 4Q+R (decode) */

/* RFC 4648 alphabet of the variant */
static uint8_t ch(unsigned v) { return v < 26 ? 'A' + v : v < 52 ? 'a' + (v - 26) : v < 62 ? '0' + (v - 52) : v == 62 ? (uint8_t)g_opt.ch62 : (uint8_t)g_opt.ch63; }
static unsigned val(uint8_t c)
{
    if(c >= 'A' && c <= 'Z') return c - 'A';
    if(c >= 'a' && c <= 'z') return c - 'a' + 26;
    if(c >= '0' && c <= '9') return c - '0' + 52;
    return c == (uint8_t)g_opt.ch62 ? 62 : c == (uint8_t)g_opt.ch63 ? 63 : 255;
}
static int core(char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9'); }
static unsigned bits(size_t i) { return i < g_in_size ? g_in[i] : 0; }
/* j-th character of the group encoding input bytes 3g.. */
static uint8_t enc_char(size_t g, unsigned j)
{
    unsigned v = bits(3*g) << 16 | bits(3*g + 1) << 8 | bits(3*g + 2);
    return ch((v >> (18 - 6*j)) & 63);
}
static uint8_t dec_byte(size_t g, unsigned j, size_t m)
{
    unsigned v = val(g_in[4*g]) << 18 | val(g_in[4*g + 1]) << 12 | (4*g + 2 < m ? val(g_in[4*g + 2]) : 0) << 6 | (4*g + 3 < m ? val(g_in[4*g + 3]) : 0);
    return v >> (16 - 8*j);
}

#define INPUT_KEPT(P)   P(x >= g_in_size || g_in[x] == xv, "input is not written")
#define KE              ((size_t)(out_off >> 2))
#define INV_base64_encode_0(P) \
    P((out_off & 3) == 0 && in_off <= in_size && in_off == 3 * KE && KE <= Q, "three bytes in, four characters out per round"), \
    P(G >= KE || g_out[4*G + J] == enc_char(G, J), "every character written so far is right"), \
    P(y < g_out_size ? g_out[y] == yv || y < 4 * KE : 1, "nothing ahead is written"), \
    INPUT_KEPT(P)
#define MEM_base64_encode_0 __CPROVER_havoc_object(g_out);
#define GHOST_base64_encode_0 (void)0
#define DEC_base64_encode_0 (g_in_size - in_off)

static size_t g_m;                     /* significant characters of the text (padding taken off) */
static int g_hyp;
#define HYP(i)          REQUIRES(!g_hyp || (size_t)(i) >= g_m || val(g_in[i]) != 255)
#define VALID(i)        ((size_t)(i) >= in_off || val(g_in[i]) != 255)
#define INV_base64_decode_1(P) \
    P(in_off <= in_size, "position within the text"), \
    P(VALID(4*G) && VALID(4*G+1) && VALID(4*G+2) && VALID(4*G+3) && VALID(x), "every character checked so far is in the alphabet"), \
    INPUT_KEPT(P)
#define MEM_base64_decode_1 HYP(in_off);
#define GHOST_base64_decode_1 (void)0
#define DEC_base64_decode_1 (in_size - in_off)
#define KD              ((size_t)(in_off >> 2))
#define INV_base64_decode_2(P) \
    P((in_off & 3) == 0 && in_off <= in_size && out_off == 3 * KD, "four characters in, three bytes out per round"), \
    P(G >= KD || g_out[3*G + J] == dec_byte(G, J, g_m), "every byte written so far is right"), \
    P(y < g_out_size ? g_out[y] == yv || y < 3 * KD : 1, "nothing ahead is written"), \
    INPUT_KEPT(P)
#define MEM_base64_decode_2 __CPROVER_havoc_object(g_out);
#define GHOST_base64_decode_2 (void)0
#define DEC_base64_decode_2 (in_size - in_off)

#include CUTSRC

static const BASE64_OPTIONS* any(void)
{
    BASE64_OPTIONS o; static BASE64_OPTIONS given; unsigned a, b, c; size_t p, q, r; const BASE64_OPTIONS* arg;
    if(nondet_bool()) { g_opt.ch62 = '+'; g_opt.ch63 = '/'; g_opt.pad = '='; arg = NULL; }
    else { g_opt = o; given = o; arg = &given; }
    REQUIRES(!core(g_opt.ch62) && !core(g_opt.ch63) && !core(g_opt.pad) && g_opt.ch62 != g_opt.ch63 && g_opt.ch62 != g_opt.pad && g_opt.ch63 != g_opt.pad);
    g_in_size = a; g_out_size = b; J = c; G = p; x = q; y = r;
    REQUIRES(G <= UINT_MAX && J < 4);
#ifdef NOBYTES                       /* unit does not speak about the bytes written */
    G = UINT_MAX; J = 0;
#endif
#ifdef BOUND
    REQUIRES(g_in_size <= BOUND);
#endif
    g_in = stub_must_malloc(g_in_size);
    g_out = nondet_bool() ? NULL : stub_must_malloc(g_out_size);
    if(x < g_in_size) xv = g_in[x];
    if(g_out != NULL && y < g_out_size) yv = g_out[y];
    return arg;
}

void unit_encode(void)
{
    const BASE64_OPTIONS* o = any();
    size_t q; unsigned rr; Q = q; R = rr;
    REQUIRES(Q <= UINT_MAX && R < 3 && 3 * Q + R == g_in_size);
    int r = base64_encode(g_in, g_in_size, (char*)g_out, g_out_size, o);
    size_t body = 4 * Q + (R ? R + 1 : 0);          /* characters without padding */
    size_t n = g_opt.pad && R ? 4 * Q + 4 : body;
    if(x < g_in_size) ENSURES(g_in[x] == xv, "encode: input unchanged");
    if(n + 1 > INT_MAX)
        ENSURES(r < 0, "encode: negative if the result does not fit the return type");
    else if(r < 0 && n > INT_MAX - 8)
        ;                                           /* limit of the return type: either */
    else if(g_out == NULL) {
        ENSURES(r == (int)n + 1, "encode: size query returns the length plus terminator");
        COVER(n > 100 && R == 1, "encode size query");
    } else if(g_out_size < n) {
        ENSURES(r < 0, "encode: negative if the buffer is too small");
        if(y < g_out_size) ENSURES(g_out[y] == yv, "encode: buffer unchanged on failure");
        COVER(1, "encode into too small buffer");
    } else {
        ENSURES(r == (int)n, "encode: returns the number of characters");
        if(4 * G + J < body) ENSURES(g_out[4 * G + J] == enc_char(G, J), "encode: every character as of RFC 4648 for the variant");
        if(body <= 4 * G + J && 4 * G + J < n) ENSURES(g_out[4 * G + J] == (uint8_t)g_opt.pad, "encode: padding");
        if(g_out_size > n) ENSURES(g_out[n] == 0, "encode: terminator if there is room");
        if(y > n && y < g_out_size) ENSURES(g_out[y] == yv, "encode: nothing written behind the terminator");
        COVER(Q >= G && R == 2 && n > 4 && g_opt.pad, "encode with padding"); COVER(R == 1 && !g_opt.pad, "encode without padding"); COVER(n == 0, "encode nothing");
    }
}

static size_t significant(void)
{
    size_t m = g_in_size;
    if(g_opt.pad != 0 && m > 0 && m % 4 == 0 && g_in[m - 1] == (uint8_t)g_opt.pad) m--;
    if(m % 4 == 3 && g_in_size % 4 == 0 && g_in[m - 1] == (uint8_t)g_opt.pad) m--;
    return m;
}
static int needed_fits(size_t need) { return need <= INT_MAX; }

/* accepted text */
void unit_decode(void)
{
    const BASE64_OPTIONS* o = any();
    REQUIRES(J < 3);
    g_m = significant(); Q = g_m / 4; R = g_m % 4;
    int r = base64_decode((const char*)g_in, g_in_size, g_out, g_out_size, o);
    if(x < g_in_size) ENSURES(g_in[x] == xv, "decode: input unchanged");
    if(r >= 0) {
        size_t need = 3 * Q + (R ? R - 1 : 0);
        ENSURES(R != 1, "decode: no encoding has that length");
        ENSURES((size_t)r == need, "decode: returns the length of the original data");
        if(x < g_m) ENSURES(val(xv) != 255, "decode: accepts only characters of the alphabet");
        if(R == 2 && x == g_m - 1) ENSURES((val(xv) & 15) == 0, "decode: unused trailing bits are zero");
        if(R == 3 && x == g_m - 1) ENSURES((val(xv) & 3) == 0, "decode: unused trailing bits are zero");
        if(g_out != NULL) {
            ENSURES(need <= g_out_size, "decode: accepts only if the buffer is large enough");
            if(3 * G + J < need) ENSURES(g_out[3 * G + J] == dec_byte(G, J, g_m), "decode: every byte, in order");
            if(y >= need && y < g_out_size) ENSURES(g_out[y] == yv, "decode: nothing written behind the result");
            COVER(3 * G + J < need && need > 100 && R == 2 && g_m != g_in_size, "decode padded text"); COVER(R == 3 && G == Q && g_m == g_in_size, "decode unpadded text");
        } else COVER(r > 5, "decode size query");
    } else
        COVER(g_in_size > 100, "decode rejects");
}
/* every well-formed text is accepted */
void unit_decode_accepts(void)
{
    const BASE64_OPTIONS* o = any();
    g_m = significant(); Q = g_m / 4; R = g_m % 4;
    g_hyp = 1;
    REQUIRES(R != 1);
    if(R == 2) REQUIRES((val(g_in[g_m - 1]) & 15) == 0 && val(g_in[g_m - 1]) != 255);
    if(R == 3) REQUIRES((val(g_in[g_m - 1]) & 3) == 0 && val(g_in[g_m - 1]) != 255);
    size_t need = 3 * Q + (R ? R - 1 : 0);
    REQUIRES(g_out == NULL || g_out_size >= need);
    REQUIRES(need <= INT_MAX - 8);
#ifdef BOUND
    for(size_t i = 0; i < BOUND; i++) HYP(i);
#endif
    int r = base64_decode((const char*)g_in, g_in_size, g_out, g_out_size, o);
    ENSURES(r == (int)need, "decode: every well-formed text is accepted");
    COVER(R == 2 && r > 4, "decode accepts padded"); COVER(g_in_size > 1000 && R == 3 && g_m != g_in_size, "decode accepts long");
}
void unit_decode_rejects(void)
{
    const BASE64_OPTIONS* o = any();
    g_m = significant(); Q = g_m / 4; R = g_m % 4;
    size_t need = 3 * Q + (R ? R - 1 : 0);
    unsigned last = g_m ? val(g_in[g_m - 1]) : 0;
    REQUIRES(R == 1 || (x < g_m && val(xv) == 255) || (R == 2 && (last & 15)) || (R == 3 && (last & 3)) || (g_out != NULL && g_out_size < need) || need > INT_MAX);
    int r = base64_decode((const char*)g_in, g_in_size, g_out, g_out_size, o);
    ENSURES(r < 0, "decode: malformed text, or too small a buffer, is rejected");
    if(g_out != NULL && y < g_out_size) ENSURES(g_out[y] == yv, "decode: buffer unchanged on rejection");
    COVER(R == 1, "decode rejects length"); COVER(R == 3 && val(xv) != 255, "decode rejects bits"); COVER(R == 0 && val(xv) == 255 && g_out_size > g_in_size, "decode rejects character");
}
/* lemma: decoding the encoding of a group gives the group, for every tail length, padded or not */
void unit_lemma_inverse(void)
{
    BASE64_OPTIONS o; uint8_t b[3]; unsigned k;
    g_opt = o;
    REQUIRES(!core(g_opt.ch62) && !core(g_opt.ch63) && !core(g_opt.pad) && g_opt.ch62 != g_opt.ch63 && g_opt.ch62 != g_opt.pad && g_opt.ch63 != g_opt.pad);
    REQUIRES(k >= 1 && k <= 3);
    g_in = b; g_in_size = k;
    uint8_t t[4]; for(int j = 0; j < 4; j++) t[j] = enc_char(0, j);
    for(int j = 0; j < 4; j++) {
        ENSURES(val(t[j]) != 255, "every character produced is accepted");
        ENSURES(t[j] != (uint8_t)g_opt.pad, "no data character is mistaken for padding");
    }
    if(k == 1) ENSURES((val(t[1]) & 15) == 0, "unused bits are zero"); if(k == 2) ENSURES((val(t[2]) & 3) == 0, "unused bits are zero");
    g_in = t; g_in_size = 4;
    for(unsigned j = 0; j < k; j++) ENSURES(dec_byte(0, j, k + 1) == b[j], "decoding the characters of a group gives the bytes");
    COVER(k == 3 && b[0] == 0xff && g_opt.ch62 == '-', "lemma");
}
