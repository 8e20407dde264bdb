/* C01, C02: hex_encode(), hex_decode(). */
#include "contract.h"
#include "cut.h"
#include <string.h>

static size_t w;                 /* arbitrary output (encode) / output byte (decode) position */
static size_t x; static uint8_t xv;   /* arbitrary input byte and its value: the input is not written */
static const uint8_t* g_in; static uint8_t* g_out; static unsigned g_in_size, g_out_size; static int g_lower;
static size_t y; static uint8_t yv;   /* arbitrary output byte behind the result: not written */

static char digit(unsigned v, int lower) { return v < 10 ? '0' + v : (lower ? 'a' : 'A') + (v - 10); }
static int  nib(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static char enc_char(size_t p) { uint8_t b = g_in[p / 2]; return digit(p % 2 ? (b & 15) : (b >> 4), g_lower); }

#define INPUT_KEPT(P)   P(x >= g_in_size || g_in[x] == xv, "input is not written")
#define K_ENC           ((size_t) __CPROVER_POINTER_OFFSET(in))
#define INV_hex_encode_0(P) \
    P(K_ENC <= g_in_size && __CPROVER_POINTER_OFFSET(out) == 2 * K_ENC, "position in output is twice the position in input"), \
    P(w >= 2 * K_ENC || (char)g_out[w] == enc_char(w), "every digit written so far is right"), \
    P(y < 2 * (size_t)g_in_size || y >= g_out_size || g_out[y] == yv, "nothing behind the digits is written"), \
    INPUT_KEPT(P)
#define MEM_hex_encode_0 __CPROVER_havoc_object(g_out)
#define GHOST_hex_encode_0 (void)0
#define DEC_hex_encode_0 (g_in_size - K_ENC)

#define K_DEC           ((size_t) __CPROVER_POINTER_OFFSET(out))
#define INV_hex_decode_0(P) \
    P(K_DEC <= g_in_size / 2 && __CPROVER_POINTER_OFFSET(in) == 2 * K_DEC, "position in input is twice the position in output"), \
    P(w >= K_DEC || (nib(g_in[2*w]) >= 0 && nib(g_in[2*w + 1]) >= 0), "every digit read so far is a hex digit"), \
    P(w >= K_DEC || g_out[w] == nib(g_in[2*w]) * 16 + nib(g_in[2*w + 1]), "every byte written so far is right"), \
    P(y < g_in_size / 2 || y >= g_out_size || g_out[y] == yv, "nothing behind the bytes is written"), \
    INPUT_KEPT(P)
#define MEM_hex_decode_0 __CPROVER_havoc_object(g_out); HYP(2 * K_DEC); HYP(2 * K_DEC + 1)
/* hypothesis "every input character is a digit", instantiated at index i */
static int g_hyp;
#define HYP(i)          REQUIRES(!g_hyp || (i) >= g_in_size || nib(g_in[i]) >= 0)
#define GHOST_hex_decode_0 (void)0
#define DEC_hex_decode_0 (g_in_size / 2 - K_DEC)

#include CUTSRC

static void any(void)
{
    unsigned a, b; int l; size_t p, q, r;
    g_in_size = a; g_out_size = b; g_lower = l; w = p; x = q; y = r;
#ifdef BOUND
    REQUIRES(g_in_size <= BOUND);
#endif
    g_in = stub_must_malloc(g_in_size);
    g_out = nondet_bool() ? NULL : stub_must_malloc(g_out_size);
    if(x < g_in_size) xv = g_in[x];
    if(g_out != NULL && y < g_out_size) yv = g_out[y];
}

void unit_encode(void)
{
    any();
    int r = hex_encode(g_in, g_in_size, (char*)g_out, g_out_size, g_lower);
    size_t n = 2 * (size_t)g_in_size;
    if(x < g_in_size) ENSURES(g_in[x] == xv, "encode: input unchanged");
    if(n > INT_MAX)
        ENSURES(r == -1, "encode: -1 if the result does not fit the return type");
    else if(g_out == NULL) {
        if(n + 1 > INT_MAX) ENSURES(r == -1, "encode: size query that does not fit"); else
        ENSURES(r == (int)n + 1, "encode: size query returns twice the length plus terminator");
        COVER(r > 100, "encode size query");
    } else if(g_out_size < n) {
        ENSURES(r == -1, "encode: -1 if the buffer is too small");
        if(y < g_out_size) ENSURES(g_out[y] == yv, "encode: buffer unchanged on failure");
        COVER(1, "encode into too small buffer");
    } else {
        ENSURES(r == (int)n, "encode: returns twice the input length");
        if(w < n) ENSURES((char)g_out[w] == enc_char(w), "encode: every digit, in order, in the requested case");
        if(g_out_size > n) ENSURES(g_out[n] == 0, "encode: terminator if there is room");
        if(y > n && y < g_out_size) ENSURES(g_out[y] == yv, "encode: nothing written behind the terminator");
        COVER(w < n && n > 100, "encode writes digits"); COVER(n == 0, "encode of nothing");
    }
}

void unit_decode(void)
{
    any();
    int r = hex_decode((const char*)g_in, g_in_size, g_out, g_out_size);
    if(x < g_in_size) ENSURES(g_in[x] == xv, "decode: input unchanged");
    if(g_out == NULL) {
        ENSURES(r == (int)(g_in_size / 2), "decode: size query returns half the length");
        COVER(r > 100, "decode size query");
    } else if(r != -1) {
        ENSURES(g_in_size % 2 == 0 && r == (int)(g_in_size / 2), "decode: returns half the input length, which is even");
        ENSURES(g_in_size / 2 <= g_out_size, "decode: accepts only if the buffer is large enough");
        if(w < g_in_size / 2) {
            ENSURES(nib(g_in[2*w]) >= 0 && nib(g_in[2*w+1]) >= 0, "decode: accepts only hex digits");
            ENSURES(g_out[w] == nib(g_in[2*w]) * 16 + nib(g_in[2*w+1]), "decode: every byte, in order");
        }
        if(y >= g_in_size / 2 && y < g_out_size) ENSURES(g_out[y] == yv, "decode: nothing written behind the result");
        COVER(w < g_in_size / 2 && g_in_size > 100, "decode succeeds");
    } else {
        /* rejected: then something is wrong with the input, see unit_decode_accepts */
        COVER(g_in_size % 2 == 0 && g_out_size >= g_in_size, "decode rejects");
    }
}

/* valid text is accepted, hence only invalid text is rejected */
void unit_decode_accepts(void)
{
    any(); g_hyp = 1;
    REQUIRES(g_in_size % 2 == 0 && g_out != NULL && g_out_size >= g_in_size / 2);
#ifdef BOUND
    for(size_t i = 0; i < BOUND; i++) HYP(i);
#endif
    int r = hex_decode((const char*)g_in, g_in_size, g_out, g_out_size);
    ENSURES(r == (int)(g_in_size / 2), "decode: every even-length hex text is accepted");
    COVER(r > 2, "decode accepts");
}
/* odd length, or a character that is no digit at the arbitrary position w */
void unit_decode_rejects(void)
{
    any();
    REQUIRES(g_out != NULL);
    REQUIRES(g_in_size % 2 != 0 || g_out_size < g_in_size / 2 || (x < g_in_size && nib(xv) < 0));
    REQUIRES(w == x / 2);
    int r = hex_decode((const char*)g_in, g_in_size, g_out, g_out_size);
    ENSURES(r == -1, "decode: text of odd length or with another character is rejected");
    COVER(g_in_size % 2 == 0 && g_out_size > g_in_size, "decode rejects a character");
}
/* lemma: the two contracts are inverse of each other */
void unit_lemma_inverse(void)
{
    uint8_t b; int lower; uint8_t c, d;
    ENSURES(nib(digit(b >> 4, lower)) * 16 + nib(digit(b & 15, lower)) == b, "decoding the digits of a byte gives the byte, in either case");
    if(nib(c) >= 0 && nib(d) >= 0) {
        uint8_t v = nib(c) * 16 + nib(d); char hi = digit(v >> 4, lower), lo = digit(v & 15, lower);
        ENSURES(nib(hi) == nib(c) && nib(lo) == nib(d), "encoding the decoded byte gives the digits back, up to case");
    }
    COVER(b == 0xab, "lemma");
}
