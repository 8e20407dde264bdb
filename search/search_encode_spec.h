/* executable specification: hex digit value, RFC 4648 encode and decode */
static int sp_nib(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static uint8_t sp_ch(unsigned v, const BASE64_OPTIONS* o) { return v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? (uint8_t)o->ch62 : (uint8_t)o->ch63; }
static int sp_val(uint8_t c, const BASE64_OPTIONS* o) { for(unsigned v = 0; v < 64; v++) if(sp_ch(v, o) == c) return (int)v; return -1; }
static size_t sp_b64(const uint8_t* in, size_t n, char* out, const BASE64_OPTIONS* o)
{
    size_t m = 0; uint32_t acc = 0; int bits = 0;
    for(size_t i = 0; i < n; i++) { acc = acc << 8 | in[i]; bits += 8; while(bits >= 6) { bits -= 6; out[m++] = (char)sp_ch(acc >> bits & 63, o); } }
    if(bits) out[m++] = (char)sp_ch(acc << (6 - bits) & 63, o);
    if(o->pad) while(m % 4) out[m++] = o->pad;
    return m;
}
static long sp_b64dec(const uint8_t* in, size_t n, uint8_t* out, const BASE64_OPTIONS* o)
{
    size_t m = n; long k = 0; uint32_t acc = 0; int bits = 0;
    if(o->pad && n && n % 4 == 0) { if(in[m-1] == (uint8_t)o->pad) m--; if(m == n - 1 && in[m-1] == (uint8_t)o->pad) m--; }
    if(m % 4 == 1) return -1;
    for(size_t i = 0; i < m; i++) { int v = sp_val(in[i], o); if(v < 0) return -1; acc = acc << 6 | (uint32_t)v; bits += 6; if(bits >= 8) { bits -= 8; out[k++] = acc >> bits & 255; } }
    if(bits && (acc & ((1u << bits) - 1))) return -1;
    return k;
}
