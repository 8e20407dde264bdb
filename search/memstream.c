/* C32: the memory stream through its COM interface, natively, over blocks with guarded ends. */
#define SEARCH_ALLOC
#include "search.h"
#include <windows.h>
#include <objidl.h>
const IID IID_IUnknown = { 0, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } }, IID_IDispatch = { 0x20400, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } },
          IID_ISequentialStream = { 0x0c733a30, 0x2a1c, 0x11ce, { 0xad, 0xe5, 0, 0xaa, 0, 0x44, 0x77, 0x3d } }, IID_IStream = { 0x0c, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
static uint8_t* g_res; static DWORD g_resn; static int g_rf;
HRSRC FindResourceW(HMODULE m, LPCWSTR name, LPCWSTR type) { (void)m; (void)name; (void)type; return g_rf == 1 ? NULL : &g_rf; }
DWORD SizeofResource(HMODULE m, HRSRC r) { (void)m; (void)r; return g_resn; }
HGLOBAL LoadResource(HMODULE m, HRSRC r) { (void)m; (void)r; return g_rf == 2 ? NULL : &g_resn; }
LPVOID LockResource(HGLOBAL g) { (void)g; return g_rf == 3 ? NULL : g_res; }
DWORD GetLastError(void) { return 1812; }
#include "win32/memstream.c"

static uint8_t* blk; static ULONG bsize;
static struct { IStream* s; ULONG pos; LONG refs; } S[5];
static int wr_mode; static ULONG wr_take; static uint8_t* wr_buf; static ULONG wr_n; static int wr_calls;
static HRESULT dw(IStream* s, const void* d, ULONG n, ULONG* w) { (void)s; wr_calls++; wr_n = n; CHECK(n <= bsize, "copy stays within the block"); memcpy(wr_buf, d, n); if(wr_take > n) wr_take = n; if(w) *w = wr_take; return wr_mode; }
static IStreamVtbl dv = { .Write = dw }; static IStream dst = { &dv };
static ULONG where(IStream* s) { LARGE_INTEGER z; ULARGE_INTEGER r; z.QuadPart = 0; IStream_Seek(s, z, STREAM_SEEK_CUR, &r); return (ULONG)r.QuadPart; }
static int64_t off(void)
{
    static const int64_t sp[] = { 0, 1, -1, 2, 5, INT64_MAX, INT64_MIN, INT64_MAX - 1, 0xffffffffll, 0x100000000ll, -0x100000000ll, 0x7fffffff, 0x80000000ll, -0x80000000ll, INT64_MAX - 0xffffffffll, 0xfffffffell };
    return g_small ? sp[choose(8)] : choose(2) ? sp[choose(16)] : (int64_t)choose(bsize + 3) - (choose(2) ? (int64_t)choose(bsize + 3) : 0);
}
static void t_stream(void)
{
    bsize = g_small ? choose(4) : choose(200); blk = malloc(bsize); wr_buf = malloc(bsize + 1); for(ULONG i = 0; i < bsize; i++) blk[i] = (uint8_t)(i * 31 + 7);
    int ns = 1, ops = g_small ? 3 : 40; HRESULT hr; uint8_t* cpy = malloc(bsize + 1); memcpy(cpy, blk, bsize); live_blocks = 0;
    g_res = blk; g_resn = bsize; g_rf = g_small ? 0 : choose(8);
    fail_at = choose(8) == 0 ? 0 : -1; int ff = fail_at == 0;
    if(choose(3) == 0) { IStream* x = &dst; int bad = (g_rf >= 1 && g_rf <= 3) || bsize == 0; hr = memstream_create_from_resource(NULL, NULL, NULL, &x);
        if(ff || bad) { CHECK(FAILED(hr) && x == NULL && live_blocks == 0, "failure gives a failure code and nothing"); goto out; } CHECK(hr == S_OK && x != NULL, "stream over a resource"); S[0].s = x; }
    else { IStream* x = &dst; hr = memstream_create(blk, bsize, &x); if(ff) { CHECK(FAILED(hr) && x == NULL && live_blocks == 0, "failure gives a failure code and nothing"); goto out; } CHECK(hr == S_OK && x != NULL, "create"); S[0].s = x; }
    fail_at = -1;
    S[0].pos = 0; S[0].refs = 1; describe("block of %u", bsize);
    for(int o = 0; o < ops && ns; o++) {
        int i = choose(ns); IStream* s = S[i].s; ULONG pos = S[i].pos, avail = pos < bsize ? bsize - pos : 0;
        switch(choose(8)) {
        case 0: { ULONG n = g_small ? choose(4) : choose(4) ? choose(bsize + 2) : 0xffffffffu - choose(3), m = n < avail ? n : avail, got = 9; uint8_t* b = malloc(m); int ask = choose(2);
            describe("#%d Read(%u) at %u", i, n, pos); hr = IStream_Read(s, b, n, ask ? &got : NULL);
            CHECK(hr == (avail ? S_OK : S_FALSE), "read result"); CHECK(!ask || got == m, "read reports the bytes delivered"); CHECK(m == 0 || !memcmp(b, cpy + pos, m), "bytes delivered"); S[i].pos += m; free(b); if(m) nontrivial(); break; }
        case 1: case 2: { LARGE_INTEGER d; ULARGE_INTEGER np; d.QuadPart = off(); DWORD org = choose(4); int ask = choose(2); np.QuadPart = 77;
            describe("#%d Seek(%lld,%u) at %u", i, (long long)d.QuadPart, org, pos); hr = IStream_Seek(s, d, org, ask ? &np : NULL);
            __int128 to = (__int128)d.QuadPart + (org == 1 ? pos : org == 2 ? bsize : 0); int ok = org <= 2 && to >= 0 && to <= 0xffffffffll;
            CHECK(ok ? hr == S_OK : FAILED(hr), "seek result"); if(ok) S[i].pos = (ULONG)to; CHECK(!ask || np.QuadPart == S[i].pos, "seek reports the position"); break; }
        case 3: { ULARGE_INTEGER n, r, w; n.QuadPart = g_small ? (choose(2) ? UINT64_MAX : choose(4)) : choose(3) ? choose(bsize + 3) : choose(2) ? UINT64_MAX - choose(3) : 0x100000000ull + choose(3); ULONG m = n.QuadPart < avail ? (ULONG)n.QuadPart : avail;
            wr_mode = choose(5) == 0 ? E_FAIL : S_OK; wr_take = choose(3) ? 0xffffffffu : choose(bsize + 1); wr_calls = 0; int ar = choose(2), aw = choose(2); ULONG plan = wr_take;
            describe("#%d CopyTo(%llu) at %u", i, (unsigned long long)n.QuadPart, pos); hr = IStream_CopyTo(s, &dst, n, ar ? &r : NULL, aw ? &w : NULL); (void)plan;
            CHECK(wr_calls <= 1 && (wr_calls || m == 0), "copy offers the bytes once");
            if(wr_calls) { CHECK(wr_n == m, "copy offers the bytes up to the end"); CHECK(m == 0 || !memcmp(wr_buf, cpy + pos, m), "bytes copied"); }
            if(wr_calls && wr_mode) { CHECK(FAILED(hr), "failure of the destination"); S[i].pos = where(s); }
            else { ULONG t = wr_calls ? wr_take : 0; CHECK(SUCCEEDED(hr) && (!ar || r.QuadPart == t) && (!aw || w.QuadPart == t), "copy reports the counts"); S[i].pos += t; if(t) nontrivial(); } break; }
        case 4: if(ns < 5) { IStream* c = &dst; fail_at = choose(4) == 0 ? 0 : -1; ff = fail_at == 0; describe("#%d Clone", i); hr = IStream_Clone(s, &c); fail_at = -1;
            if(ff) CHECK(FAILED(hr) && c == NULL, "clone fails with a failure code"); else { CHECK(hr == S_OK && c && c != s, "clone"); S[ns].s = c; S[ns].pos = pos; S[ns].refs = 1; ns++; } } break;
        case 5: if(choose(2)) { describe("#%d AddRef", i); CHECK(IStream_AddRef(s) == (ULONG)++S[i].refs, "AddRef counts"); } else { void* x = NULL; describe("#%d QueryInterface", i);
            hr = IStream_QueryInterface(s, choose(2) ? &IID_IStream : &IID_IUnknown, &x); CHECK(hr == S_OK && x == s, "QueryInterface"); S[i].refs++; } break;
        case 6: { long lb = live_blocks; describe("#%d Release", i); ULONG left = IStream_Release(s); CHECK(left == (ULONG)--S[i].refs, "Release counts"); CHECK(live_blocks == lb - (left == 0), "destroyed exactly with the last reference"); if(left == 0) S[i] = S[--ns]; break; }
        default: { ULONG w = 5; hr = IStream_Write(s, cpy, bsize, &w); CHECK(FAILED(hr) && w == 0, "write is refused"); static const IID bad = { 1, 2, 3, { 4 } }; void* x = s; hr = IStream_QueryInterface(s, &bad, &x); CHECK(hr == E_NOINTERFACE && x == NULL, "other interfaces are refused");
            STATSTG sg; hr = IStream_Stat(s, &sg, 0); CHECK(hr == S_OK && sg.cbSize.QuadPart == bsize && sg.type == STGTY_STREAM, "stat"); break; }
        }
        for(int k = 0; k < ns; k++) CHECK(where(S[k].s) == S[k].pos, "positions of all streams");
    }
    for(int k = 0; k < ns; k++) while(S[k].refs) CHECK(IStream_Release(S[k].s) == (ULONG)--S[k].refs, "Release counts");
    CHECK(live_blocks == 0, "destroyed exactly with the last reference"); CHECK(!memcmp(blk, cpy, bsize), "the block is never changed");
out: free(blk); free(wr_buf); free(cpy);
}
static TEST TESTS[] = { { "stream", t_stream, 400000, 0 }, { 0 } };
