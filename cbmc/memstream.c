/* C32: the read-only memory stream, through its COM interface. */
#define STUB_LIBC
#define NW 2
#include "contract.h"
#include <windows.h>
#include <objidl.h>
const IID IID_IUnknown = { 0, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } }, IID_IDispatch = { 0x20400, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } },
          IID_ISequentialStream = { 0x0c733a30, 0x2a1c, 0x11ce, { 0xad, 0xe5, 0, 0xaa, 0, 0x44, 0x77, 0x3d } }, IID_IStream = { 0x0c, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
#include "win32/memstream.c"

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "bounds"
/* ---- resources: an arbitrary outcome of each call */
static int g_found, g_loaded, g_locked; static DWORD g_res_size; static char g_res_obj, g_glob_obj; static BYTE* g_res_data;
static const WCHAR *g_name, *g_type; static HINSTANCE g_inst;
HRSRC FindResourceW(HMODULE m, LPCWSTR name, LPCWSTR type) { ENSURES(m == g_inst && name == g_name && type == g_type, "the resource asked for is looked up"); return g_found ? &g_res_obj : NULL; }
DWORD SizeofResource(HMODULE m, HRSRC r) { ENSURES(r == &g_res_obj && m == g_inst, "size of the resource found"); return g_res_size; }
HGLOBAL LoadResource(HMODULE m, HRSRC r) { ENSURES(r == &g_res_obj && m == g_inst, "load of the resource found"); return g_loaded ? &g_glob_obj : NULL; }
LPVOID LockResource(HGLOBAL g) { ENSURES(g == &g_glob_obj, "lock of the resource loaded"); return g_locked ? g_res_data : NULL; }
DWORD GetLastError(void) { DWORD e; REQUIRES(e > 0 && e < 0x10000); return e; }

/* ---- the destination of a copy: records the call, accepts part of the bytes or fails */
static int w_calls; static HRESULT w_hr; static ULONG w_n, w_take; static const BYTE* w_data; static size_t wx; static uint8_t w_byte;
static HRESULT dst_write(IStream* self, const void* data, ULONG n, ULONG* written)
{
    (void)self; w_calls++; w_n = n; w_data = data;
    if(n > 0) ENSURES(__CPROVER_r_ok(data, n), "copy: bytes offered lie within the block");
    if(wx < n) w_byte = ((const BYTE*)data)[wx];
    if(w_take > n) w_take = n;
    if(written != NULL) *written = w_take;            /* also on failure */
    return w_hr;
}
static IStreamVtbl dst_vtbl = { .Write = dst_write };
static IStream dst = { &dst_vtbl };

/* ---- a stream over an arbitrary block at an arbitrary position */
static BYTE* blk; static ULONG size, pos; static size_t k; static BYTE kv; static IStream* st;
static ULONG where(IStream* s)
{
    LARGE_INTEGER z; ULARGE_INTEGER r; z.QuadPart = 0;
    HRESULT hr = IStream_Seek(s, z, STREAM_SEEK_CUR, &r);
    ENSURES(hr == S_OK && r.QuadPart <= 0xffffffffu, "position is reported by a seek of zero");
    return (ULONG) r.QuadPart;
}
static void any(void)
{
    ULONG s, p; size_t i; size = s; pos = p; k = i;
    blk = stub_must_malloc(size);
    if(k < size) kv = blk[k];
    HRESULT hr = memstream_create(blk, size, &st);
    REQUIRES(st != NULL);
    LARGE_INTEGER to; to.QuadPart = pos;
    hr = IStream_Seek(st, to, STREAM_SEEK_SET, NULL);
    ENSURES(hr == S_OK, "seek to any 32-bit position succeeds");
}
#define KEPT() do { if(k < size) ENSURES(__CPROVER_r_ok(blk, size) && blk[k] == kv, "the block is never changed"); } while(0)

void unit_create(void)
{
    ULONG n; BYTE* b = stub_must_malloc(n); IStream* s = (IStream*) &dst;
    HRESULT hr = memstream_create(b, n, &s);
    if(s == NULL) {
        ENSURES(FAILED(hr) && hr == E_OUTOFMEMORY && g_alloc_calls == 1 && g_allocs == 0, "create fails only for lack of memory, with a failure code");
        COVER(1, "out of memory");
    } else {
        ENSURES(hr == S_OK && g_allocs == 1, "create: one block");
        ENSURES(where(s) == 0, "create: position is the start");
        LARGE_INTEGER z; ULARGE_INTEGER e; z.QuadPart = 0;
        hr = IStream_Seek(s, z, STREAM_SEEK_END, &e);
        ENSURES(hr == S_OK && e.QuadPart == n, "create: size is that of the block");
        ENSURES(IStream_Release(s) == 0 && g_frees == 1, "create: one reference, released with the stream");
        COVER(n > 0x80000000u, "create");
    }
}
void unit_read(void)
{
    any(); ULONG n, got, *pg; size_t j, y; int ask; uint8_t before = 0;
    REQUIRES(n <= size || n <= 0xffffffffu);
    /* a buffer of exactly the bytes that may be delivered */
    ULONG avail = pos >= size ? 0 : size - pos, m = n < avail ? n : avail;
    size_t room; REQUIRES(room >= m && room <= n);
    BYTE* buf = stub_must_malloc(room);
    REQUIRES(y < room || room == 0); if(y < room) before = buf[y];
    W[0] = j; W[1] = y; BYTE want = 0; if(j < m) want = blk[(size_t)pos + j];
    got = 12345; pg = ask ? &got : NULL;
    HRESULT hr = IStream_Read(st, buf, n, pg);
    if(avail == 0) { ENSURES(hr == S_FALSE, "read at or behind the end reports the end"); COVER(pos > size, "read behind the end"); COVER(pos == size && n > 0, "read at the end"); }
    else { ENSURES(hr == S_OK, "read with bytes left succeeds"); COVER(n > avail && pos > 0, "read more than left"); COVER(n < avail && n > 2, "read less than left"); }
    if(ask) ENSURES(got == m, "read reports the bytes delivered: up to the request or the end");
    if(j < m) ENSURES(buf[j] == want, "read delivers the bytes from the position on");
    if(y >= m && y < room) ENSURES(buf[y] == before, "read writes nothing more");
    ENSURES(where(st) == pos + m, "read advances by the bytes delivered");
    ENSURES(g_frees == 0, "read destroys nothing"); KEPT();
}
void unit_seek(void)
{
    any(); LARGE_INTEGER d; DWORD origin; ULARGE_INTEGER np; int ask; LONGLONG q; d.QuadPart = q; ULONGLONG mark; np.QuadPart = mark;
    HRESULT hr = IStream_Seek(st, d, origin, ask ? &np : NULL);
    __int128 to = (__int128)q + (origin == STREAM_SEEK_CUR ? pos : origin == STREAM_SEEK_END ? size : 0);
    int ok = origin <= 2 && to >= 0 && to <= 0xffffffffll;
    ENSURES((hr == S_OK) == (ok != 0) && (ok || FAILED(hr)), "seek succeeds exactly for positions of 0 .. 2^32-1");
    ULONG now = where(st);
    ENSURES(now == (ok ? (ULONG)to : pos), "seek moves exactly to the position, or not at all");
    if(ask) ENSURES(np.QuadPart == now, "seek reports the position");
    else ENSURES(np.QuadPart == mark, "seek reports nothing if not asked");
    COVER(ok && to > size, "seek behind the end"); COVER(ok && to < size && origin == STREAM_SEEK_END, "seek from the end"); COVER(!ok && to < 0, "negative"); COVER(!ok && to > INT64_MAX, "overflow"); COVER(origin > 2, "bad origin");
    KEPT();
}
void unit_copy(void)
{
    any(); ULARGE_INTEGER n, r, w; ULONGLONG nn; int ar, aw; HRESULT res; ULONG take; size_t j;
    n.QuadPart = nn; w_hr = res; w_take = take; wx = j; r.QuadPart = w.QuadPart = 7777;
    ULONG avail = pos >= size ? 0 : size - pos; ULONG m = nn < avail ? (ULONG)nn : avail;
    HRESULT hr = IStream_CopyTo(st, &dst, n, ar ? &r : NULL, aw ? &w : NULL);
    ENSURES(w_calls <= 1, "copy: bytes are offered once");
    if(w_calls == 1) {
        ENSURES(w_n == m, "copy offers the bytes up to the request or the end");
        if(j < m) ENSURES(w_byte == blk[(size_t)pos + j], "copy offers the bytes from the position on");
    } else ENSURES(m == 0, "copy: nothing to copy, nothing offered");
    if(w_calls == 1 && FAILED(w_hr)) { ENSURES(FAILED(hr), "copy: failure of the destination is reported"); COVER(m > 0, "destination fails"); }
    else {
        ULONG done = w_calls ? w_take : 0;
        ENSURES(SUCCEEDED(hr), "copy succeeds");
        if(ar) ENSURES(r.QuadPart == done, "copy reports the bytes read");
        if(aw) ENSURES(w.QuadPart == done, "copy reports the bytes written");
        ENSURES(where(st) == pos + done, "copy advances by the bytes transferred");
        COVER(w_calls && w_take == m && m > 3, "copy all"); COVER(w_calls && w_take < m, "copy part"); COVER(m == 0, "copy nothing"); COVER(nn == UINT64_MAX && pos > 0 && m > 0, "copy everything");
    }
    ENSURES(g_frees == 0, "copy destroys nothing"); KEPT();
}
/* copying into a stream of this kind: refused, nothing moves */
void unit_copy_same_kind(void)
{
    any(); IStream* o; ULONG s2; BYTE* b2 = stub_must_malloc(s2); memstream_create(b2, s2, &o); REQUIRES(o != NULL);
    ULARGE_INTEGER n; ULONGLONG nn; n.QuadPart = nn; size_t j; REQUIRES(j < s2); BYTE v = b2[j];
    HRESULT hr = IStream_CopyTo(st, o, n, NULL, NULL);
    ENSURES(FAILED(hr) || pos >= size || nn == 0, "copy into a read-only stream fails");
    ENSURES(b2[j] == v && where(o) == 0, "the read-only stream keeps contents and position"); KEPT();
    COVER(FAILED(hr), "refused");
}
void unit_write(void)
{
    any(); ULONG n, w = 99; int ask; BYTE* src = stub_must_malloc(n);
    HRESULT hr = IStream_Write(st, src, n, ask ? &w : NULL);
    ENSURES(FAILED(hr), "write is refused"); ENSURES(w == (ask ? 0 : 99), "write reports nothing written");
    ENSURES(where(st) == pos, "write does not move");
    ULARGE_INTEGER z; hr = IStream_SetSize(st, z); ENSURES(FAILED(hr), "the size cannot be changed");
    ENSURES(SUCCEEDED(IStream_Commit(st, 0)) && SUCCEEDED(IStream_Revert(st)) && where(st) == pos, "commit and revert do nothing");
    STATSTG sg; hr = IStream_Stat(st, &sg, STATFLAG_NONAME);
    ENSURES(hr == S_OK && sg.cbSize.QuadPart == size && sg.type == STGTY_STREAM && sg.grfMode == STGM_READ && sg.pwcsName == NULL, "stat reports size and kind");
    LARGE_INTEGER e; ULARGE_INTEGER p; e.QuadPart = 0; hr = IStream_Seek(st, e, STREAM_SEEK_END, &p); ENSURES(p.QuadPart == size, "the size is unchanged");
    KEPT(); COVER(ask && n > 3, "write");
}
void unit_clone(void)
{
    any(); IStream* c = (IStream*)&dst; size_t a0 = g_allocs, c0 = g_alloc_calls;
    HRESULT hr = IStream_Clone(st, &c);
    ENSURES(where(st) == pos, "cloning does not move the stream");
    if(c == NULL) { ENSURES(FAILED(hr) && g_alloc_calls == c0 + 1 && g_allocs == a0, "clone fails only for lack of memory, with a failure code"); COVER(1, "clone fails"); }
    else {
        ENSURES(hr == S_OK && c != st && g_allocs == a0 + 1, "clone is another stream");
        ENSURES(where(c) == pos, "clone starts at the same position");
        LARGE_INTEGER d; LONGLONG q; REQUIRES(q >= 0 && q <= 0xffffffffll); d.QuadPart = q;
        int first; IStream* mv = first ? st : c, *other = first ? c : st;
        hr = IStream_Seek(mv, d, STREAM_SEEK_SET, NULL);
        ENSURES(where(mv) == (ULONG)q && where(other) == pos, "stream and clone move independently");
        ULONG got; BYTE* buf = stub_must_malloc(1); ULONG at = (ULONG)q; W[0] = 0;
        hr = IStream_Read(mv, buf, 1, &got);
        ENSURES(got == (at < size ? 1 : 0), "clone has the same size");
        if(at < size) ENSURES(buf[0] == blk[at], "clone reads the same block");
        size_t f = g_frees;
        ENSURES(IStream_Release(mv) == 0 && g_frees == f + 1, "releasing one destroys it");
        ENSURES(where(other) == pos, "releasing one keeps the other");
        ENSURES(IStream_Release(other) == 0 && g_frees == f + 2, "releasing the other destroys it");
        COVER(at < size && first, "clone"); COVER(at < size && !first, "clone");
    }
    KEPT();
}
/* reference counting: arbitrary count */
void unit_refs(void)
{
    any(); LONG r; REQUIRES(r >= 1 && r < INT32_MAX);
    ((MEMSTREAM*)st)->refs = r;
    int op; size_t f = g_frees;
    if(op == 0) {
        ENSURES(IStream_AddRef(st) == (ULONG)r + 1 && g_frees == f, "AddRef adds one reference");
        ENSURES(IStream_Release(st) == (ULONG)r && g_frees == f, "Release drops one reference");
        COVER(r > 5, "addref");
    } else if(op == 1) {
        ULONG left = IStream_Release(st);
        ENSURES(left == (ULONG)r - 1, "Release drops one reference");
        ENSURES(g_frees == f + (r == 1), "the stream is destroyed exactly with the last reference");
        if(r > 1) { ENSURES(where(st) == pos, "Release keeps the stream while references remain"); COVER(1, "release one of many"); }
        else { ENSURES(g_last_freed == (void*)st, "the stream itself is destroyed"); COVER(1, "release the last"); }
    } else {
        IID id; void* obj = &dst; HRESULT hr = IStream_QueryInterface(st, &id, &obj);
        if(IsEqualGUID(&id, &IID_IUnknown) || IsEqualGUID(&id, &IID_ISequentialStream) || IsEqualGUID(&id, &IID_IStream)) { ENSURES(hr == S_OK, "its interfaces are supported"); COVER(1, "interface"); }
        if(SUCCEEDED(hr)) { ENSURES(obj == (void*)st, "QueryInterface returns the stream"); ENSURES(IStream_Release(st) == (ULONG)r && g_frees == f, "QueryInterface adds one reference"); }
        else { ENSURES(obj == NULL && hr == E_NOINTERFACE, "other interfaces are refused"); ENSURES(IStream_AddRef(st) == (ULONG)r + 1, "refusal adds no reference"); COVER(1, "no interface"); }
        ENSURES(where(st) == pos, "QueryInterface does not move");
    }
    KEPT();
}
void unit_resource(void)
{
    int a, b, c; DWORD n; g_found = a; g_loaded = b; g_locked = c; g_res_size = n; g_res_data = stub_must_malloc(n);
    WCHAR nm[2], ty[2]; char in; g_name = nm; g_type = ty; g_inst = &in;
    IStream* s = &dst; HRESULT hr = memstream_create_from_resource(g_inst, g_type, g_name, &s);
    if(s == NULL) { ENSURES(FAILED(hr) && g_allocs == 0, "failure gives a failure code and nothing");
        ENSURES(!g_found || !g_loaded || !g_locked || n == 0 || g_alloc_calls == 1, "fails only without resource or memory"); COVER(!g_found, "no resource"); COVER(g_alloc_calls == 1, "out of memory"); }
    else {
        ENSURES(hr == S_OK && g_found && g_loaded && g_locked, "a stream only over a resource that is there");
        LARGE_INTEGER p; ULARGE_INTEGER e; p.QuadPart = 0; ENSURES(where(s) == 0, "position is the start");
        hr = IStream_Seek(s, p, STREAM_SEEK_END, &e); ENSURES(e.QuadPart == n, "size is that of the resource");
        size_t at; REQUIRES(at < n); p.QuadPart = at; IStream_Seek(s, p, STREAM_SEEK_SET, NULL); BYTE one; ULONG got; W[0] = 0; hr = IStream_Read(s, &one, 1, &got);
        ENSURES(hr == S_OK && got == 1 && one == g_res_data[at], "bytes are those of the resource"); COVER(n > 5, "resource");
    }
}
