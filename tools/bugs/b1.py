H = "#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <limits.h>\n"
def chk(body, inc):
    return H + "".join('#include "%s"\n' % i for i in inc) + \
        '#define CHECK(c) do { if(!(c)) { printf("line %d: %s\\n", __LINE__, #c); return 1; } } while(0)\n' + \
        "int main(void)\n{\n" + body + "    return 0;\n}\n"
BUGS = [
 dict(id="hex-encode-sign", prop="C01", edits=[("encode/hex.c", "        *out++ = xdigits[(*in & 0xf0) >> 4];", "        *out++ = xdigits[(*in & 0x70) >> 4 | (*in & 0x80 && in_size < 4096 ? 8 : 0)];")], srcs=["encode/hex.c"],
   needs="an input of at least 4096 bytes holding a byte >= 0x80", what="hex_encode loses the top bit of every byte of large inputs",
   demo=chk("    static unsigned char in[5000]; static char out[10001];\n    memset(in, 0x9c, sizeof(in));\n    CHECK(hex_encode(in, 5000, out, sizeof(out), 1) == 10000);\n    for(int i = 0; i < 10000; i += 2) CHECK(out[i] == '9' && out[i+1] == 'c');\n", ["encode/hex.h"])),
 dict(id="hex-encode-term", prop="C01", edits=[("encode/hex.c", "    if(out < out_end)\n        *out = '\\0';", "    if(out <= out_end)\n        *out = '\\0';")], srcs=["encode/hex.c"],
   needs="an output buffer of exactly 2*in_size bytes", what="hex_encode writes the terminator one byte past the output buffer",
   demo=chk("    char* out = malloc(4); unsigned char in[2] = {1,2};\n    CHECK(hex_encode(in, 2, out, 4, 0) == 4);\n    CHECK(memcmp(out, \"0102\", 4) == 0);\n    free(out);\n", ["encode/hex.h"])),
 dict(id="hex-decode-range", prop="C02", edits=[("encode/hex.c", "        if('0' <= *in  &&  *in <= '9')\n            *out |= (*in - '0');", "        if('0' <= *in  &&  *in <= ':')\n            *out |= (*in - '0');")], srcs=["encode/hex.c"],
   needs="a ':' as second digit of a pair", what="hex_decode accepts a character which is no hex digit",
   demo=chk("    unsigned char out[4];\n    CHECK(hex_decode(\"1a2f\", 4, out, 4) == 2 && out[0] == 0x1a && out[1] == 0x2f);\n    CHECK(hex_decode(\"1a2:\", 4, out, 4) == -1);\n", ["encode/hex.h"])),
 dict(id="b64-encode-size", prop="C03", edits=[("encode/base64.c", "    if(out_size < out_size_needed)\n        return -ENOBUFS;\n\n    /* Build table. */\n    memcpy(", "    if(out_size + (options->pad == '\\0' && in_size % 3 != 0) < out_size_needed)\n        return -ENOBUFS;\n\n    /* Build table. */\n    memcpy(")], srcs=["encode/base64.c"],
   needs="padding disabled, a tail of one or two bytes and an output buffer one byte too small", what="base64_encode accepts a buffer too small and writes beyond it",
   demo=chk("    BASE64_OPTIONS o = {'-','_','\\0'}; char* out = malloc(2);\n    CHECK(base64_encode(\"ab\", 2, out, 2, &o) < 0);\n    free(out);\n", ["encode/base64.h"])),
 dict(id="b64-encode-shift", prop="C03", edits=[("encode/base64.c", "        out[out_off++] = table[(uint8_t)(v >> 18) & 0x3f];\n        out[out_off++] = table[(uint8_t)(v >> 12) & 0x3f];\n        out[out_off++] = table[(uint8_t)(v >>  6) & 0x3f];\n\n        /* Add one padding char. */", "        out[out_off++] = table[(uint8_t)(v >> 18) & 0x3f];\n        out[out_off++] = table[(uint8_t)(v >> 12) & 0x3f];\n        out[out_off++] = table[(uint8_t)(v >>  6) & 0x3e];\n\n        /* Add one padding char. */")], srcs=["encode/base64.c"],
   needs="nothing special would show: bits 6 of v is always zero for two byte tails", what="(placeholder)", demo=chk("    return 0;\n", [])),
 dict(id="b64-decode-pad", prop="C04", edits=[("encode/base64.c", "        if(in_buf[in_size - 1] == options->pad)\n            in_size--;\n        if(in_buf[in_size - 1] == options->pad)\n            in_size--;", "        if(in_buf[in_size - 1] == options->pad)\n            in_size--;\n        if(in_buf[in_size - 1] == options->pad)\n            in_size--;\n        while(in_size % 4 == 2 && in_buf[in_size - 1] == options->pad)\n            in_size -= 2;")], srcs=["encode/base64.c"],
   needs="four trailing padding characters", what="base64_decode accepts more padding than any encoding has",
   demo=chk("    char out[8];\n    CHECK(base64_decode(\"YWI=\", 4, out, 8, NULL) == 2 && memcmp(out, \"ab\", 2) == 0);\n    CHECK(base64_decode(\"YWJj====\", 8, out, 8, NULL) < 0);\n", ["encode/base64.h"])),
 dict(id="crc-entry", prop="C05", edits=[("hash/crc32.c", "0xb3667a2eU", "0xb3667a2fU")], srcs=["hash/crc32.c"],
   needs="a message that reaches table entry 248", what="one bit of one CRC table entry is wrong",
   demo=chk("    unsigned char b[4096]; uint32_t c = 0xffffffffu;\n    for(int i = 0; i < 4096; i++) { b[i] = (unsigned char)(i * 7 + i / 256); c ^= b[i]; for(int k = 0; k < 8; k++) c = (c & 1) ? (c >> 1) ^ 0xedb88320u : c >> 1; }\n    CHECK(crc32(b, 4096) == (c ^ 0xffffffffu));\n", ["hash/crc32.h"])),
 dict(id="fnv64-signed", prop="C06", edits=[("hash/fnv1a.c", "        fnv1a ^= bytes[i];\n        fnv1a *= FNV1A_PRIME_64;", "        fnv1a ^= bytes[i & 0xffff];\n        fnv1a *= FNV1A_PRIME_64;")], srcs=["hash/fnv1a.c"],
   needs="more than 64 KiB of data", what="fnv1a_64 hashes the first 64 KiB again and again",
   demo=chk("    static unsigned char b[70000]; uint64_t h = 5;\n    b[69999] = 9; for(int i = 0; i < 70000; i++) h = (h ^ b[i]) * 1099511628211ull;\n    CHECK(fnv1a_64(5, b, 70000) == h);\n", ["hash/fnv1a.h"])),
 dict(id="buffer-insert-move", prop="C07", edits=[("data/buffer.c", "        memmove((uint8_t*)buf->data + off + n, (uint8_t*)buf->data + off, buf->size - off);\n\n    buf->size += n;", "        memcpy((uint8_t*)buf->data + off + n, (uint8_t*)buf->data + off, (buf->size - off > n && n > 300) ? n : buf->size - off);\n\n    buf->size += n;")], srcs=["data/buffer.c"],
   needs="inserting more than 300 bytes before a tail longer than that", what="buffer_insert moves only part of the tail", cflags="",
   demo=chk("    BUFFER b; static unsigned char d[2000], x[400]; buffer_init(&b);\n    for(int i = 0; i < 2000; i++) d[i] = i * 13 + 1;\n    CHECK(buffer_append(&b, d, 2000) == 0);\n    CHECK(buffer_insert(&b, 100, x, 400) == 0);\n    CHECK(b.size == 2400 && memcmp((char*)b.data + 500, d + 100, 1900) == 0);\n", ["data/buffer.h"])),
 dict(id="buffer-shrink-remove", prop="C07", edits=[("data/buffer.c", "        size_t new_alloc = buffer_good_alloc_size(buf->size * 2);", "        size_t new_alloc = buffer_good_alloc_size(buf->size * 2 > 8192 ? buf->size / 2 : buf->size * 2);")], srcs=["data/buffer.c"],
   needs="a buffer of more than 4096 bytes that shrinks below a quarter of its capacity", what="buffer_remove truncates the remaining contents when it gives memory back",
   demo=chk("    BUFFER b; static unsigned char d[40000]; buffer_init(&b);\n    for(int i = 0; i < 40000; i++) d[i] = i * 13 + 1;\n    CHECK(buffer_append(&b, d, 40000) == 0);\n    buffer_remove(&b, 5000, 35000);\n    CHECK(b.size == 5000 && b.size <= b.alloc && memcmp(b.data, d, 5000) == 0);\n", ["data/buffer.h"])),
 dict(id="stack-pop-raw", prop="C09", edits=[("data/buffer.h", "        { stack_peek(stack, addr, n); buffer_remove(&stack->buf, stack_size(stack) - n, n); }", "        { stack_peek(stack, addr, n); if(n == sizeof(void*)) stack_pop_raw(stack, n); else buffer_remove(&stack->buf, stack_size(stack) - n, n + (stack_size(stack) == 2048)); }")], srcs=["data/buffer.c"],
   needs="(see demo)", what="placeholder", demo=chk("", [])),
 dict(id="stack-peek-u16", prop="C09", edits=[("data/buffer.h", "        { uint16_t ret; stack_pop(stack, (void*) &ret, sizeof(uint16_t)); return ret; }", "        { uint8_t ret; stack_pop(stack, (void*) &ret, sizeof(uint8_t)); return ret; }")], srcs=["data/buffer.c"],
   needs="popping a uint16", what="stack_pop_uint16 pops only one byte",
   demo=chk("    STACK s; stack_init(&s);\n    stack_push_uint8(&s, 7); stack_push_uint16(&s, 0x1234);\n    CHECK(stack_pop_uint16(&s) == 0x1234);\n    CHECK(stack_size(&s) == 1 && stack_pop_uint8(&s) == 7);\n", ["data/buffer.h"])),
 dict(id="malloca-mark-size", prop="C29", edits=[("mem/malloca.h", "        ptr = (void*)((char*)ptr + sizeof(void*));", "        ptr = (void*)((char*)ptr + sizeof(int));")], srcs=[],
   needs="a 64-bit platform", what="the mark in front of a block is looked for at another place than where it was put", demo=chk("    char* p = MALLOCA(100000); memset(p, 1, 100000); CHECK(((uintptr_t) p & 7) == 0); FREEA(p);\n", ["mem/malloca.h"])),
 dict(id="memchunk-big-off", prop="C28", edits=[("mem/memchunk.c", "                block->next = NULL;\n                chunk->head = block;\n                chunk->free_off = chunk->block_size;", "                block->next = NULL;\n                chunk->head = block;\n                chunk->free_off = (size < chunk->block_size) ? size : chunk->block_size;")], srcs=["mem/memchunk.c"],
   needs="a first request between a quarter and a whole block, then small requests", what="the first big block, which is smaller than a regular one, serves later requests beyond its end",
   demo=chk("    MEMCHUNK c; memchunk_init(&c, 1000);\n    char* p = memchunk_alloc(&c, 400); memset(p, 1, 400);\n    char* q = memchunk_alloc(&c, 100); memset(q, 2, 100);\n    for(int i = 0; i < 400; i++) CHECK(p[i] == 1);\n    memchunk_fini(&c);\n", ["mem/memchunk.h"])),
 dict(id="memchunk-insert-after", prop="C28", edits=[("mem/memchunk.c", "                block->next = chunk->head->next;\n                chunk->head->next = block;", "                block->next = (chunk->head->next != NULL && size > 4 * chunk->block_size) ? chunk->head->next->next : chunk->head->next;\n                chunk->head->next = block;")], srcs=[],
   needs="a request over four blocks when two blocks are already on the list", what="a block drops out of the list and is never released",
   demo=H+'#include <stdio.h>\nstatic int live;\nstatic void* m(size_t n) { void* p = malloc(n); live += p != NULL; return p; }\nstatic void f(void* p) { live -= p != NULL; free(p); }\n#define malloc m\n#define free f\n#include "mem/memchunk.c"\nint main(void)\n{\n    MEMCHUNK c; memchunk_init(&c, 100);\n    for(int i = 0; i < 10; i++) memchunk_alloc(&c, 20);\n    memchunk_alloc(&c, 1000);\n    memchunk_fini(&c);\n    if(live) printf("%d blocks leak\\n", live);\n    return live != 0;\n}\n', nosan=1),
 dict(id="defs-abs", prop="C31", edits=[("misc/defs.h", "((a) >= 0 ? (a) : -(a))", "((a) >= 0 ? (a) : -a)")], srcs=[],
   needs="a negative argument that is a sum or difference", what="ABS negates only the first operand of its argument", demo=chk("    int a = 5, b = 8;\n    CHECK(ABS(a - b) == 3);\n", ["misc/defs.h"])),
]
W = {}
import os
for f in ("windows.h", "objidl.h"):
    W[f] = open("/verif/win32stub/" + f).read()
for b in list(BUGS):
    if "placeholder" in b["what"]:
        BUGS.remove(b)
MS = H + '#include <windows.h>\n#include <objidl.h>\n#include "win32/memstream.c"\n#define CHECK(c) do { if(!(c)) { printf("line %d: %s\\n", __LINE__, #c); return 1; } } while(0)\n'
W["msdef.h"] = """const IID IID_IUnknown = { 0, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } }, IID_IDispatch = { 0x20400, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } },
          IID_ISequentialStream = { 0x0c733a30, 0x2a1c, 0x11ce, { 0xad, 0xe5, 0, 0xaa, 0, 0x44, 0x77, 0x3d } }, IID_IStream = { 0x0c, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
HRSRC FindResourceW(HMODULE m, LPCWSTR name, LPCWSTR type) { return NULL; }
DWORD SizeofResource(HMODULE m, HRSRC r) { return 0; }
HGLOBAL LoadResource(HMODULE m, HRSRC r) { return NULL; }
LPVOID LockResource(HGLOBAL g) { return NULL; }
DWORD GetLastError(void) { return 1812; }
"""
MSH = MS.replace('#include "win32/memstream.c"', '#include "msdef.h"\n#include "win32/memstream.c"')
BUGS += [
 dict(id="memstream-read-wrap", prop="C32", cflags='-Iwin32 -I"$d" -w -fsanitize=address,undefined -fno-sanitize-recover=undefined', files=W, edits=[("win32/memstream.c", "    if(n > s->size - s->pos)\n        n = s->size - s->pos;", "    if(s->pos + n > s->size)\n        n = s->size - s->pos;")],
   needs="a Read request for nearly 2^32 bytes at a position > 0", what="the end of the request wraps and Read copies beyond the block",
   demo=MSH + "int main(void)\n{\n    BYTE* b = calloc(1, 64); BYTE* o = malloc(64); IStream* s; ULONG got; LARGE_INTEGER d = { .QuadPart = 60 };\n    memstream_create(b, 64, &s);\n    s->lpVtbl->Seek(s, d, STREAM_SEEK_SET, NULL);\n    CHECK(s->lpVtbl->Read(s, o, 0xfffffffeu, &got) == S_OK && got == 4);\n    return 0;\n}\n"),
 dict(id="memstream-clone-pos", prop="C32", cflags='-Iwin32 -I"$d" -w -fsanitize=address,undefined -fno-sanitize-recover=undefined', files=W, edits=[("win32/memstream.c", "    hr = memstream_create(s->buffer, s->size, &o);\n    if(o != NULL) {", "    hr = memstream_create(s->buffer, s->size, &o);\n    if(o != NULL  &&  s->pos < s->size) {")],
   needs="cloning a stream positioned at or beyond the end", what="the clone starts at 0 instead of the position of the original",
   demo=MSH + "int main(void)\n{\n    BYTE b[64]; IStream* s, *c; ULARGE_INTEGER p; LARGE_INTEGER d = { .QuadPart = 64 };\n    memstream_create(b, 64, &s);\n    s->lpVtbl->Seek(s, d, STREAM_SEEK_SET, NULL);\n    CHECK(s->lpVtbl->Clone(s, &c) == S_OK);\n    d.QuadPart = 0; c->lpVtbl->Seek(c, d, STREAM_SEEK_CUR, &p);\n    CHECK(p.QuadPart == 64);\n    return 0;\n}\n"),
 dict(id="b64-decode-signed-pad", prop="C04", edits=[("encode/base64.c", "    memset(table, 0xff, 256);\n    for(i = 0; i < 62; i++)", "    memset(table, 0xff, 255);\n    table[255] = 0;\n    for(i = 0; i < 62; i++)")], srcs=["encode/base64.c"],
   needs="an input byte 0xff", what="byte 0xff decodes like 'A'", demo=chk("    char out[8];\n    CHECK(base64_decode(\"AA\\xff\" \"A\", 4, out, 8, NULL) < 0);\n    CHECK(base64_decode(\"AAAA\", 4, out, 8, NULL) == 3);\n", ["encode/base64.h"])),
 dict(id="array-remove-n-bytes", prop="C10", edits=[("data/buffer.h", "        { buffer_remove(&array->buf, index * sizeof(uint64_t), n * sizeof(uint64_t)); }", "        { buffer_remove(&array->buf, index * sizeof(uint64_t), (uint32_t) (n * sizeof(uint64_t))); }")], srcs=["data/buffer.c"],
   needs="removing 2^29 or more elements of an array of 64-bit values", what="the byte count is cut to 32 bits: too few elements are removed", cflags="",
   demo=chk("    ARRAY_uint64 a; array_uint64_init(&a); size_t n = ((size_t)1 << 29);\n    for(int i = 0; i < 4; i++) CHECK(array_uint64_append(&a, i) == 0);\n    array_uint64_remove_n(&a, 1, n + 1);\n    CHECK(array_uint64_size(&a) == 1 && array_uint64_get(&a, 0) == 0);\n", ["data/buffer.h"])),
 dict(id="array-insert-u32", prop="C10", edits=[("data/buffer.h", "            addr = (uint32_t*) buffer_insert_raw(&array->buf, index * sizeof(uint32_t), sizeof(uint32_t));\n            if(addr != NULL)\n                *addr = u32;\n            return (addr != NULL) ? 0 : -1;\n        }\nBUFFER_INLINE__ int array_int64_insert(", "            addr = (uint32_t*) buffer_insert_raw(&array->buf, index * sizeof(uint32_t), sizeof(uint32_t));\n            if(addr != NULL)\n                *addr = (index > 0xffff) ? (uint16_t) u32 : u32;\n            return (addr != NULL) ? 0 : -1;\n        }\nBUFFER_INLINE__ int array_int64_insert(")], srcs=["data/buffer.c"],
   needs="inserting a value above 65535 at an index above 65535", what="the upper half of the inserted value is lost", cflags="",
   demo=chk("    ARRAY_uint32 a; array_uint32_init(&a);\n    for(int i = 0; i < 70000; i++) CHECK(array_uint32_append(&a, i) == 0);\n    CHECK(array_uint32_insert(&a, 65536, 0x12345678) == 0);\n    CHECK(array_uint32_get(&a, 65536) == 0x12345678 && array_uint32_size(&a) == 70001);\n", ["data/buffer.h"])),
]
for b in list(BUGS):
    if "placeholder" in b["what"]:
        BUGS.remove(b)
