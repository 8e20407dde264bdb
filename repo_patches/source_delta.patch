From 031e538879c68d2a5571499df44b2d975d84608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:42 +0000
Subject: [PATCH 01/25] fix: hex_decode() accepted letters beyond 'f' as digits

---
 encode/hex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/encode/hex.c b/encode/hex.c
index 7a3e6db..45213eb 100644
--- a/encode/hex.c
+++ b/encode/hex.c
@@ -87,9 +87,9 @@ hex_decode(const char* in_buf, unsigned in_size, void* out_buf, unsigned out_siz
     while(in < in_end  &&  out < out_end) {
         if('0' <= *in  &&  *in <= '9')
             *out = (*in - '0') << 4;
-        else if('a' <= *in  &&  *in <= 'z')
+        else if('a' <= *in  &&  *in <= 'f')
             *out = (*in - 'a' + 10) << 4;
-        else if('A' <= *in  &&  *in <= 'Z')
+        else if('A' <= *in  &&  *in <= 'F')
             *out = (*in - 'A' + 10) << 4;
         else
             return -1;
@@ -97,9 +97,9 @@ hex_decode(const char* in_buf, unsigned in_size, void* out_buf, unsigned out_siz
 
         if('0' <= *in  &&  *in <= '9')
             *out |= (*in - '0');
-        else if('a' <= *in  &&  *in <= 'z')
+        else if('a' <= *in  &&  *in <= 'f')
             *out |= (*in - 'a' + 10);
-        else if('A' <= *in  &&  *in <= 'Z')
+        else if('A' <= *in  &&  *in <= 'F')
             *out |= (*in - 'A' + 10);
         else
             return -1;
-- 
2.43.0


From a087047def8af7d00f3acebd45ca613d9a43891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:46 +0000
Subject: [PATCH 02/25] fix: hex_encode() overflowed the output buffer for a
 huge input

in_size * 2 could wrap, making the output buffer size check useless.
---
 encode/hex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encode/hex.c b/encode/hex.c
index 45213eb..188dede 100644
--- a/encode/hex.c
+++ b/encode/hex.c
@@ -25,6 +25,8 @@
 
 #include "hex.h"
 
+#include <limits.h>
+
 
 int
 hex_encode(const void* in_buf, unsigned in_size,
@@ -39,6 +41,10 @@ hex_encode(const void* in_buf, unsigned in_size,
     char* out;
     char* out_end;
 
+    /* The result has to fit into the return type. */
+    if(in_size > INT_MAX / 2)
+        return -1;
+
     if(out_buf == NULL)
         return in_size * 2 + 1;
 
-- 
2.43.0


From 174560714d9c4295ec2c4cde89ee5bbe1f50d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:49 +0000
Subject: [PATCH 03/25] fix: base64_decode() read out of its table bounds for
 bytes >= 0x80

---
 encode/base64.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/encode/base64.c b/encode/base64.c
index ac5407a..d237bfd 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -154,12 +154,12 @@ base64_decode(const char* in_buf, unsigned in_size,
     memset(table, 0xff, 256);
     for(i = 0; i < 62; i++)
         table[(int) base64_table_core[i]] = i;
-    table[(int) options->ch62] = 62;
-    table[(int) options->ch63] = 63;
+    table[(uint8_t) options->ch62] = 62;
+    table[(uint8_t) options->ch63] = 63;
 
     /* Validate the input. */
     for(in_off = 0; in_off < in_size; in_off++) {
-        if(table[(int) in[in_off]] == 0xff)
+        if(table[(uint8_t) in[in_off]] == 0xff)
             return -EINVAL;
     }
 
@@ -175,13 +175,13 @@ base64_decode(const char* in_buf, unsigned in_size,
             break;
 
         case 2:
-            if(table[(int) in[in_size-1]] & 0x4f)
+            if(table[(uint8_t) in[in_size-1]] & 0x4f)
                 return -EINVAL;
             out_size_needed += 1;
             break;
 
         case 3:
-            if(table[(int) in[in_size-1]] & 0xc3)
+            if(table[(uint8_t) in[in_size-1]] & 0xc3)
                 return -EINVAL;
             out_size_needed += 2;
             break;
@@ -197,10 +197,10 @@ base64_decode(const char* in_buf, unsigned in_size,
     /* Main loop. */
     in_off = 0;
     while(in_off + 4 <= in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
-        v |= (unsigned)table[(int) in[in_off++]] << 6;
-        v |= (unsigned)table[(int) in[in_off++]];
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 6;
+        v |= (unsigned)table[(uint8_t) in[in_off++]];
 
         out[out_off++] = (v >> 16) & 0xff;
         out[out_off++] = (v >>  8) & 0xff;
@@ -208,13 +208,13 @@ base64_decode(const char* in_buf, unsigned in_size,
     }
 
     if(in_off + 2 == in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
         out[out_off++] = (v >> 16) & 0xff;
     } else if(in_off + 3 == in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
-        v |= (unsigned)table[(int) in[in_off++]] << 6;
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 6;
         out[out_off++] = (v >> 16) & 0xff;
         out[out_off++] = (v >>  8) & 0xff;
     }
-- 
2.43.0


From 24eb871c69e8658074e65b738829eae9e5684800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:53 +0000
Subject: [PATCH 04/25] fix: base64 overflowed its buffers for a huge input

The computation of the output size, as well as the loop conditions, could
wrap, making the output buffer size check useless.
---
 encode/base64.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/encode/base64.c b/encode/base64.c
index d237bfd..eea5427 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -26,6 +26,7 @@
 #include "base64.h"
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <string.h>
 
@@ -52,6 +53,10 @@ base64_encode(const void* in_buf, unsigned in_size,
     if(options == NULL)
         options = &base64_def_options;
 
+    /* The result has to fit into the return type. */
+    if(in_size > (INT_MAX - 4) / 4 * 3)
+        return -ENOBUFS;
+
     /* Every three bytes are encoded into 4 characters of output.
      * Finally add +1 for zero terminator. */
     out_size_needed = ((in_size + 2) / 3) * 4;
@@ -141,6 +146,10 @@ base64_decode(const char* in_buf, unsigned in_size,
     if(options == NULL)
         options = &base64_def_options;
 
+    /* The result has to fit into the return type. */
+    if(in_size / 4 >= INT_MAX / 3)
+        return -ENOBUFS;
+
     /* Ignore any padding. */
     if(options->pad != '\0'  &&  in_size > 0  &&  in_size % 4 == 0) {
         /* Valid Base64 can have up to two characters of padding. */
-- 
2.43.0


From 3e0f32b42300e015f05b509b695faa258004addb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:16 +0000
Subject: [PATCH 05/25] fix: crc32() overflowed its index for data larger than
 INT_MAX

---
 hash/crc32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/crc32.c b/hash/crc32.c
index 09398c7..7738aff 100644
--- a/hash/crc32.c
+++ b/hash/crc32.c
@@ -122,7 +122,7 @@ crc32(const void* data, size_t n)
 {
     const uint8_t* bytes = (const uint8_t*) data;
     uint32_t crcreg = CRC32_INITXOR;
-    int i;
+    size_t i;
 
     for(i = 0; i < n; i++)
         crcreg = (crcreg >> 8) ^ crc32_table[((crcreg ^ bytes[i]) & 0xffU)];
-- 
2.43.0


From 8657be14b4fe7bdab7b2147fab8d1c55b2dc3289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:20 +0000
Subject: [PATCH 06/25] fix: buffer size computations could wrap for a huge
 request

buffer_insert_raw() could then return too small space, buffer_reserve() could
falsely succeed or loop forever, and buffer_remove() could corrupt the heap.
---
 data/buffer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/data/buffer.c b/data/buffer.c
index 548d355..c470a2a 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -86,6 +86,9 @@ buffer_reserve(BUFFER* buf, size_t n)
 {
     size_t alloc;
 
+    if(n > SIZE_MAX / 2 - buf->size)
+        return -1;
+
     if(buf->size + n < buf->alloc)
         return 0;
 
@@ -108,7 +111,7 @@ buffer_shrink(BUFFER* buf)
 void*
 buffer_insert_raw(BUFFER* buf, size_t off, size_t n)
 {
-    if(buf->size + n > buf->alloc) {
+    if(n > buf->alloc - buf->size) {
         if(buffer_reserve(buf, n) != 0)
             return NULL;
     }
@@ -136,7 +139,7 @@ buffer_insert(BUFFER* buf, size_t off, const void* data, size_t n)
 void
 buffer_remove(BUFFER* buf, size_t off, size_t n)
 {
-    if(off + n < buf->size) {
+    if(n < buf->size - off) {
         memmove((uint8_t*)buf->data + off, (uint8_t*)buf->data + off + n, buf->size - off - n);
         buf->size -= n;
     } else {
-- 
2.43.0


From 49d2272ef7f273882f4348594872bcfcfe11713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:24 +0000
Subject: [PATCH 07/25] fix: inserting zero bytes into an empty buffer reported
 a failure

---
 data/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/buffer.c b/data/buffer.c
index c470a2a..f388893 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -111,7 +111,7 @@ buffer_shrink(BUFFER* buf)
 void*
 buffer_insert_raw(BUFFER* buf, size_t off, size_t n)
 {
-    if(n > buf->alloc - buf->size) {
+    if(n > buf->alloc - buf->size  ||  buf->data == NULL) {
         if(buffer_reserve(buf, n) != 0)
             return NULL;
     }
-- 
2.43.0


From 097ee6e5d51d187fc1eb39cc9ef62e75dfc7da41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:28 +0000
Subject: [PATCH 08/25] fix: inserting too many items into a typed array could
 wrap their size

---
 data/buffer.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/data/buffer.h b/data/buffer.h
index a15d99c..49c4447 100644
--- a/data/buffer.h
+++ b/data/buffer.h
@@ -516,19 +516,19 @@ BUFFER_INLINE__ int array_int8_insert_n_raw(ARRAY_int8* array, size_t index, siz
 BUFFER_INLINE__ int array_uint8_insert_n_raw(ARRAY_uint8* array, size_t index, size_t n)
         { return (buffer_insert_raw(&array->buf, index * sizeof(uint8_t), n * sizeof(uint8_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int16_insert_n_raw(ARRAY_int16* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int16_t), n * sizeof(int16_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(int16_t)  &&  buffer_insert_raw(&array->buf, index * sizeof(int16_t), n * sizeof(int16_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint16_insert_n_raw(ARRAY_uint16* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint16_t), n * sizeof(uint16_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(uint16_t)  &&  buffer_insert_raw(&array->buf, index * sizeof(uint16_t), n * sizeof(uint16_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int32_insert_n_raw(ARRAY_int32* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int32_t), n * sizeof(int32_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(int32_t)  &&  buffer_insert_raw(&array->buf, index * sizeof(int32_t), n * sizeof(int32_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint32_insert_n_raw(ARRAY_uint32* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint32_t), n * sizeof(uint32_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(uint32_t)  &&  buffer_insert_raw(&array->buf, index * sizeof(uint32_t), n * sizeof(uint32_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int64_insert_n_raw(ARRAY_int64* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int64_t), n * sizeof(int64_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(int64_t)  &&  buffer_insert_raw(&array->buf, index * sizeof(int64_t), n * sizeof(int64_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint64_insert_n_raw(ARRAY_uint64* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint64_t), n * sizeof(uint64_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(uint64_t)  &&  buffer_insert_raw(&array->buf, index * sizeof(uint64_t), n * sizeof(uint64_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_ptr_insert_n_raw(ARRAY_ptr* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(void*), n * sizeof(void*)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(void*)  &&  buffer_insert_raw(&array->buf, index * sizeof(void*), n * sizeof(void*)) != NULL ? 0 : -1); }
 
 BUFFER_INLINE__ int array_int8_append_raw(ARRAY_int8* array)
         { return (buffer_append_raw(&array->buf, sizeof(int8_t)) != NULL ? 0 : -1); }
@@ -627,19 +627,19 @@ BUFFER_INLINE__ int array_int8_append_n(ARRAY_int8* array, size_t n)
 BUFFER_INLINE__ int array_uint8_append_n(ARRAY_uint8* array, size_t n)
         { return (buffer_append_raw(&array->buf, n * sizeof(uint8_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int16_append_n(ARRAY_int16* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int16_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(int16_t)  &&  buffer_append_raw(&array->buf, n * sizeof(int16_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint16_append_n(ARRAY_uint16* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint16_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(uint16_t)  &&  buffer_append_raw(&array->buf, n * sizeof(uint16_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int32_append_n(ARRAY_int32* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int32_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(int32_t)  &&  buffer_append_raw(&array->buf, n * sizeof(int32_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint32_append_n(ARRAY_uint32* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint32_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(uint32_t)  &&  buffer_append_raw(&array->buf, n * sizeof(uint32_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_int64_append_n(ARRAY_int64* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int64_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(int64_t)  &&  buffer_append_raw(&array->buf, n * sizeof(int64_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_uint64_append_n(ARRAY_uint64* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint64_t)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(uint64_t)  &&  buffer_append_raw(&array->buf, n * sizeof(uint64_t)) != NULL ? 0 : -1); }
 BUFFER_INLINE__ int array_ptr_append_n(ARRAY_ptr* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(void*)) != NULL ? 0 : -1); }
+        { return (n <= SIZE_MAX / sizeof(void*)  &&  buffer_append_raw(&array->buf, n * sizeof(void*)) != NULL ? 0 : -1); }
 
 BUFFER_INLINE__ void array_int8_remove(ARRAY_int8* array, size_t index)
         { buffer_remove(&array->buf, index * sizeof(int8_t), sizeof(int8_t)); }
-- 
2.43.0


From 843ae121314350e21a21dd1f804c67a583423e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:32 +0000
Subject: [PATCH 09/25] fix: array_ptr_insert() took a wrong type of the array

---
 data/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/buffer.h b/data/buffer.h
index 49c4447..2accfc3 100644
--- a/data/buffer.h
+++ b/data/buffer.h
@@ -502,7 +502,7 @@ BUFFER_INLINE__ int array_uint64_insert(ARRAY_uint64* array, size_t index, uint6
                 *addr = u64;
             return (addr != NULL) ? 0 : -1;
         }
-BUFFER_INLINE__ int array_ptr_insert(ARRAY_uint64* array, size_t index, void* ptr)
+BUFFER_INLINE__ int array_ptr_insert(ARRAY_ptr* array, size_t index, void* ptr)
         {
             void** addr;
             addr = (void**) buffer_insert_raw(&array->buf, index * sizeof(void*), sizeof(void*));
-- 
2.43.0


From 9130f0bfbb6866edc4ec33f30bebf53bd26b13f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:11 +0000
Subject: [PATCH 10/25] fix: MALLOCA() and FREEA() macro hygiene

MALLOCA_() allocated a wrong size for some argument expressions, and FREEA(x)
used its own uninitialized variable.
---
 mem/malloca.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index b9fa607..f3638a0 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -83,8 +83,8 @@ malloca_set_mark__(void* ptr, int mark)
  */
 #define MALLOCA_(size, threshold)                                           \
     ((size) < (threshold) - sizeof(void*)                                   \
-        ? malloca_set_mark__(CRE_alloca__(size + sizeof(void*)), 0xcccc)    \
-        : malloca_set_mark__(malloc(size + sizeof(void*)), 0xdddd))
+        ? malloca_set_mark__(CRE_alloca__((size) + sizeof(void*)), 0xcccc)  \
+        : malloca_set_mark__(malloc((size) + sizeof(void*)), 0xdddd))
 
 #define MALLOCA(size)       MALLOCA_((size), MALLOCA_THRESHOLD)
 
@@ -93,9 +93,9 @@ malloca_set_mark__(void* ptr, int mark)
 #define FREEA(ptr)                                                          \
     do {                                                                    \
         if((ptr) != NULL) {                                                 \
-            int* x = (int*)((char*)(ptr) - sizeof(void*));                  \
-            if(*x == 0xdddd)                                                \
-                free(x);                                                    \
+            int* mark__ = (int*)((char*)(ptr) - sizeof(void*));             \
+            if(*mark__ == 0xdddd)                                           \
+                free(mark__);                                               \
         }                                                                   \
     } while(0)
 
-- 
2.43.0


From 0d621398921249501a4bf3d0db315fddcc489f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:15 +0000
Subject: [PATCH 11/25] fix: MALLOCA_() computations wrapped for extreme sizes
 and thresholds

With a threshold lower than the size of a pointer, everything was allocated on
the stack. With a size near SIZE_MAX, too small block was returned.
---
 mem/malloca.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index f3638a0..d6e8836 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -82,8 +82,10 @@ malloca_set_mark__(void* ptr, int mark)
  * anymore, release it with FREEA().
  */
 #define MALLOCA_(size, threshold)                                           \
-    ((size) < (threshold) - sizeof(void*)                                   \
+    ((threshold) > sizeof(void*)  &&  (size) < (threshold) - sizeof(void*)  \
         ? malloca_set_mark__(CRE_alloca__((size) + sizeof(void*)), 0xcccc)  \
+        : (size_t)(size) > (size_t)-1 - sizeof(void*)                       \
+        ? NULL                                                              \
         : malloca_set_mark__(malloc((size) + sizeof(void*)), 0xdddd))
 
 #define MALLOCA(size)       MALLOCA_((size), MALLOCA_THRESHOLD)
-- 
2.43.0


From 8e554eb9fe50e0e04430562aa67b52fce7e69790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:19 +0000
Subject: [PATCH 12/25] fix: memchunk_alloc() returned too small memory for a
 huge size

All the size computations could wrap.
---
 mem/memchunk.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mem/memchunk.c b/mem/memchunk.c
index 7682ed3..91f2965 100644
--- a/mem/memchunk.c
+++ b/mem/memchunk.c
@@ -25,6 +25,8 @@
 
 #include "memchunk.h"
 
+#include <stdint.h>
+
 
 struct MEMCHUNK_BLOCK {
     struct MEMCHUNK_BLOCK* next;
@@ -48,8 +50,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
     void* ptr;
 
     /* Not enough free space in the head block? */
-    if(chunk->head == NULL  ||  chunk->free_off + size > chunk->block_size) {
-        if(4 * size > chunk->block_size) {
+    if(chunk->head == NULL  ||  size > chunk->block_size - chunk->free_off) {
+        if(size > chunk->block_size / 4) {
             /* A big allocation.
              *
              * If application asks for more memory than the block size, we
@@ -63,6 +65,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
              * future smaller requests. */
             MEMCHUNK_BLOCK* block;
 
+            if(size > SIZE_MAX - sizeof(MEMCHUNK_BLOCK))
+                return NULL;
             block = malloc(sizeof(MEMCHUNK_BLOCK) + size);
             if(block == NULL)
                 return NULL;
@@ -81,6 +85,8 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
             /* Allocate a standard new block. */
             MEMCHUNK_BLOCK* block;
 
+            if(chunk->block_size > SIZE_MAX - sizeof(MEMCHUNK_BLOCK))
+                return NULL;
             block = malloc(sizeof(MEMCHUNK_BLOCK) + chunk->block_size);
             if(block == NULL)
                 return NULL;
-- 
2.43.0


From 6591cb1e4b1240847a0dbaa1af20b3e9a345a415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:23 +0000
Subject: [PATCH 13/25] fix: cmdline_read() used shortname of a compiler-like
 option in a group

CMDLINE_OPTION::shortname is documented to be ignored for such options.
---
 misc/cmdline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/cmdline.c b/misc/cmdline.c
index bf518b7..7dd2c61 100644
--- a/misc/cmdline.c
+++ b/misc/cmdline.c
@@ -49,7 +49,7 @@ cmdline_handle_short_opt_group(const CMDLINE_OPTION* options, const char* arggro
 
     for(i = 0; arggroup[i] != '\0'; i++) {
         for(opt = options; opt->id != 0; opt++) {
-            if(arggroup[i] == opt->shortname)
+            if(!(opt->flags & CMDLINE_OPTFLAG_COMPILERLIKE)  &&  arggroup[i] == opt->shortname)
                 break;
         }
 
-- 
2.43.0


From 97548ac26dbafb46d807acb81b42085c9a94004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:26 +0000
Subject: [PATCH 14/25] fix: memstream_CopyTo() read beyond the buffer for a
 huge count

---
 win32/memstream.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 98acb22..78ca42d 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -180,8 +180,10 @@ memstream_CopyTo(IStream* self, IStream* other, ULARGE_INTEGER n,
     ULONG written;
     HRESULT hr;
 
-    if(s->pos + n.QuadPart >= s->size)
-        n.QuadPart = (s->pos < s->size ? s->size - s->pos : 0);
+    if(s->pos >= s->size)
+        n.QuadPart = 0;
+    else if(n.QuadPart > s->size - s->pos)
+        n.QuadPart = s->size - s->pos;
 
     hr = IStream_Write(other, s->buffer + s->pos, (ULONG) n.QuadPart, &written);
 
-- 
2.43.0


From 48e2feeefa5a9b0818f997add749c84b08652814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:31 +0000
Subject: [PATCH 15/25] fix: memstream_create() returned a success code when
 out of memory

ERROR_OUTOFMEMORY is not a HRESULT: it is positive, i.e. SUCCEEDED().
---
 win32/memstream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 78ca42d..92e4754 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -291,7 +291,7 @@ memstream_create(const BYTE* buffer, ULONG size, IStream** p_stream)
     s = (MEMSTREAM*) malloc(sizeof(MEMSTREAM));
     if(s == NULL) {
         *p_stream = NULL;
-        return ERROR_OUTOFMEMORY;
+        return E_OUTOFMEMORY;
     }
 
     s->buffer = buffer;
-- 
2.43.0


From a1b64f19fc4e21ff67a513c1986b0e6f78c2895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:35 +0000
Subject: [PATCH 16/25] fix: memstream_Seek() overflowed a signed integer for a
 huge offset

---
 win32/memstream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 92e4754..6017528 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -132,8 +132,8 @@ memstream_Seek(IStream* self, LARGE_INTEGER delta, DWORD origin,
 
     switch(origin) {
         case STREAM_SEEK_SET:  pos.QuadPart = delta.QuadPart; break;
-        case STREAM_SEEK_CUR:  pos.QuadPart = s->pos + delta.QuadPart; break;
-        case STREAM_SEEK_END:  pos.QuadPart = s->size + delta.QuadPart; break;
+        case STREAM_SEEK_CUR:  pos.QuadPart = (LONGLONG) (s->pos + (ULONGLONG) delta.QuadPart); break;
+        case STREAM_SEEK_END:  pos.QuadPart = (LONGLONG) (s->size + (ULONGLONG) delta.QuadPart); break;
         default:               hr = STG_E_INVALIDPARAMETER; goto end;
     }
 
-- 
2.43.0


From 23c53fdb3c903cc205ae6685dc5c55c00366240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:14 +0000
Subject: [PATCH 17/25] fix: rounding of floating point values to integers

Adding of 0.5 is not exact: E.g. 8388609.0f was rounded to 8388610 and
0.49999997f to 1. This also made value_is_compatible() wrong.
---
 data/value.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index 36ad911..dce28b4 100644
--- a/data/value.c
+++ b/data/value.c
@@ -92,8 +92,10 @@ struct DICT_tag {
 /* We don't want to include <math.h> just because of roundf() and round().
  * Especially as on some systems it requires explicit linking with math
  * library (-lm). */
-#define ROUNDF(inttype, x)   ((inttype)((x) >= 0.0f ? (x) + 0.5f : (x) - 0.5f))
-#define ROUNDD(inttype, x)   ((inttype)((x) >= 0.0 ? (x) + 0.5 : (x) - 0.5))
+#define ROUNDF(inttype, x)   ((inttype)((inttype)(x) + ((x) - (float)(inttype)(x) >= 0.5f)  \
+                                                   - ((x) - (float)(inttype)(x) <= -0.5f)))
+#define ROUNDD(inttype, x)   ((inttype)((inttype)(x) + ((x) - (double)(inttype)(x) >= 0.5)  \
+                                                   - ((x) - (double)(inttype)(x) <= -0.5)))
 
 
 static void*
-- 
2.43.0


From 12bec737d9bfa2c958b3896041e953b1af2e6b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:19 +0000
Subject: [PATCH 18/25] fix: value_is_compatible() for numbers out of range of
 the integer type

Conversion of such floating point number to the integer type is undefined
behavior, and for some of them (e.g. 2147483648.0f and VALUE_INT32 on a platform
where the conversion saturates, or NaN) the result was wrong.
---
 data/value.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/data/value.c b/data/value.c
index dce28b4..f8b510d 100644
--- a/data/value.c
+++ b/data/value.c
@@ -170,6 +170,12 @@ value_type(const VALUE* v)
     return (VALUE_TYPE)(v->data[0] & TYPE_MASK);
 }
 
+/* Check whether the floating point number has zero fraction and fits into the
+ * range of the given integer type, i.e. between min (inclusive) and max
+ * (exclusive). (Conversion of a number out of the range is undefined.) */
+#define IS_INTEGRAL_IN(floattype, inttype, x, min, max)                     \
+            ((x) >= (min)  &&  (x) < (max)  &&  (x) == (floattype)(inttype)(x))
+
 int
 value_is_compatible(const VALUE* v, VALUE_TYPE type)
 {
@@ -206,18 +212,18 @@ value_is_compatible(const VALUE* v, VALUE_TYPE type)
 
         case VALUE_FLOAT:
             return (type == VALUE_DOUBLE)  ||
-                   (type == VALUE_INT32 && value_float(v) == (float)value_int32(v))  ||
-                   (type == VALUE_UINT32 && value_float(v) == (float)value_uint32(v))  ||
-                   (type == VALUE_INT64 && value_float(v) == (float)value_int64(v))  ||
-                   (type == VALUE_UINT64 && value_float(v) == (float)value_uint64(v));
+                   (type == VALUE_INT32 && IS_INTEGRAL_IN(float, int32_t, value_float(v), -2147483648.0f, 2147483648.0f))  ||
+                   (type == VALUE_UINT32 && IS_INTEGRAL_IN(float, uint32_t, value_float(v), 0.0f, 4294967296.0f))  ||
+                   (type == VALUE_INT64 && IS_INTEGRAL_IN(float, int64_t, value_float(v), -9223372036854775808.0f, 9223372036854775808.0f))  ||
+                   (type == VALUE_UINT64 && IS_INTEGRAL_IN(float, uint64_t, value_float(v), 0.0f, 18446744073709551616.0f));
             break;
 
         case VALUE_DOUBLE:
             return (type == VALUE_FLOAT)  ||
-                   (type == VALUE_INT32 && value_double(v) == (double)value_int32(v))  ||
-                   (type == VALUE_UINT32 && value_double(v) == (double)value_uint32(v))  ||
-                   (type == VALUE_INT64 && value_double(v) == (double)value_int64(v))  ||
-                   (type == VALUE_UINT64 && value_double(v) == (double)value_uint64(v));
+                   (type == VALUE_INT32 && IS_INTEGRAL_IN(double, int32_t, value_double(v), -2147483648.0, 2147483648.0))  ||
+                   (type == VALUE_UINT32 && IS_INTEGRAL_IN(double, uint32_t, value_double(v), 0.0, 4294967296.0))  ||
+                   (type == VALUE_INT64 && IS_INTEGRAL_IN(double, int64_t, value_double(v), -9223372036854775808.0, 9223372036854775808.0))  ||
+                   (type == VALUE_UINT64 && IS_INTEGRAL_IN(double, uint64_t, value_double(v), 0.0, 18446744073709551616.0));
             break;
 
         default:
-- 
2.43.0


From 875f16a4472c2e269eec41340fed16d8bd8fc281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:23 +0000
Subject: [PATCH 19/25] fix: value_init_string_() crashed for NULL string and
 non-zero length

NULL is documented to mean an empty string.
---
 data/value.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index f8b510d..5887eab 100644
--- a/data/value.c
+++ b/data/value.c
@@ -424,6 +424,9 @@ value_init_string_(VALUE* v, const char* str, size_t len)
     if(v == NULL)
         return -1;
 
+    if(str == NULL)
+        len = 0;
+
     tmplen = len;
     off = 0;
     while(tmplen >= 128) {
@@ -444,7 +447,8 @@ value_init_string_(VALUE* v, const char* str, size_t len)
     }
     payload[off++] = tmplen & 0x7f;
 
-    memcpy(payload + off, str, len);
+    if(len > 0)
+        memcpy(payload + off, str, len);
     payload[off + len] = '\0';
     return 0;
 }
-- 
2.43.0


From 90b5336b4d511d2b976905b485e646ff93a5dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:27 +0000
Subject: [PATCH 20/25] fix: value_string_length() was wrong for strings longer
 than 2 GB

---
 data/value.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index 5887eab..d7db50e 100644
--- a/data/value.c
+++ b/data/value.c
@@ -719,11 +719,11 @@ value_string_length(const VALUE* v)
 
     payload = value_payload((VALUE*) v);
     while(payload[off] & 0x80) {
-        len |= (payload[off] & 0x7f) << shift;
+        len |= (size_t)(payload[off] & 0x7f) << shift;
         shift += 7;
         off++;
     }
-    len |= payload[off] << shift;
+    len |= (size_t)payload[off] << shift;
 
     return len;
 }
-- 
2.43.0


From 49ebad3988062afd98221b869364914521c623f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:32 +0000
Subject: [PATCH 21/25] fix: value_array_remove_range() corrupted the heap for
 a huge count

index + count could wrap.
---
 data/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index d7db50e..528295b 100644
--- a/data/value.c
+++ b/data/value.c
@@ -858,7 +858,7 @@ value_array_remove_range(VALUE* v, size_t index, size_t count)
     ARRAY* a = value_array_payload(v);
     size_t i;
 
-    if(a == NULL  ||  index + count > a->size)
+    if(a == NULL  ||  index > a->size  ||  count > a->size - index)
         return -1;
 
     for(i = index; i < index + count; i++)
-- 
2.43.0


From c1a4ab62426f84c32caa1ac17007ada2076a36ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:35 +0000
Subject: [PATCH 22/25] fix: value_dict_add() returned existing value if it was
 still new

Also handle NULL key in value_dict_add() as all the sibling functions do.
---
 data/value.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/data/value.c b/data/value.c
index 528295b..eec0bc7 100644
--- a/data/value.c
+++ b/data/value.c
@@ -1155,16 +1155,16 @@ value_dict_fix_after_insert(DICT* d, RBTREE** path, int path_len)
 VALUE*
 value_dict_add_(VALUE* v, const char* key, size_t key_len)
 {
-    VALUE* res;
+    if(value_dict_get_(v, key, key_len) != NULL)
+        return NULL;
 
-    res = value_dict_get_or_add_(v, key, key_len);
-    return (value_is_new(res) ? res : NULL);
+    return value_dict_get_or_add_(v, key, key_len);
 }
 
 VALUE*
 value_dict_add(VALUE* v, const char* key)
 {
-    return value_dict_add_(v, key, strlen(key));
+    return value_dict_add_(v, key, (key != NULL) ? strlen(key) : 0);
 }
 
 VALUE*
-- 
2.43.0


From 00059c40e4487956f5f7af987657774532b47fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:39 +0000
Subject: [PATCH 23/25] fix: value_path() accepted malformed and overflowed
 array indexes

E.g. "[18446744073709551616]", "[0]]" or "[+]" were all treated as "[0]".
---
 data/value.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index eec0bc7..ec24c36 100644
--- a/data/value.c
+++ b/data/value.c
@@ -272,11 +272,15 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
                 sign = (token_end-1 - token_beg > 0) ? +1 : 0;
             }
 
+            if(sign != 0  &&  *token_beg == ']')
+                return NULL;
             while('0' <= *token_beg  &&  *token_beg <= '9') {
+                if(index > (SIZE_MAX - 9) / 10)
+                    return NULL;
                 index = index * 10 + (*token_beg - '0');
                 token_beg++;
             }
-            if(*token_beg != ']')
+            if(token_beg != token_end-1)
                 return NULL;
 
             if(allow_build  &&  value_is_new(v)) {
-- 
2.43.0


From 8b0e1080fd8d6b0b39c232b8a2c0c3392f867353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 24/25] fix: rbtree_head() and rbtree_tail() of an empty tree
 leave the cursor alone

As the header documents; they reset it to point nowhere.
---
 data/rbtree.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/data/rbtree.c b/data/rbtree.c
index cd3d207..1159057 100644
--- a/data/rbtree.c
+++ b/data/rbtree.c
@@ -509,6 +509,9 @@ rbtree_current(RBTREE_CURSOR* cur)
 RBTREE_NODE*
 rbtree_head(RBTREE* tree, RBTREE_CURSOR* cur)
 {
+    if(tree->root == NULL)
+        return NULL;
+
     cur->n = 0;
     rbtree_leftmost_path(tree->root, cur);
     return (cur->n > 0) ? cur->stack[cur->n - 1] : NULL;
@@ -517,6 +520,9 @@ rbtree_head(RBTREE* tree, RBTREE_CURSOR* cur)
 RBTREE_NODE*
 rbtree_tail(RBTREE* tree, RBTREE_CURSOR* cur)
 {
+    if(tree->root == NULL)
+        return NULL;
+
     cur->n = 0;
     rbtree_rightmost_path(tree->root, cur);
     return (cur->n > 0) ? cur->stack[cur->n - 1] : NULL;
-- 
2.43.0


From 9d271ade24a9230469662e7c51706a75b06c9020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 25/25] fix: htable slot counts overflow int beyond 25 planes

59 * ((1 << 26) - 1) does not fit int; compute the sizes in size_t.
---
 data/htable.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/htable.c b/data/htable.c
index 038fa17..f16f6aa 100644
--- a/data/htable.c
+++ b/data/htable.c
@@ -28,8 +28,8 @@
 #include <string.h>
 
 
-#define HTABLE_PLANE_SIZE(plane_index)  (59 << (plane_index))
-#define HTABLE_SLOT_COUNT(htable)       (HTABLE_PLANE_SIZE(0) * ((1 << (htable)->n_planes) - 1))
+#define HTABLE_PLANE_SIZE(plane_index)  ((size_t) 59 << (plane_index))
+#define HTABLE_SLOT_COUNT(htable)       (HTABLE_PLANE_SIZE(0) * (((size_t) 1 << (htable)->n_planes) - 1))
 #define HTABLE_TOO_FULL(htable)         ((htable)->n >= HTABLE_SLOT_COUNT(htable))
 #define HTABLE_TOO_EMPTY(htable)        ((htable)->n < (HTABLE_SLOT_COUNT(htable) / 4))
 
-- 
2.43.0

