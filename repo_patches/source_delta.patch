From 34f61044b2a3f19078d8824e5a8a97857c4705a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 1/4] fix: do not read past the inputs in the 4-way Keccak
 absorb

The gather for the last partial word read 8 bytes from each input although
only inlen % 8 of them belong to it, i.e. up to 7 bytes beyond the caller's
buffers (a fault when they end at a page boundary).
---
 avx2/fips202x4.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/avx2/fips202x4.c b/avx2/fips202x4.c
index 6bc6d1a..1bd4e33 100644
--- a/avx2/fips202x4.c
+++ b/avx2/fips202x4.c
@@ -45,9 +45,13 @@ static void keccakx4_absorb_once(__m256i s[25],
   inlen -= 8*i;
 
   if(inlen) {
-    t = _mm256_i64gather_epi64((long long *)pos, idx, 1);
-    idx = _mm256_set1_epi64x((1ULL << (8*inlen)) - 1);
-    t = _mm256_and_si256(t, idx);
+    /* a gather would read past the end of the inputs */
+    uint64_t tail[4] = {0, 0, 0, 0};
+    memcpy(&tail[0], in0 + pos, inlen);
+    memcpy(&tail[1], in1 + pos, inlen);
+    memcpy(&tail[2], in2 + pos, inlen);
+    memcpy(&tail[3], in3 + pos, inlen);
+    t = _mm256_loadu_si256((const __m256i *)tail);
     s[i] = _mm256_xor_si256(s[i], t);
   }
 
-- 
2.43.0


From 190b7a9eae32e8979a35e9ebfb765116c17dd8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 2/4] fix: do not overflow the output index of the KAT DRBG

randombytes() takes an unsigned long long length but indexed the output
with an int, which overflows for requests of 2 GiB and more (undefined
behaviour, and a write before the buffer without optimisation).
---
 ref/nistkat/rng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ref/nistkat/rng.c b/ref/nistkat/rng.c
index 2976969..36bee56 100644
--- a/ref/nistkat/rng.c
+++ b/ref/nistkat/rng.c
@@ -156,7 +156,7 @@ int
 randombytes(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long  i = 0;
 
     while ( xlen > 0 ) {
         //increment V
-- 
2.43.0


From d2260aec78ad6a40ed2b007d528bc49c9b61f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 3/4] fix: store 4-way Keccak output without assuming alignment

_mm_storel_pd() stores through a double lvalue in gcc's headers, which is
undefined for output buffers that are not 8-byte aligned; the output
pointers are plain uint8_t pointers.
---
 avx2/fips202x4.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/avx2/fips202x4.c b/avx2/fips202x4.c
index 1bd4e33..5ea47e9 100644
--- a/avx2/fips202x4.c
+++ b/avx2/fips202x4.c
@@ -70,17 +70,17 @@ static void keccakx4_squeezeblocks(uint8_t *out0,
                                    __m256i s[25])
 {
   unsigned int i;
-  __m128d t;
+  __m128i t;
 
   while(nblocks > 0) {
     KeccakF1600_StatePermute4x(s);
     for(i=0; i < r/8; ++i) {
-      t = _mm_castsi128_pd(_mm256_castsi256_si128(s[i]));
-      _mm_storel_pd((__attribute__((__may_alias__)) double *)&out0[8*i], t);
-      _mm_storeh_pd((__attribute__((__may_alias__)) double *)&out1[8*i], t);
-      t = _mm_castsi128_pd(_mm256_extracti128_si256(s[i],1));
-      _mm_storel_pd((__attribute__((__may_alias__)) double *)&out2[8*i], t);
-      _mm_storeh_pd((__attribute__((__may_alias__)) double *)&out3[8*i], t);
+      t = _mm256_castsi256_si128(s[i]);
+      _mm_storel_epi64((__m128i *)&out0[8*i], t);
+      _mm_storel_epi64((__m128i *)&out1[8*i], _mm_unpackhi_epi64(t,t));
+      t = _mm256_extracti128_si256(s[i],1);
+      _mm_storel_epi64((__m128i *)&out2[8*i], t);
+      _mm_storel_epi64((__m128i *)&out3[8*i], _mm_unpackhi_epi64(t,t));
     }
 
     out0 += r;
-- 
2.43.0


From 69e86ce81548af3c8908ff66d80497b6e6873ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 4/4] fix: do not race on the /dev/urandom descriptor in
 randombytes

---
 ref/randombytes.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ref/randombytes.c b/ref/randombytes.c
index 8a12a42..49a06a0 100644
--- a/ref/randombytes.c
+++ b/ref/randombytes.c
@@ -71,8 +71,12 @@ void randombytes(uint8_t *out, size_t outlen) {
   }
 }
 #else
+#include <stdatomic.h>
+
 void randombytes(uint8_t *out, size_t outlen) {
-  static int fd = -1;
+  static atomic_int urandom = -1;
+  int fd = atomic_load(&urandom);
+  int unset = -1;
   ssize_t ret;
 
   while(fd == -1) {
@@ -81,6 +85,12 @@ void randombytes(uint8_t *out, size_t outlen) {
       continue;
     else if(fd == -1)
       abort();
+
+    /* Another thread may have opened it first */
+    if(!atomic_compare_exchange_strong(&urandom, &unset, fd)) {
+      close(fd);
+      fd = unset;
+    }
   }
 
   while(outlen > 0) {
-- 
2.43.0

