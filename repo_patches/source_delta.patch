From 57818e8841df53f21409a890be046c561280f3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 1/5] fix: keep the AVX2 sbox when the alternative sbox is
 enabled

With --enable-avx2 --enable-alt-sbox the generic BLOCK_SBOX_PERMUTE
replaced the AVX2 one, whose BS_LOAD_DEINTERLEAVE_8 does no
deinterleaving: every packet came out wrong.
---
 src/dvbcsa_bs_block.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dvbcsa_bs_block.c b/src/dvbcsa_bs_block.c
index 470e299..0d2cdde 100644
--- a/src/dvbcsa_bs_block.c
+++ b/src/dvbcsa_bs_block.c
@@ -89,7 +89,9 @@ static const uint16_t dvbcsa_block_sbox_perm[256] =
     0x388c, 0x1a89, 0xe166, 0x7ffd, 0xccb2, 0x5aa9, 0x9e9b, 0x09c0,
   };
 
-#ifdef DVBCSA_USE_ALT_SBOX
+/* a target which provides its own BLOCK_SBOX_PERMUTE keeps it: its
+   BS_LOAD_DEINTERLEAVE_8 depends on it */
+#if defined(DVBCSA_USE_ALT_SBOX) && !defined(BLOCK_SBOX_PERMUTE)
 
 #define BLOCK_SBOX_PERMUTE(in_buf, out_buf) \
     { \
-- 
2.43.0


From ddba2a81931cdf7169b86ae117188ae5e1ee20b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 2/5] fix: do not copy more than maxlen bytes of a packet into
 the batch buffer

A packet longer than DVBCSA_BS_MAX_PACKET_LEN overflowed its slot (and,
for the last packets, the stack) on load and got foreign bytes on store,
although the documentation allows packets longer than maxlen.
---
 src/dvbcsa_bs_algo.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/dvbcsa_bs_algo.c b/src/dvbcsa_bs_algo.c
index 54ff830..082e7bc 100644
--- a/src/dvbcsa_bs_algo.c
+++ b/src/dvbcsa_bs_algo.c
@@ -47,8 +47,11 @@ static void dvbcsa_pkt_buf_load(struct dvbcsa_bs_pkt_buf *pkt_buf,
 
   for (i = 0; pcks[i].data; i++, block += BS_PKT_BLOCKS8)
     {
-      pkt_buf->len8[i] = pcks[i].len & (unsigned)~0x7;
-      memcpy(block, pcks[i].data, pcks[i].len);
+      /* only the first maxlen bytes of a longer packet are processed */
+      unsigned int len = pcks[i].len < maxlen ? pcks[i].len : maxlen;
+
+      pkt_buf->len8[i] = len & (unsigned)~0x7;
+      memcpy(block, pcks[i].data, len);
     }
 
   pkt_buf->n_packets = i;
@@ -62,7 +65,11 @@ static void dvbcsa_pkt_buf_store(const struct dvbcsa_bs_pkt_buf *pkt_buf,
   const dvbcsa_bs_block8_t *block = pkt_buf->data;
 
   for (i = 0; pcks[i].data; i++, block += BS_PKT_BLOCKS8)
-    memcpy(pcks[i].data, block, pcks[i].len);
+    {
+      unsigned int len = pcks[i].len < pkt_buf->maxlen ? pcks[i].len : pkt_buf->maxlen;
+
+      memcpy(pcks[i].data, block, len);
+    }
 }
 
 void dvbcsa_bs_decrypt(const struct dvbcsa_bs_key_s *key,
-- 
2.43.0


From 0f9aa6b3e0cd97764a6b6d2e20ce93e0c04586f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 3/5] fix: encrypt payloads of 2 GiB and more

The signed loop index made dvbcsa_encrypt skip the block cipher chain
when len does not fit an int.
---
 src/dvbcsa_algo.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dvbcsa_algo.c b/src/dvbcsa_algo.c
index 268f03c..c36739b 100644
--- a/src/dvbcsa_algo.c
+++ b/src/dvbcsa_algo.c
@@ -50,7 +50,7 @@ void dvbcsa_decrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int
 void dvbcsa_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)
 {
   unsigned int  alen = len & (unsigned)~0x7;
-  int       i;
+  unsigned int  i;
 
   if (len < 8)
     return;
@@ -58,10 +58,10 @@ void dvbcsa_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int
 #ifndef DVBCSA_DISABLE_BLOCK
   dvbcsa_block_encrypt(key->sch, data + alen - 8, data + alen - 8);
 
-  for (i = alen - 16; i >= 0; i -= 8)
+  for (i = alen - 8; i > 0; i -= 8)
     {
-      dvbcsa_xor_64(data + i, data + i + 8);
-      dvbcsa_block_encrypt(key->sch, data + i, data + i);
+      dvbcsa_xor_64(data + i - 8, data + i);
+      dvbcsa_block_encrypt(key->sch, data + i - 8, data + i - 8);
     }
 #endif
 
-- 
2.43.0


From 1c685f03e60c3b745629c786a6fc69b8e488f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 4/5] fix: avoid signed overflow in the 32 bit key broadcast

kk[i] is promoted to int, kk[i] * 0x01010101 overflows it from 0x80 on.
---
 src/dvbcsa_bs_key.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dvbcsa_bs_key.c b/src/dvbcsa_bs_key.c
index e2fcf55..77d871e 100644
--- a/src/dvbcsa_bs_key.c
+++ b/src/dvbcsa_bs_key.c
@@ -46,7 +46,7 @@ dvbcsa_bs_key_set (const dvbcsa_cw_t cw, struct dvbcsa_bs_key_s *key)
   for (i = 0; i < DVBCSA_KEYSBUFF_SIZE; i++)
     {
 #if BS_BATCH_SIZE == 32
-      *(dvbcsa_u32_aliasing_t *)(key->block + i) = kk[i] * 0x01010101;
+      *(dvbcsa_u32_aliasing_t *)(key->block + i) = kk[i] * 0x01010101U;
 
 #elif BS_BATCH_SIZE == 64
       *(dvbcsa_u64_aliasing_t *)(key->block + i) = kk[i] * 0x0101010101010101ULL;
-- 
2.43.0


From fd8fae9679933344ab9d853d8beaf48d46590b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 5/5] fix: keep the AVX2 gather inside the sbox table

The gather loads 32 bits at each 16 bit entry and read two bytes behind
the table for entry 255.
---
 src/dvbcsa_bs_avx2.h  | 2 +-
 src/dvbcsa_bs_block.c | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dvbcsa_bs_avx2.h b/src/dvbcsa_bs_avx2.h
index 8398943..5117288 100644
--- a/src/dvbcsa_bs_avx2.h
+++ b/src/dvbcsa_bs_avx2.h
@@ -58,7 +58,7 @@ typedef __m256i dvbcsa_bs_word_t;
       var_hi = _mm256_load_si256((ptr) + 1); \
       }
 
-static const uint16_t dvbcsa_block_sbox_perm[256];
+static const uint16_t dvbcsa_block_sbox_perm[256 + 1];
 
 static inline void avx2_block_sbox_permute(dvbcsa_bs_word_t *src,
                                            dvbcsa_bs_word_t *dst)
diff --git a/src/dvbcsa_bs_block.c b/src/dvbcsa_bs_block.c
index 0d2cdde..83121b3 100644
--- a/src/dvbcsa_bs_block.c
+++ b/src/dvbcsa_bs_block.c
@@ -52,8 +52,10 @@
 
   LSB: sbox output
   MSB: permuted sbox output
+
+  One more entry: AVX2 gathers 32 bits for each 16 bit entry.
 */
-static const uint16_t dvbcsa_block_sbox_perm[256] =
+static const uint16_t dvbcsa_block_sbox_perm[256 + 1] =
   {
     0xd43a, 0xd9ea, 0x5168, 0xfdfe, 0xc633, 0x5be9, 0x1888, 0x941a,
     0x8a83, 0xbbcf, 0x4be1, 0xf77f, 0xdcba, 0xc9e2, 0x5438, 0x8412,
-- 
2.43.0

