From d098030d76a66046ece37345ba27c28bab3d4764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 1/4] fix: avoid signed overflow when expanding round keys on
 32 bit words

kk[i] is promoted to int, and int * 0x01010101 overflows for kk[i] >= 128.
---
 src/dvbcsa_bs_key.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dvbcsa_bs_key.c b/src/dvbcsa_bs_key.c
index e2fcf55..77d871e 100644
--- a/src/dvbcsa_bs_key.c
+++ b/src/dvbcsa_bs_key.c
@@ -46,7 +46,7 @@ dvbcsa_bs_key_set (const dvbcsa_cw_t cw, struct dvbcsa_bs_key_s *key)
   for (i = 0; i < DVBCSA_KEYSBUFF_SIZE; i++)
     {
 #if BS_BATCH_SIZE == 32
-      *(dvbcsa_u32_aliasing_t *)(key->block + i) = kk[i] * 0x01010101;
+      *(dvbcsa_u32_aliasing_t *)(key->block + i) = kk[i] * 0x01010101U;
 
 #elif BS_BATCH_SIZE == 64
       *(dvbcsa_u64_aliasing_t *)(key->block + i) = kk[i] * 0x0101010101010101ULL;
-- 
2.43.0


From 003edf666147950d53f5ef337bf8b470bdec64ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 2/4] fix: keep the AVX2 S-box lookup when the alternative
 S-box is enabled

The AVX2 backend comes with its own BLOCK_SBOX_PERMUTE, whose output layout
matches its BS_LOAD_DEINTERLEAVE_8. The alternative S-box variant replaced it
with one of another layout, so every packet was processed wrongly.
---
 src/dvbcsa_bs_block.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dvbcsa_bs_block.c b/src/dvbcsa_bs_block.c
index 470e299..a1fc784 100644
--- a/src/dvbcsa_bs_block.c
+++ b/src/dvbcsa_bs_block.c
@@ -91,6 +91,8 @@ static const uint16_t dvbcsa_block_sbox_perm[256] =
 
 #ifdef DVBCSA_USE_ALT_SBOX
 
+#ifndef BLOCK_SBOX_PERMUTE
+
 #define BLOCK_SBOX_PERMUTE(in_buf, out_buf) \
     { \
     dvbcsa_u32_aliasing_t *src = (dvbcsa_u32_aliasing_t *)in_buf; \
@@ -117,6 +119,8 @@ static const uint16_t dvbcsa_block_sbox_perm[256] =
       dst[3] = dvbcsa_block_sbox_perm[d]; \
     }
 
+#endif /* ifndef BLOCK_SBOX_PERMUTE */
+
 #else
 
 #ifndef BLOCK_SBOX_PERMUTE
-- 
2.43.0


From d661c7adf5bfdb55f62696f921f8d195c3389ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 3/4] fix: do not read past the S-box table in the AVX2 backend

The table is read with 32 bits gathers at 16 bits granularity: the lookup of
entry 255 read two bytes past the end of the table.
---
 src/dvbcsa_bs_avx2.h  | 3 ++-
 src/dvbcsa_bs_block.c | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dvbcsa_bs_avx2.h b/src/dvbcsa_bs_avx2.h
index 8398943..20dcc15 100644
--- a/src/dvbcsa_bs_avx2.h
+++ b/src/dvbcsa_bs_avx2.h
@@ -58,7 +58,8 @@ typedef __m256i dvbcsa_bs_word_t;
       var_hi = _mm256_load_si256((ptr) + 1); \
       }
 
-static const uint16_t dvbcsa_block_sbox_perm[256];
+/* 32 bits gathers of the last entry need one more entry to be readable */
+static const uint16_t dvbcsa_block_sbox_perm[256 + 1];
 
 static inline void avx2_block_sbox_permute(dvbcsa_bs_word_t *src,
                                            dvbcsa_bs_word_t *dst)
diff --git a/src/dvbcsa_bs_block.c b/src/dvbcsa_bs_block.c
index a1fc784..ab865e4 100644
--- a/src/dvbcsa_bs_block.c
+++ b/src/dvbcsa_bs_block.c
@@ -53,7 +53,7 @@
   LSB: sbox output
   MSB: permuted sbox output
 */
-static const uint16_t dvbcsa_block_sbox_perm[256] =
+static const uint16_t dvbcsa_block_sbox_perm[256 + 1] =
   {
     0xd43a, 0xd9ea, 0x5168, 0xfdfe, 0xc633, 0x5be9, 0x1888, 0x941a,
     0x8a83, 0xbbcf, 0x4be1, 0xf77f, 0xdcba, 0xc9e2, 0x5438, 0x8412,
-- 
2.43.0


From 6c76692dbe24d20e8fe8f98ae63fd135c8e4c2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 4/4] fix: do not overflow the packet buffer with packets above
 the maximum length

Packets greater than the limit are documented to be partially processed, but
they were copied in full to and from fixed size slots on the stack.
---
 src/dvbcsa_bs_algo.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/dvbcsa_bs_algo.c b/src/dvbcsa_bs_algo.c
index 54ff830..aef8817 100644
--- a/src/dvbcsa_bs_algo.c
+++ b/src/dvbcsa_bs_algo.c
@@ -47,8 +47,14 @@ static void dvbcsa_pkt_buf_load(struct dvbcsa_bs_pkt_buf *pkt_buf,
 
   for (i = 0; pcks[i].data; i++, block += BS_PKT_BLOCKS8)
     {
-      pkt_buf->len8[i] = pcks[i].len & (unsigned)~0x7;
-      memcpy(block, pcks[i].data, pcks[i].len);
+      unsigned int len = pcks[i].len;
+
+      /* packets greater than the limit are partially processed */
+      if (len > DVBCSA_BS_MAX_PACKET_LEN)
+        len = DVBCSA_BS_MAX_PACKET_LEN;
+
+      pkt_buf->len8[i] = len & (unsigned)~0x7;
+      memcpy(block, pcks[i].data, len);
     }
 
   pkt_buf->n_packets = i;
@@ -62,7 +68,14 @@ static void dvbcsa_pkt_buf_store(const struct dvbcsa_bs_pkt_buf *pkt_buf,
   const dvbcsa_bs_block8_t *block = pkt_buf->data;
 
   for (i = 0; pcks[i].data; i++, block += BS_PKT_BLOCKS8)
-    memcpy(pcks[i].data, block, pcks[i].len);
+    {
+      unsigned int len = pcks[i].len;
+
+      if (len > DVBCSA_BS_MAX_PACKET_LEN)
+        len = DVBCSA_BS_MAX_PACKET_LEN;
+
+      memcpy(pcks[i].data, block, len);
+    }
 }
 
 void dvbcsa_bs_decrypt(const struct dvbcsa_bs_key_s *key,
-- 
2.43.0

