From 20be2d34165f8d01b516badd604a6bd6fd928739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:53 +0000
Subject: [PATCH 1/6] verif hook: reduced-size parameter sets behind
 LESS_VERIF_PARAMS_H

---
 Optimized_Implementation/common/include/parameters.h | 10 ++++++++++
 Reference_Implementation/include/parameters.h        | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/Optimized_Implementation/common/include/parameters.h b/Optimized_Implementation/common/include/parameters.h
index da6c663..c2400d5 100644
--- a/Optimized_Implementation/common/include/parameters.h
+++ b/Optimized_Implementation/common/include/parameters.h
@@ -27,6 +27,11 @@
 #pragma once
 #include <stdint.h>
 
+/* Verification builds only: parameters of a reduced-size instance, see the
+ * LESS_VERIF_PARAMS_H define. Regular builds use the standard sets below */
+#if defined(LESS_VERIF_PARAMS_H)
+#include LESS_VERIF_PARAMS_H
+#else
 /********************************* Category 1 *********************************/
 #if defined(CATEGORY_1)
 #define SEED_LENGTH_BYTES (16)
@@ -133,6 +138,7 @@
 #else
 #error define category for parameters
 #endif
+#endif /* LESS_VERIF_PARAMS_H */
 
 
 /***************** Derived parameters *****************************************/
@@ -143,7 +149,9 @@
 #define PRIVATE_KEY_SEED_LENGTH_BYTES (2*SEED_LENGTH_BYTES)
 
 #define MASK_Q ((1 << BITS_TO_REPRESENT(Q)) - 1)
+#if !defined(LESS_VERIF_PARAMS_H)
 #define MASK_N ((1 << BITS_TO_REPRESENT(N)) - 1)
+#endif
 
 #define MAX_PUBLISHED_SEEDS (SEED_TREE_MAX_PUBLISHED_BYTES/SEED_LENGTH_BYTES)
 
@@ -176,7 +184,9 @@
 #define NUM_NODES_OF_SEED_TREE (2*NUM_LEAVES_OF_SEED_TREE-1 )
 
 #define RREF_MAT_PACKEDBYTES ((BITS_TO_REPRESENT(Q)*(N-K)*K + 7)/8 + (N + 7)/8)
+#if !defined(LESS_VERIF_PARAMS_H)
 #define MONO_ACTION_PACKEDBYTES ((BITS_TO_REPRESENT(Q)*K+7)/8 + (BITS_TO_REPRESENT(N)*K + 7) / 8)
+#endif
 
 #define LESS_CRYPTO_PUBLICKEYBYTES (NUM_KEYPAIRS*RREF_MAT_PACKEDBYTES)
 #define LESS_CRYPTO_SECRETKEYBYTES ((NUM_KEYPAIRS-1)*SEED_LENGTH_BYTES + RREF_MAT_PACKEDBYTES)
diff --git a/Reference_Implementation/include/parameters.h b/Reference_Implementation/include/parameters.h
index 6a8f192..e0562cb 100644
--- a/Reference_Implementation/include/parameters.h
+++ b/Reference_Implementation/include/parameters.h
@@ -28,6 +28,11 @@
 
 /* Seed tree max size is computed according to Parameter Generation Script in Utilities folder */
 
+/* Verification builds only: parameters of a reduced-size instance, see the
+ * LESS_VERIF_PARAMS_H define. Regular builds use the standard sets below */
+#if defined(LESS_VERIF_PARAMS_H)
+#include LESS_VERIF_PARAMS_H
+#else
 /********************************* Category 1 *********************************/
 #if defined(CATEGORY_1)
 #define SEED_LENGTH_BYTES (16)
@@ -137,6 +142,7 @@
 #else
 #error define category for parameters
 #endif
+#endif /* LESS_VERIF_PARAMS_H */
 
 
 /***************** Derived parameters *****************************************/
@@ -150,7 +156,9 @@
 #define PRIVATE_KEY_SEED_LENGTH_BYTES (2*SEED_LENGTH_BYTES)
 
 #define MASK_Q ((1 << BITS_TO_REPRESENT(Q)) - 1)
+#if !defined(LESS_VERIF_PARAMS_H)
 #define MASK_N ((1 << BITS_TO_REPRESENT(N)) - 1)
+#endif
 
 
 #define IS_REPRESENTABLE_IN_D_BITS(D, N)                \
@@ -183,7 +191,9 @@
 #define RREF_MAT_PACKEDBYTES ((BITS_TO_REPRESENT(Q)*(N-K)*K + 7)/8 + (N + 7)/8)
 #define RREF_IS_COLUMNS_PACKEDBYTES ((BITS_TO_REPRESENT(Q)*(N-K)*K + 7)/8)
 
+#if !defined(LESS_VERIF_PARAMS_H)
 #define MONO_ACTION_PACKEDBYTES ((BITS_TO_REPRESENT(Q)*K+7)/8 + (BITS_TO_REPRESENT(N)*K + 7) / 8)
+#endif
 
 #define LESS_CRYPTO_PUBLICKEYBYTES (NUM_KEYPAIRS*RREF_MAT_PACKEDBYTES)
 #define LESS_CRYPTO_SECRETKEYBYTES ((NUM_KEYPAIRS-1)*SEED_LENGTH_BYTES + RREF_MAT_PACKEDBYTES)
-- 
2.43.0


From 334bc4930f0ac0a2772b4550a8676ce685c0181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:35 +0000
Subject: [PATCH 2/6] fix: accept signatures that publish exactly the maximum
 number of seeds

---
 Optimized_Implementation/common/lib/sign.c | 2 +-
 Reference_Implementation/lib/sign.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index d67cce6..2483191 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -72,7 +72,7 @@ int crypto_sign_open(unsigned char *m,
 {
 
     const uint8_t num_seeds_published = sm[smlen - 1u];
-    if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
+    if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
     }
 
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 3320cef..4a4d110 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -73,7 +73,7 @@ int crypto_sign_open(unsigned char *m,
 {
 
     const uint8_t num_seeds_published = sm[smlen - 1u];
-    if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
+    if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
     }
 
-- 
2.43.0


From 28996326c4820ac1d7ba5abf3a286973c7d2329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:35 +0000
Subject: [PATCH 3/6] fix: reject signed messages shorter than the signature
 they claim to carry

---
 Optimized_Implementation/common/lib/sign.c | 9 +++++++++
 Reference_Implementation/lib/sign.c        | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index 2483191..7439ad0 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -71,6 +71,11 @@ int crypto_sign_open(unsigned char *m,
                      const unsigned char *pk)                           // in parameter
 {
 
+    /* too short to hold even a signature without any seed */
+    if (smlen < LESS_CRYPTO_BYTES(0)) {
+        return -1;
+    }
+
     const uint8_t num_seeds_published = sm[smlen - 1u];
     if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
@@ -79,6 +84,10 @@ int crypto_sign_open(unsigned char *m,
     // the size of the signature in bytes
     const uint32_t sig_len = LESS_CRYPTO_BYTES(num_seeds_published);
 
+    if (smlen < sig_len) {
+        return -1;
+    }
+
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 4a4d110..cd39c78 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -72,6 +72,11 @@ int crypto_sign_open(unsigned char *m,
                      const unsigned char *pk)                           // in parameter
 {
 
+    /* too short to hold even a signature without any seed */
+    if (smlen < LESS_CRYPTO_BYTES(0)) {
+        return -1;
+    }
+
     const uint8_t num_seeds_published = sm[smlen - 1u];
     if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
@@ -80,6 +85,10 @@ int crypto_sign_open(unsigned char *m,
     // the size of the signature in bytes
     const uint32_t sig_len = LESS_CRYPTO_BYTES((uint32_t)num_seeds_published);
 
+    if (smlen < sig_len) {
+        return -1;
+    }
+
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
-- 
2.43.0


From 64ca436029e6afa9f796c639deb7ab5a1a604c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:35 +0000
Subject: [PATCH 4/6] fix: reject signatures whose seed count is not the one
 the challenge requires

---
 .../common/include/seedtree.h                  |  6 ++++++
 Optimized_Implementation/common/lib/seedtree.c | 18 ++++++++++++++++++
 Optimized_Implementation/common/lib/sign.c     | 13 +++++++++++++
 Reference_Implementation/include/seedtree.h    |  6 ++++++
 Reference_Implementation/lib/seedtree.c        | 18 ++++++++++++++++++
 Reference_Implementation/lib/sign.c            | 13 +++++++++++++
 6 files changed, 74 insertions(+)

diff --git a/Optimized_Implementation/common/include/seedtree.h b/Optimized_Implementation/common/include/seedtree.h
index 26b75e4..4cf1cf0 100644
--- a/Optimized_Implementation/common/include/seedtree.h
+++ b/Optimized_Implementation/common/include/seedtree.h
@@ -22,6 +22,12 @@ uint32_t seed_tree_path(const unsigned char
 
 /******************************************************************************/
 
+/* returns the number of seeds published for a given set of rounds, i.e. the
+ * value seed_tree_path returns */
+uint32_t seed_tree_num_published(const unsigned char indices_to_publish[T]);
+
+/******************************************************************************/
+
 /* returns the number of seeds which have been used to regenerate the tree */
 uint32_t rebuild_seed_tree_leaves(unsigned char
                       seed_tree[NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES],
diff --git a/Optimized_Implementation/common/lib/seedtree.c b/Optimized_Implementation/common/lib/seedtree.c
index dc57281..fc59607 100644
--- a/Optimized_Implementation/common/lib/seedtree.c
+++ b/Optimized_Implementation/common/lib/seedtree.c
@@ -132,6 +132,24 @@ uint32_t seed_tree_path(const unsigned char
 
 /*****************************************************************************/
 
+uint32_t seed_tree_num_published(const unsigned char indices_to_publish[T])
+{
+    unsigned char flags_tree_to_publish[NUM_NODES_OF_SEED_TREE] = {0};
+    compute_seeds_to_publish(flags_tree_to_publish, indices_to_publish);
+
+    uint32_t num_seeds_published = 0;
+    for (uint32_t i = 1; i < NUM_NODES_OF_SEED_TREE; i++) {
+        if (flags_tree_to_publish[i]         == TO_PUBLISH &&
+            flags_tree_to_publish[PARENT(i)] == NOT_TO_PUBLISH ) {
+            num_seeds_published++;
+        }
+    }
+
+    return num_seeds_published;
+} /* end seed_tree_num_published */
+
+/*****************************************************************************/
+
 uint32_t rebuild_seed_tree_leaves(unsigned char
                              seed_tree[NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES],
                              const unsigned char indices_to_publish[T],
diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index 7439ad0..4cc5362 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -25,6 +25,8 @@
 
 
 #include "api.h"
+#include "seedtree.h"
+#include "utils.h"
 #include <string.h>  // memcpy
 
 /*----------------------------------------------------------------------------*/
@@ -91,6 +93,17 @@ int crypto_sign_open(unsigned char *m,
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
+    /* the signature must carry exactly the seeds its challenge calls for */
+    const sign_t *const sig = (const sign_t *const) (sm + *mlen);
+    uint8_t fixed_weight_string[T] = {0};
+    expand_digest_to_fixed_weight(fixed_weight_string, sig->digest);
+    for (uint32_t i = 0; i < T; i++) {
+        fixed_weight_string[i] = !!(fixed_weight_string[i]);
+    }
+    if (seed_tree_num_published(fixed_weight_string) != num_seeds_published) {
+        return -1;
+    }
+
     /* verify returns 1 if signature is ok, 0 otherwise */
     int ok = LESS_verify((const pubkey_t *const)
                                  pk,                                    // in parameter
diff --git a/Reference_Implementation/include/seedtree.h b/Reference_Implementation/include/seedtree.h
index 102c945..aa94618 100644
--- a/Reference_Implementation/include/seedtree.h
+++ b/Reference_Implementation/include/seedtree.h
@@ -24,6 +24,12 @@ uint32_t seed_tree_path(const unsigned char
 
 /******************************************************************************/
 
+/* returns the number of seeds published for a given set of rounds, i.e. the
+ * value seed_tree_path returns */
+uint32_t seed_tree_num_published(const unsigned char indices_to_publish[T]);
+
+/******************************************************************************/
+
 /* returns the number of seeds which have been used to regenerate the tree */
 uint32_t rebuild_seed_tree_leaves(unsigned char
                       seed_tree[NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES],
diff --git a/Reference_Implementation/lib/seedtree.c b/Reference_Implementation/lib/seedtree.c
index d873519..7e59e22 100644
--- a/Reference_Implementation/lib/seedtree.c
+++ b/Reference_Implementation/lib/seedtree.c
@@ -133,6 +133,24 @@ uint32_t seed_tree_path(const unsigned char
 
 /*****************************************************************************/
 
+uint32_t seed_tree_num_published(const unsigned char indices_to_publish[T])
+{
+   unsigned char flags_tree_to_publish[NUM_NODES_OF_SEED_TREE] = {0};
+   compute_seeds_to_publish(flags_tree_to_publish, indices_to_publish);
+
+   uint32_t num_seeds_published = 0;
+   for (uint32_t i = 1; i < NUM_NODES_OF_SEED_TREE; i++) {
+      if (flags_tree_to_publish[i]       == TO_PUBLISH &&
+         flags_tree_to_publish[PARENT(i)] == NOT_TO_PUBLISH ) {
+         num_seeds_published++;
+      }
+   }
+
+   return num_seeds_published;
+} /* end seed_tree_num_published */
+
+/*****************************************************************************/
+
 uint32_t rebuild_seed_tree_leaves(unsigned char
                       seed_tree[NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES],
                       const unsigned char indices_to_publish[T],
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index cd39c78..29ecb00 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -26,6 +26,8 @@
 
 
 #include "api.h"
+#include "seedtree.h"
+#include "utils.h"
 #include <stddef.h>  //  size_t
 #include <string.h>  // memcpy
 /*----------------------------------------------------------------------------*/
@@ -92,6 +94,17 @@ int crypto_sign_open(unsigned char *m,
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
+    /* the signature must carry exactly the seeds its challenge calls for */
+    const sign_t *const sig = (const sign_t *const) (sm + *mlen);
+    uint8_t fixed_weight_string[T] = {0};
+    expand_digest_to_fixed_weight(fixed_weight_string, sig->digest);
+    for (uint32_t i = 0; i < T; i++) {
+        fixed_weight_string[i] = !!(fixed_weight_string[i]);
+    }
+    if (seed_tree_num_published(fixed_weight_string) != num_seeds_published) {
+        return -1;
+    }
+
     /* verify returns 1 if signature is ok, 0 otherwise */
     int ok = LESS_verify((const pubkey_t *const)
                                  pk,                                    // in parameter
-- 
2.43.0


From d1f5e8fd5b3ada0e3dcaaa8bde8d18bf2cde765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 5/6] fix: reject public keys whose packed generator is
 malformed

---
 Optimized_Implementation/common/include/codes.h |  6 ++++--
 Optimized_Implementation/common/lib/LESS.c      |  4 +++-
 Optimized_Implementation/common/lib/codes.c     | 16 +++++++++++++++-
 Reference_Implementation/include/codes.h        |  6 ++++--
 Reference_Implementation/lib/LESS.c             |  4 +++-
 Reference_Implementation/lib/codes.c            | 16 +++++++++++++++-
 6 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/Optimized_Implementation/common/include/codes.h b/Optimized_Implementation/common/include/codes.h
index 26f0293..b2a4046 100644
--- a/Optimized_Implementation/common/include/codes.h
+++ b/Optimized_Implementation/common/include/codes.h
@@ -89,8 +89,10 @@ void compress_rref(uint8_t *compressed,
                     const generator_mat_t *const full,
                     const uint8_t is_pivot_column[N]);
 
-/* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full,
+/* Expands a compressed RREF generator matrix into a full one.
+ * returns 1 on success, 0 if the input does not describe K pivot columns or
+ * contains an entry which is not a field element */
+int expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed);
 
 /* Takes as input a compact RREF generator matrix, i.e. a set of N-K
diff --git a/Optimized_Implementation/common/lib/LESS.c b/Optimized_Implementation/common/lib/LESS.c
index afbe512..e11b02f 100644
--- a/Optimized_Implementation/common/lib/LESS.c
+++ b/Optimized_Implementation/common/lib/LESS.c
@@ -261,7 +261,9 @@ int LESS_verify(const pubkey_t *const PK,
         } else {
             generator_mat_t G_hat = {0};
             /// TODO: this can be optimized: expand the matrix only once and save it.
-            expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1]);
+            if (!expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1])) {
+                return 0;
+            }
             expand_to_monom_action(&mono_action, sig->monom_actions[employed_monoms]);
             /* Check that the monomial action is valid */
             if (!is_monom_action_valid(&mono_action)) {
diff --git a/Optimized_Implementation/common/lib/codes.c b/Optimized_Implementation/common/lib/codes.c
index 38c6481..0583f96 100644
--- a/Optimized_Implementation/common/lib/codes.c
+++ b/Optimized_Implementation/common/lib/codes.c
@@ -474,7 +474,7 @@ void compress_rref(uint8_t *compressed,
 
 
 /* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full,
+int expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed)
 {
     // Decompress pivot flags
@@ -502,6 +502,15 @@ void expand_to_rref(generator_mat_t *full,
     uint32_t compress_idx = N/8;
 #endif
 
+    /* a generator of a K dimensional code has exactly K pivot columns */
+    uint32_t num_pivots = 0;
+    for (uint32_t col_idx = 0; col_idx < N; col_idx++) {
+        num_pivots += is_pivot_column[col_idx];
+    }
+    if (num_pivots != K) {
+        return 0;
+    }
+
     // Decompress columns row-by-row
     uint32_t decode_state = 0;
     for (uint32_t row_idx = 0; row_idx < K; row_idx++) {
@@ -543,6 +552,10 @@ void expand_to_rref(generator_mat_t *full,
                     break;
                 }
                 
+                if (full->values[row_idx][col_idx] >= Q) {
+                    return 0;
+                }
+
                 if (decode_state != 7) {
                     decode_state++;
                 } else {
@@ -556,6 +569,7 @@ void expand_to_rref(generator_mat_t *full,
         }
     }
 
+    return 1;
 } /* end expand_to_rref */
 
 
diff --git a/Reference_Implementation/include/codes.h b/Reference_Implementation/include/codes.h
index 51df856..a065e62 100644
--- a/Reference_Implementation/include/codes.h
+++ b/Reference_Implementation/include/codes.h
@@ -89,8 +89,10 @@ void compress_rref(uint8_t *compressed,
                     const generator_mat_t *const full,
                     const uint8_t is_pivot_column[N]);
 
-/* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full,
+/* Expands a compressed RREF generator matrix into a full one.
+ * returns 1 on success, 0 if the input does not describe K pivot columns or
+ * contains an entry which is not a field element */
+int expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed);
 
 /* Takes as input a compact RREF generator matrix, i.e. a set of N-K
diff --git a/Reference_Implementation/lib/LESS.c b/Reference_Implementation/lib/LESS.c
index 84edae4..f9e5f2b 100644
--- a/Reference_Implementation/lib/LESS.c
+++ b/Reference_Implementation/lib/LESS.c
@@ -251,7 +251,9 @@ int LESS_verify(const pubkey_t *const PK,
             LESS_SHA3_INC_ABSORB(&state, (const uint8_t *) &V_array, sizeof(normalized_IS_t));
         } else {
             generator_mat_t G_hat = {0};
-            expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1]);
+            if (!expand_to_rref(&tmp_full_G, PK->SF_G[fixed_weight_string[i] - 1])) {
+                return 0;
+            }
             expand_to_monom_action(&mono_action, sig->monom_actions[employed_monoms]);
             /* Check that the monomial action is valid */
             if (!is_monom_action_valid(&mono_action)) {
diff --git a/Reference_Implementation/lib/codes.c b/Reference_Implementation/lib/codes.c
index c73f6da..108db6e 100644
--- a/Reference_Implementation/lib/codes.c
+++ b/Reference_Implementation/lib/codes.c
@@ -415,7 +415,7 @@ void compress_rref(uint8_t *compressed, const generator_mat_t *const full,
 }
 
 /* Expands a compressed RREF generator matrix into a full one */
-void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
+int expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
     // Decompress pivot flags
     uint8_t is_pivot_column[N] = {0};
     for (int col_byte = 0; col_byte < N / 8; col_byte++) {
@@ -441,6 +441,15 @@ void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
     int compress_idx = N / 8;
 #endif
 
+    /* a generator of a K dimensional code has exactly K pivot columns */
+    uint32_t num_pivots = 0;
+    for (uint32_t col_idx = 0; col_idx < N; col_idx++) {
+        num_pivots += is_pivot_column[col_idx];
+    }
+    if (num_pivots != K) {
+        return 0;
+    }
+
     // Decompress columns row-by-row
     int decode_state = 0;
     for (int row_idx = 0; row_idx < K; row_idx++) {
@@ -501,6 +510,10 @@ void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
                         break;
                 }
 
+                if (full->values[row_idx][col_idx] >= Q) {
+                    return 0;
+                }
+
                 if (decode_state != 7) {
                     decode_state++;
                 } else {
@@ -514,6 +527,7 @@ void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
         }
     }
 
+    return 1;
 } /* end expand_to_rref */
 
 
-- 
2.43.0


From 236bd4a91ab11dfe4c9657cbdb8987409b34cad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:32 +0000
Subject: [PATCH 6/6] fix: KAT_NIST_randombytes overflowed its offset for
 requests of 2 GiB and more

The offset into the output was an int: from 2^31 bytes on it overflows,
and in an unoptimised (Debug) build the generator writes before the
buffer and crashes.
---
 Optimized_Implementation/common/lib/nist/KAT_NIST_rng.c | 2 +-
 Reference_Implementation/lib/nist/KAT_NIST_rng.c        | 2 +-
 Utilities/KAT_Generation/lib/KAT_NIST_rng.c             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Optimized_Implementation/common/lib/nist/KAT_NIST_rng.c b/Optimized_Implementation/common/lib/nist/KAT_NIST_rng.c
index 5badb12..9caeeba 100644
--- a/Optimized_Implementation/common/lib/nist/KAT_NIST_rng.c
+++ b/Optimized_Implementation/common/lib/nist/KAT_NIST_rng.c
@@ -173,7 +173,7 @@ void KAT_NIST_randombytes_init(unsigned char *entropy_input,
 
 int KAT_NIST_randombytes(unsigned char *x, unsigned long long xlen) {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
diff --git a/Reference_Implementation/lib/nist/KAT_NIST_rng.c b/Reference_Implementation/lib/nist/KAT_NIST_rng.c
index 5badb12..9caeeba 100644
--- a/Reference_Implementation/lib/nist/KAT_NIST_rng.c
+++ b/Reference_Implementation/lib/nist/KAT_NIST_rng.c
@@ -173,7 +173,7 @@ void KAT_NIST_randombytes_init(unsigned char *entropy_input,
 
 int KAT_NIST_randombytes(unsigned char *x, unsigned long long xlen) {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
diff --git a/Utilities/KAT_Generation/lib/KAT_NIST_rng.c b/Utilities/KAT_Generation/lib/KAT_NIST_rng.c
index 5badb12..9caeeba 100644
--- a/Utilities/KAT_Generation/lib/KAT_NIST_rng.c
+++ b/Utilities/KAT_Generation/lib/KAT_NIST_rng.c
@@ -173,7 +173,7 @@ void KAT_NIST_randombytes_init(unsigned char *entropy_input,
 
 int KAT_NIST_randombytes(unsigned char *x, unsigned long long xlen) {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
-- 
2.43.0

