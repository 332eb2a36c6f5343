From 4771fc0cbebf738e7ec94347a37ad57e213cf9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 01/10] fix: reject signed messages shorter than a signature

smlen - sig_bytes underflowed, so verification of a short input read and
wrote far outside the buffers of the caller.
---
 xmss_commons.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xmss_commons.c b/xmss_commons.c
index 2b76b94..95b1202 100644
--- a/xmss_commons.c
+++ b/xmss_commons.c
@@ -156,6 +156,12 @@ int xmssmt_core_sign_open(const xmss_params *params,
     set_type(ltree_addr, XMSS_ADDR_TYPE_LTREE);
     set_type(node_addr, XMSS_ADDR_TYPE_HASHTREE);
 
+    /* Anything shorter than a signature cannot be a signed message. */
+    if (smlen < params->sig_bytes) {
+        *mlen = 0;
+        return -1;
+    }
+
     *mlen = smlen - params->sig_bytes;
 
     /* Convert the index bytes from the signature to an integer. */
-- 
2.43.0


From d1d98c23e218145fdc1f5b156066a8ae163e7c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 02/10] fix: erase the whole message buffer when verification
 fails

The message is placed at m + sig_bytes for hashing, but only the first mlen
bytes of m were zeroed on failure, so the rejected message was released.
---
 xmss_commons.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmss_commons.c b/xmss_commons.c
index 95b1202..5796b49 100644
--- a/xmss_commons.c
+++ b/xmss_commons.c
@@ -208,8 +208,8 @@ int xmssmt_core_sign_open(const xmss_params *params,
 
     /* Check if the root node equals the root node in the public key. */
     if (memcmp(root, pub_root, params->n)) {
-        /* If not, zero the message */
-        memset(m, 0, *mlen);
+        /* If not, zero the message; m holds a copy of it at the far end. */
+        memset(m, 0, smlen);
         *mlen = 0;
         return -1;
     }
-- 
2.43.0


From 3dcc8a9592e700aa0487f6321946f1cdb41d4624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 03/10] fix: do not shift the WOTS checksum out of its bytes
 for w = 256

len2 * log_w is a multiple of 8 for w = 256; the checksum was shifted by 8
bits rather than 0, dropping its high byte and allowing forgeries.
---
 wots.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wots.c b/wots.c
index d9c8449..50ebf8b 100644
--- a/wots.c
+++ b/wots.c
@@ -93,7 +93,7 @@ static void wots_checksum(const xmss_params *params,
 
     /* Convert checksum to base_w. */
     /* Make sure expected empty zero bits are the least significant bits. */
-    csum = csum << (8 - ((params->wots_len2 * params->wots_log_w) % 8));
+    csum = csum << ((8 - ((params->wots_len2 * params->wots_log_w) % 8)) % 8);
     ull_to_bytes(csum_bytes, sizeof(csum_bytes), csum);
     base_w(params, csum_base_w, params->wots_len2, csum_bytes);
 }
-- 
2.43.0


From ed98c183590f231552ecffd54ad8e83387b4f033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 04/10] fix: do not wrap the update budget when several layers
 roll over

With a budget of 2 updates (tree height 5), a third layer rolling over at the
same index wrapped the unsigned counter, and the layer above then did all of
its remaining work in one signature. That also hid that completed NEXT trees
kept consuming the budget (next_leaf was compared with the number of leaves of
the whole hyper-tree instead of one tree), which starves the upper layers.
---
 xmss_core_fast.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index cbf87ec..7ee5596 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -953,7 +953,7 @@ int xmssmt_core_sign(const xmss_params *params,
             set_tree_addr(addr, (idx_tree + 1));
             // if a NEXT-tree exists for this level;
             if ((1 + idx_tree) * (1 << params->tree_height) + idx_leaf < (1ULL << (params->full_height - params->tree_height * i))) {
-                if (i > 0 && updates > 0 && states[params->d + i].next_leaf < (1ULL << params->full_height)) {
+                if (i > 0 && updates > 0 && states[params->d + i].next_leaf < (1ULL << params->tree_height)) {
                     bds_state_update(params, &states[params->d + i], sk_seed, pub_seed, addr);
                     updates--;
                 }
@@ -971,7 +971,9 @@ int xmssmt_core_sign(const xmss_params *params,
             states[params->d + i].stackoffset = 0;
             states[params->d + i].next_leaf = 0;
 
-            updates--; // WOTS-signing counts as one update
+            if (updates > 0) {
+                updates--; // WOTS-signing counts as one update
+            }
             needswap_upto = i;
             for (j = 0; j < params->tree_height-params->bds_k; j++) {
                 states[i].treehash[j].completed = 1;
-- 
2.43.0


From fe40a6458be03854184cfaf096444431402761bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 05/10] fix: delete the secret key after, not before, making
 the last signature

The seeds and the traversal state were erased before they were used, so the
last signature of every key was invalid.
---
 xmss_core.c      | 28 +++++++++++++++++++++-------
 xmss_core_fast.c | 48 ++++++++++++++++++++++++++++++++++--------------
 2 files changed, 55 insertions(+), 21 deletions(-)

diff --git a/xmss_core.c b/xmss_core.c
index af9f8d1..ba92834 100644
--- a/xmss_core.c
+++ b/xmss_core.c
@@ -176,6 +176,14 @@ int xmssmt_core_keypair(const xmss_params *params,
     return 0;
 }
 
+/* Deletes the secret key. We only do this in memory, production code has to
+   make sure that this happens on disk. */
+static void delete_sk(const xmss_params *params, unsigned char *sk)
+{
+    memset(sk, 0xFF, params->index_bytes);
+    memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+}
+
 /**
  * Signs a message. Returns an array containing the signature followed by the
  * message and an updated secret key.
@@ -196,6 +204,7 @@ int xmssmt_core_sign(const xmss_params *params,
     unsigned char idx_bytes_32[32];
     unsigned int i;
     uint32_t idx_leaf;
+    int last = 0;
 
     uint32_t ots_addr[8] = {0};
     set_type(ots_addr, XMSS_ADDR_TYPE_OTS);
@@ -220,14 +229,15 @@ int xmssmt_core_sign(const xmss_params *params,
      * key is finished, hence external handling would be necessary)
      */ 
     if (idx >= ((1ULL << params->full_height) - 1)) {
-        // Delete secret key here. We only do this in memory, production code
-        // has to make sure that this happens on disk.
-        memset(sk, 0xFF, params->index_bytes);
-        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
+        if (idx > ((1ULL << params->full_height) - 1)) {
+            delete_sk(params, sk);
+            return -2; // We already used all one-time keys
+        }
+        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) {
+            delete_sk(params, sk);
             return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        }
+        last = 1; // The secret key is deleted below, after its last use
     }
     
     memcpy(sm, sk, params->index_bytes);
@@ -269,5 +279,9 @@ int xmssmt_core_sign(const xmss_params *params,
         sm += params->tree_height*params->n;
     }
 
+    if (last) {
+        delete_sk(params, sk);
+    }
+
     return 0;
 }
diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index 7ee5596..e1d5032 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -574,6 +574,14 @@ int xmss_core_keypair(const xmss_params *params,
     return 0;
 }
 
+/* Deletes the secret key. We only do this in memory, production code has to
+   make sure that this happens on disk. */
+static void delete_sk(const xmss_params *params, unsigned char *sk)
+{
+    memset(sk, 0xFF, params->index_bytes);
+    memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+}
+
 /**
  * Signs a message.
  * Returns
@@ -589,6 +597,7 @@ int xmss_core_sign(const xmss_params *params,
     const unsigned char *pub_root = sk + params->index_bytes + 2*params->n;
 
     uint16_t i = 0;
+    int last = 0;
 
     // TODO refactor BDS state not to need separate treehash instances
     bds_state state;
@@ -613,14 +622,15 @@ int xmss_core_sign(const xmss_params *params,
      * key is finished, hence external handling would be necessary)
      */ 
     if (idx >= ((1ULL << params->full_height) - 1)) {
-        // Delete secret key here. We only do this in memory, production code
-        // has to make sure that this happens on disk.
-        memset(sk, 0xFF, params->index_bytes);
-        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
+        if (idx > ((1ULL << params->full_height) - 1)) {
+            delete_sk(params, sk);
             return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        }
+        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) {
+            delete_sk(params, sk);
+            return -2; // We already used all one-time keys
+        }
+        last = 1; // The secret key is deleted below, after its last use
     }
     
     unsigned char sk_seed[params->n];
@@ -716,6 +726,10 @@ int xmss_core_sign(const xmss_params *params,
     /* Write the updated BDS state back into sk. */
     xmss_serialize_state(params, sk, &state);
 
+    if (last) {
+        delete_sk(params, sk);
+    }
+
     return 0;
 }
 
@@ -793,6 +807,7 @@ int xmssmt_core_sign(const xmss_params *params,
     uint32_t idx_leaf;
     uint64_t i, j;
     int needswap_upto = -1;
+    int last = 0;
     unsigned int updates;
 
     unsigned char sk_seed[params->n];
@@ -834,14 +849,15 @@ int xmssmt_core_sign(const xmss_params *params,
      * key is finished, hence external handling would be necessary)
      */ 
     if (idx >= ((1ULL << params->full_height) - 1)) {
-        // Delete secret key here. We only do this in memory, production code
-        // has to make sure that this happens on disk.
-        memset(sk, 0xFF, params->index_bytes);
-        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
-        if (idx > ((1ULL << params->full_height) - 1))
+        if (idx > ((1ULL << params->full_height) - 1)) {
+            delete_sk(params, sk);
+            return -2; // We already used all one-time keys
+        }
+        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) {
+            delete_sk(params, sk);
             return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
-                return -2; // We already used all one-time keys
+        }
+        last = 1; // The secret key is deleted below, after its last use
     }
     
     memcpy(sk_seed, sk+params->index_bytes, params->n);
@@ -986,5 +1002,9 @@ int xmssmt_core_sign(const xmss_params *params,
 
     xmssmt_serialize_state(params, sk, states);
 
+    if (last) {
+        delete_sk(params, sk);
+    }
+
     return 0;
 }
-- 
2.43.0


From f4dc21225a929ce00c1b441a3e603a230f827abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 06/10] fix: withhold the last signature whenever no index
 value is left

With 40 levels the index field has 40 bits: the index that marks a deleted key
is the last usable one, so a deleted key went on signing with erased seeds.
---
 xmss_core.c      |  9 +++++----
 xmss_core_fast.c | 18 ++++++++++--------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/xmss_core.c b/xmss_core.c
index ba92834..87f8795 100644
--- a/xmss_core.c
+++ b/xmss_core.c
@@ -224,16 +224,17 @@ int xmssmt_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
-     * to be on the safe side (there is no index value left to indicate that the 
-     * key is finished, hence external handling would be necessary)
+     * When the index field is exactly as wide as the total tree height (e.g.
+     * 40 or 64) we do not use the last signature to be on the safe side (there
+     * is no index value left to indicate that the key is finished, hence
+     * external handling would be necessary)
      */ 
     if (idx >= ((1ULL << params->full_height) - 1)) {
         if (idx > ((1ULL << params->full_height) - 1)) {
             delete_sk(params, sk);
             return -2; // We already used all one-time keys
         }
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) {
+        if ((params->full_height == 8*params->index_bytes) && (idx == ((1ULL << params->full_height) - 1))) {
             delete_sk(params, sk);
             return -2; // We already used all one-time keys
         }
diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index e1d5032..e7fef23 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -617,16 +617,17 @@ int xmss_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
-     * to be on the safe side (there is no index value left to indicate that the 
-     * key is finished, hence external handling would be necessary)
+     * When the index field is exactly as wide as the total tree height (e.g.
+     * 40 or 64) we do not use the last signature to be on the safe side (there
+     * is no index value left to indicate that the key is finished, hence
+     * external handling would be necessary)
      */ 
     if (idx >= ((1ULL << params->full_height) - 1)) {
         if (idx > ((1ULL << params->full_height) - 1)) {
             delete_sk(params, sk);
             return -2; // We already used all one-time keys
         }
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) {
+        if ((params->full_height == 8*params->index_bytes) && (idx == ((1ULL << params->full_height) - 1))) {
             delete_sk(params, sk);
             return -2; // We already used all one-time keys
         }
@@ -844,16 +845,17 @@ int xmssmt_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
-     * to be on the safe side (there is no index value left to indicate that the 
-     * key is finished, hence external handling would be necessary)
+     * When the index field is exactly as wide as the total tree height (e.g.
+     * 40 or 64) we do not use the last signature to be on the safe side (there
+     * is no index value left to indicate that the key is finished, hence
+     * external handling would be necessary)
      */ 
     if (idx >= ((1ULL << params->full_height) - 1)) {
         if (idx > ((1ULL << params->full_height) - 1)) {
             delete_sk(params, sk);
             return -2; // We already used all one-time keys
         }
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) {
+        if ((params->full_height == 8*params->index_bytes) && (idx == ((1ULL << params->full_height) - 1))) {
             delete_sk(params, sk);
             return -2; // We already used all one-time keys
         }
-- 
2.43.0


From ad7dd9a83d859024fac558805e608d9ed5bd7186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 07/10] fix: do not store uninitialised memory in the secret
 key

Key generation of the fast implementation serialised uninitialised treehash
instances from the stack and left parts of the secret key unwritten, which the
key generation tool then wrote to the key file.
---
 xmss_core_fast.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index e7fef23..5df5706 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -545,6 +545,8 @@ int xmss_core_keypair(const xmss_params *params,
     treehash_inst treehash[params->tree_height - params->bds_k];
     state.treehash = treehash;
 
+    /* Parts of the state are only filled in later; do not leave them to chance. */
+    memset(sk, 0, params->sk_bytes);
     xmss_deserialize_state(params, &state, sk);
 
     state.stackoffset = 0;
@@ -753,6 +755,8 @@ int xmssmt_core_keypair(const xmss_params *params,
         states[i].treehash = treehash + i * (params->tree_height - params->bds_k);
     }
 
+    /* Parts of the state are only filled in later; do not leave them to chance. */
+    memset(sk, 0, params->sk_bytes);
     xmssmt_deserialize_state(params, states, &wots_sigs, sk);
 
     for (i = 0; i < 2 * params->d - 1; i++) {
-- 
2.43.0


From 1d341df36663ef80fc3bd1f45cb901a0816a9d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 08/10] fix: report failures to generate or write a keypair

The key generation tool exited 0 when the keypair could not be written.
---
 ui/keypair.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ui/keypair.c b/ui/keypair.c
index 612c448..38159a1 100644
--- a/ui/keypair.c
+++ b/ui/keypair.c
@@ -37,12 +37,21 @@ int main(int argc, char **argv)
     unsigned char pk[XMSS_OID_LEN + params.pk_bytes];
     unsigned char sk[XMSS_OID_LEN + params.sk_bytes];
 
-    XMSS_KEYPAIR(pk, sk, oid);
+    if (XMSS_KEYPAIR(pk, sk, oid) != 0) {
+        fprintf(stderr, "Key generation failed.\n");
+        return -1;
+    }
 
-    fwrite(pk, 1, XMSS_OID_LEN + params.pk_bytes, stdout);
-    fwrite(sk, 1, XMSS_OID_LEN + params.sk_bytes, stdout);
+    if (fwrite(pk, 1, XMSS_OID_LEN + params.pk_bytes, stdout) != XMSS_OID_LEN + params.pk_bytes
+        || fwrite(sk, 1, XMSS_OID_LEN + params.sk_bytes, stdout) != XMSS_OID_LEN + params.sk_bytes) {
+        fprintf(stderr, "Could not write the keypair.\n");
+        return -1;
+    }
 
-    fclose(stdout);
+    if (fclose(stdout) != 0) {
+        fprintf(stderr, "Could not write the keypair.\n");
+        return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 31a74e6bf2d2bd50742b741b7a73bc0980ff1188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 09/10] fix: fail when the public key or signature file cannot
 be read

Read errors were ignored, so the verification tool decided on uninitialised
buffers instead of the bytes of the files.
---
 ui/open.c | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/ui/open.c b/ui/open.c
index a0b0b94..d829728 100644
--- a/ui/open.c
+++ b/ui/open.c
@@ -23,6 +23,7 @@ int main(int argc, char **argv) {
     int parse_oid_result;
 
     unsigned long long smlen;
+    long sm_file_len;
     int ret;
 
     if (argc != 3) {
@@ -47,10 +48,20 @@ int main(int argc, char **argv) {
     }
 
     /* Find out the message length. */
-    fseek(sm_file, 0, SEEK_END);
-    smlen = ftell(sm_file);
+    if (fseek(sm_file, 0, SEEK_END) != 0 || (sm_file_len = ftell(sm_file)) < 0) {
+        fprintf(stderr, "Could not read signature + message file.\n");
+        fclose(keypair_file);
+        fclose(sm_file);
+        return -1;
+    }
+    smlen = sm_file_len;
 
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    if (fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read keypair file.\n");
+        fclose(keypair_file);
+        fclose(sm_file);
+        return -1;
+    }
     oid = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid);
     if (parse_oid_result != 0) {
@@ -65,10 +76,20 @@ int main(int argc, char **argv) {
     unsigned char *m = malloc(smlen);
     unsigned long long mlen;
 
-    fseek(keypair_file, 0, SEEK_SET);
-    fseek(sm_file, 0, SEEK_SET);
-    fread(pk, 1, XMSS_OID_LEN + params.pk_bytes, keypair_file);
-    fread(sm, 1, smlen, sm_file);
+    if ((sm == NULL || m == NULL) && smlen > 0) {
+        fprintf(stderr, "Out of memory.\n");
+        ret = -1;
+        goto cleanup;
+    }
+
+    if (fseek(keypair_file, 0, SEEK_SET) != 0
+        || fseek(sm_file, 0, SEEK_SET) != 0
+        || fread(pk, 1, XMSS_OID_LEN + params.pk_bytes, keypair_file) != XMSS_OID_LEN + params.pk_bytes
+        || fread(sm, 1, smlen, sm_file) != smlen) {
+        fprintf(stderr, "Could not read input files.\n");
+        ret = -1;
+        goto cleanup;
+    }
 
     ret = XMSS_SIGN_OPEN(m, &mlen, sm, smlen, pk);
 
@@ -79,6 +100,7 @@ int main(int argc, char **argv) {
         printf("Verification succeeded.\n");
     }
 
+cleanup:
     fclose(keypair_file);
     fclose(sm_file);
 
-- 
2.43.0


From 4bec84ffac5c43f8aca2754a38a321f59f479ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 10/10] fix: store the updated key before releasing a signature

The signing tool ignored read, signing and write errors and wrote the signature
out before the key file was updated, so a crash or a full disk led to the same
one-time key being used twice.
---
 ui/sign.c | 79 ++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 64 insertions(+), 15 deletions(-)

diff --git a/ui/sign.c b/ui/sign.c
index d82ea6b..0bc80a5 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -24,6 +24,8 @@ int main(int argc, char **argv) {
     int parse_oid_result;
 
     unsigned long long mlen;
+    long m_file_len;
+    int ret;
 
     if (argc != 3) {
         fprintf(stderr, "Expected keypair and message filenames as two "
@@ -47,11 +49,21 @@ int main(int argc, char **argv) {
     }
 
     /* Find out the message length. */
-    fseek(m_file, 0, SEEK_END);
-    mlen = ftell(m_file);
+    if (fseek(m_file, 0, SEEK_END) != 0 || (m_file_len = ftell(m_file)) < 0) {
+        fprintf(stderr, "Could not read message file.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
+    mlen = m_file_len;
 
     /* Read the OID from the public key, as we need its length to seek past it */
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    if (fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read keypair file.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
     /* The XMSS_OID_LEN bytes in buffer are a big-endian uint32. */
     oid_pk = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid_pk);
@@ -63,9 +75,14 @@ int main(int argc, char **argv) {
     }
 
     /* fseek past the public key */
-    fseek(keypair_file, params.pk_bytes, SEEK_CUR);
     /* This is the OID we're actually going to use. Likely the same, but still. */
-    fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
+    if (fseek(keypair_file, params.pk_bytes, SEEK_CUR) != 0
+        || fread(&buffer, 1, XMSS_OID_LEN, keypair_file) != XMSS_OID_LEN) {
+        fprintf(stderr, "Could not read keypair file.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
     oid_sk = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
     parse_oid_result = XMSS_PARSE_OID(&params, oid_sk);
     if (parse_oid_result != 0) {
@@ -80,23 +97,55 @@ int main(int argc, char **argv) {
     unsigned char *sm = malloc(params.sig_bytes + mlen);
     unsigned long long smlen;
 
+    if ((m == NULL && mlen > 0) || sm == NULL) {
+        fprintf(stderr, "Out of memory.\n");
+        fclose(keypair_file);
+        ret = -1;
+        goto cleanup;
+    }
+
     /* fseek back to start of sk. */
-    fseek(keypair_file, -((long int)XMSS_OID_LEN), SEEK_CUR);
-    fseek(m_file, 0, SEEK_SET);
-    fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file);
-    fread(m, 1, mlen, m_file);
+    if (fseek(keypair_file, -((long int)XMSS_OID_LEN), SEEK_CUR) != 0
+        || fseek(m_file, 0, SEEK_SET) != 0
+        || fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file) != XMSS_OID_LEN + params.sk_bytes
+        || fread(m, 1, mlen, m_file) != mlen) {
+        fprintf(stderr, "Could not read input files.\n");
+        fclose(keypair_file);
+        ret = -1;
+        goto cleanup;
+    }
+
+    ret = XMSS_SIGN(sk, sm, &smlen, m, mlen);
 
-    XMSS_SIGN(sk, sm, &smlen, m, mlen);
+    /* Store the updated (or deleted) secret key before releasing a signature. */
+    if (fseek(keypair_file, -((long int)params.sk_bytes), SEEK_CUR) != 0
+        || fwrite(sk + XMSS_OID_LEN, 1, params.sk_bytes, keypair_file) != params.sk_bytes) {
+        fprintf(stderr, "Could not update keypair file.\n");
+        fclose(keypair_file);
+        ret = -1;
+        goto cleanup;
+    }
+    if (fclose(keypair_file) != 0) {
+        fprintf(stderr, "Could not update keypair file.\n");
+        ret = -1;
+        goto cleanup;
+    }
 
-    fseek(keypair_file, -((long int)params.sk_bytes), SEEK_CUR);
-    fwrite(sk + XMSS_OID_LEN, 1, params.sk_bytes, keypair_file);
-    fwrite(sm, 1, smlen, stdout);
+    if (ret != 0) {
+        fprintf(stderr, "Signing failed.\n");
+        goto cleanup;
+    }
+
+    if (fwrite(sm, 1, smlen, stdout) != smlen || fflush(stdout) != 0) {
+        fprintf(stderr, "Could not write signature.\n");
+        ret = -1;
+    }
 
-    fclose(keypair_file);
+cleanup:
     fclose(m_file);
 
     free(m);
     free(sm);
 
-    return 0;
+    return ret;
 }
-- 
2.43.0

