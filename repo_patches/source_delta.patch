From 01501d4f72fd09f829fa871fd53d88fc9522fec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 1/3] fix: fail key generation and signing when no random bytes
 are available

rand_bytes() reports failure, but keygen and sign ignored its result and went on
with whatever the buffers held.
---
 faest_param.c.in | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/faest_param.c.in b/faest_param.c.in
index b433613..3b6bb08 100644
--- a/faest_param.c.in
+++ b/faest_param.c.in
@@ -32,7 +32,9 @@ int FAEST_CALLING_CONVENTION faest_@PARAM_L@_keygen(uint8_t* pk, uint8_t* sk) {
 
   bool done = false;
   while (!done) {
-    rand_bytes(sk, @SK_SIZE@);
+    if (rand_bytes(sk, @SK_SIZE@)) {
+      return -1;
+    }
     // declassify OWF input
     faest_declassify(SK_INPUT(sk), @PK_SIZE@ / 2);
     done = faest_@PARAM_L@_owf(SK_KEY(sk), SK_INPUT(sk), PK_OUTPUT(pk));
@@ -86,7 +88,9 @@ int FAEST_CALLING_CONVENTION faest_@PARAM_L@_sign(const uint8_t* sk, const uint8
   }
 
   uint8_t rho[FAEST_@PARAM@_LAMBDA / 8];
-  rand_bytes(rho, sizeof(rho));
+  if (rand_bytes(rho, sizeof(rho))) {
+    return -1;
+  }
 
   return faest_@PARAM_L@_sign_with_randomness(sk, message, message_len, rho, sizeof(rho), signature, signature_len);
 }
-- 
2.43.0


From ee08f77b7d3b17158b9946a2b2c3aee3bf3c22a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 2/3] fix: do not loop for ever when reading /dev/urandom hits
 the end of file

---
 randomness.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/randomness.c b/randomness.c
index 039ebdb..c0b8acd 100644
--- a/randomness.c
+++ b/randomness.c
@@ -109,6 +109,11 @@ int rand_bytes(uint8_t* dst, size_t len) {
       close(fd);
       return -1;
     }
+    if (ret == 0) {
+      // end of file, no more bytes to come
+      close(fd);
+      return -1;
+    }
 
     dst += ret;
     len -= ret;
-- 
2.43.0


From 12909e876e6e1e07d4b671a10aec7ad9145e64fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 3/3] fix: absorb and squeeze inputs of 4 GiB and more without
 truncating the length

The remaining length was truncated to 32 bits before it was compared with the free
space in the block.  Messages around 4 GiB made signing and verification loop for
ever or write behind the hash state (compare CVE-2022-37454).
---
 sha3/KeccakSponge.inc       | 10 ++++++----
 sha3/KeccakSpongetimes4.inc | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/sha3/KeccakSponge.inc b/sha3/KeccakSponge.inc
index 7008092..e798cd6 100644
--- a/sha3/KeccakSponge.inc
+++ b/sha3/KeccakSponge.inc
@@ -187,9 +187,10 @@ int SpongeAbsorb(SpongeInstance *instance, const unsigned char *data, size_t dat
         }
         else {
             /* normal lane: using the message queue */
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes-instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             #ifdef KeccakReference
             displayBytes(1, "Block to be absorbed (part)", curData, partialBlock);
             #endif
@@ -281,9 +282,10 @@ int SpongeSqueeze(SpongeInstance *instance, unsigned char *data, size_t dataByte
                 SnP_Permute(instance->state);
                 instance->byteIOIndex = 0;
             }
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes-instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             SnP_ExtractBytes(instance->state, curData, instance->byteIOIndex, partialBlock);
diff --git a/sha3/KeccakSpongetimes4.inc b/sha3/KeccakSpongetimes4.inc
index 080e2e5..07e67ec 100644
--- a/sha3/KeccakSpongetimes4.inc
+++ b/sha3/KeccakSpongetimes4.inc
@@ -96,9 +96,10 @@ int SpongeAbsorb(SpongeInstance *instance, const unsigned char **data, size_t da
         }
         else {
             /* normal lane: using the message queue */
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes-instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             for(unsigned int instanceIndex = 0; instanceIndex < 4; instanceIndex++) {
@@ -179,9 +180,10 @@ int SpongeSqueeze(SpongeInstance *instance, unsigned char **data, size_t dataByt
                 PlSnP_Permute(instance->state);
                 instance->byteIOIndex = 0;
             }
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes-instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             for(unsigned int instanceIndex = 0; instanceIndex < 4; instanceIndex++) {
-- 
2.43.0

