From 7f375b2571f5febab4ddcf766d6e45aae376f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 01/68] fix: restart the stream when a cipher context is
 re-initialised

The block counter, the partial block position, the CTR counter half of the
IV and a key changed by key meshing or ACPKM survived EVP_CipherInit_ex() on
a used context, so that the next message was processed with the wrong
keystream.
---
 gost_crypt.c              | 26 +++++++++++++++++++++++---
 gost_grasshopper_cipher.c |  7 +++++++
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 516e598..1ff1c8e 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -424,8 +424,15 @@ static int gost_cipher_init_param(EVP_CIPHER_CTX *ctx,
             return 0;
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
     }
-    if (key)
+    if (key) {
         gost_key(&(c->cctx), key);
+        magma_master_key(&(c->cctx), key);
+    } else if (c->count != 0) {
+        /* Restart with the original key, it could be changed by key meshing */
+        gost_key(&(c->cctx), (const byte *)c->cctx.master_key);
+    }
+    c->count = 0;
+    EVP_CIPHER_CTX_set_num(ctx, 0);
     if (iv) {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
@@ -443,9 +450,15 @@ static int gost_cipher_init_cnt(EVP_CIPHER_CTX *ctx,
     struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
     gost_init(&(c->cctx), block);
     c->key_meshing = 1;
-    c->count = 0;
-    if (key)
+    if (key) {
         gost_key(&(c->cctx), key);
+        magma_master_key(&(c->cctx), key);
+    } else if (c->count != 0) {
+        /* Restart with the original key, it could be changed by key meshing */
+        gost_key(&(c->cctx), (const byte *)c->cctx.master_key);
+    }
+    c->count = 0;
+    EVP_CIPHER_CTX_set_num(ctx, 0);
     if (iv) {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
@@ -504,11 +517,18 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
     if (key) {
         magma_key(&(c->cctx), key);
         magma_master_key(&(c->cctx), key);
+    } else if (c->count != 0) {
+        /* Restart with the original key, it could be changed by ACPKM */
+        magma_key(&(c->cctx), (const byte *)c->cctx.master_key);
     }
+    c->count = 0;
+    EVP_CIPHER_CTX_set_num(ctx, 0);
     if (iv) {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
     }
+    /* In CTR mode the rest of the IV buffer is the block counter */
+    memset(EVP_CIPHER_CTX_iv_noconst(ctx), 0, 8);
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
 
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index ef06e2d..1bca627 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -250,13 +250,20 @@ static int gost_grasshopper_cipher_init(EVP_CIPHER_CTX *ctx,
     if (key != NULL) {
         gost_grasshopper_cipher_key(c, key);
         gost_grasshopper_master_key(c, key);
+    } else if (c->type == GRASSHOPPER_CIPHER_CTRACPKM
+               || c->type == GRASSHOPPER_CIPHER_CTRACPKMOMAC) {
+        /* Restart with the original key, it could be changed by ACPKM */
+        gost_grasshopper_cipher_key(c, c->master_key.k.b);
     }
 
+    EVP_CIPHER_CTX_set_num(ctx, 0);
     if (iv != NULL) {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
     }
 
+    /* In CTR mode the rest of the IV buffer is the block counter */
+    memset(EVP_CIPHER_CTX_iv_noconst(ctx), 0, GRASSHOPPER_BLOCK_SIZE);
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
 
-- 
2.43.0


From 9c23144ec5884e423dd4d932282be1e762864922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 02/68] fix: derive the MGM authentication counter when
 decrypting without AAD

gost_mgm128_decrypt() left Z_1 unset (or stale) when no associated data was
given, so valid messages without AAD were rejected and the tag did not
depend on the nonce.
---
 gost_gost2015.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 8989ab1..3b6e220 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -385,6 +385,10 @@ int gost_mgm128_decrypt(mgm128_context *ctx, const unsigned char *in,
     int bl = ctx->blocklen;
 
     if (mlen == 0) {
+        if (alen == 0) {
+            ctx->nonce.c[0] |= 0x80;
+            (*block) (ctx->nonce.c, ctx->Zi.c, key);    // Z_1 = E_K(1 || nonce)
+        }
         ctx->nonce.c[0] &= 0x7f;
         (*block) (ctx->nonce.c, ctx->Yi.c, key);  // Y_1 = E_K(0 || nonce)
     }
-- 
2.43.0


From e77dc299a169ca4ae85296b7d8ab836bd62ee1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 03/68] fix: make copies of MGM cipher contexts independent

The copy kept pointers to the IV and the key schedule inside the original
context: it worked with the original's key, used freed memory after the
original was destroyed, and freeing it released an invalid pointer.
---
 gost_crypt.c              | 12 ++++++++++++
 gost_grasshopper_cipher.c | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index 1ff1c8e..bb5da21 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -258,6 +258,7 @@ GOST_cipher magma_ecb_cipher = {
     .iv_len = 8,
     .flags = EVP_CIPH_NO_PADDING |
         EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER |
+        EVP_CIPH_CUSTOM_COPY |
         EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER,
     .init = gost_magma_cipher_init_mgm,
     .do_cipher = gost_magma_cipher_do_mgm,
@@ -1164,6 +1165,17 @@ static int gost_magma_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *ptr)
         memcpy(ptr, buf, arg);
         return 1;
 
+    case EVP_CTRL_COPY: {
+        EVP_CIPHER_CTX *out = ptr;
+        gost_mgm_ctx *out_mctx = EVP_CIPHER_CTX_get_cipher_data(out);
+
+        /* The copied structure still points into the original context */
+        out_mctx->iv = EVP_CIPHER_CTX_iv_noconst(out);
+        if (out_mctx->mgm.key != NULL)
+            out_mctx->mgm.key = &out_mctx->ks;
+        return 1;
+    }
+
     default:
         return -1;
     }
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 1bca627..2f715ef 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -132,6 +132,7 @@ GOST_cipher grasshopper_mgm_cipher = {
     .iv_len = 16,
     .flags = EVP_CIPH_NO_PADDING |
         EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER |
+        EVP_CIPH_CUSTOM_COPY |
         EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER,
     .cleanup = gost_grasshopper_mgm_cleanup,
     .ctrl = gost_grasshopper_mgm_ctrl,
@@ -1092,6 +1093,17 @@ static int gost_grasshopper_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void
         memcpy(ptr, buf, arg);
         return 1;
 
+    case EVP_CTRL_COPY: {
+        EVP_CIPHER_CTX *out = ptr;
+        gost_mgm_ctx *out_mctx = EVP_CIPHER_CTX_get_cipher_data(out);
+
+        /* The copied structure still points into the original context */
+        out_mctx->iv = EVP_CIPHER_CTX_iv_noconst(out);
+        if (out_mctx->mgm.key != NULL)
+            out_mctx->mgm.key = &out_mctx->ks;
+        return 1;
+    }
+
     default:
         return -1;
     }
-- 
2.43.0


From 2a743be775498ba0d3666245dd55a9ba403569de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 04/68] fix: refuse MGM nonce lengths other than the block size

A shorter length was accepted, but the whole block was still read from the
caller's buffer, out of its bounds; a longer nonce was silently truncated.
---
 gost_crypt.c              | 7 ++-----
 gost_grasshopper_cipher.c | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index bb5da21..1c2ab2a 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1133,12 +1133,9 @@ static int gost_magma_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *ptr)
         return 1;
 
     case EVP_CTRL_AEAD_SET_IVLEN:
-        if (arg <= 0)
+        /* MGM nonce always takes the whole block */
+        if (arg != EVP_CIPHER_iv_length(EVP_CIPHER_CTX_cipher(c)))
             return 0;
-        if ((arg > EVP_MAX_IV_LENGTH) && (arg > mctx->ivlen)) {
-            // TODO: Allocate memory for IV or set error
-            return 0;
-        }
         mctx->ivlen = arg;
         return 1;
 
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 2f715ef..1ff81d9 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -1061,12 +1061,9 @@ static int gost_grasshopper_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void
         return 1;
 
     case EVP_CTRL_AEAD_SET_IVLEN:
-        if (arg <= 0)
+        /* MGM nonce always takes the whole block */
+        if (arg != EVP_CIPHER_iv_length(EVP_CIPHER_CTX_cipher(c)))
             return 0;
-        if ((arg > EVP_MAX_IV_LENGTH) && (arg > mctx->ivlen)) {
-            // TODO: Allocate memory for IV or set error
-            return 0;
-        }
         mctx->ivlen = arg;
         return 1;
 
-- 
2.43.0


From 08d473fefde6c341d5d11c20b2ef73caeb32e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 05/68] fix: keep the ACPKM section size when the key is set

CMS sets the section size from the algorithm parameters before it sets the
key; setting the key restored the default section size, so that enveloped
data longer than 1024 (Magma) or 4096 (Kuznyechik) bytes was decrypted to
garbage.
---
 gost_crypt.c              | 15 ++++++++-------
 gost_grasshopper_cipher.c |  8 ++++++--
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 1c2ab2a..f2a1cc4 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -509,6 +509,14 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
             return 0;
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
 
+        /* Only the default: it can be changed before the key is set */
+        if (EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm
+         || EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm_omac) {
+           c->key_meshing = 1024;
+        } else {
+           c->key_meshing = 0;
+        }
+
         if (enc) {
             if (init_zero_kdf_seed(c->kdf_seed) == 0)
                 return -1;
@@ -533,13 +541,6 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
 
-    if (EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm
-     || EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm_omac) {
-       c->key_meshing = 1024;
-    } else {
-       c->key_meshing = 0;
-    }
-
     return 1;
 }
 
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 1ff81d9..7bd35ee 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -339,7 +339,9 @@ gost_grasshopper_cipher_init_ctracpkm(EVP_CIPHER_CTX
     /* NB: setting type makes EVP do_cipher callback useless */
     c->c.type = GRASSHOPPER_CIPHER_CTRACPKM;
     EVP_CIPHER_CTX_set_num(ctx, 0);
-    c->section_size = 4096;
+    /* Only the default: it can be changed before the key is set */
+    if (EVP_CIPHER_CTX_get_app_data(ctx) == NULL)
+        c->section_size = 4096;
 
     return gost_grasshopper_cipher_init(ctx, key, iv, enc);
 }
@@ -355,7 +357,9 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
     /* NB: setting type makes EVP do_cipher callback useless */
     c->c.type = GRASSHOPPER_CIPHER_CTRACPKMOMAC;
     EVP_CIPHER_CTX_set_num(ctx, 0);
-    c->section_size = 4096;
+    /* Only the default: it can be changed before the key is set */
+    if (EVP_CIPHER_CTX_get_app_data(ctx) == NULL)
+        c->section_size = 4096;
 
     if (key) {
         unsigned char cipher_key[32];
-- 
2.43.0


From d8d74bccf8f93beb2443483c3658c5a30d177e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 06/68] fix: free the MAC context when a CTR-ACPKM-OMAC context
 is keyed again

---
 gost_crypt.c              | 1 +
 gost_grasshopper_cipher.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index f2a1cc4..6987525 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -551,6 +551,7 @@ static int magma_cipher_init_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, const unsigned
 	if (key) {
     struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 		unsigned char cipher_key[32];
+		EVP_MD_CTX_free(c->omac_ctx);
 		c->omac_ctx = EVP_MD_CTX_new();
 
 		if (c->omac_ctx == NULL) {
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 7bd35ee..4b9fdbb 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -363,6 +363,7 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
 
     if (key) {
         unsigned char cipher_key[32];
+        EVP_MD_CTX_free(c->omac_ctx);
         c->omac_ctx = EVP_MD_CTX_new();
 
         if (c->omac_ctx == NULL) {
-- 
2.43.0


From 4c958a8e354b196c4d9839b165b5a99eac11c501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 07/68] fix: free the attribute type object after processing
 the CMS MAC attribute

---
 gost_gost2015.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 3b6e220..6c01d49 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -134,23 +134,29 @@ int gost2015_process_unprotected_attributes(
     STACK_OF(X509_ATTRIBUTE) *attrs,
     int encryption, size_t mac_len, unsigned char *final_tag)
 {
+    int ret = -1;
+    ASN1_OBJECT *obj = OBJ_txt2obj(OID_GOST_CMS_MAC, 1);
+
+    if (obj == NULL)
+        return -1;
+
     if (encryption == 0) /*Decrypting*/ {
         ASN1_OCTET_STRING *osExpectedMac = X509at_get0_data_by_OBJ(attrs,
-            OBJ_txt2obj(OID_GOST_CMS_MAC, 1), -3, V_ASN1_OCTET_STRING);
+            obj, -3, V_ASN1_OCTET_STRING);
 
-        if (!osExpectedMac || osExpectedMac->length != (int)mac_len)
-            return -1;
-
-        memcpy(final_tag, osExpectedMac->data, osExpectedMac->length);
-    } else {
-        if (attrs == NULL)
-            return -1;
-        return (X509at_add1_attr_by_OBJ(&attrs,
-               OBJ_txt2obj(OID_GOST_CMS_MAC, 1),
-               V_ASN1_OCTET_STRING, final_tag,
-               mac_len) == NULL) ? -1 : 1;
+        if (osExpectedMac && osExpectedMac->length == (int)mac_len) {
+            memcpy(final_tag, osExpectedMac->data, osExpectedMac->length);
+            ret = 1;
+        }
+    } else if (attrs != NULL
+               && X509at_add1_attr_by_OBJ(&attrs, obj,
+                                          V_ASN1_OCTET_STRING, final_tag,
+                                          mac_len) != NULL) {
+        ret = 1;
     }
-    return 1;
+
+    ASN1_OBJECT_free(obj);
+    return ret;
 }
 
 int gost2015_acpkm_omac_init(int nid, int enc, const unsigned char *inkey,
-- 
2.43.0


From 866a3d3902000902857e4a866cb17def151d2db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 08/68] fix: CTR-ACPKM-OMAC without a key or with a failing MAC
 reports failure

A context that has no key yet was used through a NULL MAC context, and
errors of the MAC computation were ignored.
---
 gost_crypt.c              | 13 +++++++++----
 gost_gost2015.c           |  6 ++++--
 gost_grasshopper_cipher.c | 19 ++++++++++++++-----
 3 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 6987525..4ab7a42 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -900,6 +900,9 @@ static int magma_cipher_do_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, unsigned char *ou
 {
   struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 
+	if (c->omac_ctx == NULL) /* No key yet */
+		return -1;
+
 	if (in == NULL && inl == 0) /* Final call */
 		return gost2015_final_call(ctx, c->omac_ctx, MAGMA_MAC_MAX_SIZE, c->tag, magma_cipher_do_ctr);
 
@@ -907,15 +910,17 @@ static int magma_cipher_do_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, unsigned char *ou
       return -1;
 
 	/* As in and out can be the same pointer, process unencrypted here */
-	if (EVP_CIPHER_CTX_encrypting(ctx))
-		EVP_DigestSignUpdate(c->omac_ctx, in, inl);
+	if (EVP_CIPHER_CTX_encrypting(ctx)
+	    && EVP_DigestSignUpdate(c->omac_ctx, in, inl) <= 0)
+		return -1;
 
   if (magma_cipher_do_ctr(ctx, out, in, inl) != inl)
       return -1;
 
 	/* As in and out can be the same pointer, process decrypted here */
-	if (!EVP_CIPHER_CTX_encrypting(ctx))
-		EVP_DigestSignUpdate(c->omac_ctx, out, inl);
+	if (!EVP_CIPHER_CTX_encrypting(ctx)
+	    && EVP_DigestSignUpdate(c->omac_ctx, out, inl) <= 0)
+		return -1;
 
 	return inl;
 }
diff --git a/gost_gost2015.c b/gost_gost2015.c
index 6c01d49..878a3c6 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -23,7 +23,8 @@ int gost2015_final_call(EVP_CIPHER_CTX *ctx, EVP_MD_CTX *omac_ctx, size_t mac_si
     memset(calculated_mac, 0, KUZNYECHIK_MAC_MAX_SIZE);
 
     if (EVP_CIPHER_CTX_encrypting(ctx)) {
-        EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size);
+        if (EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size) <= 0)
+            return -1;
 
         if (do_cipher(ctx, encrypted_mac, calculated_mac, mac_size) <= 0) {
             return -1;
@@ -32,7 +33,8 @@ int gost2015_final_call(EVP_CIPHER_CTX *ctx, EVP_MD_CTX *omac_ctx, size_t mac_si
         unsigned char expected_mac[KUZNYECHIK_MAC_MAX_SIZE];
 
         memset(expected_mac, 0, KUZNYECHIK_MAC_MAX_SIZE);
-        EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size);
+        if (EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size) <= 0)
+            return -1;
 
         if (do_cipher(ctx, expected_mac, encrypted_mac, mac_size) <= 0) {
             return -1;
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 4b9fdbb..5a4e629 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -739,9 +739,11 @@ static int gost_grasshopper_cipher_do_ctracpkm_omac(EVP_CIPHER_CTX *ctx,
 {
     int result;
     gost_grasshopper_cipher_ctx_ctr *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
-    /* As in and out can be the same pointer, process unencrypted here */
-    if (EVP_CIPHER_CTX_encrypting(ctx))
-        EVP_DigestSignUpdate(c->omac_ctx, in, inl);
+
+    if (c->omac_ctx == NULL) { /* No key yet */
+        GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_DO_CTRACPKM_OMAC, ERR_R_EVP_LIB);
+        return -1;
+    }
 
     if (in == NULL && inl == 0) { /* Final call */
         return gost2015_final_call(ctx, c->omac_ctx, KUZNYECHIK_MAC_MAX_SIZE, c->tag, gost_grasshopper_cipher_do_ctracpkm);
@@ -751,11 +753,18 @@ static int gost_grasshopper_cipher_do_ctracpkm_omac(EVP_CIPHER_CTX *ctx,
         GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_DO_CTRACPKM_OMAC, ERR_R_EVP_LIB);
         return -1;
     }
+
+    /* As in and out can be the same pointer, process unencrypted here */
+    if (EVP_CIPHER_CTX_encrypting(ctx)
+        && EVP_DigestSignUpdate(c->omac_ctx, in, inl) <= 0)
+        return -1;
+
     result = gost_grasshopper_cipher_do_ctracpkm(ctx, out, in, inl);
 
     /* As in and out can be the same pointer, process decrypted here */
-    if (!EVP_CIPHER_CTX_encrypting(ctx))
-        EVP_DigestSignUpdate(c->omac_ctx, out, inl);
+    if (!EVP_CIPHER_CTX_encrypting(ctx)
+        && EVP_DigestSignUpdate(c->omac_ctx, out, inl) <= 0)
+        return -1;
 
     return result;
 }
-- 
2.43.0


From b348766747c7273ecdede4b26573e8795cc5ba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 09/68] fix: keep the MGM nonce when a keyed context is given a
 nonce and then a key

---
 gost_crypt.c              | 7 ++++---
 gost_grasshopper_cipher.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 4ab7a42..c0e447f 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -644,6 +644,9 @@ static int gost_magma_cipher_init_mgm(EVP_CIPHER_CTX *ctx, const unsigned char *
 
     if (!iv && !key)
         return 1;
+    /* Remember the IV: the key may be set (again) without one later */
+    if (iv)
+        memcpy(mctx->iv, iv, mctx->ivlen);
     if (key) {
         bl = EVP_CIPHER_CTX_iv_length(ctx);
         if (!gost_cipher_set_param(&mctx->ks.g_ks, NID_id_tc26_gost_28147_param_Z))
@@ -664,13 +667,11 @@ static int gost_magma_cipher_init_mgm(EVP_CIPHER_CTX *ctx, const unsigned char *
         }
         mctx->key_set = 1;
     } else {
-        /* If key set use IV, otherwise copy */
+        /* If key set use IV, otherwise it is used when the key is set */
         if (mctx->key_set) {
             if (gost_mgm128_setiv(&mctx->mgm, iv, mctx->ivlen) != 1)
                 return 0;
         }
-        else
-            memcpy(mctx->iv, iv, mctx->ivlen);
         mctx->iv_set = 1;
     }
     return 1;
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 5a4e629..e6cadf0 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -491,6 +491,9 @@ gost_grasshopper_cipher_init_mgm(EVP_CIPHER_CTX *ctx, const unsigned char *key,
 
     if (!iv && !key)
         return 1;
+    /* Remember the IV: the key may be set (again) without one later */
+    if (iv)
+        memcpy(mctx->iv, iv, mctx->ivlen);
     if (key) {
         bl = EVP_CIPHER_CTX_iv_length(ctx);
         gost_grasshopper_cipher_key(&mctx->ks.gh_ks, key);
@@ -509,13 +512,11 @@ gost_grasshopper_cipher_init_mgm(EVP_CIPHER_CTX *ctx, const unsigned char *key,
         }
         mctx->key_set = 1;
     } else {
-        /* If key set use IV, otherwise copy */
+        /* If key set use IV, otherwise it is used when the key is set */
         if (mctx->key_set) {
             if (gost_mgm128_setiv(&mctx->mgm, iv, mctx->ivlen) != 1)
                 return 0;
         }
-        else
-            memcpy(mctx->iv, iv, mctx->ivlen);
         mctx->iv_set = 1;
     }
     return 1;
-- 
2.43.0


From 218e04daccbd8183584e9cebba4301dffbb8c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 10/68] fix: allow a context keyed for a MAC to be initialised
 for another digest

---
 gost_crypt.c      | 5 ++++-
 gost_omac.c       | 2 ++
 gost_omac_acpkm.c | 2 ++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index c0e447f..143a0cf 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1684,7 +1684,10 @@ static int gost_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
 /* Clean up imit ctx */
 static int gost_imit_cleanup(EVP_MD_CTX *ctx)
 {
-    memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(struct ossl_gost_imit_ctx));
+    if (EVP_MD_CTX_md_data(ctx))
+        memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(struct ossl_gost_imit_ctx));
+    /* The flag is set with the key, it should not outlive it */
+    EVP_MD_CTX_clear_flags(ctx, EVP_MD_CTX_FLAG_NO_INIT);
     return 1;
 }
 /* vim: set expandtab cinoptions=\:0,l1,t0,g0,(0 sw=4 : */
diff --git a/gost_omac.c b/gost_omac.c
index 648cd8f..15ba8de 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -131,6 +131,8 @@ static int omac_imit_cleanup(EVP_MD_CTX *ctx)
         CMAC_CTX_free(c->cmac_ctx);
         memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(OMAC_CTX));
     }
+    /* The flag is set with the key, it should not outlive it */
+    EVP_MD_CTX_clear_flags(ctx, EVP_MD_CTX_FLAG_NO_INIT);
     return 1;
 }
 
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 8a3c841..36c0dac 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -394,6 +394,8 @@ static int omac_acpkm_imit_cleanup(EVP_MD_CTX *ctx)
         CMAC_ACPKM_CTX_free(c->cmac_ctx);
         memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(OMAC_ACPKM_CTX));
     }
+    /* The flag is set with the key, it should not outlive it */
+    EVP_MD_CTX_clear_flags(ctx, EVP_MD_CTX_FLAG_NO_INIT);
     return 1;
 }
 
-- 
2.43.0


From e13b17e9ef6a91601eb86b8e7ed2e0ff9341b47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 11/68] fix: give Kuznyechik CTR-ACPKM-OMAC MAC keys their own
 key type and digest

---
 gost_ameth.c | 18 ++++++++++++++++++
 gost_pmeth.c | 11 ++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 8e02a15..7bdb897 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -1130,6 +1130,20 @@ static int mac_ctrl_grasshopper(EVP_PKEY *pkey, int op, long arg1, void *arg2)
     return -2;
 }
 
+static int mac_ctrl_grasshopper_acpkm(EVP_PKEY *pkey, int op, long arg1,
+                                      void *arg2)
+{
+    switch (op) {
+    case ASN1_PKEY_CTRL_DEFAULT_MD_NID:
+        if (arg2) {
+            *(int *)arg2 =
+                NID_id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac;
+            return 2;
+        }
+    }
+    return -2;
+}
+
 static int gost2001_param_encode(const EVP_PKEY *pkey, unsigned char **pder)
 {
     int nid =
@@ -1215,6 +1229,10 @@ int register_ameth_gost(int nid, EVP_PKEY_ASN1_METHOD **ameth,
         EVP_PKEY_asn1_set_free(*ameth, mackey_free_gost);
         EVP_PKEY_asn1_set_ctrl(*ameth, mac_ctrl_grasshopper);
         break;
+    case NID_id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac:
+        EVP_PKEY_asn1_set_free(*ameth, mackey_free_gost);
+        EVP_PKEY_asn1_set_ctrl(*ameth, mac_ctrl_grasshopper_acpkm);
+        break;
     }
     return 1;
 }
diff --git a/gost_pmeth.c b/gost_pmeth.c
index 44bfc75..97415e7 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -959,6 +959,13 @@ static int pkey_gost_grasshopper_mac_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     return pkey_gost_mac_keygen_base(ctx, pkey, NID_grasshopper_mac);
 }
 
+static int pkey_gost_grasshopper_mac_acpkm_keygen(EVP_PKEY_CTX *ctx,
+                                                  EVP_PKEY *pkey)
+{
+    return pkey_gost_mac_keygen_base(ctx, pkey,
+        NID_id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac);
+}
+
 static int pkey_gost_mac_signctx_init(EVP_PKEY_CTX *ctx, EVP_MD_CTX *mctx)
 {
     struct gost_mac_pmeth_data *data = EVP_PKEY_CTX_get_data(ctx);
@@ -1146,7 +1153,9 @@ int register_pmeth_gost(int id, EVP_PKEY_METHOD **pmeth, int flags)
                                pkey_gost_grasshopper_mac_ctrl_str);
         EVP_PKEY_meth_set_signctx(*pmeth, pkey_gost_grasshopper_mac_signctx_init,
                                   pkey_gost_mac_signctx);
-        EVP_PKEY_meth_set_keygen(*pmeth, NULL, pkey_gost_grasshopper_mac_keygen);
+        EVP_PKEY_meth_set_keygen(*pmeth, NULL, id == NID_grasshopper_mac
+                                 ? pkey_gost_grasshopper_mac_keygen
+                                 : pkey_gost_grasshopper_mac_acpkm_keygen);
         EVP_PKEY_meth_set_init(*pmeth, pkey_gost_grasshopper_mac_init);
         EVP_PKEY_meth_set_cleanup(*pmeth, pkey_gost_mac_cleanup);
         EVP_PKEY_meth_set_copy(*pmeth, pkey_gost_mac_copy);
-- 
2.43.0


From ae656d3a9cf41757b9e0a29146becf049bf66b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 12/68] fix: do not let the splitting of an 8 byte message
 influence its GOST 28147-89 MAC

---
 gost_crypt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 143a0cf..37dbdf1 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1574,7 +1574,8 @@ static int gost_imit_update(EVP_MD_CTX *ctx, const void *data, size_t count)
         for (i = c->bytes_left; i < 8 && bytes > 0; bytes--, i++, p++) {
             c->partial_block[i] = *p;
         }
-        if (i == 8) {
+        /* The last block is kept until the end, even if it is complete */
+        if (i == 8 && bytes > 0) {
             mac_block_mesh(c, c->partial_block);
         } else {
             c->bytes_left = i;
-- 
2.43.0


From f93175adba8866b7c455f599cbc31020f7137b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 13/68] fix: refuse signatures whose length does not match the
 key

---
 gost_pmeth.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 97415e7..d5a4cb6 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -539,7 +539,13 @@ static int pkey_gost_ec_cp_verify(EVP_PKEY_CTX *ctx, const unsigned char *sig,
 {
     int ok = 0;
     EVP_PKEY *pub_key = EVP_PKEY_CTX_get0_pkey(ctx);
-    ECDSA_SIG *s = (sig) ? unpack_cp_signature(sig, siglen) : NULL;
+    ECDSA_SIG *s = NULL;
+
+    /* Both halves have fixed length, anything else is not a signature */
+    if (!sig || !pub_key || EVP_PKEY_size(pub_key) <= 0
+        || siglen != (size_t)EVP_PKEY_size(pub_key))
+        return 0;
+    s = unpack_cp_signature(sig, siglen);
     if (!s)
         return 0;
 #ifdef DEBUG_SIGN
-- 
2.43.0


From 78fd6fdd4ffd80a86b03b47bbf01bc228541d224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 14/68] fix: key generation reports failures of the random
 number generator

---
 gost_pmeth.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index d5a4cb6..4153ec6 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -447,8 +447,7 @@ static int pkey_gost2001cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     if (!pkey_gost2001_paramgen(ctx, pkey))
         return 0;
     ec = EVP_PKEY_get0(pkey);
-    gost_ec_keygen(ec);
-    return 1;
+    return gost_ec_keygen(ec);
 }
 
 /* Generates GOST_R3410 2012 key and assigns it using specified type */
@@ -457,8 +456,7 @@ static int pkey_gost2012cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     if (!pkey_gost2012_paramgen(ctx, pkey))
         return 0;
 
-    gost_ec_keygen(EVP_PKEY_get0(pkey));
-    return 1;
+    return gost_ec_keygen(EVP_PKEY_get0(pkey));
 }
 
 /* ----------- sign callbacks --------------------------------------*/
-- 
2.43.0


From cd306ab51852ac5824d2780cc512e1015719a9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 15/68] fix: key agreement without a peer or private key
 reports an error

---
 gost_ec_keyx.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 8839c4a..205c718 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -39,6 +39,12 @@ int VKO_compute_key(unsigned char *shared_key,
     int buf_len, half_len;
     int ret = 0;
 
+    if (pub_key == NULL || priv_key == NULL
+        || EC_KEY_get0_private_key(priv_key) == NULL) {
+        GOSTerr(GOST_F_VKO_COMPUTE_KEY, ERR_R_PASSED_NULL_PARAMETER);
+        return 0;
+    }
+
     if ((ctx = BN_CTX_secure_new()) == NULL) {
         GOSTerr(GOST_F_VKO_COMPUTE_KEY, ERR_R_MALLOC_FAILURE);
         return 0;
@@ -203,6 +209,11 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
         return 0;
     }
 
+    if (key != NULL && peer_key == NULL) {
+        GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_NO_PEER_KEY);
+        return 0;
+    }
+
     /* VKO */
     if (data->vko_dgst_nid) {
         if (!key) {
-- 
2.43.0


From 07110d48b0d25c9607bc01795eff665886359afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 16/68] fix: a key transport token with fields of wrong length
 is an error, not an abort

---
 gost_ec_keyx.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 205c718..133ce73 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -635,11 +635,15 @@ static int pkey_GOST_ECcp_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
     }
 
     gost_init(&ctx, param->sblock);
-    OPENSSL_assert(gkt->key_agreement_info->eph_iv->length == 8);
+    if (gkt->key_agreement_info->eph_iv->length != 8
+        || gkt->key_info->encrypted_key->length != 32
+        || gkt->key_info->imit->length != 4) {
+        GOSTerr(GOST_F_PKEY_GOST_ECCP_DECRYPT,
+                GOST_R_ERROR_PARSING_KEY_TRANSPORT_INFO);
+        goto err;
+    }
     memcpy(wrappedKey, gkt->key_agreement_info->eph_iv->data, 8);
-    OPENSSL_assert(gkt->key_info->encrypted_key->length == 32);
     memcpy(wrappedKey + 8, gkt->key_info->encrypted_key->data, 32);
-    OPENSSL_assert(gkt->key_info->imit->length == 4);
     memcpy(wrappedKey + 40, gkt->key_info->imit->data, 4);
 
     EVP_PKEY_get_default_digest_nid(priv, &dgst_nid);
-- 
2.43.0


From 6481fd8dedbfc8b8881e61c9abd8a4614aa5792b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 17/68] fix: unwrap every KExp15 key transport token with its
 own UKM and check its ephemeral key

---
 gost_ec_keyx.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 133ce73..a3f07ec 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -690,6 +690,7 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
     int pkey_nid;
     int mac_nid = NID_undef;
     int iv_len = 0;
+    const unsigned char *ukm = NULL;
 
     if (!(data = EVP_PKEY_CTX_get_data(pctx)) ||
         !(priv = EVP_PKEY_CTX_get0_pkey(pctx))) {
@@ -740,15 +741,24 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
        goto err;
     }
 
-    if (data->shared_ukm_size == 0 && pst->ukm != NULL) {
-        if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_SET_IV,
-        ASN1_STRING_length(pst->ukm), (void *)ASN1_STRING_get0_data(pst->ukm)) < 0) {
-            GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_UKM_NOT_SET);
-            goto err;
-        }
+    if (EVP_PKEY_base_id(eph_key) != pkey_nid
+        || EVP_PKEY_parameters_eq(eph_key, priv) != 1) {
+        GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_INCOMPATIBLE_PEER_KEY);
+        goto err;
     }
 
-    if (gost_keg(data->shared_ukm, pkey_nid,
+    /* The UKM of the token belongs to this token only, don't keep it in the context */
+    if (data->shared_ukm_size != 0)
+        ukm = data->shared_ukm;
+    else if (pst->ukm != NULL
+             && ASN1_STRING_length(pst->ukm) == sizeof(data->shared_ukm))
+        ukm = ASN1_STRING_get0_data(pst->ukm);
+    if (ukm == NULL) {
+        GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_UKM_NOT_SET);
+        goto err;
+    }
+
+    if (gost_keg(ukm, pkey_nid,
                  EC_KEY_get0_public_key(EVP_PKEY_get0(eph_key)),
                  EVP_PKEY_get0(priv), expkeys) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT,
@@ -758,7 +768,7 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
 
     if (gost_kimp15(ASN1_STRING_get0_data(pst->psexp),
                     ASN1_STRING_length(pst->psexp), data->cipher_nid,
-                    expkeys + 32, mac_nid, expkeys + 0, data->shared_ukm + 24,
+                    expkeys + 32, mac_nid, expkeys + 0, ukm + 24,
                     iv_len, key) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_CANNOT_UNPACK_EPHEMERAL_KEY);
         goto err;
-- 
2.43.0


From 4de208aa5f0e6d0390aad56635bfffa48d91bdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 18/68] fix: generate a new UKM for every KExp15 key transport
 token

---
 gost_ec_keyx.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index a3f07ec..9f52d14 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -438,6 +438,7 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     unsigned char *exp_buf = NULL;
     int key_is_ephemeral = 0;
     int res_len = 0;
+    unsigned char ukm[32];
 
     switch (data->cipher_nid) {
     case NID_magma_ctr:
@@ -481,15 +482,14 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
       key_is_ephemeral = 1;
     }
 
-    if (data->shared_ukm_size == 0) {
-        if (RAND_bytes(data->shared_ukm, 32) <= 0) {
-            GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_INTERNAL_ERROR);
-            goto err;
-        }
-        data->shared_ukm_size = 32;
+    if (data->shared_ukm_size != 0) {
+        memcpy(ukm, data->shared_ukm, sizeof(ukm));
+    } else if (RAND_bytes(ukm, sizeof(ukm)) <= 0) {
+        GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_INTERNAL_ERROR);
+        goto err;
     }
 
-    if (gost_keg(data->shared_ukm, pkey_nid,
+    if (gost_keg(ukm, pkey_nid,
                  EC_KEY_get0_public_key(EVP_PKEY_get0(pubk)),
                  EVP_PKEY_get0(sec_key), expkeys) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT,
@@ -498,7 +498,7 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
 
     if (gost_kexp15(key, key_len, data->cipher_nid, expkeys + 32,
-                    mac_nid, expkeys + 0, data->shared_ukm + 24, iv_len,
+                    mac_nid, expkeys + 0, ukm + 24, iv_len,
                     exp_buf, &exp_len) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, GOST_R_CANNOT_PACK_EPHEMERAL_KEY);
         goto err;
@@ -516,7 +516,7 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
         goto err;
     }
 
-    if (!ASN1_OCTET_STRING_set(pst->ukm, data->shared_ukm, data->shared_ukm_size)) {
+    if (!ASN1_OCTET_STRING_set(pst->ukm, ukm, sizeof(ukm))) {
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_MALLOC_FAILURE);
         goto err;
     }
-- 
2.43.0


From 4c9c2e97ac3001c18ef955601661efa641235c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 19/68] fix: don't free the ephemeral key twice when a key
 transport token does not fit

---
 gost_ec_keyx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 9f52d14..e2700c4 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -376,8 +376,6 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
     ASN1_OBJECT_free(gkt->key_agreement_info->cipher);
     gkt->key_agreement_info->cipher = OBJ_nid2obj(param->nid);
-    if (key_is_ephemeral)
-        EVP_PKEY_free(sec_key);
     if (!key_is_ephemeral) {
         /* Set control "public key from client certificate used" */
         if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_PEER_KEY, 3, NULL)
@@ -407,6 +405,8 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
 
     OPENSSL_cleanse(shared_key, sizeof(shared_key));
+    if (key_is_ephemeral)
+        EVP_PKEY_free(sec_key);
     GOST_KEY_TRANSPORT_free(gkt);
     return ret;
  err:
-- 
2.43.0


From ff899978a8bf1c0b124df25b596194ab0111a6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 20/68] fix: refuse to transport keys that are not 256 bits
 long

---
 gost_ec_keyx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index e2700c4..cd67c6e 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -565,6 +565,12 @@ int pkey_gost_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
                       size_t *out_len, const unsigned char *key, size_t key_len)
 {
   struct gost_pmeth_data *gctx = EVP_PKEY_CTX_get_data(pctx);
+
+  /* The transport formats carry 256-bit keys only */
+  if (out != NULL && key_len != 32) {
+      GOSTerr(GOST_F_PKEY_GOST_ENCRYPT, ERR_R_PASSED_INVALID_ARGUMENT);
+      return -1;
+  }
   switch (gctx->cipher_nid)
   {
     case NID_id_Gost28147_89:
-- 
2.43.0


From 570388bc5fec075b0a0deae6b4f65bfb3d8851e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 21/68] fix: KImp15 accepts exported keys of the right length
 only

---
 gost_keyexpimp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 481d5b5..0088afc 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -136,7 +136,7 @@ int gost_kimp15(const unsigned char *expkey, const size_t expkeylen,
         goto err;
     }
 
-    if (expkeylen > sizeof(out)) {
+    if (expkeylen != shared_len + mac_len) {
         GOSTerr(GOST_F_GOST_KIMP15, ERR_R_INTERNAL_ERROR);
         goto err;
     }
-- 
2.43.0


From 959335fc94ab40896a1e16bdc297cf527d0b5f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 22/68] fix: KDF_TREE refuses counter widths and output lengths
 it cannot honour

---
 gost_keyexpimp.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 0088afc..18b8060 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -207,22 +207,30 @@ int gost_kdftree2012_256(unsigned char *keyout, size_t keyout_len,
     int iters, i = 0;
     unsigned char zero = 0;
     unsigned char *ptr = keyout;
-    HMAC_CTX *ctx;
+    HMAC_CTX *ctx = NULL;
     unsigned char *len_ptr = NULL;
     uint32_t len_repr = be32(keyout_len * 8);
     size_t len_repr_len = 4;
 
-    ctx = HMAC_CTX_new();
-    if (ctx == NULL) {
-        GOSTerr(GOST_F_GOST_KDFTREE2012_256, ERR_R_MALLOC_FAILURE);
+    if ((keyout_len == 0) || (keyout_len % 32 != 0)
+        || keyout_len > UINT32_MAX / 8) {
+        GOSTerr(GOST_F_GOST_KDFTREE2012_256, ERR_R_INTERNAL_ERROR);
         return 0;
     }
+    iters = keyout_len / 32;
 
-    if ((keyout_len == 0) || (keyout_len % 32 != 0)) {
+    /* The counter has |representation| octets and must not wrap */
+    if (representation < 1 || representation > 4
+        || (representation < 4 && (iters >> (8 * representation)) != 0)) {
         GOSTerr(GOST_F_GOST_KDFTREE2012_256, ERR_R_INTERNAL_ERROR);
         return 0;
     }
-    iters = keyout_len / 32;
+
+    ctx = HMAC_CTX_new();
+    if (ctx == NULL) {
+        GOSTerr(GOST_F_GOST_KDFTREE2012_256, ERR_R_MALLOC_FAILURE);
+        return 0;
+    }
 
     len_ptr = (unsigned char *)&len_repr;
     while (*len_ptr == 0) {
-- 
2.43.0


From af5355c64f1212df12755242089cb2d9f601d24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 23/68] fix: KExp15 unwrapping reports failure instead of
 producing no key

---
 gost_keyexpimp.c | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 18b8060..9618cb2 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -318,8 +318,8 @@ int gost_tlstree(int cipher_nid, const unsigned char *in, unsigned char *out,
 #define KUZNYECHIK_MAC_WRAP_LEN 16
 #define MAX_MAC_WRAP_LEN KUZNYECHIK_MAC_WRAP_LEN
 #define GOSTKEYLEN 32
-#define MAGMA_WRAPPED_KEY_LEN GOSTKEYLEN + MAGMA_MAC_WRAP_LEN
-#define KUZNYECHIK_WRAPPED_KEY_LEN GOSTKEYLEN + KUZNYECHIK_MAC_WRAP_LEN
+#define MAGMA_WRAPPED_KEY_LEN (GOSTKEYLEN + MAGMA_MAC_WRAP_LEN)
+#define KUZNYECHIK_WRAPPED_KEY_LEN (GOSTKEYLEN + KUZNYECHIK_MAC_WRAP_LEN)
 #define MAX_WRAPPED_KEY_LEN KUZNYECHIK_WRAPPED_KEY_LEN
 
 typedef struct {
@@ -356,16 +356,15 @@ static int magma_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 	if (out == NULL)
 		return GOSTKEYLEN;
 
-	if (inl <= MAGMA_WRAPPED_KEY_LEN) {
-		if (cctx->wrap_count + inl > MAGMA_WRAPPED_KEY_LEN)
-			return -1;
+	/* Only unwrapping is implemented */
+	if (!enc && in == NULL) /* final: the key has been output by an update */
+		return cctx->wrap_count == MAGMA_WRAPPED_KEY_LEN ? 0 : -1;
 
-		if (cctx->wrap_count + inl <= MAGMA_WRAPPED_KEY_LEN)
-		{
-			memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
-			cctx->wrap_count += inl;
-		}
-	}
+	if (enc || inl > MAGMA_WRAPPED_KEY_LEN - cctx->wrap_count)
+		return -1;
+
+	memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
+	cctx->wrap_count += inl;
 
 	if (cctx->wrap_count < MAGMA_WRAPPED_KEY_LEN)
 		return 0;
@@ -378,7 +377,7 @@ static int magma_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 		return -1;
 	} else {
 		return gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_magma_ctr,
-		cctx->key+GOSTKEYLEN, NID_magma_mac, cctx->key, cctx->iv, 4, out) > 0 ? GOSTKEYLEN : 0;
+		cctx->key+GOSTKEYLEN, NID_magma_mac, cctx->key, cctx->iv, 4, out) > 0 ? GOSTKEYLEN : -1;
 	}
 }
 
@@ -409,16 +408,15 @@ static int kuznyechik_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 	if (out == NULL)
 		return GOSTKEYLEN;
 
-	if (inl <= KUZNYECHIK_WRAPPED_KEY_LEN) {
-		if (cctx->wrap_count + inl > KUZNYECHIK_WRAPPED_KEY_LEN)
-			return -1;
+	/* Only unwrapping is implemented */
+	if (!enc && in == NULL) /* final: the key has been output by an update */
+		return cctx->wrap_count == KUZNYECHIK_WRAPPED_KEY_LEN ? 0 : -1;
 
-		if (cctx->wrap_count + inl <= KUZNYECHIK_WRAPPED_KEY_LEN)
-		{
-			memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
-			cctx->wrap_count += inl;
-		}
-	}
+	if (enc || inl > KUZNYECHIK_WRAPPED_KEY_LEN - cctx->wrap_count)
+		return -1;
+
+	memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
+	cctx->wrap_count += inl;
 
 	if (cctx->wrap_count < KUZNYECHIK_WRAPPED_KEY_LEN)
 		return 0;
@@ -431,7 +429,7 @@ static int kuznyechik_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 		return -1;
 	} else {
 		return gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_kuznyechik_ctr,
-		cctx->key+GOSTKEYLEN, NID_kuznyechik_mac, cctx->key, cctx->iv, 8, out) > 0 ? GOSTKEYLEN : 0;
+		cctx->key+GOSTKEYLEN, NID_kuznyechik_mac, cctx->key, cctx->iv, 8, out) > 0 ? GOSTKEYLEN : -1;
 	}
 }
 
-- 
2.43.0


From 2e755f7892b2c9eb6220d04e7f0320540a2adb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 24/68] fix: refuse public keys whose length does not match the
 curve

---
 gost_ameth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_ameth.c b/gost_ameth.c
index 7bdb897..f2b8dd3 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -927,6 +927,10 @@ static int pub_decode_gost_ec(EVP_PKEY *pk, const X509_PUBKEY *pub)
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_MALLOC_FAILURE);
         goto ret;
     }
+    if (octet->length != 2 * ((EC_GROUP_get_degree(group) + 7) / 8)) {
+        GOSTerr(GOST_F_PUB_DECODE_GOST_EC, EVP_R_DECODE_ERROR);
+        goto ret;
+    }
     databuf = OPENSSL_malloc(octet->length);
     if (!databuf) {
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_MALLOC_FAILURE);
-- 
2.43.0


From 76f629a335bef922d259c5da85aa1924886ce961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 25/68] fix: refuse private keys that are empty or of another
 length than their parameters need

---
 gost_ameth.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index f2b8dd3..92539a2 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -610,6 +610,11 @@ static int priv_decode_gost(EVP_PKEY *pk,
         return 0;
     }
 
+    if (priv_len <= 0) {
+        GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
+        return 0;
+    }
+
     if (priv_len % expected_key_len == 0) {
         /* Key is not wrapped but masked */
         pk_num = unmask_priv_key(pk, pkey_buf, expected_key_len,
@@ -617,7 +622,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
     } else if (V_ASN1_OCTET_STRING == *p) {
         /* New format - Little endian octet string */
         ASN1_OCTET_STRING *s = d2i_ASN1_OCTET_STRING(NULL, &p, priv_len);
-        if (!s || ((s->length != 32) && (s->length != 64))) {
+        if (!s || s->length != expected_key_len) {
             ASN1_STRING_free(s);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
@@ -641,7 +646,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
         }
 
         priv_len = mgk->masked_priv_key->length;
-        if (priv_len % expected_key_len) {
+        if (priv_len <= 0 || priv_len % expected_key_len) {
             MASKED_GOST_KEY_free(mgk);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
-- 
2.43.0


From 1c24ec5cc137c7a986a33270f86cf3c913a00a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 26/68] fix: refuse keys on a curve of another size than their
 algorithm

---
 gost_ameth.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 92539a2..5498a09 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -137,7 +137,15 @@ static int gost_decode_nid_params(EVP_PKEY *pkey, int pkey_nid, int param_nid)
                 break;
             }
         }
-        return fill_GOST_EC_params(key_ptr, param_nid);
+        if (!fill_GOST_EC_params(key_ptr, param_nid))
+            return 0;
+        /* The curve has to be of the size the algorithm is for */
+        if ((EC_GROUP_get_degree(EC_KEY_get0_group(key_ptr)) + 7) / 8
+            != pkey_bits_gost(pkey) / 8) {
+            GOSTerr(GOST_F_DECODE_GOST_ALGOR_PARAMS, GOST_R_INVALID_PARAMSET);
+            return 0;
+        }
+        return 1;
     }
 
     return 0;
-- 
2.43.0


From 32f7323900bc3f64b95dc4cabab09ca66992ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 27/68] fix: check and copy what CMS key agreement takes from
 the message

---
 gost_ameth.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 5498a09..eb02421 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -264,9 +264,15 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 		  goto err;
 
 	nid = OBJ_obj2nid(alg->algorithm);
-	if (alg->parameter->type != V_ASN1_SEQUENCE)
+	if (alg->parameter == NULL || alg->parameter->type != V_ASN1_SEQUENCE)
 		  goto err;
 
+	/* KEG is used, its UKM also contains the IV for KImp15 */
+	if (ukm == NULL || ASN1_STRING_length(ukm) != 32) {
+			GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, GOST_R_UKM_NOT_SET);
+			goto err;
+	}
+
 	switch (nid) {
 		case NID_kuznyechik_kexp15:
 		case NID_magma_kexp15:
@@ -287,6 +293,9 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 		const ASN1_OBJECT *paobj = NULL;
 		int ptype = 0;
 		const void *param = NULL;
+		ASN1_OBJECT *alg_copy = NULL;
+		ASN1_STRING *param_copy = NULL;
+		unsigned char *pub_copy = NULL;
 
 		peer_key = EVP_PKEY_new();
 		tmp = X509_PUBKEY_new();
@@ -298,10 +307,22 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 
 		X509_ALGOR_get0(&paobj, &ptype, &param, pubalg);
 
-		if (X509_PUBKEY_set0_param(tmp, (ASN1_OBJECT *)paobj,
-			ptype, (void *)param,
-			(unsigned char *)ASN1_STRING_get0_data(pubkey),
-			ASN1_STRING_length(pubkey) ) == 0) {
+		if (ptype != V_ASN1_SEQUENCE) {
+				GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, GOST_R_BAD_KEY_PARAMETERS_FORMAT);
+				goto err;
+		}
+
+		/* The originator information belongs to the message, tmp needs its own */
+		alg_copy = OBJ_dup(paobj);
+		param_copy = ASN1_STRING_dup(param);
+		pub_copy = OPENSSL_memdup(ASN1_STRING_get0_data(pubkey), ASN1_STRING_length(pubkey));
+
+		if (alg_copy == NULL || param_copy == NULL || pub_copy == NULL
+			|| X509_PUBKEY_set0_param(tmp, alg_copy, ptype, param_copy,
+			pub_copy, ASN1_STRING_length(pubkey)) == 0) {
+				ASN1_OBJECT_free(alg_copy);
+				ASN1_STRING_free(param_copy);
+				OPENSSL_free(pub_copy);
 				GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, GOST_R_PUBLIC_KEY_UNDEFINED);
 				goto err;
 		}
@@ -329,10 +350,9 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 
 	ret = 1;
 err:
+	OPENSSL_cleanse(shared_key, sizeof(shared_key));
 	EVP_PKEY_free(peer_key);
-	if (ret == 0) {
-		X509_PUBKEY_free(tmp);
-	}
+	X509_PUBKEY_free(tmp);
 
 	return ret;
 }
-- 
2.43.0


From 900c778520160e1257e5ca5adf91dd597f2d9914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 28/68] fix: refuse public keys with coordinates outside the
 field

---
 gost_ameth.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gost_ameth.c b/gost_ameth.c
index eb02421..d0eed76 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -979,6 +979,11 @@ static int pub_decode_gost_ec(EVP_PKEY *pk, const X509_PUBKEY *pub)
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_BN_LIB);
         goto ret;
     }
+    if (BN_cmp(X, EC_GROUP_get0_field(group)) >= 0
+        || BN_cmp(Y, EC_GROUP_get0_field(group)) >= 0) {
+        GOSTerr(GOST_F_PUB_DECODE_GOST_EC, EVP_R_DECODE_ERROR);
+        goto ret;
+    }
     pub_key = EC_POINT_new(group);
     if (!EC_POINT_set_affine_coordinates(group, pub_key, X, Y, NULL)) {
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_EC_LIB);
-- 
2.43.0


From a8d1cda374b5dfdbdb5db514c20d77b090dc491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 29/68] fix: Magma reports malformed cipher parameters

---
 gost_crypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 37dbdf1..c2524cc 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1510,7 +1510,7 @@ static int magma_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 
 	c->key_meshing = 8192;
 
-	if (gost2015_get_asn1_params(params, MAGMA_UKM_LEN, iv, 4, c->kdf_seed) < 0)
+	if (gost2015_get_asn1_params(params, MAGMA_UKM_LEN, iv, 4, c->kdf_seed) <= 0)
 	    return -1;
 
 	memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), iv, sizeof(iv));
-- 
2.43.0


From 9c68d4280b1a12101e9ae9ddf41a6e18e3e9a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 30/68] fix: malformed GOST 28147-89 cipher parameters are an
 error, not a crash

---
 gost_crypt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index c2524cc..3c701c5 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1465,6 +1465,11 @@ static int gost89_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
     gcp = d2i_GOST_CIPHER_PARAMS(NULL, (const unsigned char **)&p,
                                  params->value.sequence->length);
 
+    if (gcp == NULL) {
+        GOSTerr(GOST_F_GOST89_GET_ASN1_PARAMETERS, ERR_R_ASN1_LIB);
+        return -1;
+    }
+
     len = gcp->iv->length;
     if (len != EVP_CIPHER_CTX_iv_length(ctx)) {
         GOST_CIPHER_PARAMS_free(gcp);
-- 
2.43.0


From 3d5c52f903c8c4fc25197e956e2f151b50046ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 31/68] fix: cipher initialisation reports failures of the
 random number generator

---
 gost_crypt.c              | 4 ++--
 gost_grasshopper_cipher.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 3c701c5..0d921df 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -518,8 +518,8 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
         }
 
         if (enc) {
-            if (init_zero_kdf_seed(c->kdf_seed) == 0)
-                return -1;
+            if (init_zero_kdf_seed(c->kdf_seed) <= 0)
+                return 0;
         }
     }
 
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index e6cadf0..3e9b262 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -243,8 +243,8 @@ static int gost_grasshopper_cipher_init(EVP_CIPHER_CTX *ctx,
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
         if (enc && c->type == GRASSHOPPER_CIPHER_CTRACPKM) {
             gost_grasshopper_cipher_ctx_ctr *ctr = EVP_CIPHER_CTX_get_cipher_data(ctx);
-            if (init_zero_kdf_seed(ctr->kdf_seed) == 0)
-                return -1;
+            if (init_zero_kdf_seed(ctr->kdf_seed) <= 0)
+                return 0;
         }
     }
 
-- 
2.43.0


From 7ae6ecb202f6db6434c3d98ad0837a5947a864ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 32/68] fix: cipher parameters missing from an algorithm
 identifier are an error, not a crash

---
 gost_crypt.c    | 2 +-
 gost_gost2015.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 0d921df..481d106 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1456,7 +1456,7 @@ static int gost89_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
     struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
     int nid;
 
-    if (ASN1_TYPE_get(params) != V_ASN1_SEQUENCE) {
+    if (params == NULL || ASN1_TYPE_get(params) != V_ASN1_SEQUENCE) {
         return -1;
     }
 
diff --git a/gost_gost2015.c b/gost_gost2015.c
index 878a3c6..07235bc 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -62,7 +62,7 @@ int gost2015_get_asn1_params(const ASN1_TYPE *params, size_t ukm_size,
     memset(iv, 0, iv_len);
 
     /* Проверяем тип params */
-    if (ASN1_TYPE_get(params) != V_ASN1_SEQUENCE) {
+    if (params == NULL || ASN1_TYPE_get(params) != V_ASN1_SEQUENCE) {
         GOSTerr(GOST_F_GOST2015_GET_ASN1_PARAMS, GOST_R_INVALID_CIPHER_PARAMS);
         return 0;
     }
-- 
2.43.0


From 1a74903bbc60a389d806a6a255689f6da273b819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 33/68] fix: private keys that are zero or negative are refused

---
 gost_ameth.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index d0eed76..c691b9b 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -694,7 +694,11 @@ static int priv_decode_gost(EVP_PKEY *pk,
         return 0;
     }
 
-    ret = gost_set_priv_key(pk, pk_num);
+    /* An encoded INTEGER can be negative; no key is zero or negative */
+    if (BN_is_zero(pk_num) || BN_is_negative(pk_num))
+        GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
+    else
+        ret = gost_set_priv_key(pk, pk_num);
     BN_free(pk_num);
     return ret;
 }
-- 
2.43.0


From 00f1251cc59546d3ba947c1ecaea62256124903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 34/68] fix: CMS_encrypt() to GOST recipients failed without
 CMS_KEY_PARAM

---
 gost_ameth.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index c691b9b..dc2b769 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -501,13 +501,12 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
           struct gost_pmeth_data *gctx = NULL;
           ASN1_STRING *params = NULL;
 
+          /* There is no context unless CMS_KEY_PARAM is given */
           pctx = CMS_RecipientInfo_get0_pkey_ctx(ri);
-          if (!pctx)
-            return 0;
-
-          gctx = EVP_PKEY_CTX_get_data(pctx);
+          if (pctx)
+            gctx = EVP_PKEY_CTX_get_data(pctx);
 
-          switch (gctx->cipher_nid) {
+          switch (gctx ? gctx->cipher_nid : NID_undef) {
             case NID_magma_ctr:
             case NID_kuznyechik_ctr:
               {
-- 
2.43.0


From dd317b0c3f4341566d29015ebd8589fd0b3f9d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 35/68] fix: output buffers that are too small for a signature,
 MAC or shared key are refused

---
 gost_ec_keyx.c | 12 ++++++++++++
 gost_pmeth.c   |  9 +++++++++
 2 files changed, 21 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index cd67c6e..3211dea 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -220,6 +220,10 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
             *keylen = data->vko_dgst_nid == NID_id_GostR3411_2012_256? 32 : 64;
             return 1;
         }
+        if (*keylen < (data->vko_dgst_nid == NID_id_GostR3411_2012_256 ? 32 : 64)) {
+            GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_INVALID_BUFFER_SIZE);
+            return 0;
+        }
         *keylen = VKO_compute_key(key,
                                   EC_KEY_get0_public_key(EVP_PKEY_get0(peer_key)),
                                   (EC_KEY *)EVP_PKEY_get0(my_key),
@@ -244,6 +248,10 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
                 *keylen = 32;
                 return 1;
             }
+            if (*keylen < 32) {
+                GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_INVALID_BUFFER_SIZE);
+                return 0;
+            }
             EVP_PKEY_get_default_digest_nid(my_key, &dgst_nid);
             if (dgst_nid == NID_id_GostR3411_2012_512)
                 dgst_nid = NID_id_GostR3411_2012_256;
@@ -262,6 +270,10 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
                 *keylen = 64;
                 return 1;
             }
+            if (*keylen < 64) {
+                GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_INVALID_BUFFER_SIZE);
+                return 0;
+            }
 
             *keylen = gost_keg(data->shared_ukm, EVP_PKEY_id(my_key),
                                EC_KEY_get0_public_key(EVP_PKEY_get0(peer_key)),
diff --git a/gost_pmeth.c b/gost_pmeth.c
index 4153ec6..54d8ffc 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -506,6 +506,10 @@ static int pkey_gost_ec_cp_sign(EVP_PKEY_CTX *ctx, unsigned char *sig,
         *siglen = order;
         return 1;
     }
+    if (*siglen < (size_t)order) {
+        GOSTerr(GOST_F_GOST_EC_SIGN, GOST_R_INVALID_BUFFER_SIZE);
+        return 0;
+    }
     unpacked_sig = gost_ec_sign(tbs, tbs_len, EVP_PKEY_get0(pkey));
     if (!unpacked_sig) {
         return 0;
@@ -1038,6 +1042,11 @@ static int pkey_gost_mac_signctx(EVP_PKEY_CTX *ctx, unsigned char *sig,
         return 1;
     }
 
+    if (tmpsiglen < (unsigned int)data->mac_size) {
+        GOSTerr(GOST_F_PKEY_GOST_MAC_SIGNCTX_INIT, GOST_R_INVALID_BUFFER_SIZE);
+        return 0;
+    }
+
     EVP_MD_meth_get_ctrl(EVP_MD_CTX_md(mctx))
         (mctx, EVP_MD_CTRL_XOF_LEN, data->mac_size, NULL);
     ret = EVP_DigestFinal_ex(mctx, sig, &tmpsiglen);
-- 
2.43.0


From 65aa03b66f8eb64ba1062fe018f290c16f332bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 36/68] fix: OMAC digests leaked the previous CMAC state when a
 key was set again

---
 gost_omac.c       | 1 +
 gost_omac_acpkm.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gost_omac.c b/gost_omac.c
index 15ba8de..d05f4a7 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -41,6 +41,7 @@ typedef struct omac_ctx {
 static int omac_init(EVP_MD_CTX *ctx, const char *cipher_name)
 {
     OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
+    CMAC_CTX_free(c->cmac_ctx);
     memset(c, 0, sizeof(OMAC_CTX));
     c->cipher_name = cipher_name;
     c->key_set = 0;
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 36c0dac..2a69424 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -311,6 +311,7 @@ typedef struct omac_acpkm_ctx {
 static int omac_acpkm_init(EVP_MD_CTX *ctx, const char *cipher_name)
 {
     OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
+    CMAC_ACPKM_CTX_free(c->cmac_ctx);
     memset(c, 0, sizeof(OMAC_ACPKM_CTX));
     c->cipher_name = cipher_name;
     c->key_set = 0;
-- 
2.43.0


From a8373390eed2fefbb8909272fb8d34a43705c68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 37/68] fix: NULL dereference in the controls of unkeyed and
 finished OMAC contexts

---
 gost_omac.c       | 4 ++++
 gost_omac_acpkm.c | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/gost_omac.c b/gost_omac.c
index d05f4a7..08af7af 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -217,6 +217,10 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
     case EVP_MD_CTRL_XOF_LEN:   /* Supported in OpenSSL */
         {
             OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
+            if (c->cipher_name == NULL) {
+                GOSTerr(GOST_F_OMAC_IMIT_CTRL, GOST_R_BAD_ORDER);
+                return 0;
+            }
             switch (OBJ_txt2nid(c->cipher_name)) {
             case NID_magma_cbc:
                 if (arg < 1 || arg > 8) {
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 2a69424..1e822ec 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -469,6 +469,10 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
             OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
             if (!arg || (arg % EVP_MD_block_size(EVP_MD_CTX_md(ctx))))
                 return -1;
+            if (!c->key_set) {
+                GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
+                return -1;
+            }
             c->cmac_ctx->section_size = arg;
             if (ptr && *(int *)ptr) {
                 /* Set parameter T */
@@ -491,6 +495,10 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
     case EVP_MD_CTRL_XOF_LEN:   /* Supported in OpenSSL */
         {
             OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
+            if (c->cipher_name == NULL) {
+                GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_BAD_ORDER);
+                return 0;
+            }
             switch (OBJ_txt2nid(c->cipher_name)) {
             case NID_grasshopper_cbc:
                 if (arg < 1 || arg > 16) {
-- 
2.43.0


From bb4c5104973a378c2646825204d05a1f9f6ae718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 38/68] fix: OMAC ignored failures of the underlying CMAC (key
 reported as set, output of uninitialised memory)

---
 gost_omac.c       | 7 +++++--
 gost_omac_acpkm.c | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/gost_omac.c b/gost_omac.c
index 08af7af..ec9ce7c 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -91,7 +91,8 @@ static int omac_imit_final(EVP_MD_CTX *ctx, unsigned char *md)
         return 0;
     }
 
-    CMAC_Final(c->cmac_ctx, mac, &mac_size);
+    if (!CMAC_Final(c->cmac_ctx, mac, &mac_size))
+        return 0;
 
     memcpy(md, mac, c->dgst_size);
     return 1;
@@ -120,6 +121,8 @@ static int omac_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
     if (c_to->cmac_ctx == c_from->cmac_ctx) {
         c_to->cmac_ctx = CMAC_CTX_new();
     }
+    if (c_to->cmac_ctx == NULL)
+        return 0;
     return CMAC_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx);
 }
 
@@ -153,7 +156,7 @@ static int omac_key(OMAC_CTX * c, const EVP_CIPHER *cipher,
     if (ret > 0) {
         c->key_set = 1;
     }
-    return 1;
+    return ret > 0;
 }
 
 /* Called directly by gost_kexp15() */
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 1e822ec..62b83fa 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -356,7 +356,8 @@ int omac_acpkm_imit_final(EVP_MD_CTX *ctx, unsigned char *md)
 
     ret = CMAC_ACPKM_Final(c->cmac_ctx, mac, &mac_size);
 
-    memcpy(md, mac, c->dgst_size);
+    if (ret > 0)
+        memcpy(md, mac, c->dgst_size);
     return ret;
 }
 
@@ -415,7 +416,7 @@ static int omac_acpkm_key(OMAC_ACPKM_CTX *c, const EVP_CIPHER *cipher,
     if (ret > 0) {
         c->key_set = 1;
     }
-    return 1;
+    return ret > 0;
 }
 
 int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
@@ -441,6 +442,7 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
                 && (cipher =
                     EVP_CIPHER_fetch(NULL, c->cipher_name, NULL)) == NULL) {
                 GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_CIPHER_NOT_FOUND);
+                goto set_key_end;
             }
             if (EVP_MD_meth_get_init(EVP_MD_CTX_md(ctx)) (ctx) <= 0) {
                 GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
-- 
2.43.0


From e126c50abf573ab25482f71f96b4f030f4257570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 39/68] fix: kuznyechik-mac refused "size" above 8 octets

---
 gost_pmeth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 54d8ffc..61b16ad 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -925,7 +925,7 @@ static int pkey_gost_magma_mac_ctrl_str(EVP_PKEY_CTX *ctx,
 static int pkey_gost_grasshopper_mac_ctrl_str(EVP_PKEY_CTX *ctx,
                                   const char *type, const char *value)
 {
-    return pkey_gost_omac_ctrl_str(ctx, type, value, 8);
+    return pkey_gost_omac_ctrl_str(ctx, type, value, 16);
 }
 
 static int pkey_gost_mac_keygen_base(EVP_PKEY_CTX *ctx,
-- 
2.43.0


From 79590ac9e2eb27c38ef07618d5de4aa639bee84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 40/68] fix: MAC signing with a digest without controls or with
 a shorter result (NULL call, octets never written)

---
 gost_pmeth.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 61b16ad..3b08d91 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -655,6 +655,21 @@ static int pkey_gost_mac_copy(EVP_PKEY_CTX *dst, ossl3_const EVP_PKEY_CTX *src)
     return 1;
 }
 
+/* The digest of mctx could have been replaced after the check in
+ * EVP_PKEY_CTRL_MD, and not every digest has controls */
+static int mac_digest_ctrl(EVP_MD_CTX *mctx, int cmd, int p1, void *p2)
+{
+    const EVP_MD *md = EVP_MD_CTX_md(mctx);
+    int (*ctrl)(EVP_MD_CTX *ctx, int cmd, int p1, void *p2) =
+        md ? EVP_MD_meth_get_ctrl(md) : NULL;
+
+    if (!ctrl) {
+        GOSTerr(GOST_F_PKEY_GOST_MAC_CTRL, GOST_R_INVALID_DIGEST_TYPE);
+        return 0;
+    }
+    return ctrl(mctx, cmd, p1, p2);
+}
+
 static int pkey_gost_mac_ctrl(EVP_PKEY_CTX *ctx, int type, int p1, void *p2)
 {
     struct gost_mac_pmeth_data *data =
@@ -713,11 +728,9 @@ static int pkey_gost_mac_ctrl(EVP_PKEY_CTX *ctx, int type, int p1, void *p2)
                             GOST_R_MAC_KEY_NOT_SET);
                     return 0;
                 }
-                return EVP_MD_meth_get_ctrl(EVP_MD_CTX_md(mctx))
-                    (mctx, EVP_MD_CTRL_SET_KEY, 0, key);
+                return mac_digest_ctrl(mctx, EVP_MD_CTRL_SET_KEY, 0, key);
             } else {
-                return EVP_MD_meth_get_ctrl(EVP_MD_CTX_md(mctx))
-                    (mctx, EVP_MD_CTRL_SET_KEY, 32, &(data->key));
+                return mac_digest_ctrl(mctx, EVP_MD_CTRL_SET_KEY, 32, &(data->key));
             }
         }
     case EVP_PKEY_CTRL_MAC_LEN:
@@ -846,11 +859,9 @@ static int pkey_gost_omac_ctrl(EVP_PKEY_CTX *ctx, int type, int p1, void *p2, si
                             GOST_R_MAC_KEY_NOT_SET);
                     return 0;
                 }
-                return EVP_MD_meth_get_ctrl(EVP_MD_CTX_md(mctx))
-                    (mctx, EVP_MD_CTRL_SET_KEY, 0, key);
+                return mac_digest_ctrl(mctx, EVP_MD_CTRL_SET_KEY, 0, key);
             } else {
-                return EVP_MD_meth_get_ctrl(EVP_MD_CTX_md(mctx))
-                    (mctx, EVP_MD_CTRL_SET_KEY, 32, &(data->key));
+                return mac_digest_ctrl(mctx, EVP_MD_CTRL_SET_KEY, 32, &(data->key));
             }
         }
     case EVP_PKEY_CTRL_MAC_LEN:
@@ -1047,8 +1058,10 @@ static int pkey_gost_mac_signctx(EVP_PKEY_CTX *ctx, unsigned char *sig,
         return 0;
     }
 
-    EVP_MD_meth_get_ctrl(EVP_MD_CTX_md(mctx))
-        (mctx, EVP_MD_CTRL_XOF_LEN, data->mac_size, NULL);
+    if (mac_digest_ctrl(mctx, EVP_MD_CTRL_XOF_LEN, data->mac_size, NULL) <= 0) {
+        GOSTerr(GOST_F_PKEY_GOST_MAC_SIGNCTX_INIT, GOST_R_INVALID_MAC_SIZE);
+        return 0;
+    }
     ret = EVP_DigestFinal_ex(mctx, sig, &tmpsiglen);
     *siglen = data->mac_size;
     return ret;
-- 
2.43.0


From 41d2c2b661ccd18fc20801ddcd1cf38730152c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:42 +0000
Subject: [PATCH 41/68] fix: signing or verifying a digest of another length
 aborted the process

---
 gost_ec_sign.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index a825dba..8f32529 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -194,7 +194,10 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
     EC_POINT *C = NULL;
     BN_CTX *ctx;
 
-    OPENSSL_assert(dgst != NULL && eckey != NULL);
+    if (dgst == NULL || eckey == NULL || (dlen != 32 && dlen != 64)) {
+        GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_PASSED_INVALID_ARGUMENT);
+        return NULL;
+    }
 
     if (!(ctx = BN_CTX_secure_new())) {
         GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_MALLOC_FAILURE);
@@ -202,7 +205,6 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
     }
 
     BN_CTX_start(ctx);
-    OPENSSL_assert(dlen == 32 || dlen == 64);
     md = BN_lebin2bn(dgst, dlen, NULL);
     newsig = ECDSA_SIG_new();
     if (!newsig || !md) {
@@ -335,7 +337,11 @@ int gost_ec_verify(const unsigned char *dgst, int dgst_len,
     const EC_POINT *pub_key = NULL;
     int ok = 0;
 
-    OPENSSL_assert(dgst != NULL && sig != NULL && group != NULL);
+    if (dgst == NULL || sig == NULL || group == NULL
+        || (dgst_len != 32 && dgst_len != 64)) {
+        GOSTerr(GOST_F_GOST_EC_VERIFY, ERR_R_PASSED_INVALID_ARGUMENT);
+        return 0;
+    }
 
     if (!(ctx = BN_CTX_new())) {
         GOSTerr(GOST_F_GOST_EC_VERIFY, ERR_R_MALLOC_FAILURE);
@@ -371,7 +377,6 @@ int gost_ec_verify(const unsigned char *dgst, int dgst_len,
         goto err;
     }
 
-    OPENSSL_assert(dgst_len == 32 || dgst_len == 64);
     md = BN_lebin2bn(dgst, dgst_len, NULL);
     if (!md || !BN_mod(e, md, order, ctx)) {
         GOSTerr(GOST_F_GOST_EC_VERIFY, ERR_R_INTERNAL_ERROR);
-- 
2.43.0


From ed13edf8a82d6a71d22b429431bff12af939d1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:08 +0000
Subject: [PATCH 42/68] fix: private key encoding freed secure heap memory with
 the wrong function, left copies of the key, and crashed without a private key

---
 gost_ameth.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index dc2b769..ac68751 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -711,20 +711,22 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     int key_len = pkey_bits_gost(pk), i = 0;
     /* unmasked private key */
     const char *pk_format = get_gost_engine_param(GOST_PARAM_PK_FORMAT);
+    const BIGNUM *priv = gost_get0_priv_key(pk);
 
     key_len = (key_len < 0) ? 0 : key_len / 8;
-    if (key_len == 0 || !(buf = OPENSSL_secure_malloc(key_len))) {
+    /* p8 takes the buffer over and releases it with OPENSSL_free */
+    if (priv == NULL || key_len == 0 || !(buf = OPENSSL_malloc(key_len))) {
         return 0;
     }
 
-    if (!store_bignum(gost_get0_priv_key(pk), buf, key_len)) {
-        OPENSSL_secure_free(buf);
+    if (!store_bignum(priv, buf, key_len)) {
+        OPENSSL_clear_free(buf, key_len);
         return 0;
     }
 
     params = encode_gost_algor_params(pk);
     if (!params) {
-        OPENSSL_secure_free(buf);
+        OPENSSL_clear_free(buf, key_len);
         return 0;
     }
 
@@ -742,19 +744,26 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
         if (!octet || !ASN1_OCTET_STRING_set(octet, buf, key_len)) {
             ASN1_STRING_free(octet);
             ASN1_STRING_free(params);
-            OPENSSL_secure_free(buf);
+            OPENSSL_clear_free(buf, key_len);
             return 0;
         }
         priv_len = i2d_ASN1_OCTET_STRING(octet, &priv_buf);
-        ASN1_STRING_free(octet);
-        OPENSSL_secure_free(buf);
-
-        return PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
-                               priv_buf, priv_len);
+        ASN1_STRING_clear_free(octet);
+        OPENSSL_clear_free(buf, key_len);
+        if (priv_len <= 0) {
+            ASN1_STRING_free(params);
+            return 0;
+        }
+        buf = priv_buf;
+        key_len = priv_len;
     }
 
-    return PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
-                           buf, key_len);
+    if (!PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params, buf, key_len)) {
+        ASN1_STRING_free(params);
+        OPENSSL_clear_free(buf, key_len);
+        return 0;
+    }
+    return 1;
 }
 
 /* --------- printing keys --------------------------------*/
-- 
2.43.0


From 6a39311c017acd2882f06c4bf9d0d91a570f0306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:08 +0000
Subject: [PATCH 43/68] fix: shift of an octet into the sign bit in key
 diversification

---
 gost_keywrap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_keywrap.c b/gost_keywrap.c
index a2134c2..4d98eda 100644
--- a/gost_keywrap.c
+++ b/gost_keywrap.c
@@ -34,8 +34,8 @@ void keyDiversifyCryptoPro(gost_ctx * ctx, const unsigned char *inputKey,
         /* Compute IV S */
         for (j = 0, mask = 1; j < 8; j++, mask <<= 1) {
             u4 k;
-            k = ((u4) outputKey[4 * j]) | (outputKey[4 * j + 1] << 8) |
-                (outputKey[4 * j + 2] << 16) | (outputKey[4 * j + 3] << 24);
+            k = ((u4) outputKey[4 * j]) | ((u4) outputKey[4 * j + 1] << 8) |
+                ((u4) outputKey[4 * j + 2] << 16) | ((u4) outputKey[4 * j + 3] << 24);
             if (mask & ukm[i]) {
                 s1 += k;
             } else {
-- 
2.43.0


From 024302f35205f3a43e8bc675e809192bbc0c3a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 44/68] fix: encoding of a public key leaked its parameters on
 failure, and went on without them

---
 gost_ameth.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index ac68751..b3aaa3f 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -1031,6 +1031,8 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
     algobj = OBJ_nid2obj(EVP_PKEY_base_id(pk));
 
     params = encode_gost_algor_params(pk);
+    if (!params)
+        return 0;
     pval = params;
 
     order = BN_new();
@@ -1093,9 +1095,16 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
     if (databuf)
         OPENSSL_free(databuf);
 
-    if (ret < 0)
+    if (ret < 0) {
+        ASN1_STRING_free(params);
         return 0;
-    return X509_PUBKEY_set0_param(pub, algobj, ptype, pval, buf, ret);
+    }
+    if (!X509_PUBKEY_set0_param(pub, algobj, ptype, pval, buf, ret)) {
+        ASN1_STRING_free(params);
+        OPENSSL_free(buf);
+        return 0;
+    }
+    return 1;
 }
 
 static int pub_cmp_gost_ec(const EVP_PKEY *a, const EVP_PKEY *b)
-- 
2.43.0


From 150f545b2fd95e1e7323bd84667bf85c0f65351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 45/68] fix: copying a CTR-ACPKM-OMAC context failed and leaked
 before the key was set

---
 gost_crypt.c              | 5 +++++
 gost_grasshopper_cipher.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index 481d106..ed20831 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1387,6 +1387,11 @@ static int magma_cipher_ctl_acpkm_omac(EVP_CIPHER_CTX *ctx, int type, int arg, v
       struct ossl_gost_cipher_ctx *in_cctx  = EVP_CIPHER_CTX_get_cipher_data(ctx);
       struct ossl_gost_cipher_ctx *out_cctx = EVP_CIPHER_CTX_get_cipher_data(out);
 
+			/* No MAC state before the key is set */
+			if (in_cctx->omac_ctx == NULL) {
+				out_cctx->omac_ctx = NULL;
+				return 1;
+			}
 			if (in_cctx->omac_ctx == out_cctx->omac_ctx) {
 				out_cctx->omac_ctx = EVP_MD_CTX_new();
 				if (out_cctx->omac_ctx == NULL) {
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 3e9b262..af3a5ea 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -1237,6 +1237,11 @@ static int gost_grasshopper_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, v
         if (in_cctx->c.type != GRASSHOPPER_CIPHER_CTRACPKMOMAC)
             return -1;
 
+        /* No MAC state before the key is set */
+        if (in_cctx->omac_ctx == NULL) {
+            out_cctx->omac_ctx = NULL;
+            return 1;
+        }
         if (in_cctx->omac_ctx == out_cctx->omac_ctx) {
             out_cctx->omac_ctx = EVP_MD_CTX_new();
             if (out_cctx->omac_ctx == NULL) {
-- 
2.43.0


From 49937c9be20c78543c57d5d87819b28ab78e763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:54 +0000
Subject: [PATCH 46/68] fix: storing GOST 28147-89 parameters allocated -1
 octets when the S-box has no identifier

---
 gost_crypt.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index ed20831..f8498a4 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1430,6 +1430,13 @@ static int gost89_set_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
     gcp->enc_param_set = OBJ_nid2obj(c->paramNID);
 
     len = i2d_GOST_CIPHER_PARAMS(gcp, NULL);
+    if (len <= 0) {
+        /* No parameter set yet, or one without an identifier */
+        GOST_CIPHER_PARAMS_free(gcp);
+        GOSTerr(GOST_F_GOST89_SET_ASN1_PARAMETERS,
+                GOST_R_INVALID_CIPHER_PARAM_OID);
+        return 0;
+    }
     p = buf = OPENSSL_malloc(len);
     if (!buf) {
         GOST_CIPHER_PARAMS_free(gcp);
@@ -1443,6 +1450,7 @@ static int gost89_set_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 
     if (!os || !ASN1_OCTET_STRING_set(os, buf, len)) {
         OPENSSL_free(buf);
+        ASN1_OCTET_STRING_free(os);
         GOSTerr(GOST_F_GOST89_SET_ASN1_PARAMETERS, ERR_R_MALLOC_FAILURE);
         return 0;
     }
-- 
2.43.0


From b8c5bc3059b672bcae71ea2285c36b6954de9457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:17 +0000
Subject: [PATCH 47/68] fix: decoded private keys, their masks and MAC keys
 were released without wiping

---
 gost_ameth.c | 18 +++++++++++-------
 gost_pmeth.c | 11 +++++------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index b3aaa3f..c17c48c 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -590,7 +590,7 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
 
         q = BN_new();
         if (!q || !group || EC_GROUP_get_order(group, q, NULL) <= 0) {
-            BN_free(pknum_masked);
+            BN_clear_free(pknum_masked);
             pknum_masked = NULL;
             goto end;
         }
@@ -602,7 +602,7 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
             BN_mod_mul(pknum_masked, pknum_masked, mask, q, ctx);
 
             BN_CTX_free(ctx);
-            BN_free(mask);
+            BN_clear_free(mask);
         }
     }
 
@@ -650,12 +650,12 @@ static int priv_decode_gost(EVP_PKEY *pk,
         /* New format - Little endian octet string */
         ASN1_OCTET_STRING *s = d2i_ASN1_OCTET_STRING(NULL, &p, priv_len);
         if (!s || s->length != expected_key_len) {
-            ASN1_STRING_free(s);
+            ASN1_STRING_clear_free(s);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
         }
         pk_num = BN_lebin2bn(s->data, s->length, BN_secure_new());
-        ASN1_STRING_free(s);
+        ASN1_STRING_clear_free(s);
     } else if (V_ASN1_INTEGER == *p) {
         priv_key = d2i_ASN1_INTEGER(NULL, &p, priv_len);
         if (!priv_key) {
@@ -663,7 +663,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
             return 0;
         }
         pk_num = ASN1_INTEGER_to_BN(priv_key, BN_secure_new());
-        ASN1_INTEGER_free(priv_key);
+        ASN1_STRING_clear_free(priv_key);
     } else if ((V_ASN1_SEQUENCE | V_ASN1_CONSTRUCTED) == *p) {
         MASKED_GOST_KEY *mgk = d2i_MASKED_GOST_KEY(NULL, &p, priv_len);
 
@@ -674,6 +674,8 @@ static int priv_decode_gost(EVP_PKEY *pk,
 
         priv_len = mgk->masked_priv_key->length;
         if (priv_len <= 0 || priv_len % expected_key_len) {
+            OPENSSL_cleanse(mgk->masked_priv_key->data,
+                            mgk->masked_priv_key->length);
             MASKED_GOST_KEY_free(mgk);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
@@ -682,6 +684,8 @@ static int priv_decode_gost(EVP_PKEY *pk,
         pk_num = unmask_priv_key(pk, mgk->masked_priv_key->data,
                                  expected_key_len,
                                  priv_len / expected_key_len - 1);
+        OPENSSL_cleanse(mgk->masked_priv_key->data,
+                        mgk->masked_priv_key->length);
         MASKED_GOST_KEY_free(mgk);
     } else {
         GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
@@ -698,7 +702,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
         GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
     else
         ret = gost_set_priv_key(pk, pk_num);
-    BN_free(pk_num);
+    BN_clear_free(pk_num);
     return ret;
 }
 
@@ -1142,7 +1146,7 @@ static int pkey_size_gost(const EVP_PKEY *pk)
 /* ---------------------- ASN1 METHOD for GOST MAC  -------------------*/
 static void mackey_free_gost(EVP_PKEY *pk)
 {
-    OPENSSL_free(EVP_PKEY_get0(pk));
+    OPENSSL_clear_free(EVP_PKEY_get0(pk), sizeof(struct gost_mac_key));
 }
 
 static int mac_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
diff --git a/gost_pmeth.c b/gost_pmeth.c
index 3b08d91..62f35e8 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -636,8 +636,7 @@ static int pkey_gost_grasshopper_mac_init(EVP_PKEY_CTX *ctx)
 static void pkey_gost_mac_cleanup(EVP_PKEY_CTX *ctx)
 {
     struct gost_mac_pmeth_data *data = EVP_PKEY_CTX_get_data(ctx);
-    if (data)
-        OPENSSL_free(data);
+    OPENSSL_clear_free(data, sizeof(*data));
 }
 
 static int pkey_gost_mac_copy(EVP_PKEY_CTX *dst, ossl3_const EVP_PKEY_CTX *src)
@@ -766,11 +765,11 @@ static int pkey_gost_mac_ctrl_str(EVP_PKEY_CTX *ctx,
         if (!keybuf || keylen != 32) {
             GOSTerr(GOST_F_PKEY_GOST_MAC_CTRL_STR,
                     GOST_R_INVALID_MAC_KEY_LENGTH);
-            OPENSSL_free(keybuf);
+            OPENSSL_clear_free(keybuf, keybuf ? keylen : 0);
             return 0;
         }
         ret = pkey_gost_mac_ctrl(ctx, EVP_PKEY_CTRL_SET_MAC_KEY, 32, keybuf);
-        OPENSSL_free(keybuf);
+        OPENSSL_clear_free(keybuf, keylen);
         return ret;
 
     }
@@ -907,11 +906,11 @@ static int pkey_gost_omac_ctrl_str(EVP_PKEY_CTX *ctx,
         if (!keybuf || keylen != 32) {
             GOSTerr(GOST_F_PKEY_GOST_OMAC_CTRL_STR,
                     GOST_R_INVALID_MAC_KEY_LENGTH);
-            OPENSSL_free(keybuf);
+            OPENSSL_clear_free(keybuf, keybuf ? keylen : 0);
             return 0;
         }
         ret = pkey_gost_mac_ctrl(ctx, EVP_PKEY_CTRL_SET_MAC_KEY, 32, keybuf);
-        OPENSSL_free(keybuf);
+        OPENSSL_clear_free(keybuf, keylen);
         return ret;
 
     }
-- 
2.43.0


From 13826fd6c93d90702c1d3ecd87d0425ff4e86a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 48/68] fix: shared keys and key encryption keys were left in
 memory after use, key unwrapping left the key after a wrong MAC

---
 gost_ec_keyx.c   | 13 ++++++++-----
 gost_ec_sign.c   |  2 +-
 gost_keyexpimp.c | 18 ++++++++++--------
 gost_keywrap.c   |  7 +++++--
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 3211dea..d22c722 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -36,7 +36,7 @@ int VKO_compute_key(unsigned char *shared_key,
     BN_CTX *ctx = NULL;
     EVP_MD_CTX *mdctx = NULL;
     const EVP_MD *md = NULL;
-    int buf_len, half_len;
+    int buf_len = 0, half_len;
     int ret = 0;
 
     if (pub_key == NULL || priv_key == NULL
@@ -124,9 +124,9 @@ int VKO_compute_key(unsigned char *shared_key,
  err:
     BN_CTX_end(ctx);
     BN_CTX_free(ctx);
-    EC_POINT_free(pnt);
+    EC_POINT_clear_free(pnt);
     EVP_MD_CTX_free(mdctx);
-    OPENSSL_free(databuf);
+    OPENSSL_clear_free(databuf, buf_len);
 
     return ret;
 }
@@ -363,6 +363,7 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
         }
         gost_init(&cctx, param->sblock);
         keyWrapCryptoPro(&cctx, shared_key, ukm, key, crypted_key);
+        gost_destroy(&cctx);
     }
     gkt = GOST_KEY_TRANSPORT_new();
     if (!gkt) {
@@ -610,7 +611,7 @@ static int pkey_GOST_ECcp_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
     const unsigned char *p = in;
     EVP_PKEY *priv = EVP_PKEY_CTX_get0_pkey(pctx);
     GOST_KEY_TRANSPORT *gkt = NULL;
-    int ret = 0;
+    int ret = 0, unwrapped;
     unsigned char wrappedKey[44];
     unsigned char sharedKey[32];
     gost_ctx ctx;
@@ -675,7 +676,9 @@ static int pkey_GOST_ECcp_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
                 GOST_R_ERROR_COMPUTING_SHARED_KEY);
         goto err;
     }
-    if (!keyUnwrapCryptoPro(&ctx, sharedKey, wrappedKey, key)) {
+    unwrapped = keyUnwrapCryptoPro(&ctx, sharedKey, wrappedKey, key);
+    gost_destroy(&ctx);
+    if (!unwrapped) {
         GOSTerr(GOST_F_PKEY_GOST_ECCP_DECRYPT,
                 GOST_R_ERROR_COMPUTING_SHARED_KEY);
         goto err;
diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index 8f32529..b533fcd 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -640,7 +640,7 @@ int gost_ec_keygen(EC_KEY *ec)
     ok = 1;
  end:
     if (d)
-        BN_free(d);
+        BN_clear_free(d);
     if (order)
         BN_free(order);
 
diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 9618cb2..28af480 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -277,6 +277,7 @@ int gost_tlstree(int cipher_nid, const unsigned char *in, unsigned char *out,
     uint64_t seed1, seed2, seed3;
     uint64_t seq;
     unsigned char ko1[32], ko2[32];
+    int ret = 0;
 
     switch (cipher_nid) {
     case NID_magma_cbc:
@@ -301,15 +302,16 @@ int gost_tlstree(int cipher_nid, const unsigned char *in, unsigned char *out,
     seed2 = seq & c2;
     seed3 = seq & c3;
 
-    if (gost_kdftree2012_256(ko1, 32, in, 32, (const unsigned char *)"level1", 6,
-                         (const unsigned char *)&seed1, 8, 1) <= 0
-			  || gost_kdftree2012_256(ko2, 32, ko1, 32, (const unsigned char *)"level2", 6,
-                         (const unsigned char *)&seed2, 8, 1) <= 0
-        || gost_kdftree2012_256(out, 32, ko2, 32, (const unsigned char *)"level3", 6,
-                         (const unsigned char *)&seed3, 8, 1) <= 0)
-			return 0;
+    ret = gost_kdftree2012_256(ko1, 32, in, 32, (const unsigned char *)"level1", 6,
+                         (const unsigned char *)&seed1, 8, 1) > 0
+        && gost_kdftree2012_256(ko2, 32, ko1, 32, (const unsigned char *)"level2", 6,
+                         (const unsigned char *)&seed2, 8, 1) > 0
+        && gost_kdftree2012_256(out, 32, ko2, 32, (const unsigned char *)"level3", 6,
+                         (const unsigned char *)&seed3, 8, 1) > 0;
 
-    return 1;
+    OPENSSL_cleanse(ko1, sizeof(ko1));
+    OPENSSL_cleanse(ko2, sizeof(ko2));
+    return ret;
 }
 
 #define GOST_WRAP_FLAGS  EVP_CIPH_CTRL_INIT | EVP_CIPH_WRAP_MODE | EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER | EVP_CIPH_FLAG_DEFAULT_ASN1
diff --git a/gost_keywrap.c b/gost_keywrap.c
index 4d98eda..5d6e3e1 100644
--- a/gost_keywrap.c
+++ b/gost_keywrap.c
@@ -5,9 +5,9 @@
  *                                                                    *
  * Implementation of CryptoPro key wrap algorithm, as defined in      *
  *               RFC 4357 p 6.3 and 6.4                               *
- *                  Doesn't need OpenSSL                              *
  **********************************************************************/
 #include <string.h>
+#include <openssl/crypto.h>
 #include "gost89.h"
 #include "gost_keywrap.h"
 
@@ -75,6 +75,7 @@ int keyWrapCryptoPro(gost_ctx * ctx, const unsigned char *keyExchangeKey,
     memcpy(wrappedKey, ukm, 8);
     gost_enc(ctx, sessionKey, wrappedKey + 8, 4);
     gost_mac_iv(ctx, 32, ukm, sessionKey, 32, wrappedKey + 40);
+    OPENSSL_cleanse(kek_ukm, sizeof(kek_ukm));
     return 1;
 }
 
@@ -100,7 +101,9 @@ int keyUnwrapCryptoPro(gost_ctx * ctx, const unsigned char *keyExchangeKey,
     gost_key(ctx, kek_ukm);
     gost_dec(ctx, wrappedKey + 8, sessionKey, 4);
     gost_mac_iv(ctx, 32, wrappedKey, sessionKey, 32, cek_mac);
-    if (memcmp(cek_mac, wrappedKey + 40, 4)) {
+    OPENSSL_cleanse(kek_ukm, sizeof(kek_ukm));
+    if (CRYPTO_memcmp(cek_mac, wrappedKey + 40, 4)) {
+        OPENSSL_cleanse(sessionKey, 32);
         return 0;
     }
     return 1;
-- 
2.43.0


From b6589bc45f9712699a12b848b28ea7449cc9fbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 49/68] fix: MGM ciphers could not generate a key, though they
 declare that they do

---
 gost_crypt.c              | 9 +++++++++
 gost_grasshopper_cipher.c | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index f8498a4..c28f95b 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1136,6 +1136,15 @@ static int gost_magma_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *ptr)
         mctx->taglen = -1;
         return 1;
 
+    /* The ciphers are declared with EVP_CIPH_RAND_KEY */
+    case EVP_CTRL_RAND_KEY:
+        if (RAND_priv_bytes
+            ((unsigned char *)ptr, EVP_CIPHER_CTX_key_length(c)) <= 0) {
+            GOSTerr(GOST_F_GOST_MAGMA_MGM_CTRL, GOST_R_RNG_ERROR);
+            return -1;
+        }
+        return 1;
+
     case EVP_CTRL_GET_IVLEN:
         *(int *)ptr = mctx->ivlen;
         return 1;
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index af3a5ea..f6e8e3f 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -1071,6 +1071,15 @@ static int gost_grasshopper_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void
         mctx->taglen = -1;
         return 1;
 
+    /* The ciphers are declared with EVP_CIPH_RAND_KEY */
+    case EVP_CTRL_RAND_KEY:
+        if (RAND_priv_bytes
+            ((unsigned char *)ptr, EVP_CIPHER_CTX_key_length(c)) <= 0) {
+            GOSTerr(GOST_F_GOST_GRASSHOPPER_MGM_CTRL, GOST_R_RNG_ERROR);
+            return -1;
+        }
+        return 1;
+
     case EVP_CTRL_GET_IVLEN:
         *(int *)ptr = mctx->ivlen;
         return 1;
-- 
2.43.0


From 2d488b9c2986be958c1e64e1d22d21d7a5a0fe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:02 +0000
Subject: [PATCH 50/68] fix: crashes, leaks and results reported as good when
 memory for keys and signatures cannot be allocated

---
 gost_ameth.c   | 60 ++++++++++++++++++++++++++++++++++++--------------
 gost_ec_keyx.c | 34 ++++++++++++++++++----------
 gost_ec_sign.c |  8 ++++++-
 gost_pmeth.c   | 12 +++++++++-
 4 files changed, 83 insertions(+), 31 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index c17c48c..c9add77 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -132,7 +132,7 @@ static int gost_decode_nid_params(EVP_PKEY *pkey, int pkey_nid, int param_nid)
     case NID_id_GostR3410_2001DH:
         if (!key_ptr) {
             key_ptr = EC_KEY_new();
-            if (!EVP_PKEY_assign(pkey, pkey_nid, key_ptr)) {
+            if (!key_ptr || !EVP_PKEY_assign(pkey, pkey_nid, key_ptr)) {
                 EC_KEY_free(key_ptr);
                 break;
             }
@@ -202,7 +202,10 @@ static int gost_set_priv_key(EVP_PKEY *pkey, BIGNUM *priv)
             EC_KEY *ec = EVP_PKEY_get0(pkey);
             if (!ec) {
                 ec = EC_KEY_new();
-                EVP_PKEY_assign(pkey, EVP_PKEY_base_id(pkey), ec);
+                if (!ec || !EVP_PKEY_assign(pkey, EVP_PKEY_base_id(pkey), ec)) {
+                    EC_KEY_free(ec);
+                    return 0;
+                }
             }
             if (!EC_KEY_set_private_key(ec, priv))
                 return 0;
@@ -467,8 +470,9 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
         if (arg1 == 0) {
             PKCS7_SIGNER_INFO_get0_algs((PKCS7_SIGNER_INFO *)arg2, NULL,
                                         &alg1, &alg2);
-            X509_ALGOR_set0(alg1, OBJ_nid2obj(md_nid), V_ASN1_NULL, 0);
-            X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0);
+            if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(md_nid), V_ASN1_NULL, 0)
+                || !X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0))
+                return -1;
         }
         return 1;
 #ifndef OPENSSL_NO_CMS
@@ -476,8 +480,9 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
         if (arg1 == 0) {
             CMS_SignerInfo_get0_algs((CMS_SignerInfo *)arg2, NULL, NULL,
                                      &alg1, &alg2);
-            X509_ALGOR_set0(alg1, OBJ_nid2obj(md_nid), V_ASN1_NULL, 0);
-            X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0);
+            if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(md_nid), V_ASN1_NULL, 0)
+                || !X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0))
+                return -1;
         }
         return 1;
 #endif
@@ -488,8 +493,11 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
                 return -1;
             }
             PKCS7_RECIP_INFO_get0_alg((PKCS7_RECIP_INFO *)arg2, &alg1);
-            X509_ALGOR_set0(alg1, OBJ_nid2obj(EVP_PKEY_id(pkey)),
-                            V_ASN1_SEQUENCE, params);
+            if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(EVP_PKEY_id(pkey)),
+                                 V_ASN1_SEQUENCE, params)) {
+                ASN1_STRING_free(params);
+                return -1;
+            }
 				}
         return 1;
 #ifndef OPENSSL_NO_CMS
@@ -531,7 +539,10 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
 
           CMS_RecipientInfo_ktri_get0_algs((CMS_RecipientInfo *)arg2, NULL,
               NULL, &alg1);
-          X509_ALGOR_set0(alg1, OBJ_nid2obj(nid), V_ASN1_SEQUENCE, params);
+          if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(nid), V_ASN1_SEQUENCE, params)) {
+              ASN1_STRING_free(params);
+              return -1;
+          }
         } else {
           EVP_PKEY_CTX *pctx;
           CMS_RecipientInfo *ri = arg2;
@@ -578,9 +589,11 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
     const EC_KEY *key_ptr = (pk) ? EVP_PKEY_get0(pk) : NULL;
     const EC_GROUP *group = (key_ptr) ? EC_KEY_get0_group(key_ptr) : NULL;
 
-    pknum_masked = BN_lebin2bn(buf, len, BN_secure_new());
-    if (!pknum_masked)
+    pknum_masked = BN_secure_new();
+    if (!pknum_masked || !BN_lebin2bn(buf, len, pknum_masked)) {
+        BN_clear_free(pknum_masked);
         return NULL;
+    }
 
     if (num_masks > 0) {
         /*
@@ -596,13 +609,18 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
         }
 
         for (; p != buf; p -= len) {
-            BIGNUM *mask = BN_lebin2bn(p, len, BN_secure_new());
+            BIGNUM *mask = BN_secure_new();
             BN_CTX *ctx = BN_CTX_secure_new();
-
-            BN_mod_mul(pknum_masked, pknum_masked, mask, q, ctx);
+            int ok = mask && ctx && BN_lebin2bn(p, len, mask)
+                && BN_mod_mul(pknum_masked, pknum_masked, mask, q, ctx);
 
             BN_CTX_free(ctx);
             BN_clear_free(mask);
+            if (!ok) {
+                BN_clear_free(pknum_masked);
+                pknum_masked = NULL;
+                goto end;
+            }
         }
     }
 
@@ -654,7 +672,11 @@ static int priv_decode_gost(EVP_PKEY *pk,
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
         }
-        pk_num = BN_lebin2bn(s->data, s->length, BN_secure_new());
+        pk_num = BN_secure_new();
+        if (pk_num && !BN_lebin2bn(s->data, s->length, pk_num)) {
+            BN_clear_free(pk_num);
+            pk_num = NULL;
+        }
         ASN1_STRING_clear_free(s);
     } else if (V_ASN1_INTEGER == *p) {
         priv_key = d2i_ASN1_INTEGER(NULL, &p, priv_len);
@@ -662,7 +684,11 @@ static int priv_decode_gost(EVP_PKEY *pk,
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
         }
-        pk_num = ASN1_INTEGER_to_BN(priv_key, BN_secure_new());
+        pk_num = BN_secure_new();
+        if (pk_num && !ASN1_INTEGER_to_BN(priv_key, pk_num)) {
+            BN_clear_free(pk_num);
+            pk_num = NULL;
+        }
         ASN1_STRING_clear_free(priv_key);
     } else if ((V_ASN1_SEQUENCE | V_ASN1_CONSTRUCTED) == *p) {
         MASKED_GOST_KEY *mgk = d2i_MASKED_GOST_KEY(NULL, &p, priv_len);
@@ -1001,7 +1027,7 @@ static int pub_decode_gost_ec(EVP_PKEY *pk, const X509_PUBKEY *pub)
         goto ret;
     }
     pub_key = EC_POINT_new(group);
-    if (!EC_POINT_set_affine_coordinates(group, pub_key, X, Y, NULL)) {
+    if (!pub_key || !EC_POINT_set_affine_coordinates(group, pub_key, X, Y, NULL)) {
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_EC_LIB);
         goto ret;
     }
diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index d22c722..a03fd4c 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -287,6 +287,25 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
     }
 }
 
+/* Generates an ephemeral key with the algorithm and parameters of pubk */
+static EVP_PKEY *gost_ephemeral_key(EVP_PKEY *pubk)
+{
+    EVP_PKEY *key = EVP_PKEY_new();
+    EC_KEY *ec = EC_KEY_new();
+
+    if (key == NULL || ec == NULL
+        || !EVP_PKEY_assign(key, EVP_PKEY_base_id(pubk), ec)) {
+        EC_KEY_free(ec);
+        EVP_PKEY_free(key);
+        return NULL;
+    }
+    if (!EVP_PKEY_copy_parameters(key, pubk) || !gost_ec_keygen(ec)) {
+        EVP_PKEY_free(key);
+        return NULL;
+    }
+    return key;
+}
+
 /*
  * Generates ephemeral key based on pubk algorithm computes shared key using
  * VKO and returns filled up GOST_KEY_TRANSPORT structure
@@ -338,10 +357,8 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     } else {
         key_is_ephemeral = 1;
         if (out) {
-            sec_key = EVP_PKEY_new();
-            if (!EVP_PKEY_assign(sec_key, EVP_PKEY_base_id(pubk), EC_KEY_new())
-                || !EVP_PKEY_copy_parameters(sec_key, pubk)
-                || !gost_ec_keygen(EVP_PKEY_get0(sec_key))) {
+            sec_key = gost_ephemeral_key(pubk);
+            if (sec_key == NULL) {
                 GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT,
                         GOST_R_ERROR_COMPUTING_SHARED_KEY);
                 goto err;
@@ -479,15 +496,8 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     sec_key = EVP_PKEY_CTX_get0_peerkey(pctx);
     if (!sec_key)
     {
-      sec_key = EVP_PKEY_new();
+      sec_key = gost_ephemeral_key(pubk);
       if (sec_key == NULL) {
-        GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_MALLOC_FAILURE );
-        goto err;
-      }
-
-      if (!EVP_PKEY_assign(sec_key, EVP_PKEY_base_id(pubk), EC_KEY_new())
-          || !EVP_PKEY_copy_parameters(sec_key, pubk)
-          || !gost_ec_keygen(EVP_PKEY_get0(sec_key))) {
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT,
             GOST_R_ERROR_COMPUTING_SHARED_KEY);
         goto err;
diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index b533fcd..b6fcaa1 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -106,7 +106,7 @@ int fill_GOST_EC_params(EC_KEY *eckey, int nid)
         EC_GROUP_set_curve_name(params->group, nid);
         if (!EC_KEY_set_group(eckey, params->group)) {
             GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_INTERNAL_ERROR);
-            goto end;
+            return 0;
         }
         return 1;
     }
@@ -169,6 +169,8 @@ int fill_GOST_EC_params(EC_KEY *eckey, int nid)
     }
     ok = 1;
  end:
+    if (grp != params->group)
+        EC_GROUP_free(grp);
     EC_POINT_free(P);
     BN_CTX_end(ctx);
     BN_CTX_free(ctx);
@@ -308,6 +310,10 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
 
     ret = newsig;
  err:
+    if (!ret) {
+        BN_free(new_r);
+        BN_free(new_s);
+    }
     BN_CTX_end(ctx);
     BN_CTX_free(ctx);
     if (C)
diff --git a/gost_pmeth.c b/gost_pmeth.c
index 62f35e8..b3bb772 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -531,6 +531,13 @@ ECDSA_SIG *unpack_cp_signature(const unsigned char *sigbuf, size_t siglen)
     }
     s = BN_bin2bn(sigbuf, siglen / 2, NULL);
     r = BN_bin2bn(sigbuf + siglen / 2, siglen / 2, NULL);
+    if (s == NULL || r == NULL) {
+        GOSTerr(GOST_F_UNPACK_CP_SIGNATURE, ERR_R_MALLOC_FAILURE);
+        BN_free(s);
+        BN_free(r);
+        ECDSA_SIG_free(sig);
+        return NULL;
+    }
     ECDSA_SIG_set0(sig, r, s);
     return sig;
 }
@@ -953,7 +960,10 @@ static int pkey_gost_mac_keygen_base(EVP_PKEY_CTX *ctx,
     memcpy(keydata->key, data->key, 32);
     keydata->mac_param_nid = data->mac_param_nid;
     keydata->mac_size = data->mac_size;
-    EVP_PKEY_assign(pkey, mac_nid, keydata);
+    if (!EVP_PKEY_assign(pkey, mac_nid, keydata)) {
+        OPENSSL_clear_free(keydata, sizeof(*keydata));
+        return 0;
+    }
     return 1;
 }
 
-- 
2.43.0


From 6760513dd3f579c02d2854973eeb0fad29e6baec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:02 +0000
Subject: [PATCH 51/68] fix: encoding a key without parameters crashed

---
 gost_ameth.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index c9add77..fc6723e 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -65,6 +65,10 @@ static ASN1_STRING *encode_gost_algor_params(const EVP_PKEY *key)
         GOSTerr(GOST_F_ENCODE_GOST_ALGOR_PARAMS, ERR_R_MALLOC_FAILURE);
         goto err;
     }
+    if (!key_ptr || !EC_KEY_get0_group(key_ptr)) {
+        GOSTerr(GOST_F_ENCODE_GOST_ALGOR_PARAMS, GOST_R_KEY_PARAMETERS_MISSING);
+        goto err;
+    }
     switch (EVP_PKEY_base_id(key)) {
     case NID_id_GostR3410_2012_256:
         pkey_param_nid = EC_GROUP_get_curve_name(EC_KEY_get0_group(key_ptr));
@@ -1239,9 +1243,13 @@ static int mac_ctrl_grasshopper_acpkm(EVP_PKEY *pkey, int op, long arg1,
 
 static int gost2001_param_encode(const EVP_PKEY *pkey, unsigned char **pder)
 {
-    int nid =
-        EC_GROUP_get_curve_name(EC_KEY_get0_group
-                                (EVP_PKEY_get0((EVP_PKEY *)pkey)));
+    const EC_KEY *ec = EVP_PKEY_get0((EVP_PKEY *)pkey);
+    const EC_GROUP *group = ec ? EC_KEY_get0_group(ec) : NULL;
+    int nid;
+
+    if (!group)
+        return 0;
+    nid = EC_GROUP_get_curve_name(group);
     return i2d_ASN1_OBJECT(OBJ_nid2obj(nid), pder);
 }
 
-- 
2.43.0


From f3133bf545ee3509b9eb4ca0fb8f61c22b2a5565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 52/68] fix: out of memory in a copy of an OMAC state led to a
 double free, in an engine parameter it went unnoticed

---
 gost_crypt.c              | 10 ++++++++--
 gost_ctl.c                |  6 +++++-
 gost_grasshopper_cipher.c | 10 ++++++++--
 gost_omac.c               | 11 ++++++++++-
 gost_omac_acpkm.c         | 11 ++++++++++-
 5 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index c28f95b..e8ec200 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1405,10 +1405,16 @@ static int magma_cipher_ctl_acpkm_omac(EVP_CIPHER_CTX *ctx, int type, int arg, v
 				out_cctx->omac_ctx = EVP_MD_CTX_new();
 				if (out_cctx->omac_ctx == NULL) {
 					GOSTerr(GOST_F_MAGMA_CIPHER_CTL_ACPKM_OMAC, ERR_R_MALLOC_FAILURE);
-					return -1;
+					return 0;
 				}
 			}
-			return EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx);
+			if (!EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx)) {
+				/* The cipher context is not going to be cleaned up */
+				EVP_MD_CTX_free(out_cctx->omac_ctx);
+				out_cctx->omac_ctx = NULL;
+				return 0;
+			}
+			return 1;
 		}
 		default:
 			return magma_cipher_ctl(ctx, type, arg, ptr);
diff --git a/gost_ctl.c b/gost_ctl.c
index 60280b1..494b798 100644
--- a/gost_ctl.c
+++ b/gost_ctl.c
@@ -60,6 +60,7 @@ const char *get_gost_engine_param(int param)
 int gost_set_default_param(int param, const char *value)
 {
     const char *tmp;
+    char *copy;
     if (param < 0 || param >= GOST_PARAM_MAX)
         return 0;
     tmp = getenv(gost_envnames[param]);
@@ -70,8 +71,11 @@ int gost_set_default_param(int param, const char *value)
     if (!tmp) {
         tmp = value;
     }
+    copy = BUF_strdup(tmp);
+    if (tmp != NULL && copy == NULL)
+        return 0;
     OPENSSL_free(gost_params[param]);
-    gost_params[param] = BUF_strdup(tmp);
+    gost_params[param] = copy;
 
     return 1;
 }
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index f6e8e3f..ca0cc85 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -1255,10 +1255,16 @@ static int gost_grasshopper_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, v
             out_cctx->omac_ctx = EVP_MD_CTX_new();
             if (out_cctx->omac_ctx == NULL) {
                 GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_CTL, ERR_R_MALLOC_FAILURE);
-                return -1;
+                return 0;
             }
         }
-        return EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx);
+        if (!EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx)) {
+            /* The cipher context is not going to be cleaned up */
+            EVP_MD_CTX_free(out_cctx->omac_ctx);
+            out_cctx->omac_ctx = NULL;
+            return 0;
+        }
+        return 1;
     }
     default:
         GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_CTL,
diff --git a/gost_omac.c b/gost_omac.c
index ec9ce7c..2cb5900 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -18,6 +18,12 @@
 
 typedef struct omac_ctx {
     CMAC_CTX *cmac_ctx;
+    /*
+     * Structure which cmac_ctx belongs to: OpenSSL makes a bytewise copy of
+     * it, and cleans the copy up without a call to omac_imit_copy() if it
+     * fails in between
+     */
+    const struct omac_ctx *cmac_owner;
     size_t dgst_size;
     const char *cipher_name;
     int key_set;
@@ -120,6 +126,7 @@ static int omac_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
     }
     if (c_to->cmac_ctx == c_from->cmac_ctx) {
         c_to->cmac_ctx = CMAC_CTX_new();
+        c_to->cmac_owner = c_to;
     }
     if (c_to->cmac_ctx == NULL)
         return 0;
@@ -132,7 +139,8 @@ static int omac_imit_cleanup(EVP_MD_CTX *ctx)
     OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
 
     if (c) {
-        CMAC_CTX_free(c->cmac_ctx);
+        if (c->cmac_owner == c)
+            CMAC_CTX_free(c->cmac_ctx);
         memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(OMAC_CTX));
     }
     /* The flag is set with the key, it should not outlive it */
@@ -147,6 +155,7 @@ static int omac_key(OMAC_CTX * c, const EVP_CIPHER *cipher,
 
     CMAC_CTX_free(c->cmac_ctx);
     c->cmac_ctx = CMAC_CTX_new();
+    c->cmac_owner = c;
     if (c->cmac_ctx == NULL) {
         GOSTerr(GOST_F_OMAC_KEY, ERR_R_MALLOC_FAILURE);
         return 0;
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 62b83fa..739cb8c 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -301,6 +301,12 @@ static int CMAC_ACPKM_Final(CMAC_ACPKM_CTX *ctx, unsigned char *out,
 
 typedef struct omac_acpkm_ctx {
     CMAC_ACPKM_CTX *cmac_ctx;
+    /*
+     * Structure which cmac_ctx belongs to: OpenSSL makes a bytewise copy of
+     * it, and cleans the copy up without a call to omac_acpkm_imit_copy() if
+     * it fails in between
+     */
+    const struct omac_acpkm_ctx *cmac_owner;
     size_t dgst_size;
     const char *cipher_name;
     int key_set;
@@ -382,6 +388,7 @@ static int omac_acpkm_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
     }
     if ((c_to->cmac_ctx == c_from->cmac_ctx) || (c_to->cmac_ctx == NULL))  {
         c_to->cmac_ctx = CMAC_ACPKM_CTX_new();
+        c_to->cmac_owner = c_to;
     }
 
     return (c_to->cmac_ctx) ? CMAC_ACPKM_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx) : 0;
@@ -393,7 +400,8 @@ static int omac_acpkm_imit_cleanup(EVP_MD_CTX *ctx)
     OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
 
     if (c) {
-        CMAC_ACPKM_CTX_free(c->cmac_ctx);
+        if (c->cmac_owner == c)
+            CMAC_ACPKM_CTX_free(c->cmac_ctx);
         memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(OMAC_ACPKM_CTX));
     }
     /* The flag is set with the key, it should not outlive it */
@@ -407,6 +415,7 @@ static int omac_acpkm_key(OMAC_ACPKM_CTX *c, const EVP_CIPHER *cipher,
     int ret = 0;
 
     c->cmac_ctx = CMAC_ACPKM_CTX_new();
+    c->cmac_owner = c;
     if (c->cmac_ctx == NULL) {
         GOSTerr(GOST_F_OMAC_ACPKM_KEY, ERR_R_MALLOC_FAILURE);
         return 0;
-- 
2.43.0


From 0806c31b178add0e172b686e78c76648cd2b5c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:13 +0000
Subject: [PATCH 53/68] fix: failures to print a key were not reported

---
 gost_ameth.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index fc6723e..c248f29 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -807,13 +807,17 @@ static int print_gost_priv(BIO *out, const EVP_PKEY *pkey, int indent)
 
     if (!BIO_indent(out, indent, 128))
         return 0;
-    BIO_printf(out, "Private key: ");
+    if (BIO_printf(out, "Private key: ") <= 0)
+        return 0;
     key = gost_get0_priv_key(pkey);
-    if (!key)
-        BIO_printf(out, "<undefined>");
-    else
-        BN_print(out, key);
-    BIO_printf(out, "\n");
+    if (!key) {
+        if (BIO_printf(out, "<undefined>") <= 0)
+            return 0;
+    } else if (!BN_print(out, key)) {
+        return 0;
+    }
+    if (BIO_printf(out, "\n") <= 0)
+        return 0;
 
     return 1;
 }
@@ -847,17 +851,20 @@ static int print_gost_ec_pub(BIO *out, const EVP_PKEY *pkey, int indent)
     }
     if (!BIO_indent(out, indent, 128))
         goto err;
-    BIO_printf(out, "Public key:\n");
+    if (BIO_printf(out, "Public key:\n") <= 0)
+        goto err;
     if (!BIO_indent(out, indent + 3, 128))
         goto err;
-    BIO_printf(out, "X:");
-    BN_print(out, X);
-    BIO_printf(out, "\n");
+    if (BIO_printf(out, "X:") <= 0
+        || !BN_print(out, X)
+        || BIO_printf(out, "\n") <= 0)
+        goto err;
     if (!BIO_indent(out, indent + 3, 128))
         goto err;
-    BIO_printf(out, "Y:");
-    BN_print(out, Y);
-    BIO_printf(out, "\n");
+    if (BIO_printf(out, "Y:") <= 0
+        || !BN_print(out, Y)
+        || BIO_printf(out, "\n") <= 0)
+        goto err;
     ok = 1;
  err:
     BN_CTX_end(ctx);
@@ -878,7 +885,8 @@ static int print_gost_ec_param(BIO *out, const EVP_PKEY *pkey, int indent)
     param_nid = EC_GROUP_get_curve_name(group);
     if (!BIO_indent(out, indent, 128))
         return 0;
-    BIO_printf(out, "Parameter set: %s\n", OBJ_nid2ln(param_nid));
+    if (BIO_printf(out, "Parameter set: %s\n", OBJ_nid2ln(param_nid)) <= 0)
+        return 0;
 
     return 1;
 }
-- 
2.43.0


From 0df77921ce302ef2b68e0777aa79fe2d48368dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 54/68] fix: OMAC took the wrong cipher when OpenSSL failed to
 look up the digest name

---
 gost_omac.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_omac.c b/gost_omac.c
index 2cb5900..3f9a746 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -183,9 +183,9 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
             int ret = 0;
 
             if (c->cipher_name == NULL) {
-                if (EVP_MD_is_a(md, SN_magma_mac))
+                if (EVP_MD_nid(md) == NID_magma_mac)
                     c->cipher_name = SN_magma_cbc;
-                else if (EVP_MD_is_a(md, SN_grasshopper_mac))
+                else if (EVP_MD_nid(md) == NID_grasshopper_mac)
                     c->cipher_name = SN_grasshopper_cbc;
             }
             if ((cipher =
-- 
2.43.0


From 83ef875fb1d23cb211c2a0b78553e5e0426d44a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:03 +0000
Subject: [PATCH 55/68] fix: data races in the cache of curve groups and in
 engine parameters taken from the environment

---
 gost_ctl.c     | 10 ++--------
 gost_ec_sign.c | 37 +++++++++++++++++++++++++++----------
 gost_eng.c     |  4 ++++
 gost_lcl.h     |  1 +
 4 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/gost_ctl.c b/gost_ctl.c
index 494b798..e2a07e3 100644
--- a/gost_ctl.c
+++ b/gost_ctl.c
@@ -42,19 +42,13 @@ int gost_control_func(ENGINE *e, int cmd, long i, void *p, void (*f) (void))
 
 const char *get_gost_engine_param(int param)
 {
-    char *tmp;
     if (param < 0 || param >= GOST_PARAM_MAX)
         return NULL;
     if (gost_params[param] != NULL) {
         return gost_params[param];
     }
-    tmp = getenv(gost_envnames[param]);
-    if (tmp) {
-        OPENSSL_free(gost_params[param]);
-        gost_params[param] = BUF_strdup(tmp);
-        return gost_params[param];
-    }
-    return NULL;
+    /* Not stored: this is called by many threads at once */
+    return getenv(gost_envnames[param]);
 }
 
 int gost_set_default_param(int param, const char *value)
diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index b6fcaa1..1dc1620 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -58,10 +58,23 @@ static R3410_ec_params *gost_nid2params(int nid)
     return NULL;
 }
 
+/* Protects the groups cached in the parameter sets */
+static CRYPTO_RWLOCK *group_lock = NULL;
+
+int init_cached_groups()
+{
+    if (group_lock == NULL)
+        group_lock = CRYPTO_THREAD_lock_new();
+    return group_lock != NULL;
+}
+
 void free_cached_groups()
 {
     R3410_ec_params *params;
 
+    CRYPTO_THREAD_lock_free(group_lock);
+    group_lock = NULL;
+
     /* Search nid in 2012 paramset */
     params = R3410_2012_512_paramset;
     while (params->nid != NID_undef) {
@@ -102,14 +115,14 @@ int fill_GOST_EC_params(EC_KEY *eckey, int nid)
         return 0;
     }
 
-    if (params->group) {
-        EC_GROUP_set_curve_name(params->group, nid);
-        if (!EC_KEY_set_group(eckey, params->group)) {
-            GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_INTERNAL_ERROR);
-            return 0;
-        }
-        return 1;
+    /* Without the lock (no engine bound) nothing is cached */
+    if (group_lock && CRYPTO_THREAD_read_lock(group_lock)) {
+        if (params->group)
+            grp = EC_GROUP_dup(params->group);
+        CRYPTO_THREAD_unlock(group_lock);
     }
+    if (grp)
+        goto set;
 
     if (!(ctx = BN_CTX_new())) {
         GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_MALLOC_FAILURE);
@@ -161,16 +174,20 @@ int fill_GOST_EC_params(EC_KEY *eckey, int nid)
         GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_INTERNAL_ERROR);
         goto end;
     }
+    if (group_lock && CRYPTO_THREAD_write_lock(group_lock)) {
+        if (!params->group)
+            params->group = EC_GROUP_dup(grp);
+        CRYPTO_THREAD_unlock(group_lock);
+    }
+ set:
     EC_GROUP_set_curve_name(grp, nid);
-    params->group = grp;
     if (!EC_KEY_set_group(eckey, grp)) {
         GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_INTERNAL_ERROR);
         goto end;
     }
     ok = 1;
  end:
-    if (grp != params->group)
-        EC_GROUP_free(grp);
+    EC_GROUP_free(grp);
     EC_POINT_free(P);
     BN_CTX_end(ctx);
     BN_CTX_free(ctx);
diff --git a/gost_eng.c b/gost_eng.c
index 7ca5523..e035629 100644
--- a/gost_eng.c
+++ b/gost_eng.c
@@ -375,6 +375,10 @@ int populate_gost_engine(ENGINE* e) {
         fprintf(stderr, "ENGINE_set_name failed\n");
         goto end;
     }
+    if (!init_cached_groups()) {
+        fprintf(stderr, "Lock creation failed\n");
+        goto end;
+    }
     if (!create_NIDs()) {
         fprintf(stderr, "NID creation failed\n");
         goto end;
diff --git a/gost_lcl.h b/gost_lcl.h
index ffa8c76..a69af79 100644
--- a/gost_lcl.h
+++ b/gost_lcl.h
@@ -44,6 +44,7 @@ typedef struct R3410_ec {
 extern R3410_ec_params R3410_2001_paramset[],
     *R3410_2012_256_paramset, R3410_2012_512_paramset[];
 
+int init_cached_groups(void);
 void free_cached_groups(void);
 
 extern const ENGINE_CMD_DEFN gost_cmds[];
-- 
2.43.0


From 747267f318dbd3911ef1ad74a5722b3318520527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 56/68] fix: gostsum and gost12sum accepted lists they could
 not read, and crashed on malformed ones

---
 gost12sum.c | 18 +++++++++++++-----
 gostsum.c   | 39 +++++++++++++++++++++++++++------------
 2 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/gost12sum.c b/gost12sum.c
index e644a61..9ad58e9 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -161,6 +161,15 @@ int main(int argc, char **argv)
                 failcount++;
             }
         }
+        if (ferror(check_file)) {
+            /* The rest of the list is not checked */
+            count++;
+            errors++;
+        }
+        if (count == 0) {
+            fprintf(stderr, "%s: no message digests to check\n", argv[0]);
+            exit(1);
+        }
         if (errors) {
             fprintf(stderr,
                     "%s: WARNING %d of %d file(s) cannot be processed\n",
@@ -180,9 +189,8 @@ int main(int argc, char **argv)
             if (!fgets(filename, PATH_MAX, stdin))
                 break;
             for (end = filename; *end; end++) ;
-            end--;
-            for (; *end == '\n' || *end == '\r'; end--)
-                *end = 0;
+            while (end > filename && (end[-1] == '\n' || end[-1] == '\r'))
+                *--end = 0;
             if (!hash_file(&ctx, filename, sum, open_mode, hashsize)) {
                 errors++;
             } else {
@@ -261,8 +269,8 @@ int get_line(FILE *f, char *hash, char *filename, int verbose, int *size)
             ptr++;
 
         len = strlen(ptr);
-        while (ptr[--len] == '\n' || ptr[len] == '\r')
-            ptr[len] = 0;
+        while (len > 0 && (ptr[len - 1] == '\n' || ptr[len - 1] == '\r'))
+            ptr[--len] = 0;
 
         if (len == 0)
             goto nextline;
diff --git a/gostsum.c b/gostsum.c
index b61215c..100a220 100644
--- a/gostsum.c
+++ b/gostsum.c
@@ -86,7 +86,7 @@ int main(int argc, char **argv)
     init_gost_hash_ctx(&ctx, b);
     if (check_file) {
         char inhash[65], calcsum[65], filename[PATH_MAX];
-        int failcount = 0, count = 0;
+        int failcount = 0, count = 0, rc;
         errors = 0;
         if (check_file == stdin && optind < argc) {
             check_file = fopen(argv[optind], "r");
@@ -95,7 +95,7 @@ int main(int argc, char **argv)
                 exit(2);
             }
         }
-        while (get_line(check_file, inhash, filename)) {
+        while ((rc = get_line(check_file, inhash, filename)) > 0) {
             count++;
             if (!hash_file(&ctx, filename, calcsum, open_mode)) {
                 errors++;
@@ -116,6 +116,15 @@ int main(int argc, char **argv)
                 failcount++;
             }
         }
+        if (rc < 0) {
+            /* The rest of the list is not checked */
+            count++;
+            errors++;
+        }
+        if (count == 0) {
+            fprintf(stderr, "%s: no message digests to check\n", argv[0]);
+            exit(1);
+        }
         if (errors) {
             fprintf(stderr,
                     "%s: WARNING %d of %d file(s) cannot be processed\n",
@@ -189,25 +198,31 @@ int hash_stream(gost_hash_ctx * ctx, int fd, char *sum)
     return 1;
 }
 
+/* Returns 1 on success, 0 at the end of the list, -1 if it is malformed */
 int get_line(FILE *f, char *hash, char *filename)
 {
-    int i;
-    if (fread(hash, 1, 64, f) < 64)
-        return 0;
-    hash[64] = 0;
+    int i, len;
+    len = fread(hash, 1, 64, f);
+    hash[len] = 0;
+    if (len < 64) {
+        if (!ferror(f) && len == (int)strspn(hash, " \r\n"))
+            return 0;
+        fprintf(stderr, "Malformed input line\n");
+        return -1;
+    }
     for (i = 0; i < 64; i++) {
         if (hash[i] < '0' || (hash[i] > '9' && hash[i] < 'A')
             || (hash[i] > 'F' && hash[i] < 'a') || hash[i] > 'f') {
             fprintf(stderr, "Not a hash value '%s'\n", hash);
-            return 0;
+            return -1;
         }
     }
-    if (fgetc(f) != ' ') {
+    if (fgetc(f) != ' ' || !fgets(filename, PATH_MAX, f)) {
         fprintf(stderr, "Malformed input line\n");
-        return 0;
+        return -1;
     }
-    i = strlen(fgets(filename, PATH_MAX, f));
-    while (filename[--i] == '\n' || filename[i] == '\r')
-        filename[i] = 0;
+    i = strlen(filename);
+    while (i > 0 && (filename[i - 1] == '\n' || filename[i - 1] == '\r'))
+        filename[--i] = 0;
     return 1;
 }
-- 
2.43.0


From edefd60c9b59c3ec1076c94178f2a34f57f37691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:40 +0000
Subject: [PATCH 57/68] fix: unloaded engine left its freed ciphers and digests
 in OpenSSL's name table

---
 gost_crypt.c |  9 +++++++++
 gost_md.c    | 11 +++++++++++
 2 files changed, 20 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index e8ec200..fec9d40 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -131,9 +131,18 @@ EVP_CIPHER *GOST_init_cipher(GOST_cipher *c)
     return c->cipher;
 }
 
+/* Drop a name that EVP_add_cipher() gave to the method */
+static void forget_cipher_name(const EVP_CIPHER *cipher, const char *name)
+{
+    if (name && OBJ_NAME_get(name, OBJ_NAME_TYPE_CIPHER_METH) == (const char *)cipher)
+        OBJ_NAME_remove(name, OBJ_NAME_TYPE_CIPHER_METH);
+}
+
 void GOST_deinit_cipher(GOST_cipher *c)
 {
     if (c->cipher) {
+        forget_cipher_name(c->cipher, OBJ_nid2sn(c->nid));
+        forget_cipher_name(c->cipher, OBJ_nid2ln(c->nid));
         EVP_CIPHER_meth_free(c->cipher);
         c->cipher = NULL;
     }
diff --git a/gost_md.c b/gost_md.c
index b8824eb..70eeb83 100644
--- a/gost_md.c
+++ b/gost_md.c
@@ -70,10 +70,21 @@ EVP_MD *GOST_init_digest(GOST_digest *d)
     return md;
 }
 
+/* Drop a name that EVP_add_digest() gave to the method */
+static void forget_digest_name(const EVP_MD *md, const char *name)
+{
+    if (name && OBJ_NAME_get(name, OBJ_NAME_TYPE_MD_METH) == (const char *)md)
+        OBJ_NAME_remove(name, OBJ_NAME_TYPE_MD_METH);
+}
+
 void GOST_deinit_digest(GOST_digest *d)
 {
     if (d->alias)
         EVP_delete_digest_alias(d->alias);
+    if (d->digest) {
+        forget_digest_name(d->digest, OBJ_nid2sn(d->nid));
+        forget_digest_name(d->digest, OBJ_nid2ln(d->nid));
+    }
     EVP_MD_meth_free(d->digest);
     d->digest = NULL;
 }
-- 
2.43.0


From d366a4ffeb79659cff02b85ec020341bb1be149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:40 +0000
Subject: [PATCH 58/68] fix: provider ciphers took no settings before or with
 their first initialisation

The inner context of a new provider context had no cipher, so that every
setting failed until a first initialisation; libcrypto makes one (the padding)
when a context with padding turned off is initialised for another cipher,
which was refused.  Parameters given with an initialisation were applied
before it and undone by it.
---
 gost_prov_cipher.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index ce9665e..50a4534 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -76,7 +76,14 @@ static GOST_CTX *cipher_newctx(void *provctx, GOST_cipher *descriptor,
         gctx->cipher = GOST_init_cipher(descriptor);
         gctx->cctx = EVP_CIPHER_CTX_new();
 
-        if (gctx->cipher == NULL || gctx->cctx == NULL) {
+        /*
+         * The inner context is bound to its cipher from the start, so that
+         * parameters can be set before the key is known.
+         */
+        if (gctx->cipher == NULL
+            || gctx->cctx == NULL
+            || EVP_CipherInit_ex(gctx->cctx, gctx->cipher, gctx->provctx->e,
+                                 NULL, NULL, 1) <= 0) {
             cipher_freectx(gctx);
             gctx = NULL;
         }
@@ -214,13 +221,13 @@ static int cipher_encrypt_init(void *vgctx,
 {
     GOST_CTX *gctx = vgctx;
 
-    if (!cipher_set_ctx_params(vgctx, params)
-        || keylen > EVP_CIPHER_key_length(gctx->cipher)
+    if (keylen > EVP_CIPHER_key_length(gctx->cipher)
         || ivlen > EVP_CIPHER_iv_length(gctx->cipher))
         return 0;
 
     return EVP_CipherInit_ex(gctx->cctx, gctx->cipher, gctx->provctx->e,
-                             key, iv, 1);
+                             key, iv, 1) > 0
+        && cipher_set_ctx_params(vgctx, params);
 }
 
 static int cipher_decrypt_init(void *vgctx,
@@ -230,12 +237,12 @@ static int cipher_decrypt_init(void *vgctx,
 {
     GOST_CTX *gctx = vgctx;
 
-    if (!cipher_set_ctx_params(vgctx, params)
-        || keylen > EVP_CIPHER_key_length(gctx->cipher)
+    if (keylen > EVP_CIPHER_key_length(gctx->cipher)
         || ivlen > EVP_CIPHER_iv_length(gctx->cipher))
         return 0;
     return EVP_CipherInit_ex(gctx->cctx, gctx->cipher, gctx->provctx->e,
-                             key, iv, 0) > 0;
+                             key, iv, 0) > 0
+        && cipher_set_ctx_params(vgctx, params);
 }
 
 static int cipher_update(void *vgctx,
-- 
2.43.0


From 2ba4388e84a921df11b736f7b6eda6104ec9f26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:12 +0000
Subject: [PATCH 59/68] fix: provider MAC contexts lost their settings and
 mixed messages

A duplicated context had the default size instead of the one set, and a failed
copy went unnoticed.  An initialisation without a key in the middle of a message
let the message go on, and failed after the end of one; one with a key refused
settings which need it (key-mesh).  A key of length 0 was taken for a structure
and read beyond its end.
---
 gost_prov_mac.c | 79 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 65 insertions(+), 14 deletions(-)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index ab04a9c..d7664bd 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -9,6 +9,7 @@
  **********************************************************************/
 
 #include <openssl/core.h>
+#include <limits.h>
 #include <openssl/core_dispatch.h>
 #include "gost_prov.h"
 #include "gost_lcl.h"
@@ -59,6 +60,12 @@ struct gost_prov_mac_ctx_st {
     EVP_MD *digest;
     /* The context for the EVP_MD functions */
     EVP_MD_CTX *dctx;
+
+    /* |dctx| as it was before the first data, for the next initialisation
+       without a key */
+    EVP_MD_CTX *kctx;
+    /* The state of |dctx|: data has been taken, or the MAC delivered */
+    int used, finished;
 };
 typedef struct gost_prov_mac_ctx_st GOST_CTX;
 
@@ -72,6 +79,7 @@ static void mac_freectx(void *vgctx)
      * GOST_prov_deinit_digests() (defined at the bottom of this file).
      */
     EVP_MD_CTX_free(gctx->dctx);
+    EVP_MD_CTX_free(gctx->kctx);
     OPENSSL_free(gctx);
 }
 
@@ -85,9 +93,11 @@ static GOST_CTX *mac_newctx(void *provctx, const GOST_DESC *descriptor)
         gctx->mac_size = descriptor->initial_mac_size;
         gctx->digest = GOST_init_digest(descriptor->digest_desc);
         gctx->dctx = EVP_MD_CTX_new();
+        gctx->kctx = EVP_MD_CTX_new();
 
         if (gctx->digest == NULL
             || gctx->dctx == NULL
+            || gctx->kctx == NULL
             || EVP_DigestInit_ex(gctx->dctx, gctx->digest,
                                  gctx->provctx->e) <= 0) {
             mac_freectx(gctx);
@@ -103,27 +113,70 @@ static void *mac_dupctx(void *vsrc)
     GOST_CTX *dst =
         mac_newctx(src->provctx, src->descriptor);
 
-    if (dst != NULL)
-        EVP_MD_CTX_copy(dst->dctx, src->dctx);
+    if (dst == NULL)
+        return NULL;
+    if ((!src->finished && EVP_MD_CTX_copy_ex(dst->dctx, src->dctx) <= 0)
+        || (src->used && EVP_MD_CTX_copy_ex(dst->kctx, src->kctx) <= 0)) {
+        mac_freectx(dst);
+        return NULL;
+    }
+    dst->mac_size = src->mac_size;
+    dst->xof_mode = src->xof_mode;
+    dst->used = src->used;
+    dst->finished = src->finished;
     return dst;
 }
 
+/* A new key makes a new start */
+static int mac_set_key(GOST_CTX *gctx, const unsigned char *key, size_t keylen)
+{
+    /* Length 0 means something else to the digests */
+    if (keylen == 0 || keylen > INT_MAX)
+        return 0;
+    gctx->used = gctx->finished = 0;
+    return EVP_MD_CTX_reset(gctx->dctx)
+        && EVP_DigestInit_ex(gctx->dctx, gctx->digest, gctx->provctx->e) > 0
+        && EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
+                           (int)keylen, (void *)key) > 0;
+}
+
+/* Another message with the same key */
+static int mac_restart(GOST_CTX *gctx)
+{
+    if (!gctx->used)
+        return 1;
+    if (EVP_MD_CTX_copy_ex(gctx->dctx, gctx->kctx) <= 0)
+        return 0;
+    gctx->used = gctx->finished = 0;
+    return 1;
+}
+
+/* To be called before data or the end */
+static int mac_use(GOST_CTX *gctx)
+{
+    if (gctx->finished)
+        return 0;
+    if (!gctx->used && EVP_MD_CTX_copy_ex(gctx->kctx, gctx->dctx) <= 0)
+        return 0;
+    gctx->used = 1;
+    return 1;
+}
+
 static int mac_init(void *mctx, const unsigned char *key,
                     size_t keylen, const OSSL_PARAM params[])
 {
     GOST_CTX *gctx = mctx;
 
-    return mac_set_ctx_params(gctx, params)
-        && (key == NULL
-            || EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
-                               (int)keylen, (void *)key) > 0);
+    return (key != NULL ? mac_set_key(gctx, key, keylen) : mac_restart(gctx))
+        && mac_set_ctx_params(gctx, params);
 }
 
 static int mac_update(void *mctx, const unsigned char *in, size_t inl)
 {
     GOST_CTX *gctx = mctx;
 
-    return EVP_DigestUpdate(gctx->dctx, in, inl) > 0;
+    return mac_use(gctx)
+        && EVP_DigestUpdate(gctx->dctx, in, inl) > 0;
 }
 
 static int mac_final(void *mctx, unsigned char *out, size_t *outl,
@@ -142,6 +195,9 @@ static int mac_final(void *mctx, unsigned char *out, size_t *outl,
     tmpoutl = *outl;
 
     if (out != NULL) {
+        if (!mac_use(gctx))
+            return 0;
+        gctx->finished = 1;
         /* We ignore the error for GOST MDs that don't support setting
            the size */
         EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_XOF_LEN, gctx->mac_size, NULL);
@@ -234,14 +290,9 @@ static int mac_set_ctx_params(void *mctx, const OSSL_PARAM params[])
     if ((p = OSSL_PARAM_locate_const(params, "key")) != NULL) {
         const unsigned char *key = NULL;
         size_t keylen = 0;
-        int ret;
-
-        if (!OSSL_PARAM_get_octet_string_ptr(p, (const void **)&key, &keylen))
-            return 0;
 
-        ret = EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
-                              (int)keylen, (void *)key);
-        if (ret <= 0 && ret != -2)
+        if (!OSSL_PARAM_get_octet_string_ptr(p, (const void **)&key, &keylen)
+            || !mac_set_key(gctx, key, keylen))
             return 0;
     }
     if ((p = OSSL_PARAM_locate_const(params, "xof")) != NULL
-- 
2.43.0


From 77a37dec4d2c1c5cd49c316bd1ee211bc89c577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:12 +0000
Subject: [PATCH 60/68] fix: provider MACs reported sizes they do not have

Any size was accepted, and the octets beyond the real MAC were reported as
delivered without having been written; a buffer shorter than the MAC was
overrun.
---
 gost_prov_mac.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index d7664bd..16acde8 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -195,13 +195,13 @@ static int mac_final(void *mctx, unsigned char *out, size_t *outl,
     tmpoutl = *outl;
 
     if (out != NULL) {
-        if (!mac_use(gctx))
+        if (outsize < gctx->mac_size
+            || !mac_use(gctx)
+            || EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_XOF_LEN,
+                               (int)gctx->mac_size, NULL) <= 0)
             return 0;
         gctx->finished = 1;
-        /* We ignore the error for GOST MDs that don't support setting
-           the size */
-        EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_XOF_LEN, gctx->mac_size, NULL);
-        ret = EVP_DigestFinal_ex(gctx->dctx, out, &tmpoutl);
+        ret = EVP_DigestFinal_ex(gctx->dctx, out, &tmpoutl) > 0;
     }
     if (outl != NULL)
         *outl = (size_t)gctx->mac_size;
@@ -284,9 +284,18 @@ static int mac_set_ctx_params(void *mctx, const OSSL_PARAM params[])
     GOST_CTX *gctx = mctx;
     const OSSL_PARAM *p = NULL;
 
-    if ((p = OSSL_PARAM_locate_const(params, "size")) != NULL
-        && !OSSL_PARAM_get_size_t(p, &gctx->mac_size))
-        return 0;
+    if ((p = OSSL_PARAM_locate_const(params, "size")) != NULL) {
+        /* All these MACs can be as long as a block of their cipher */
+        size_t max_size = gctx->descriptor->initial_mac_size < 8
+            ? 8 : gctx->descriptor->initial_mac_size;
+        size_t mac_size = 0;
+
+        if (!OSSL_PARAM_get_size_t(p, &mac_size)
+            || mac_size < 1
+            || mac_size > max_size)
+            return 0;
+        gctx->mac_size = mac_size;
+    }
     if ((p = OSSL_PARAM_locate_const(params, "key")) != NULL) {
         const unsigned char *key = NULL;
         size_t keylen = 0;
-- 
2.43.0


From d746589bb398885383dea75690d415e44686c197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:44 +0000
Subject: [PATCH 61/68] fix: provider ciphers wrote an address instead of their
 ASN.1 parameters

alg_id_param delivered the octets of the pointer, and what follows it on the
stack, instead of those it points to; and as the parameter was not announced,
libcrypto wrote and read a plain octet string in its place.
---
 gost_prov_cipher.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index 50a4534..80efa5b 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -21,6 +21,7 @@
  */
 static OSSL_FUNC_cipher_dupctx_fn cipher_dupctx;
 static OSSL_FUNC_cipher_freectx_fn cipher_freectx;
+static OSSL_FUNC_cipher_gettable_ctx_params_fn cipher_gettable_ctx_params;
 static OSSL_FUNC_cipher_get_ctx_params_fn cipher_get_ctx_params;
 static OSSL_FUNC_cipher_set_ctx_params_fn cipher_set_ctx_params;
 static OSSL_FUNC_cipher_encrypt_init_fn cipher_encrypt_init;
@@ -118,6 +119,25 @@ static int cipher_get_params(EVP_CIPHER *c, OSSL_PARAM params[])
     return 1;
 }
 
+/*
+ * libcrypto looks for "alg_id_param" here to know that the cipher has ASN.1
+ * parameters of its own.
+ */
+static const OSSL_PARAM *cipher_gettable_ctx_params(void *vgctx, void *provctx)
+{
+    static const OSSL_PARAM params[] = {
+        OSSL_PARAM_size_t("blocksize", NULL),
+        OSSL_PARAM_size_t("ivlen", NULL),
+        OSSL_PARAM_size_t("keylen", NULL),
+        OSSL_PARAM_octet_string("alg_id_param", NULL, 0),
+        OSSL_PARAM_octet_string("updated-iv", NULL, 0),
+        OSSL_PARAM_octet_string(OSSL_CIPHER_PARAM_AEAD_TAG, NULL, 0),
+        OSSL_PARAM_END
+    };
+
+    return params;
+}
+
 static int cipher_get_ctx_params(void *vgctx, OSSL_PARAM params[])
 {
     GOST_CTX *gctx = vgctx;
@@ -134,7 +154,7 @@ static int cipher_get_ctx_params(void *vgctx, OSSL_PARAM params[])
         ret = (algidparam = ASN1_TYPE_new()) != NULL
             && EVP_CIPHER_param_to_asn1(gctx->cctx, algidparam) > 0
             && (derlen = i2d_ASN1_TYPE(algidparam, &der)) >= 0
-            && OSSL_PARAM_set_octet_string(p, &der, (size_t)derlen);
+            && OSSL_PARAM_set_octet_string(p, der, (size_t)derlen);
 
         OPENSSL_free(der);
         ASN1_TYPE_free(algidparam);
@@ -309,6 +329,8 @@ typedef void (*fptr_t)(void);
         { OSSL_FUNC_CIPHER_NEWCTX, (fptr_t)name##_newctx },             \
         { OSSL_FUNC_CIPHER_DUPCTX, (fptr_t)cipher_dupctx },             \
         { OSSL_FUNC_CIPHER_FREECTX, (fptr_t)cipher_freectx },           \
+        { OSSL_FUNC_CIPHER_GETTABLE_CTX_PARAMS,                         \
+          (fptr_t)cipher_gettable_ctx_params },                         \
         { OSSL_FUNC_CIPHER_GET_CTX_PARAMS, (fptr_t)cipher_get_ctx_params }, \
         { OSSL_FUNC_CIPHER_SET_CTX_PARAMS, (fptr_t)cipher_set_ctx_params }, \
         { OSSL_FUNC_CIPHER_ENCRYPT_INIT, (fptr_t)cipher_encrypt_init }, \
-- 
2.43.0


From 6630fe07f428d940d666ac8c7f6af47a94d7517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:44 +0000
Subject: [PATCH 62/68] fix: provider contexts which could not be copied were
 passed off as copies

---
 gost_prov_cipher.c | 6 ++++--
 gost_prov_digest.c | 9 +++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index 80efa5b..6e0af7d 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -98,8 +98,10 @@ static void *cipher_dupctx(void *vsrc)
     GOST_CTX *dst =
         cipher_newctx(src->provctx, src->descriptor, src->known_params);
 
-    if (dst != NULL)
-        EVP_CIPHER_CTX_copy(dst->cctx, src->cctx);
+    if (dst != NULL && EVP_CIPHER_CTX_copy(dst->cctx, src->cctx) <= 0) {
+        cipher_freectx(dst);
+        dst = NULL;
+    }
     return dst;
 }
 
diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index 79eb5a3..38e933c 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -86,8 +86,13 @@ static void *digest_dupctx(void *vsrc)
     GOST_CTX *dst =
         digest_newctx(src->provctx, src->descriptor, src->known_params);
 
-    if (dst != NULL)
-        EVP_MD_CTX_copy(dst->dctx, src->dctx);
+    /* There is nothing to copy before the first initialisation */
+    if (dst != NULL
+        && EVP_MD_CTX_md(src->dctx) != NULL
+        && EVP_MD_CTX_copy(dst->dctx, src->dctx) <= 0) {
+        digest_freectx(dst);
+        dst = NULL;
+    }
     return dst;
 }
 
-- 
2.43.0


From f34f7ffba73669da36c4adc03d9e6a4f33da752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:45 +0000
Subject: [PATCH 63/68] fix: dispatch tables of provider digests and MACs had
 no end

---
 gost_prov_digest.c | 1 +
 gost_prov_mac.c    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index 38e933c..ada421b 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -165,6 +165,7 @@ typedef void (*fptr_t)(void);
         { OSSL_FUNC_DIGEST_INIT, (fptr_t)digest_init },                 \
         { OSSL_FUNC_DIGEST_UPDATE, (fptr_t)digest_update },             \
         { OSSL_FUNC_DIGEST_FINAL, (fptr_t)digest_final },               \
+        { 0, NULL },                                                    \
     }
 
 MAKE_FUNCTIONS(GostR3411_94_digest);
diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index 16acde8..08fb59d 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -380,6 +380,7 @@ typedef void (*fptr_t)(void);
         { OSSL_FUNC_MAC_SETTABLE_CTX_PARAMS,                            \
           (fptr_t)mac_settable_ctx_params },                            \
         { OSSL_FUNC_MAC_SET_CTX_PARAMS, (fptr_t)mac_set_ctx_params },   \
+        { 0, NULL },                                                    \
     }
 
 /*
-- 
2.43.0


From 1b01715e05735176964dbfc9f8a4d3aa2855d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:45 +0000
Subject: [PATCH 64/68] fix: provider digests cut the length of their input to
 an int

---
 gost_prov_digest.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index ada421b..9d30740 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -121,7 +121,7 @@ static int digest_update(void *vgctx, const unsigned char *in, size_t inl)
 {
     GOST_CTX *gctx = vgctx;
 
-    return EVP_DigestUpdate(gctx->dctx, in, (int)inl) > 0;
+    return EVP_DigestUpdate(gctx->dctx, in, inl) > 0;
 }
 
 static int digest_final(void *vgctx,
-- 
2.43.0


From 932b1ca8e0b9045cbc4a96c9cd28a58d065e8452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:32 +0000
Subject: [PATCH 65/68] fix: the provider crashed when it was loaded in two
 library contexts

Each of its contexts made an engine of its own from the same static
descriptors, and the first to go freed those of the others.  The engine is now
made by the first context and taken away by the last, and errors are reported
through a context that exists.
---
 gost_prov.c | 92 +++++++++++++++++++++++++++++++++++++++++++++--------
 gost_prov.h |  3 ++
 2 files changed, 81 insertions(+), 14 deletions(-)

diff --git a/gost_prov.c b/gost_prov.c
index eab5918..3a06955 100644
--- a/gost_prov.c
+++ b/gost_prov.c
@@ -26,14 +26,37 @@
  * Fortunately, the ERR_STRING_DATA structure is compatible with OSSL_ITEM,
  * so we can return it directly.
  */
-static struct proverr_functions_st *err_handle;
 #define GOST_PROV
 #include "e_gost_err.c"
+
+/*
+ * The algorithm descriptors, the engine which serves them and the way errors
+ * are reported are shared by all the provider contexts (there is one for each
+ * library context the provider is loaded in), and |prov_lock| protects them.
+ */
+static CRYPTO_ONCE prov_once = CRYPTO_ONCE_STATIC_INIT;
+static CRYPTO_RWLOCK *prov_lock;
+static PROV_CTX *prov_contexts;
+static ENGINE *prov_engine;
+
+static void prov_lock_init(void)
+{
+    prov_lock = CRYPTO_THREAD_lock_new();
+}
+
 void ERR_GOST_error(int function, int reason, char *file, int line)
 {
-    proverr_new_error(err_handle);
-    proverr_set_error_debug(err_handle, file, line, NULL);
-    proverr_set_error(err_handle, reason, NULL);
+    struct proverr_functions_st *err_handle;
+
+    if (!CRYPTO_THREAD_read_lock(prov_lock))
+        return;
+    if (prov_contexts != NULL) {
+        err_handle = prov_contexts->proverr_handle;
+        proverr_new_error(err_handle);
+        proverr_set_error_debug(err_handle, file, line, NULL);
+        proverr_set_error(err_handle, reason, NULL);
+    }
+    CRYPTO_THREAD_unlock(prov_lock);
 }
 
 /*********************************************************************
@@ -42,31 +65,75 @@ void ERR_GOST_error(int function, int reason, char *file, int line)
  *
  *****/
 
+extern int populate_gost_engine(ENGINE *e);
+
+/* The first context makes the engine */
+static int provider_ctx_link(PROV_CTX *ctx)
+{
+    int ret = 0;
+
+    if (!CRYPTO_THREAD_write_lock(prov_lock))
+        return 0;
+    if (prov_contexts == NULL
+        && ((prov_engine = ENGINE_new()) == NULL
+            || !populate_gost_engine(prov_engine))) {
+        ENGINE_free(prov_engine);
+        prov_engine = NULL;
+    } else {
+        ctx->e = prov_engine;
+        ctx->next = prov_contexts;
+        prov_contexts = ctx;
+        ret = 1;
+    }
+    CRYPTO_THREAD_unlock(prov_lock);
+    return ret;
+}
+
+/* The last context takes the engine and the descriptors away */
+static void provider_ctx_unlink(PROV_CTX *ctx)
+{
+    PROV_CTX **p;
+
+    if (ctx->e == NULL || !CRYPTO_THREAD_write_lock(prov_lock))
+        return;
+    for (p = &prov_contexts; *p != NULL; p = &(*p)->next)
+        if (*p == ctx) {
+            *p = ctx->next;
+            break;
+        }
+    if (prov_contexts == NULL) {
+        GOST_prov_deinit_ciphers();
+        GOST_prov_deinit_digests();
+        GOST_prov_deinit_mac_digests();
+        ENGINE_free(prov_engine);
+        prov_engine = NULL;
+    }
+    CRYPTO_THREAD_unlock(prov_lock);
+}
+
 static void provider_ctx_free(PROV_CTX *ctx)
 {
     if (ctx != NULL) {
-        ENGINE_free(ctx->e);
+        provider_ctx_unlink(ctx);
         proverr_free_handle(ctx->proverr_handle);
         OSSL_LIB_CTX_free(ctx->libctx);
     }
     OPENSSL_free(ctx);
 }
 
-extern int populate_gost_engine(ENGINE *e);
 static PROV_CTX *provider_ctx_new(const OSSL_CORE_HANDLE *core,
                                   const OSSL_DISPATCH *in)
 {
     PROV_CTX *ctx;
 
+    if (!CRYPTO_THREAD_run_once(&prov_once, prov_lock_init)
+        || prov_lock == NULL)
+        return NULL;
     if ((ctx = OPENSSL_zalloc(sizeof(*ctx))) != NULL
         && (ctx->proverr_handle = proverr_new_handle(core, in)) != NULL
         && (ctx->libctx = OSSL_LIB_CTX_new()) != NULL
-        && (ctx->e = ENGINE_new()) != NULL
-        && populate_gost_engine(ctx->e)) {
+        && provider_ctx_link(ctx)) {
         ctx->core_handle = core;
-
-        /* Ugly hack */
-        err_handle = ctx->proverr_handle;
     } else {
         provider_ctx_free(ctx);
         ctx = NULL;
@@ -123,9 +190,6 @@ static const OSSL_ITEM *gost_get_reason_strings(void *provctx)
 /* The function that tears down this provider */
 static void gost_teardown(void *vprovctx)
 {
-    GOST_prov_deinit_ciphers();
-    GOST_prov_deinit_digests();
-    GOST_prov_deinit_mac_digests();
     provider_ctx_free(vprovctx);
 }
 
diff --git a/gost_prov.h b/gost_prov.h
index c7f6e66..d72f195 100644
--- a/gost_prov.h
+++ b/gost_prov.h
@@ -23,5 +23,8 @@ struct provider_ctx_st {
      * to do this.
      */
     ENGINE *e;
+
+    /* The other provider contexts of this process */
+    struct provider_ctx_st *next;
 };
 typedef struct provider_ctx_st PROV_CTX;
-- 
2.43.0


From 01574b2ffb4f7cc60384ca0c89783184eed49ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:05 +0000
Subject: [PATCH 66/68] fix: provider crashed when a MAC context could not be
 made

EVP_MAC_CTX_new() passes what mac_newctx() returned to mac_freectx(),
NULL included.
---
 gost_prov_mac.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index 08fb59d..1fc1b8f 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -73,6 +73,10 @@ static void mac_freectx(void *vgctx)
 {
     GOST_CTX *gctx = vgctx;
 
+    /* libcrypto gives us what mac_newctx() returned, even if that is NULL */
+    if (gctx == NULL)
+        return;
+
     /*
      * We don't free gctx->digest here.
      * That will be done by the provider teardown, via
-- 
2.43.0


From 285a567882e295c56fabcc630b53721237238d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:49 +0000
Subject: [PATCH 67/68] fix: threads of the provider raced for its cipher and
 digest descriptors

Descriptors were made on first use, without a lock: threads which began
at once each made one, and lost all but one of them.
---
 gost_lcl.h         |  3 +++
 gost_prov.c        | 28 ++++++++++++++++----------
 gost_prov_cipher.c | 50 +++++++++++++++++++++++++++-------------------
 gost_prov_digest.c | 22 ++++++++++++++------
 gost_prov_mac.c    | 26 ++++++++++++++++--------
 5 files changed, 84 insertions(+), 45 deletions(-)

diff --git a/gost_lcl.h b/gost_lcl.h
index a69af79..81aeae8 100644
--- a/gost_lcl.h
+++ b/gost_lcl.h
@@ -57,6 +57,7 @@ void gost_param_free(void);
 
 /* Provider implementation data */
 extern const OSSL_ALGORITHM GOST_prov_macs[];
+int GOST_prov_init_mac_digests(void);
 void GOST_prov_deinit_mac_digests(void);
 
 int register_ameth_gost(int nid, EVP_PKEY_ASN1_METHOD **ameth,
@@ -367,6 +368,7 @@ extern GOST_cipher kuznyechik_kexp15_cipher;
 
 /* Provider implementation data */
 extern const OSSL_ALGORITHM GOST_prov_ciphers[];
+int GOST_prov_init_ciphers(void);
 void GOST_prov_deinit_ciphers(void);
 
 struct gost_digest_st {
@@ -402,6 +404,7 @@ extern GOST_digest kuznyechik_ctracpkm_omac_digest;
 
 /* Provider implementation data */
 extern const OSSL_ALGORITHM GOST_prov_digests[];
+int GOST_prov_init_digests(void);
 void GOST_prov_deinit_digests(void);
 
 /* job to initialize a missing NID */
diff --git a/gost_prov.c b/gost_prov.c
index 3a06955..5e8e531 100644
--- a/gost_prov.c
+++ b/gost_prov.c
@@ -67,7 +67,16 @@ void ERR_GOST_error(int function, int reason, char *file, int line)
 
 extern int populate_gost_engine(ENGINE *e);
 
-/* The first context makes the engine */
+static void prov_shared_free(void)
+{
+    GOST_prov_deinit_ciphers();
+    GOST_prov_deinit_digests();
+    GOST_prov_deinit_mac_digests();
+    ENGINE_free(prov_engine);
+    prov_engine = NULL;
+}
+
+/* The first context makes the engine and the descriptors */
 static int provider_ctx_link(PROV_CTX *ctx)
 {
     int ret = 0;
@@ -76,9 +85,11 @@ static int provider_ctx_link(PROV_CTX *ctx)
         return 0;
     if (prov_contexts == NULL
         && ((prov_engine = ENGINE_new()) == NULL
-            || !populate_gost_engine(prov_engine))) {
-        ENGINE_free(prov_engine);
-        prov_engine = NULL;
+            || !populate_gost_engine(prov_engine)
+            || !GOST_prov_init_ciphers()
+            || !GOST_prov_init_digests()
+            || !GOST_prov_init_mac_digests())) {
+        prov_shared_free();
     } else {
         ctx->e = prov_engine;
         ctx->next = prov_contexts;
@@ -101,13 +112,8 @@ static void provider_ctx_unlink(PROV_CTX *ctx)
             *p = ctx->next;
             break;
         }
-    if (prov_contexts == NULL) {
-        GOST_prov_deinit_ciphers();
-        GOST_prov_deinit_digests();
-        GOST_prov_deinit_mac_digests();
-        ENGINE_free(prov_engine);
-        prov_engine = NULL;
-    }
+    if (prov_contexts == NULL)
+        prov_shared_free();
     CRYPTO_THREAD_unlock(prov_lock);
 }
 
diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index 6e0af7d..3569b06 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -393,28 +393,38 @@ const OSSL_ALGORITHM GOST_prov_ciphers[] = {
     { NULL , NULL, NULL }
 };
 
+static GOST_cipher *list[] = {
+    &Gost28147_89_cipher,
+    &Gost28147_89_cnt_cipher,
+    &Gost28147_89_cnt_12_cipher,
+    &Gost28147_89_cbc_cipher,
+    &grasshopper_ecb_cipher,
+    &grasshopper_cbc_cipher,
+    &grasshopper_cfb_cipher,
+    &grasshopper_ofb_cipher,
+    &grasshopper_ctr_cipher,
+    &magma_cbc_cipher,
+    &magma_ctr_cipher,
+    &magma_ctr_acpkm_cipher,
+    &magma_ctr_acpkm_omac_cipher,
+    &magma_mgm_cipher,
+    &grasshopper_ctr_acpkm_cipher,
+    &grasshopper_ctr_acpkm_omac_cipher,
+    &grasshopper_mgm_cipher,
+};
+#define elems(l) (sizeof(l) / sizeof(l[0]))
+
+int GOST_prov_init_ciphers(void) {
+    size_t i;
+
+    for (i = 0; i < elems(list); i++)
+        if (GOST_init_cipher(list[i]) == NULL)
+            return 0;
+    return 1;
+}
+
 void GOST_prov_deinit_ciphers(void) {
-    static GOST_cipher *list[] = {
-        &Gost28147_89_cipher,
-        &Gost28147_89_cnt_cipher,
-        &Gost28147_89_cnt_12_cipher,
-        &Gost28147_89_cbc_cipher,
-        &grasshopper_ecb_cipher,
-        &grasshopper_cbc_cipher,
-        &grasshopper_cfb_cipher,
-        &grasshopper_ofb_cipher,
-        &grasshopper_ctr_cipher,
-        &magma_cbc_cipher,
-        &magma_ctr_cipher,
-        &magma_ctr_acpkm_cipher,
-        &magma_ctr_acpkm_omac_cipher,
-        &magma_mgm_cipher,
-        &grasshopper_ctr_acpkm_cipher,
-        &grasshopper_ctr_acpkm_omac_cipher,
-        &grasshopper_mgm_cipher,
-    };
     size_t i;
-#define elems(l) (sizeof(l) / sizeof(l[0]))
 
     for (i = 0; i < elems(list); i++)
         GOST_deinit_cipher(list[i]);
diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index 9d30740..b7fd2be 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -192,14 +192,24 @@ const OSSL_ALGORITHM GOST_prov_digests[] = {
     { NULL , NULL, NULL }
 };
 
+static GOST_digest *list[] = {
+    &GostR3411_94_digest,
+    &GostR3411_2012_256_digest,
+    &GostR3411_2012_512_digest,
+};
+#define elems(l) (sizeof(l) / sizeof(l[0]))
+
+int GOST_prov_init_digests(void) {
+    size_t i;
+
+    for (i = 0; i < elems(list); i++)
+        if (GOST_init_digest(list[i]) == NULL)
+            return 0;
+    return 1;
+}
+
 void GOST_prov_deinit_digests(void) {
-    static GOST_digest *list[] = {
-        &GostR3411_94_digest,
-        &GostR3411_2012_256_digest,
-        &GostR3411_2012_512_digest,
-    };
     size_t i;
-#define elems(l) (sizeof(l) / sizeof(l[0]))
 
     for (i = 0; i < elems(list); i++)
         GOST_deinit_digest(list[i]);
diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index 1fc1b8f..dd24f6e 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -410,16 +410,26 @@ const OSSL_ALGORITHM GOST_prov_macs[] = {
     { NULL , NULL, NULL }
 };
 
+static GOST_digest *list[] = {
+    &Gost28147_89_MAC_digest,
+    &Gost28147_89_mac_12_digest,
+    &magma_mac_digest,
+    &grasshopper_mac_digest,
+    &kuznyechik_ctracpkm_omac_digest
+};
+#define elems(l) (sizeof(l) / sizeof(l[0]))
+
+int GOST_prov_init_mac_digests(void) {
+    size_t i;
+
+    for (i = 0; i < elems(list); i++)
+        if (GOST_init_digest(list[i]) == NULL)
+            return 0;
+    return 1;
+}
+
 void GOST_prov_deinit_mac_digests(void) {
-    static GOST_digest *list[] = {
-        &Gost28147_89_MAC_digest,
-        &Gost28147_89_mac_12_digest,
-        &magma_mac_digest,
-        &grasshopper_mac_digest,
-        &kuznyechik_ctracpkm_omac_digest
-    };
     size_t i;
-#define elems(l) (sizeof(l) / sizeof(l[0]))
 
     for (i = 0; i < elems(list); i++)
         GOST_deinit_digest(list[i]);
-- 
2.43.0


From 6ef5501a1595b96acb0de076d196fbd89ad29058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:32 +0000
Subject: [PATCH 68/68] fix: MGM accepted 2^(n/2) bits of data, whose length is
 encoded as zero

RFC 9058 limits the data and additional data of a message to less than
2^(n/2) bits, as the comments here say.  With Magma exactly 2^29 octets were
accepted, and the 32-bit length field of the last block wrapped to zero, so
that the tag no longer covered the length.
---
 gost_gost2015.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 07235bc..2e87d61 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -266,7 +266,7 @@ int gost_mgm128_aad(mgm128_context *ctx, const unsigned char *aad,
     }
 
     alen += len;
-    if (alen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||      // < 2^(n/2)  (len stores in bytes)
+    if (alen >= ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||      // < 2^(n/2)  (len stores in bytes)
         (sizeof(len) == 8 && alen < len)) {
             GOSTerr(GOST_F_GOST_MGM128_AAD,
                     GOST_R_DATA_TOO_LARGE);
@@ -335,9 +335,9 @@ int gost_mgm128_encrypt(mgm128_context *ctx, const unsigned char *in,
 
     mlen += len;
 
-    if (mlen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
+    if (mlen >= ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
         (sizeof(len) == 8 && mlen < len) ||
-        (mlen + alen) > ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
+        (mlen + alen) >= ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
             GOSTerr(GOST_F_GOST_MGM128_ENCRYPT,
                     GOST_R_DATA_TOO_LARGE);
             return -1;
@@ -402,9 +402,9 @@ int gost_mgm128_decrypt(mgm128_context *ctx, const unsigned char *in,
     }
 
     mlen += len;
-    if (mlen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
+    if (mlen >= ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
         (sizeof(len) == 8 && mlen < len) ||
-        (mlen + alen) > ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
+        (mlen + alen) >= ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
             GOSTerr(GOST_F_GOST_MGM128_DECRYPT,
                     GOST_R_DATA_TOO_LARGE);
             return -1;
-- 
2.43.0

