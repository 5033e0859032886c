From 5462c5f2e88df8e31a925d715a99d1dd253e0938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:46 +0000
Subject: [PATCH 01/41] fix: accept an empty cipher update with a non-NULL
 input pointer

---
 engine/cipher.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/cipher.c b/engine/cipher.c
index 7f145aa..7f50493 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -57,10 +57,10 @@ static int dstu_cipher_do_cipher(EVP_CIPHER_CTX *ctx, unsigned char *out,
     unsigned char *buf = EVP_CIPHER_CTX_buf_noconst(ctx);
     unsigned char *iv = EVP_CIPHER_CTX_iv_noconst(ctx);
 
-    if ((!inl) && (!in))
+    if (!inl)
         return 0;
 
-    if ((!inl) || (!in))
+    if (!in)
         return -1;
 
     if (num)
-- 
2.43.0


From a2577e919ba8cf138fff7bc7af7a3254455581b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:47 +0000
Subject: [PATCH 02/41] fix: honour key, IV and s-box supplied to the cipher in
 separate steps

A key-only initialisation left the gamma computed with the previous key and
discarded the s-box taken from the algorithm parameters (PBES2 sets the
parameters first and the key afterwards); an s-box set in the middle of a
block kept the position inside the old gamma.
---
 engine/cipher.c | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/engine/cipher.c b/engine/cipher.c
index 7f50493..974bb06 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -23,26 +23,46 @@
 /* 2 bytes for sequence header, 2 bytes for each octet string header and 8 bytes for iv and 64 bytes for dke. Total 78 < 128 so we are ok with 1 byte length */
 #define DSTU_CIPHER_ASN1_PARAM_SIZE (2 + 2 + DSTU_CIPHER_BLOCK_SIZE + 2 + sizeof(default_sbox))
 
+/* The callbacks access cipher data as gost_ctx, so it has to be the first field */
+struct dstu_cipher_ctx
+{
+    gost_ctx gctx;
+    int sbox_set;
+};
+
+/* Start over from the original IV with the current key and s-box */
+static void dstu_cipher_restart(EVP_CIPHER_CTX *ctx)
+{
+    gost_ctx *gctx = EVP_CIPHER_CTX_get_cipher_data(ctx);
+
+    memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), EVP_CIPHER_CTX_original_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);
+    gostcrypt(gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
+    EVP_CIPHER_CTX_set_num(ctx, 0);
+}
+
+/* Key and IV may be supplied by separate calls (PBES2 does it), possibly with an s-box set in between */
 static int dstu_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                             const unsigned char *iv, int enc)
 {
     (void) enc; // Unused
     gost_subst_block sbox;
-    gost_ctx *gctx = EVP_CIPHER_CTX_get_cipher_data(ctx);
+    struct dstu_cipher_ctx *cctx = EVP_CIPHER_CTX_get_cipher_data(ctx);
 
-    unpack_sbox(default_sbox, &sbox);
-    gost_init(gctx, &sbox);
+    /* Full initialization starts from scratch, partial one keeps the s-box */
+    if ((key && iv) || !cctx->sbox_set)
+    {
+        unpack_sbox(default_sbox, &sbox);
+        gost_init(&(cctx->gctx), &sbox);
+        cctx->sbox_set = 1;
+    }
 
     if (key)
-        gost_key(gctx, key);
+        gost_key(&(cctx->gctx), key);
 
     if (iv)
-    {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv, DSTU_CIPHER_BLOCK_SIZE);
-        memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), iv, DSTU_CIPHER_BLOCK_SIZE);
-        gostcrypt(gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
-        EVP_CIPHER_CTX_set_num(ctx, 0);
-    }
+
+    dstu_cipher_restart(ctx);
 
     return 1;
 }
@@ -160,8 +180,7 @@ static int dstu_cipher_ctrl(EVP_CIPHER_CTX *ctx, int cmd, int p1, void *p2)
                 return 0;
             unpack_sbox((unsigned char *) p2, &sbox);
             gost_init(gctx, &sbox);
-            memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), EVP_CIPHER_CTX_original_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);
-            gostcrypt(gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
+            dstu_cipher_restart(ctx);
             return 1;
         case EVP_CTRL_PBE_PRF_NID:
             if (!p2)
@@ -238,7 +257,7 @@ EVP_CIPHER *dstu_cipher_new()
         !EVP_CIPHER_meth_set_init(res, dstu_cipher_init) ||
         !EVP_CIPHER_meth_set_do_cipher(res, dstu_cipher_do_cipher) ||
         !EVP_CIPHER_meth_set_cleanup(res, dstu_cipher_cleanup) ||
-        !EVP_CIPHER_meth_set_impl_ctx_size(res, sizeof(gost_ctx)) ||
+        !EVP_CIPHER_meth_set_impl_ctx_size(res, sizeof(struct dstu_cipher_ctx)) ||
         !EVP_CIPHER_meth_set_set_asn1_params(res, dstu_cipher_set_asn1_parameters) ||
         !EVP_CIPHER_meth_set_get_asn1_params(res, dstu_cipher_get_asn1_parameters) ||
         !EVP_CIPHER_meth_set_ctrl(res, dstu_cipher_ctrl))
-- 
2.43.0


From 5484a560219c6eed452232f10b0802eef937946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:09 +0000
Subject: [PATCH 03/41] fix: mask the last partial byte of a MAC whose size is
 not a whole number of bytes

---
 dstulib/gost/gost89.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dstulib/gost/gost89.c b/dstulib/gost/gost89.c
index 337204b..487f78b 100644
--- a/dstulib/gost/gost89.c
+++ b/dstulib/gost/gost89.c
@@ -575,7 +575,7 @@ void get_mac(byte * buffer, int nbits, byte * out)
 {
     int nbytes = nbits >> 3;
     int rembits = nbits & 7;
-    int mask = rembits ? ((1 < rembits) - 1) : 0;
+    int mask = rembits ? ((1 << rembits) - 1) : 0;
     int i;
     for (i = 0; i < nbytes; i++)
         out[i] = buffer[i];
-- 
2.43.0


From cb72f3f67c38f64482b01339708432209ba34734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:11 +0000
Subject: [PATCH 04/41] fix: draw another nonce when the random nonce of a
 signature is zero

EC_POINT_get_affine_coordinates() fails on the point at infinity, so signing
failed instead of drawing a new nonce.
---
 engine/sign.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/engine/sign.c b/engine/sign.c
index fd20c35..105e989 100644
--- a/engine/sign.c
+++ b/engine/sign.c
@@ -111,8 +111,12 @@ int dstu_do_sign(const EC_KEY* key, const unsigned char *tbs, size_t tbslen,
         {
             do
             {
-                if (!BN_rand_range(e, n))
-                    goto err;
+                do
+                {
+                    if (!BN_rand_range(e, n))
+                        goto err;
+                }
+                while (BN_is_zero(e));
 
                 if (!EC_POINT_mul(group, eG, e, NULL, NULL, ctx))
                     goto err;
-- 
2.43.0


From 8c77f3f39bdb8ed3f89ece184affc21a409b26d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:05 +0000
Subject: [PATCH 05/41] fix: treat a hash that is zero in the field as one, as
 the standard says

The check was made before the hash was cut down to the field size, so a hash
whose low bits are all zero made signing loop forever (r is always zero) and
no signature of it could verify.
---
 engine/sign.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/engine/sign.c b/engine/sign.c
index 105e989..cf05956 100644
--- a/engine/sign.c
+++ b/engine/sign.c
@@ -42,10 +42,13 @@ static int hash_to_field(const unsigned char *hash, int hash_len, BIGNUM *fe,
     }
 
     OPENSSL_free(h);
+    if (!bn_truncate_bits(fe, fieldsize))
+        return 0;
+
     if (BN_is_zero(fe))
-        BN_one(fe);
+        return BN_one(fe);
 
-    return bn_truncate_bits(fe, fieldsize);
+    return 1;
 }
 
 static int field_to_bn(BIGNUM *fe, const BIGNUM *order)
-- 
2.43.0


From 1fe7f40b51d10183aa174ad880526b32fcdaa12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:38 +0000
Subject: [PATCH 06/41] fix: do not mistake a raw signature for a DER encoded
 one

A raw signature starting with bytes that decode as a short OCTET STRING was
taken for its contents and rejected, and bytes after a DER encoded signature
were ignored.
---
 engine/pmeth.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engine/pmeth.c b/engine/pmeth.c
index 0c0592f..ad02b89 100644
--- a/engine/pmeth.c
+++ b/engine/pmeth.c
@@ -322,6 +322,7 @@ static int dstu_pkey_verify(EVP_PKEY_CTX *ctx, const unsigned char *sig,
     size_t field_size = 0;
     int ret = 0;
     unsigned char *sig_be;
+    const unsigned char *der_end = sig;
     ASN1_OCTET_STRING *dstu_sig = NULL;
     BIGNUM *n = NULL;
 
@@ -357,7 +358,11 @@ static int dstu_pkey_verify(EVP_PKEY_CTX *ctx, const unsigned char *sig,
 
     field_size = BN_num_bytes(n);
 
-    if (d2i_ASN1_OCTET_STRING(&dstu_sig, &sig, siglen))
+    /* A raw signature may happen to begin like a DER encoding,
+     * so the encoding has to span the whole input and be long enough */
+    if (d2i_ASN1_OCTET_STRING(&dstu_sig, &der_end, siglen)
+        && der_end == sig + siglen
+        && (size_t) ASN1_STRING_length(dstu_sig) >= 2 * field_size)
     {
         sig = ASN1_STRING_get0_data(dstu_sig);
         siglen = ASN1_STRING_length(dstu_sig);
-- 
2.43.0


From 50900555015cb2c2757e4fe4123685785afff7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:50 +0000
Subject: [PATCH 07/41] fix: do not crash comparing keys without a public point

EVP_PKEY_eq() passed NULL points of parameter-only keys to EC_POINT_cmp().
---
 engine/ameth.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index d4b74cd..33c536e 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -636,6 +636,9 @@ static int dstu_asn1_pub_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
     if (!first || !second)
         return -2;
 
+    if (!EC_KEY_get0_public_key(first->ec) || !EC_KEY_get0_public_key(second->ec))
+        return -2;
+
     /* We do not compare sboxes here because it will be done in params_cmp by EVP API */
 
     if (EC_POINT_cmp(EC_KEY_get0_group(first->ec),
-- 
2.43.0


From 37f3697bae913d7811a142fb48e14b334cc04d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:28 +0000
Subject: [PATCH 08/41] fix: compare keys by the s-box they use

A key generated with the default s-box set explicitly was reported to differ
from the same key read back from its own encoding, which omits it.
---
 engine/ameth.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index 33c536e..4c9b5f3 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -135,20 +135,17 @@ static int dstu_asn1_param_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
 {
     DSTU_KEY *first = EVP_PKEY_get0(a);
     DSTU_KEY *second = EVP_PKEY_get0(b);
+    const unsigned char *first_sbox, *second_sbox;
 
     if (!first || !second)
         return -2;
 
-    if (first->sbox != second->sbox)
-    {
-        if (first->sbox && second->sbox)
-        {
-            if (memcmp(first->sbox, second->sbox, sizeof(default_sbox)))
-                return 0;
-        }
-        else
-            return 0;
-    }
+    /* Absent sbox means the default one */
+    first_sbox = first->sbox ? first->sbox : default_sbox;
+    second_sbox = second->sbox ? second->sbox : default_sbox;
+
+    if (memcmp(first_sbox, second_sbox, sizeof(default_sbox)))
+        return 0;
 
     if (EC_GROUP_cmp(EC_KEY_get0_group(first->ec),
                      EC_KEY_get0_group(second->ec), NULL))
-- 
2.43.0


From a3a2a8ec77c9d9fdc70bb960cf786d89ebeb6774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:28 +0000
Subject: [PATCH 09/41] fix: free the encoded parameters when a private key
 cannot be encoded

---
 engine/ameth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index 4c9b5f3..f66ccaa 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -328,6 +328,7 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     reverse_bytes(prk_encoded, prk_encoded_bytes);
 
     ASN1_STRING_set0(params, encoded_params, encoded_params_bytes);
+    encoded_params = NULL;
 
     if (PKCS8_pkey_set0(p8, OBJ_nid2obj(algnid), 0, V_ASN1_SEQUENCE, params,
                         prk_encoded, prk_encoded_bytes))
@@ -343,6 +344,9 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
 
     err:
 
+    if (encoded_params)
+        OPENSSL_free(encoded_params);
+
     if (prk_encoded)
         OPENSSL_free(prk_encoded);
 
-- 
2.43.0


From 2281ee56064d963e531daba4f0a7c99f6b3ab4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:28 +0000
Subject: [PATCH 10/41] fix: report missing parameters so that they can be
 copied

Without this callback every key is taken to have parameters, so
EVP_PKEY_copy_parameters() to a key without any always failed.
---
 engine/ameth.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index f66ccaa..0a975a6 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -88,6 +88,13 @@ static int dstu_asn1_param_encode(const EVP_PKEY *pkey, unsigned char **pder)
     return bytes_encoded;
 }
 
+static int dstu_asn1_param_missing(const EVP_PKEY *pkey)
+{
+    const DSTU_KEY *key = EVP_PKEY_get0(pkey);
+
+    return !key || !EC_KEY_get0_group(key->ec);
+}
+
 static int dstu_asn1_param_copy(EVP_PKEY *to, const EVP_PKEY *from)
 {
     DSTU_KEY *to_key = EVP_PKEY_get0(to);
@@ -740,7 +747,7 @@ EVP_PKEY_ASN1_METHOD *dstu_asn1_meth_new(int nid)
         return NULL;
 
     EVP_PKEY_asn1_set_param(res, dstu_asn1_param_decode,
-                            dstu_asn1_param_encode, /*dstu_asn1_param_missing*/NULL,
+                            dstu_asn1_param_encode, dstu_asn1_param_missing,
                             dstu_asn1_param_copy, dstu_asn1_param_cmp, dstu_asn1_param_print);
     EVP_PKEY_asn1_set_private(res, dstu_asn1_priv_decode,
                               dstu_asn1_priv_encode, dstu_asn1_priv_print);
-- 
2.43.0


From e6e3e79bfb2f1d8618f1c3b338e30547e9ad8be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:23 +0000
Subject: [PATCH 11/41] fix: check the degrees of a custom curve's field
 polynomial

The numbers were cut to 32 bits, the exponents were not required to be below
the degree, and a huge degree made decoding a key take forever.
---
 dstulib/key.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/dstulib/key.c b/dstulib/key.c
index aef4155..12df6b6 100644
--- a/dstulib/key.c
+++ b/dstulib/key.c
@@ -218,6 +218,17 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
     return ret;
 }
 
+/* The same limit OpenSSL puts on explicit curve parameters */
+#define MAX_FIELD_DEGREE 661
+
+/* Returns the value if it is in 1..limit-1, otherwise 0 */
+static int get_degree(const ASN1_INTEGER *value, int limit)
+{
+    long degree = ASN1_INTEGER_get(value);
+
+    return (degree > 0 && degree < limit) ? (int) degree : 0;
+}
+
 EC_GROUP *group_from_asn1(const DSTU_CustomCurveSpec* spec, int is_little_endian)
 {
     BIGNUM *p, *a, *b, *N;
@@ -228,13 +239,13 @@ EC_GROUP *group_from_asn1(const DSTU_CustomCurveSpec* spec, int is_little_endian
     int poly[6];
     unsigned char *reverse_buffer = NULL;
 
-    poly[0] = ASN1_INTEGER_get(spec->field->m);
+    poly[0] = get_degree(spec->field->m, MAX_FIELD_DEGREE + 1);
     if (poly[0] <= 0)
         goto err;
 
     if (DSTU_TRINOMIAL == spec->field->poly->type)
     {
-        poly[1] = ASN1_INTEGER_get(spec->field->poly->poly.k);
+        poly[1] = get_degree(spec->field->poly->poly.k, poly[0]);
         if (poly[1] <= 0)
             goto err;
         poly[2] = 0;
@@ -242,15 +253,15 @@ EC_GROUP *group_from_asn1(const DSTU_CustomCurveSpec* spec, int is_little_endian
     }
     else
     {
-        poly[1] = ASN1_INTEGER_get(spec->field->poly->poly.pentanomial->l);
+        poly[1] = get_degree(spec->field->poly->poly.pentanomial->l, poly[0]);
         if (poly[1] <= 0)
             goto err;
 
-        poly[2] = ASN1_INTEGER_get(spec->field->poly->poly.pentanomial->j);
+        poly[2] = get_degree(spec->field->poly->poly.pentanomial->j, poly[0]);
         if (poly[2] <= 0)
             goto err;
 
-        poly[3] = ASN1_INTEGER_get(spec->field->poly->poly.pentanomial->k);
+        poly[3] = get_degree(spec->field->poly->poly.pentanomial->k, poly[0]);
         if (poly[3] <= 0)
             goto err;
 
-- 
2.43.0


From d0a886982eedc1073312a5610d045ad1de36208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:21 +0000
Subject: [PATCH 12/41] fix: reject an s-box string followed by other
 characters

---
 engine/pmeth.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine/pmeth.c b/engine/pmeth.c
index ad02b89..3af4eca 100644
--- a/engine/pmeth.c
+++ b/engine/pmeth.c
@@ -204,7 +204,9 @@ static int dstu_pkey_ctrl_str(EVP_PKEY_CTX *ctx, const char *type,
         if (!tmp)
             return 0;
 
-        if ((sizeof(default_sbox) * 2) != BN_hex2bn(&tmp, value))
+        /* BN_hex2bn stops at the first character which is not a hex digit */
+        if (((sizeof(default_sbox) * 2) != BN_hex2bn(&tmp, value)) ||
+            ((sizeof(default_sbox) * 2) != strlen(value)))
         {
             BN_free(tmp);
             return 0;
-- 
2.43.0


From edfcaa2dd92f979659caf681d70222bc1ac4c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:13 +0000
Subject: [PATCH 13/41] fix: keep the random generator usable after its cleanup

---
 engine/rbg.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/rbg.c b/engine/rbg.c
index f7912a0..eee2cd0 100644
--- a/engine/rbg.c
+++ b/engine/rbg.c
@@ -159,7 +159,11 @@ static void dstu_rbg_cleanup(void)
     initialized = 0;
 
     dstu_unlock();
+
+    /* The lock is created again if the generator is used after cleanup */
     CRYPTO_THREAD_lock_free(dstu_rand_lock);
+    dstu_rand_lock = NULL;
+    rand_lock_init = CRYPTO_ONCE_STATIC_INIT;
 }
 
 RAND_METHOD dstu_rand_meth =
-- 
2.43.0


From 7a16e421cd3a76f414797334de0e96ce10abe707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:40 +0000
Subject: [PATCH 14/41] fix: check the bounds of a Java key store while parsing
 it

---
 keylib/jks.c | 84 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 62 insertions(+), 22 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index 3d1dd86..a550c00 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -47,6 +47,12 @@ static uint32_t read32(const void* base, size_t shift)
     return res;
 }
 
+/* Checks that at least 'size' bytes are left before the end of the container */
+static int has(const void* data, const void* end, size_t size)
+{
+    return (size_t)((const unsigned char*)end - (const unsigned char*)data) >= size;
+}
+
 static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize)
 {
     size_t resSize = size * 2;
@@ -141,13 +147,23 @@ static int whiteHash(const void* d1, size_t ds1, const void* d2, size_t ds2, voi
     return ok;
 }
 
-static const void* parseCert(const void* data, KeyStore* ks, size_t* certPos)
+static const void* parseCert(const void* data, const void* end, KeyStore* ks, size_t* certPos)
 {
-    uint16_t typeLength = ntohs(read16(data, 0));
-    uint32_t dataLength = ntohl(read32(data, sizeof(typeLength) + typeLength));
-    const unsigned char* dataPtr = ptrAt(data, sizeof(typeLength) + typeLength + sizeof(dataLength));
+    uint16_t typeLength = 0;
+    uint32_t dataLength = 0;
+    const unsigned char* dataPtr = NULL;
     X509* x509 = NULL;
 
+    if (!has(data, end, sizeof(typeLength)))
+        return NULL;
+    typeLength = ntohs(read16(data, 0));
+    if (!has(data, end, sizeof(typeLength) + typeLength + sizeof(dataLength)))
+        return NULL;
+    dataLength = ntohl(read32(data, sizeof(typeLength) + typeLength));
+    dataPtr = ptrAt(data, sizeof(typeLength) + typeLength + sizeof(dataLength));
+    if (!has(dataPtr, end, dataLength))
+        return NULL;
+
     x509 = d2i_X509(NULL, &dataPtr, dataLength);
     if (x509 == NULL)
         return NULL;
@@ -169,7 +185,7 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
 {
     const size_t saltLength = 20;
     const size_t digestLength = 20;
-    const size_t encryptedLength = size - saltLength - digestLength;
+    const size_t encryptedLength = size < saltLength + digestLength ? 0 : size - saltLength - digestLength;
     const size_t rounds = encryptedLength % digestLength > 0 ? 1 + encryptedLength / digestLength : encryptedLength / digestLength;
     const unsigned char* encrypted = ptrAt(data, saltLength);
     unsigned char* decrypted = NULL;
@@ -180,6 +196,9 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
     size_t pos = 0;
     int r = 0;
 
+    if (encryptedLength == 0)
+        return 0;
+
     copyAt(data, 0, digest, saltLength);
 
     decrypted = OPENSSL_malloc(encryptedLength);
@@ -301,36 +320,52 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
     return 1;
 }
 
-static const void* parseKey(const void* data, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
+static const void* parseKey(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
-    uint16_t nameLength = ntohs(read16(data, 0));
-    uint32_t dataLength = ntohl(read32(data, sizeof(nameLength) + nameLength + 8)); // 8 bytes - 64-bit timestamp
-    uint32_t certNum = ntohl(read32(data, sizeof(nameLength) + nameLength + 8 + 4 + dataLength));
-    const unsigned char* dataPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength));
-    const unsigned char* certPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength) + dataLength + sizeof(certNum));
+    uint16_t nameLength = 0;
+    uint32_t dataLength = 0;
+    uint32_t certNum = 0;
+    const unsigned char* dataPtr = NULL;
+    const unsigned char* certPtr = NULL;
     size_t i = 0;
 
+    if (!has(data, end, sizeof(nameLength)))
+        return NULL;
+    nameLength = ntohs(read16(data, 0));
+    if (!has(data, end, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength)))
+        return NULL;
+    dataLength = ntohl(read32(data, sizeof(nameLength) + nameLength + 8)); // 8 bytes - 64-bit timestamp
+    dataPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength));
+    if (!has(dataPtr, end, (size_t)dataLength + sizeof(certNum)))
+        return NULL;
+    certNum = ntohl(read32(dataPtr, dataLength));
+    certPtr = ptrAt(dataPtr, dataLength + sizeof(certNum));
+
     if (decryptKey(dataPtr, dataLength, keyPass, keyPassSize, ks, keyPos, certPos) == 0)
         return NULL;
 
     for (i = 0; i < certNum; ++i)
     {
-        certPtr = parseCert(certPtr, ks, certPos);
+        certPtr = parseCert(certPtr, end, ks, certPos);
         if (certPtr == NULL)
             return NULL;
     }
     return certPtr;
 }
 
-static const void* parseEntry(const void* data, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
+static const void* parseEntry(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
-    uint32_t tag = ntohl(read32(data, 0));
+    uint32_t tag = 0;
+
+    if (!has(data, end, sizeof(tag)))
+        return NULL;
+    tag = ntohl(read32(data, 0));
     switch (tag)
     {
         case JKS_ENTRY_PRIVATE_KEY:
-            return parseKey(ptrAt(data, sizeof(tag)), keyPass, keyPassSize, ks, keyPos, certPos);
+            return parseKey(ptrAt(data, sizeof(tag)), end, keyPass, keyPassSize, ks, keyPos, certPos);
         case JKS_ENTRY_CERT:
-            return parseCert(ptrAt(data, sizeof(tag)), ks, certPos);
+            return parseCert(ptrAt(data, sizeof(tag)), end, ks, certPos);
     }
     return NULL;
 }
@@ -338,9 +373,10 @@ static const void* parseEntry(const void* data, const char* keyPass, size_t keyP
 int parseJKS(const void* data, size_t size, const char* storagePass, size_t storagePassSize, const char* keyPass, size_t keyPassSize, KeyStore** ks)
 {
     const size_t digestLength = 20;
-    uint32_t magic = read32(data, 0);
-    uint32_t entries = ntohl(read32(data, sizeof(magic) + 4)); // 4 bytes - 32-bit version
-    const unsigned char* entryPtr = ptrAt(data, sizeof(magic) + 4 + sizeof(entries));
+    uint32_t magic = 0;
+    uint32_t entries = 0;
+    const void* end = ptrAt(data, size);
+    const unsigned char* entryPtr = NULL;
     unsigned char digest[digestLength];
     size_t i = 0;
     size_t j = 0;
@@ -349,7 +385,11 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     size_t keyPos = 0;
     size_t certPos = 0;
 
-    (void) size; // Unused
+    if (size < sizeof(magic) + 4 + sizeof(entries)) // 4 bytes - 32-bit version
+        return 0;
+    magic = read32(data, 0);
+    entries = ntohl(read32(data, sizeof(magic) + 4));
+    entryPtr = ptrAt(data, sizeof(magic) + 4 + sizeof(entries));
 
     // Check MAGIC
     if (magic != 0xedfeedfe && // JKS
@@ -366,12 +406,12 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
 
     for (i = 0; i < entries; ++i)
     {
-        entryPtr = parseEntry(entryPtr, keyPass, keyPassSize, *ks, &keyPos, &certPos);
+        entryPtr = parseEntry(entryPtr, end, keyPass, keyPassSize, *ks, &keyPos, &certPos);
         if (entryPtr == NULL)
             break;
     }
 
-    if (entryPtr == NULL)
+    if (entryPtr == NULL || !has(entryPtr, end, digestLength))
     {
         KeyStoreFree(*ks);
         return 0;
-- 
2.43.0


From 6fe72469d72df42e606ac2f0d1b886ae98645cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:40 +0000
Subject: [PATCH 15/41] fix: skip alias and timestamp of a trusted certificate
 in a Java key store

---
 keylib/jks.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index a550c00..b4616f9 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -353,6 +353,18 @@ static const void* parseKey(const void* data, const void* end, const char* keyPa
     return certPtr;
 }
 
+static const void* parseTrustedCert(const void* data, const void* end, KeyStore* ks, size_t* certPos)
+{
+    uint16_t nameLength = 0;
+
+    if (!has(data, end, sizeof(nameLength)))
+        return NULL;
+    nameLength = ntohs(read16(data, 0));
+    if (!has(data, end, sizeof(nameLength) + nameLength + 8)) // 8 bytes - 64-bit timestamp
+        return NULL;
+    return parseCert(ptrAt(data, sizeof(nameLength) + nameLength + 8), end, ks, certPos);
+}
+
 static const void* parseEntry(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
     uint32_t tag = 0;
@@ -365,7 +377,7 @@ static const void* parseEntry(const void* data, const void* end, const char* key
         case JKS_ENTRY_PRIVATE_KEY:
             return parseKey(ptrAt(data, sizeof(tag)), end, keyPass, keyPassSize, ks, keyPos, certPos);
         case JKS_ENTRY_CERT:
-            return parseCert(ptrAt(data, sizeof(tag)), end, ks, certPos);
+            return parseTrustedCert(ptrAt(data, sizeof(tag)), end, ks, certPos);
     }
     return NULL;
 }
-- 
2.43.0


From c38c2e3890f3cbd58cbaba5a7b3d55c4106b4fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:14 +0000
Subject: [PATCH 16/41] fix: leave no pointer to a freed store when parsing
 fails

---
 keylib/jks.c    | 3 +++
 keylib/pkcs12.c | 1 +
 2 files changed, 4 insertions(+)

diff --git a/keylib/jks.c b/keylib/jks.c
index b4616f9..9620008 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -426,12 +426,14 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     if (entryPtr == NULL || !has(entryPtr, end, digestLength))
     {
         KeyStoreFree(*ks);
+        *ks = NULL;
         return 0;
     }
 
     if (whiteHash(pwd16, pwd16Length, data, entryPtr - (const unsigned char*)data, digest) == 0)
     {
         KeyStoreFree(*ks);
+        *ks = NULL;
         OPENSSL_free(pwd16);
         return 0;
     }
@@ -441,6 +443,7 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
         if (digest[j] != entryPtr[j])
         {
             KeyStoreFree(*ks);
+        *ks = NULL;
             return 0;
         }
 
diff --git a/keylib/pkcs12.c b/keylib/pkcs12.c
index 48c5e2b..e6414e1 100644
--- a/keylib/pkcs12.c
+++ b/keylib/pkcs12.c
@@ -203,6 +203,7 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
     if (fromSafes(safes, password, passSize, *ks, &keyPos, &certPos) == 0)
     {
         KeyStoreFree(*ks);
+        *ks = NULL;
         sk_PKCS7_pop_free(safes, PKCS7_free);
         PKCS12_free(pkcs12);
         return 0;
-- 
2.43.0


From cb5aa5e54eb5af578f89202fdbf3c82c69ef44fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:14 +0000
Subject: [PATCH 17/41] fix: free the converted password when an entry of a
 Java key store is unreadable

---
 keylib/jks.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/keylib/jks.c b/keylib/jks.c
index 9620008..88d55df 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -427,6 +427,7 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     {
         KeyStoreFree(*ks);
         *ks = NULL;
+        OPENSSL_free(pwd16);
         return 0;
     }
 
-- 
2.43.0


From cbcbf89e3c78a67a107632aaa41e534f7f68aa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:36 +0000
Subject: [PATCH 18/41] fix: refuse a Java key store key under an unknown
 protection

---
 keylib/jks.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/keylib/jks.c b/keylib/jks.c
index 88d55df..a13357d 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -311,6 +311,14 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
             return 0;
         }
     }
+    else // Unknown protection algorithm
+    {
+        ASN1_OBJECT_free(pbes1);
+        ASN1_OBJECT_free(keyProtector);
+        X509_SIG_free(epkInfo);
+        OPENSSL_free(pwd16);
+        return 0;
+    }
 
     ASN1_OBJECT_free(pbes1);
     ASN1_OBJECT_free(keyProtector);
-- 
2.43.0


From 20a45e53d4a41aa3ef89d40592ab0540325a5aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:36 +0000
Subject: [PATCH 19/41] fix: do not crash freeing the missing store of an
 undecodable key

---
 keylib/keystore.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keylib/keystore.c b/keylib/keystore.c
index 2bfbc69..108ac2b 100644
--- a/keylib/keystore.c
+++ b/keylib/keystore.c
@@ -72,6 +72,8 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
 void KeyStoreFree(KeyStore* ks)
 {
     size_t i = 0;
+    if (ks == NULL)
+        return;
     if (ks->keys != NULL)
     {
         for (i = 0; i < ks->keyNum; ++i)
-- 
2.43.0


From 9aa746c201565198992e6739d919b3cb7da7dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:55 +0000
Subject: [PATCH 20/41] fix: do not parse uninitialized bytes after the
 decrypted Key-6 container

---
 keylib/key6.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keylib/key6.c b/keylib/key6.c
index 43d2415..48b1d8e 100644
--- a/keylib/key6.c
+++ b/keylib/key6.c
@@ -45,7 +45,7 @@ static int decryptKey6(const void* data, size_t size, const void* pad, size_t pa
     gost_subst_block sbox;
     unsigned char key[32];
     const size_t sourceSize = size + padSize;
-    const size_t resSize = sourceSize + 8;
+    const size_t resSize = sourceSize / 8 * 8; // Only whole blocks are decrypted
     unsigned char* source = OPENSSL_malloc(sourceSize);
     unsigned char* res = OPENSSL_malloc(resSize);
     int r = 0;
-- 
2.43.0


From d751558c9aaf396fe91a7be987102a511bb4d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:06 +0000
Subject: [PATCH 21/41] fix: check the curve of the second key of a container

---
 keylib/utils.c | 82 ++------------------------------------------------
 1 file changed, 3 insertions(+), 79 deletions(-)

diff --git a/keylib/utils.c b/keylib/utils.c
index 3af2aae..4dcc666 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -69,83 +69,7 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
     return res;
 }
 
-static BIGNUM* makePoly(BN_CTX* ctx, const DSTU_BinaryField* field)
-{
-    BIGNUM* res = BN_CTX_get(ctx);
-    int poly[6];
-    poly[0] = ASN1_INTEGER_get(field->m);
-    if (field->poly->type == 0)
-    {
-        // Trinominal
-        poly[1] = ASN1_INTEGER_get(field->poly->poly.k);
-        poly[2] = 0;
-        poly[3] = -1;
-    }
-    else
-    {
-        // Pentanominal
-        poly[1] = ASN1_INTEGER_get(field->poly->poly.pentanomial->k);
-        poly[2] = ASN1_INTEGER_get(field->poly->poly.pentanomial->j);
-        poly[3] = ASN1_INTEGER_get(field->poly->poly.pentanomial->l);
-        poly[4] = 0;
-        poly[5] = -1;
-    }
-    if (BN_GF2m_arr2poly(poly, res) == 0)
-        return NULL;
-    return res;
-}
-
-static EC_POINT* makePoint(BN_CTX* ctx, const EC_GROUP* group, const ASN1_OCTET_STRING* p)
-{
-    (void) ctx;
-    EC_POINT* res = EC_POINT_new(group);
-    if (dstu_point_expand(ASN1_STRING_get0_data(p), ASN1_STRING_length(p), group, res) == 0)
-    {
-        EC_POINT_free(res);
-        return NULL;
-    }
-    return res;
-}
-
-static EC_GROUP* makeECGROUPFromSpec(BN_CTX* ctx, const DSTU_CustomCurveSpec* spec)
-{
-    BIGNUM* poly = makePoly(ctx, spec->field);
-    BIGNUM* a = BN_CTX_get(ctx);
-    BIGNUM* b = BN_bin2bn(ASN1_STRING_get0_data(spec->b), ASN1_STRING_length(spec->b), BN_CTX_get(ctx));
-    BIGNUM* n = BN_CTX_get(ctx);
-    EC_POINT* point = NULL;
-    EC_GROUP* res = NULL;
-
-    ASN1_INTEGER_to_BN(spec->a, a);
-
-    res = EC_GROUP_new_curve_GF2m(poly, a, b, ctx);
-
-    if (res == NULL)
-        return NULL;
-
-    point = makePoint(ctx, res, spec->bp);
-    if (point == NULL)
-    {
-        EC_GROUP_free(res);
-        return NULL;
-    }
-    if (EC_POINT_is_on_curve(res, point, ctx) == 0)
-    {
-        EC_POINT_free(point);
-        EC_GROUP_free(res);
-        return NULL;
-    }
-    ASN1_INTEGER_to_BN(spec->n, n);
-    if (EC_GROUP_set_generator(res, point, n, BN_value_one()) == 0)
-    {
-        EC_GROUP_free(res);
-        res = NULL;
-    }
-    EC_POINT_free(point);
-    return res;
-}
-
-static EC_GROUP* makeECGROUP(BN_CTX* ctx, X509_ATTRIBUTE* attr)
+static EC_GROUP* makeECGROUP(X509_ATTRIBUTE* attr)
 {
     DSTU_AttrCurveSpec* spec = NULL;
     int count = X509_ATTRIBUTE_count(attr);
@@ -165,7 +89,7 @@ static EC_GROUP* makeECGROUP(BN_CTX* ctx, X509_ATTRIBUTE* attr)
     if (spec == NULL)
         return NULL;
 
-    res = makeECGROUPFromSpec(ctx, spec->spec);
+    res = group_from_asn1(spec->spec, 0);
     DSTU_AttrCurveSpec_free(spec);
     return res;
 }
@@ -181,7 +105,7 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
     BN_CTX_start(ctx);
 
     pkNum = getPrivateKeyNum(ctx, keyAttr);
-    group = makeECGROUP(ctx, curveAttr);
+    group = makeECGROUP(curveAttr);
     if (pkNum == NULL || group == NULL)
     {
         BN_CTX_end(ctx);
-- 
2.43.0


From f23e5da48e2d1b0f9b009be3e93796b370fb3018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:16 +0000
Subject: [PATCH 22/41] fix: free everything when the second key of a container
 is invalid

---
 keylib/utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keylib/utils.c b/keylib/utils.c
index 4dcc666..e21a947 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -108,6 +108,7 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
     group = makeECGROUP(curveAttr);
     if (pkNum == NULL || group == NULL)
     {
+        EC_GROUP_free(group);
         BN_CTX_end(ctx);
         BN_CTX_free(ctx);
         return NULL;
@@ -128,6 +129,7 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
         EC_KEY_set_private_key(key->ec, pkNum) == 0 ||
         dstu_add_public_key(key->ec) == 0)
     {
+        EVP_PKEY_free(res);
         DSTU_KEY_free(key);
         EC_GROUP_free(group);
         BN_CTX_end(ctx);
-- 
2.43.0


From c8a0eedde069016e1305a36e73ce27f4df0a3ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:58 +0000
Subject: [PATCH 23/41] fix: do not loop forever signing with an invalid curve

---
 engine/sign.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/engine/sign.c b/engine/sign.c
index cf05956..cf99037 100644
--- a/engine/sign.c
+++ b/engine/sign.c
@@ -12,6 +12,10 @@
 #include <openssl/ec.h>
 #include <openssl/obj_mac.h>
 
+/* Redraws are next to impossible on a valid curve, but a decoded curve may be such
+ * that no nonce fits */
+#define MAX_NONCE_DRAWS 128
+
 static int bn_truncate_bits(BIGNUM *bn, int bitsize)
 {
     int num_bits = BN_num_bits(bn);
@@ -64,7 +68,7 @@ int dstu_do_sign(const EC_KEY* key, const unsigned char *tbs, size_t tbslen,
     BIGNUM *e, *Fe, *h, *r, *s, *n, *p;
     BN_CTX *ctx = NULL;
     EC_POINT *eG = NULL;
-    int field_size, ret = 0;
+    int field_size, ret = 0, draws = 0;
 
     if (!d || !group)
         return 0;
@@ -116,7 +120,7 @@ int dstu_do_sign(const EC_KEY* key, const unsigned char *tbs, size_t tbslen,
             {
                 do
                 {
-                    if (!BN_rand_range(e, n))
+                    if (++draws > MAX_NONCE_DRAWS || !BN_rand_range(e, n))
                         goto err;
                 }
                 while (BN_is_zero(e));
-- 
2.43.0


From eebb297595ab0c911aa498d3e68edd4bfd87d8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:47 +0000
Subject: [PATCH 24/41] fix: do not take the key of another algorithm for a
 DSTU key in the digest

---
 engine/md.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/engine/md.c b/engine/md.c
index 9be9572..7cc0402 100644
--- a/engine/md.c
+++ b/engine/md.c
@@ -28,8 +28,14 @@ static int dstu_md_init(EVP_MD_CTX *ctx)
     struct dstu_digest_ctx *c = EVP_MD_CTX_md_data(ctx);
     EVP_PKEY_CTX *pkey_ctx = EVP_MD_CTX_pkey_ctx(ctx);
     EVP_PKEY *pkey = pkey_ctx ? EVP_PKEY_CTX_get0_pkey(pkey_ctx) : NULL;
-    DSTU_KEY *dstu_key = pkey ? EVP_PKEY_get0(pkey) : NULL;
-    unsigned char *sbox_source = dstu_key && dstu_key->sbox ? dstu_key->sbox : default_sbox;
+    DSTU_KEY *dstu_key = NULL;
+    unsigned char *sbox_source = NULL;
+
+    /* The digest may also be used with keys of other algorithms */
+    if (pkey && (EVP_PKEY_base_id(pkey) == NID_dstu4145le || EVP_PKEY_base_id(pkey) == NID_dstu4145be))
+        dstu_key = EVP_PKEY_get0(pkey);
+
+    sbox_source = dstu_key && dstu_key->sbox ? dstu_key->sbox : default_sbox;
 
     unpack_sbox(sbox_source, &sbox);
     memset(&(c->dctx), 0, sizeof(gost_hash_ctx));
-- 
2.43.0


From c5b8e2f144c95489dba2d43d2a21bb22d076818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:38 +0000
Subject: [PATCH 25/41] fix: refuse a point when its y cannot be determined

---
 dstulib/compress.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dstulib/compress.c b/dstulib/compress.c
index 440648e..711fc34 100644
--- a/dstulib/compress.c
+++ b/dstulib/compress.c
@@ -20,7 +20,7 @@ static int bn_trace(const BIGNUM *bn, const BIGNUM *p, BN_CTX *ctx)
 
     r = BN_CTX_get(ctx);
 
-    if (!BN_copy(r, bn))
+    if (!r || !BN_copy(r, bn))
         goto err;
     for (i = 1; i <= (BN_num_bits(p) - 2); i++)
     {
@@ -195,6 +195,8 @@ int dstu_point_expand(const unsigned char *compressed, int compressed_length,
         goto err;
 
     trace = bn_trace(y, p, ctx);
+    if (-1 == trace)
+        goto err;
 
     if ((k && !trace) || (!k && trace))
     {
-- 
2.43.0


From 1de45b3f6a3adc715198a9ce96f1b52457c97f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:38 +0000
Subject: [PATCH 26/41] fix: do not encode a standard curve as a custom one
 after an error

---
 dstulib/key.c    |  3 +++
 dstulib/params.c | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/dstulib/key.c b/dstulib/key.c
index 12df6b6..6563d25 100644
--- a/dstulib/key.c
+++ b/dstulib/key.c
@@ -94,6 +94,9 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
 
     /* Checking if group represents a standard curve. If we get NID_undef, that means the curve is custom */
     curve_nid = curve_nid_from_group(group);
+    if (-1 == curve_nid)
+        goto err;
+
     if (NID_undef == curve_nid)
     {
         /* Custom curve */
diff --git a/dstulib/params.c b/dstulib/params.c
index f82780b..1bb576f 100644
--- a/dstulib/params.c
+++ b/dstulib/params.c
@@ -281,6 +281,7 @@ DSTU_NAMED_CURVE dstu_curves[] =
     {NID_uacurve9, {431, 5, 3, 1, 0, -1}, data431}
 };
 
+/* Returns the nid of the standard curve, NID_undef for a custom one, -1 on error */
 int curve_nid_from_group(const EC_GROUP *group)
 {
     unsigned long long i = 0;
@@ -298,10 +299,18 @@ int curve_nid_from_group(const EC_GROUP *group)
     {
         std_group = group_from_named_curve(i);
 
-        if (std_group)
+        if (!std_group)
+            return -1;
+
+        switch (EC_GROUP_cmp(group, std_group, NULL))
         {
-            if (!EC_GROUP_cmp(group, std_group, NULL))
-            nid = dstu_curves[i].nid;
+            case 0:
+                nid = dstu_curves[i].nid;
+                break;
+            case 1:
+                break;
+            default:
+                nid = -1;
         }
     }
 
-- 
2.43.0


From cfe124e9a3e01640f99800a73fd851e4f0da19ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:38 +0000
Subject: [PATCH 27/41] fix: check allocations when encoding parameters

---
 dstulib/key.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dstulib/key.c b/dstulib/key.c
index 6563d25..e02001d 100644
--- a/dstulib/key.c
+++ b/dstulib/key.c
@@ -78,6 +78,8 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
         return NULL;
 
     params = DSTU_AlgorithmParameters_new();
+    if (!params)
+        return NULL;
 
     if (key->sbox)
     {
@@ -110,6 +112,9 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
             goto err;
 
         ctx = BN_CTX_new();
+        if (!ctx)
+            goto err;
+
         BN_CTX_start(ctx);
 
         p = BN_CTX_get(ctx);
-- 
2.43.0


From 9a1def56d9143ceaff7d527533943bb4b0b627a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:38 +0000
Subject: [PATCH 28/41] fix: do not encode a private key without its parameters
 after an error

---
 engine/ameth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index 0a975a6..703ce28 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -301,7 +301,7 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     }
 
     encoded_params_bytes = dstu_asn1_param_encode(pk, &encoded_params);
-    if (!encoded_params_bytes)
+    if (encoded_params_bytes <= 0)
         goto err;
 
     key = EVP_PKEY_get0(pk);
-- 
2.43.0


From 05511808db36493d2d079535f5ff90eb79bc783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:02 +0000
Subject: [PATCH 29/41] fix: copy key parameters completely or not at all

---
 engine/ameth.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index 703ce28..127c713 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -100,6 +100,7 @@ static int dstu_asn1_param_copy(EVP_PKEY *to, const EVP_PKEY *from)
     DSTU_KEY *to_key = EVP_PKEY_get0(to);
     DSTU_KEY *from_key = EVP_PKEY_get0(from);
     const EC_GROUP *from_group;
+    unsigned char *sbox = NULL;
 
     if (!from_key)
         return 0;
@@ -111,6 +112,12 @@ static int dstu_asn1_param_copy(EVP_PKEY *to, const EVP_PKEY *from)
     if (!to_key)
     {
         to_key = DSTU_KEY_new();
+        if (!to_key)
+        {
+            DSTUerr(DSTU_F_DSTU_ASN1_PARAM_COPY, ERR_R_MALLOC_FAILURE);
+            return 0;
+        }
+
         if (!EVP_PKEY_assign(to, EVP_PKEY_id(from), to_key))
         {
             DSTU_KEY_free(to_key);
@@ -119,22 +126,30 @@ static int dstu_asn1_param_copy(EVP_PKEY *to, const EVP_PKEY *from)
         }
     }
 
-    if (!EC_KEY_set_group(to_key->ec, from_group))
-    {
-        DSTUerr(DSTU_F_DSTU_ASN1_PARAM_COPY, ERR_R_EC_LIB);
-        return 0;
-    }
+    if (to_key == from_key)
+        return 1;
 
     if (from_key->sbox)
     {
-        to_key->sbox = copy_sbox(from_key->sbox);
-        if (!to_key->sbox)
+        sbox = copy_sbox(from_key->sbox);
+        if (!sbox)
         {
             DSTUerr(DSTU_F_DSTU_ASN1_PARAM_COPY, ERR_R_MALLOC_FAILURE);
             return 0;
         }
     }
 
+    if (!EC_KEY_set_group(to_key->ec, from_group))
+    {
+        OPENSSL_free(sbox);
+        DSTUerr(DSTU_F_DSTU_ASN1_PARAM_COPY, ERR_R_EC_LIB);
+        return 0;
+    }
+
+    /* Absent sbox means the default one */
+    OPENSSL_free(to_key->sbox);
+    to_key->sbox = sbox;
+
     return 1;
 }
 
-- 
2.43.0


From 1ab17c0f4658a217ad9c2fa964892f6de4d557bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:03 +0000
Subject: [PATCH 30/41] fix: check the allocations of a key store

---
 keylib/jks.c               | 21 +++++++++++++++++--
 keylib/keystore.c          | 43 ++++++++++++++++++++++++--------------
 keylib/keystore_internal.h |  2 +-
 keylib/pkcs12.c            |  7 +++++++
 keylib/utils.c             | 11 ++++++++++
 5 files changed, 65 insertions(+), 19 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index a13357d..137bc9b 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -170,8 +170,18 @@ static const void* parseCert(const void* data, const void* end, KeyStore* ks, si
 
     KeyStore* tks = KeyStoreNew(0, 1);
 
+    if (tks == NULL)
+    {
+        X509_free(x509);
+        return NULL;
+    }
+
     KeyStoreSetCert(tks, 0, x509);
-    KeyStoreAppend(ks, tks);
+    if (KeyStoreAppend(ks, tks) == 0)
+    {
+        KeyStoreFree(tks);
+        return NULL;
+    }
 
     KeyStoreFree(tks);
 
@@ -235,9 +245,11 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
 
     r = keysFromPKCS8(decrypted, encryptedLength, &tks);
 
+    if (r != 0)
+        r = KeyStoreAppend(ks, tks);
+
     if (r != 0)
     {
-        KeyStoreAppend(ks, tks);
         if (keyPos != NULL)
             *keyPos += KeyStoreKeyNum(tks);
         if (certPos != NULL)
@@ -423,6 +435,11 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
         return 0;
 
     *ks = KeyStoreNew(0, 0); // Start from zero
+    if (*ks == NULL)
+    {
+        OPENSSL_free(pwd16);
+        return 0;
+    }
 
     for (i = 0; i < entries; ++i)
     {
diff --git a/keylib/keystore.c b/keylib/keystore.c
index 108ac2b..f0af563 100644
--- a/keylib/keystore.c
+++ b/keylib/keystore.c
@@ -16,40 +16,47 @@ struct KeyStore_st
 KeyStore* KeyStoreNew(size_t keyNum, size_t certNum)
 {
     size_t i = 0;
-    KeyStore* res = OPENSSL_malloc(sizeof(KeyStore));
+    KeyStore* res = OPENSSL_zalloc(sizeof(KeyStore));
+    if (res == NULL)
+        return NULL;
     if (keyNum > 0)
     {
-        res->keyNum = keyNum;
         res->keys = OPENSSL_malloc(keyNum * sizeof(EVP_PKEY*));
+        if (res->keys == NULL)
+        {
+            KeyStoreFree(res);
+            return NULL;
+        }
+        res->keyNum = keyNum;
         for (i = 0; i < keyNum; ++i)
             res->keys[i] = NULL;
     }
-    else
-    {
-        res->keyNum = 0;
-        res->keys = NULL;
-    }
     if (certNum > 0)
     {
-        res->certNum = certNum;
         res->certs = OPENSSL_malloc(certNum * sizeof(X509*));
+        if (res->certs == NULL)
+        {
+            KeyStoreFree(res);
+            return NULL;
+        }
+        res->certNum = certNum;
         for (i = 0; i < certNum; ++i)
             res->certs[i] = NULL;
     }
-    else
-    {
-        res->certNum = 0;
-        res->certs = NULL;
-    }
     return res;
 }
 
-void KeyStoreAppend(KeyStore* to, KeyStore* from)
+int KeyStoreAppend(KeyStore* to, KeyStore* from)
 {
     size_t i = 0;
+    EVP_PKEY** keys = NULL;
+    X509** certs = NULL;
     if (from->keyNum > 0)
     {
-        to->keys = OPENSSL_clear_realloc(to->keys, to->keyNum * sizeof(EVP_PKEY*), (to->keyNum + from->keyNum) * sizeof(EVP_PKEY*));
+        keys = OPENSSL_clear_realloc(to->keys, to->keyNum * sizeof(EVP_PKEY*), (to->keyNum + from->keyNum) * sizeof(EVP_PKEY*));
+        if (keys == NULL)
+            return 0;
+        to->keys = keys;
         for (i = 0; i < from->keyNum; ++i)
         {
             to->keys[to->keyNum + i] = from->keys[i];
@@ -59,7 +66,10 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
     }
     if (from->certNum > 0)
     {
-        to->certs = OPENSSL_clear_realloc(to->certs, to->certNum * sizeof(X509*), (to->certNum + from->certNum) * sizeof(X509*));
+        certs = OPENSSL_clear_realloc(to->certs, to->certNum * sizeof(X509*), (to->certNum + from->certNum) * sizeof(X509*));
+        if (certs == NULL)
+            return 0;
+        to->certs = certs;
         for (i = 0; i < from->certNum; ++i)
         {
             to->certs[to->certNum + i] = from->certs[i];
@@ -67,6 +77,7 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
         }
         to->certNum += from->certNum;
     }
+    return 1;
 }
 
 void KeyStoreFree(KeyStore* ks)
diff --git a/keylib/keystore_internal.h b/keylib/keystore_internal.h
index 7c20726..146edfa 100644
--- a/keylib/keystore_internal.h
+++ b/keylib/keystore_internal.h
@@ -8,7 +8,7 @@ extern "C" {
 
 KeyStore* KeyStoreNew(size_t keyNum, size_t certNum);
 
-void KeyStoreAppend(KeyStore* to, KeyStore* from);
+int KeyStoreAppend(KeyStore* to, KeyStore* from);
 
 void KeyStoreSetKey(KeyStore* ks, size_t pos, EVP_PKEY* key);
 void KeyStoreSetCert(KeyStore* ks, size_t pos, X509* cert);
diff --git a/keylib/pkcs12.c b/keylib/pkcs12.c
index e6414e1..1a725d8 100644
--- a/keylib/pkcs12.c
+++ b/keylib/pkcs12.c
@@ -200,6 +200,13 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
 
     *ks = KeyStoreNew(numKeys, numCerts);
 
+    if (*ks == NULL)
+    {
+        sk_PKCS7_pop_free(safes, PKCS7_free);
+        PKCS12_free(pkcs12);
+        return 0;
+    }
+
     if (fromSafes(safes, password, passSize, *ks, &keyPos, &certPos) == 0)
     {
         KeyStoreFree(*ks);
diff --git a/keylib/utils.c b/keylib/utils.c
index e21a947..bb8851a 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -210,11 +210,22 @@ int keysFromPKCS8(const void* data, size_t size, KeyStore** ks)
     if (pkey2 == NULL)
     {
         *ks = KeyStoreNew(1, 0);
+        if (*ks == NULL)
+        {
+            EVP_PKEY_free(pkey1);
+            return 0;
+        }
         KeyStoreSetKey(*ks, 0, pkey1);
         return 1;
     }
 
     *ks = KeyStoreNew(2, 0);
+    if (*ks == NULL)
+    {
+        EVP_PKEY_free(pkey1);
+        EVP_PKEY_free(pkey2);
+        return 0;
+    }
     KeyStoreSetKey(*ks, 0, pkey1);
     KeyStoreSetKey(*ks, 1, pkey2);
 
-- 
2.43.0


From e0fa5113bc3d04f2616fd4d643013cdf95b89bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:33 +0000
Subject: [PATCH 31/41] fix: check allocations when converting a password

---
 keylib/jks.c | 47 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index 137bc9b..ed846e5 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -61,13 +61,23 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
     size_t ss = size;
     BIO *res = BIO_new(BIO_s_mem());
     char* buf = OPENSSL_malloc(resSize);
+    char* tmp = NULL;
     char* d = buf;
     const char* s = source;
     iconv_t cd = iconv_open("utf-16be", "utf-8");
     size_t r = 0;
+    int error = 0;
     if (cd == (iconv_t)-1)
     {
-        OPENSSL_free(res);
+        OPENSSL_free(buf);
+        BIO_free(res);
+        return 0;
+    }
+    if (res == NULL || buf == NULL)
+    {
+        iconv_close(cd);
+        OPENSSL_free(buf);
+        BIO_free(res);
         return 0;
     }
     while (ss > 0)
@@ -75,11 +85,18 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
         d = buf;
         ds = bufSize;
         r = iconv(cd, (char**)&s, &ss, &d, &ds);
-        if (d != buf)
-            BIO_write(res, buf, d - buf);
+        error = errno;
+        if (d != buf && BIO_write(res, buf, d - buf) != d - buf)
+        {
+            iconv_close(cd);
+            OPENSSL_free(buf);
+            BIO_free(res);
+            return 0;
+        }
         if (r != (size_t)-1)
             break;
-        if (errno != E2BIG)
+        tmp = error == E2BIG ? OPENSSL_realloc(buf, bufSize * 2) : NULL;
+        if (tmp == NULL)
         {
             iconv_close(cd);
             OPENSSL_free(buf);
@@ -87,18 +104,25 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
             return 0;
         }
         bufSize *= 2;
-        buf = OPENSSL_realloc(buf, bufSize);
+        buf = tmp;
     }
     for (;;)
     {
         d = buf;
         ds = bufSize;
         r = iconv(cd, NULL, NULL, &d, &ds);
-        if (d != buf)
-            BIO_write(res, buf, d - buf);
+        error = errno;
+        if (d != buf && BIO_write(res, buf, d - buf) != d - buf)
+        {
+            iconv_close(cd);
+            OPENSSL_free(buf);
+            BIO_free(res);
+            return 0;
+        }
         if (r != (size_t)-1)
             break;
-        if (errno != E2BIG)
+        tmp = error == E2BIG ? OPENSSL_realloc(buf, bufSize * 2) : NULL;
+        if (tmp == NULL)
         {
             iconv_close(cd);
             OPENSSL_free(buf);
@@ -106,7 +130,7 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
             return 0;
         }
         bufSize *= 2;
-        buf = OPENSSL_realloc(buf, bufSize);
+        buf = tmp;
     }
     OPENSSL_free(buf);
     iconv_close(cd);
@@ -117,6 +141,11 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
         return 0;
     }
     *dest = OPENSSL_malloc(*dsize);
+    if (*dest == NULL)
+    {
+        BIO_free(res);
+        return 0;
+    }
     memcpy(*dest, d, *dsize);
     BIO_free(res);
     return 1;
-- 
2.43.0


From db1fb571bcd77134c106ba667416f3e23e563f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:33 +0000
Subject: [PATCH 32/41] fix: check allocations when decrypting a Java key store
 key

---
 keylib/jks.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index ed846e5..ee1f97a 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -155,7 +155,8 @@ static int twoHash(const void* d1, size_t ds1, const void* d2, size_t ds2, void*
 {
     unsigned int ds = 0;
     EVP_MD_CTX* ctx = EVP_MD_CTX_new();
-    int ok = EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
+    int ok = ctx != NULL &&
+             EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
              EVP_DigestUpdate(ctx, d1, ds1) != 0 &&
              EVP_DigestUpdate(ctx, d2, ds2) != 0 &&
              EVP_DigestFinal_ex(ctx, digest, &ds) != 0;
@@ -167,7 +168,8 @@ static int whiteHash(const void* d1, size_t ds1, const void* d2, size_t ds2, voi
 {
     unsigned int ds = 0;
     EVP_MD_CTX* ctx = EVP_MD_CTX_new();
-    int ok = EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
+    int ok = ctx != NULL &&
+             EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
              EVP_DigestUpdate(ctx, d1, ds1) != 0 &&
              EVP_DigestUpdate(ctx, "Mighty Aphrodite", 16) != 0 &&
              EVP_DigestUpdate(ctx, d2, ds2) != 0 &&
@@ -241,6 +243,9 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
     copyAt(data, 0, digest, saltLength);
 
     decrypted = OPENSSL_malloc(encryptedLength);
+    if (decrypted == NULL)
+        return 0;
+
     for (i = 0; i < rounds; ++i)
     {
         if (!twoHash(pwd16, pwd16Length, digest, digestLength, digest))
@@ -329,6 +334,14 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
     X509_ALGOR_get0(&aobj, NULL, NULL, algo);
     keyProtector = OBJ_txt2obj(keyProtectorOID, 1);
     pbes1 = OBJ_txt2obj(pbes1OID, 1);
+    if (keyProtector == NULL || pbes1 == NULL)
+    {
+        ASN1_OBJECT_free(pbes1);
+        ASN1_OBJECT_free(keyProtector);
+        X509_SIG_free(epkInfo);
+        OPENSSL_free(pwd16);
+        return 0;
+    }
 
     if (OBJ_cmp(aobj, keyProtector) == 0)
     {
-- 
2.43.0


From 1a61875b477f0241807f434629d92cc41f023903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:53 +0000
Subject: [PATCH 33/41] fix: check allocations when reading a Key-6 container

---
 keylib/key6.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keylib/key6.c b/keylib/key6.c
index 48b1d8e..60fb25b 100644
--- a/keylib/key6.c
+++ b/keylib/key6.c
@@ -50,6 +50,13 @@ static int decryptKey6(const void* data, size_t size, const void* pad, size_t pa
     unsigned char* res = OPENSSL_malloc(resSize);
     int r = 0;
 
+    if (source == NULL || res == NULL)
+    {
+        OPENSSL_free(source);
+        OPENSSL_free(res);
+        return 0;
+    }
+
     unpack_sbox(default_sbox, &sbox);
     gost_init(&ctx, &sbox);
     pkdf(password, passSize, key);
@@ -82,7 +89,7 @@ int parseKey6(const void* data, size_t size, const char* password, size_t passSi
     }
     // Type check
     correctType = OBJ_txt2obj(iitStoreOID, 1);
-    if (OBJ_cmp(store->header->type, correctType) != 0)
+    if (correctType == NULL || OBJ_cmp(store->header->type, correctType) != 0)
     {
         ASN1_OBJECT_free(correctType);
         IITStore_free(store);
-- 
2.43.0


From a5501a307b7d885ede8a5138af15e89989d80e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:20 +0000
Subject: [PATCH 34/41] fix: check allocations when making the second key of a
 container

---
 keylib/utils.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/keylib/utils.c b/keylib/utils.c
index bb8851a..719c7fc 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -33,9 +33,9 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
     unsigned char b = 0;
     const unsigned char* data = NULL;
     unsigned char* buf = NULL;
-    BIGNUM* res = NULL;
+    BIGNUM* res = BN_CTX_get(ctx);
 
-    if (count < 1)
+    if (res == NULL || count < 1)
         return NULL;
     for (i = 0; i < count; ++i)
     {
@@ -51,6 +51,8 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
     length = ASN1_STRING_length(str);
     data = ASN1_STRING_get0_data(str);
     buf = OPENSSL_malloc(length);
+    if (buf == NULL && length > 0)
+        return NULL;
     for (i = 0; i < length; ++i)
     {
         // Swap bits
@@ -62,7 +64,7 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
         buf[length - i - 1] = b;
     }
 
-    res = BN_bin2bn(buf,length, BN_CTX_get(ctx));
+    res = BN_bin2bn(buf, length, res);
 
     OPENSSL_clear_free(buf, length);
 
@@ -102,6 +104,9 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
     DSTU_KEY* key = NULL;
     EVP_PKEY* res = NULL;
 
+    if (ctx == NULL)
+        return NULL;
+
     BN_CTX_start(ctx);
 
     pkNum = getPrivateKeyNum(ctx, keyAttr);
@@ -164,6 +169,13 @@ static EVP_PKEY* pkeyFromAttributes(const PKCS8_PRIV_KEY_INFO* pkcs8)
     int nattr = sk_X509_ATTRIBUTE_num(attributes);
     int i = 0;
 
+    if (dstu4145Curve == NULL || dstu4145Key == NULL)
+    {
+        ASN1_OBJECT_free(dstu4145Key);
+        ASN1_OBJECT_free(dstu4145Curve);
+        return NULL;
+    }
+
     for (i = 0; i < nattr; ++i)
     {
         attr = sk_X509_ATTRIBUTE_value(attributes, i);
-- 
2.43.0


From 2d263c868b3cd496faa1d9b692f7480b03374a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:09 +0000
Subject: [PATCH 35/41] fix: do not sign a message without its algorithm
 identifiers

---
 engine/ameth.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index 127c713..3cdc702 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -683,11 +683,13 @@ static int dstu_asn1_pkey_ctrl(EVP_PKEY *pkey, int op, long arg1, void *arg2)
                 int nid = EVP_PKEY_base_id(pkey);
                 PKCS7_SIGNER_INFO_get0_algs((PKCS7_SIGNER_INFO *)arg2,
                                             NULL, &alg1, &alg2);
-                X509_ALGOR_set0(alg1, OBJ_nid2obj(NID_dstu34311),
-                                V_ASN1_NULL, 0);
+                if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(NID_dstu34311),
+                                     V_ASN1_NULL, 0))
+                    return -1;
                 if (nid == NID_undef)
                     return (-1);
-                X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0);
+                if (!X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0))
+                    return -1;
             }
             return 1;
 #ifndef OPENSSL_NO_CMS
@@ -698,11 +700,13 @@ static int dstu_asn1_pkey_ctrl(EVP_PKEY *pkey, int op, long arg1, void *arg2)
                 int nid = EVP_PKEY_base_id(pkey);
                 CMS_SignerInfo_get0_algs((CMS_SignerInfo *)arg2,
                                          NULL, NULL, &alg1, &alg2);
-                X509_ALGOR_set0(alg1, OBJ_nid2obj(NID_dstu34311),
-                                V_ASN1_NULL, 0);
+                if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(NID_dstu34311),
+                                     V_ASN1_NULL, 0))
+                    return -1;
                 if (nid == NID_undef)
                     return -1;
-                X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0);
+                if (!X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0))
+                    return -1;
             }
             return 1;
 #endif
-- 
2.43.0


From 95551f45c68c4948fb5e618c5d40263478f610e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:29 +0000
Subject: [PATCH 36/41] fix: do not produce output from an unseeded or unlocked
 generator

---
 engine/rbg.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/engine/rbg.c b/engine/rbg.c
index eee2cd0..5e486da 100644
--- a/engine/rbg.c
+++ b/engine/rbg.c
@@ -112,7 +112,8 @@ static int dstu_rbg_status_nolock(void)
 
 static int dstu_rbg_status(void)
 {
-    dstu_lock();
+    if (!dstu_lock())
+        return 0;
 
     int status = dstu_rbg_status_nolock();
 
@@ -125,14 +126,17 @@ static int dstu_rbg_bytes(unsigned char *buf, int num)
 {
     u4 i;
     byte j;
-    int rv = 1;
 
-    dstu_lock();
+    if (!dstu_lock())
+        return 0;
 
     if (!initialized)
     {
         if (!dstu_rbg_status_nolock())
-            rv = 0;
+        {
+            dstu_unlock();
+            return 0;
+        }
     }
 
     for (i = 0; i < (unsigned)num; i++)
@@ -146,19 +150,20 @@ static int dstu_rbg_bytes(unsigned char *buf, int num)
 
     dstu_unlock();
 
-    return rv;
+    return 1;
 }
 
 static void dstu_rbg_cleanup(void)
 {
-    dstu_lock();
+    int locked = dstu_lock();
 
     OPENSSL_cleanse(I, sizeof(I));
     OPENSSL_cleanse(s, sizeof(s));
     OPENSSL_cleanse(&cryptor, sizeof(gost_ctx));
     initialized = 0;
 
-    dstu_unlock();
+    if (locked)
+        dstu_unlock();
 
     /* The lock is created again if the generator is used after cleanup */
     CRYPTO_THREAD_lock_free(dstu_rand_lock);
-- 
2.43.0


From dd9f04da63e03359c318adc9343ecdafcf6c5a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:55 +0000
Subject: [PATCH 37/41] fix: do not sign into a buffer of unknown size

---
 engine/pmeth.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engine/pmeth.c b/engine/pmeth.c
index 3af4eca..8f7d7f2 100644
--- a/engine/pmeth.c
+++ b/engine/pmeth.c
@@ -268,6 +268,8 @@ static int dstu_pkey_sign(EVP_PKEY_CTX *ctx, unsigned char *sig, size_t *siglen,
 
     field_size = BN_num_bytes(n);
     encoded_sig_size = EVP_PKEY_size(pkey);
+    if (!encoded_sig_size)
+        goto err;
 
     if (sig && encoded_sig_size > *siglen)
     {
-- 
2.43.0


From 9a034c4f6a428531d2b85bd9761ebcb4b8bc7c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:09 +0000
Subject: [PATCH 38/41] fix: do not crash printing a key which is not set

---
 engine/ameth.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index 3cdc702..14475e0 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -185,9 +185,13 @@ static int dstu_asn1_param_print(BIO *out, const EVP_PKEY *pkey, int indent,
 
     (void) pctx; // Unused
 
+    if (!dstu_key)
+        return 0;
+
     pk = EVP_PKEY_new();
     if (!pk || !EVP_PKEY_set1_EC_KEY(pk, dstu_key->ec))
     {
+        EVP_PKEY_free(pk);
         DSTUerr(DSTU_F_DSTU_ASN1_PARAM_PRINT, ERR_R_EVP_LIB);
         return 0;
     }
@@ -726,9 +730,15 @@ static int dstu_asn1_priv_print(BIO *out, const EVP_PKEY *pkey, int indent,
     EVP_PKEY *pk;
     int ret;
 
+    if (!dstu_key)
+        return 0;
+
     pk = EVP_PKEY_new();
     if (!pk || !EVP_PKEY_set1_EC_KEY(pk, dstu_key->ec))
+    {
+        EVP_PKEY_free(pk);
         return 0;
+    }
 
     ret = EVP_PKEY_print_private(out, pk, indent, pctx);
 
@@ -744,9 +754,15 @@ static int dstu_asn1_pub_print(BIO *out, const EVP_PKEY *pkey, int indent,
     EVP_PKEY *pk;
     int ret;
 
+    if (!dstu_key)
+        return 0;
+
     pk = EVP_PKEY_new();
     if (!pk || !EVP_PKEY_set1_EC_KEY(pk, dstu_key->ec))
+    {
+        EVP_PKEY_free(pk);
         return 0;
+    }
 
     ret = EVP_PKEY_print_public(out, pk, indent, pctx);
 
-- 
2.43.0


From fd4a9d1f199367b5f45c83b78550380c2bd6ae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:54 +0000
Subject: [PATCH 39/41] fix: keep the digest and cipher until the engine is
 destroyed

They were freed when the engine was finished, although the names stayed known and the
engine could be initialised again; the error strings went with them, or not at all if
the engine was never initialised. Failures of bind are undone and allocations checked.
---
 engine/ameth.c |  3 +++
 engine/dstu.c  | 46 ++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index 14475e0..da0871c 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -781,6 +781,9 @@ EVP_PKEY_ASN1_METHOD *dstu_asn1_meth_new(int nid)
     else
         return NULL;
 
+    if (!res)
+        return NULL;
+
     EVP_PKEY_asn1_set_param(res, dstu_asn1_param_decode,
                             dstu_asn1_param_encode, dstu_asn1_param_missing,
                             dstu_asn1_param_copy, dstu_asn1_param_cmp, dstu_asn1_param_print);
diff --git a/engine/dstu.c b/engine/dstu.c
index 767705f..7668313 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -9,6 +9,7 @@
 #include <openssl/err.h>
 #include <openssl/evp.h>
 #include <openssl/obj_mac.h>
+#include <openssl/objects.h>
 #include <openssl/ossl_typ.h>
 
 #include <string.h>
@@ -94,10 +95,39 @@ static int dstu_engine_init(ENGINE *e)
 static int dstu_engine_finish(ENGINE *e)
 {
     (void) e; // Unused
+    return 1;
+}
+
+/* Takes back everything given to the rest of the library. Not done in finish because
+ * the engine may be initialised again, and the names are in use without it */
+static void dstu_cleanup(void)
+{
+    OBJ_NAME_remove(SN_dstu34311, OBJ_NAME_TYPE_MD_METH);
+    OBJ_NAME_remove(LN_dstu34311, OBJ_NAME_TYPE_MD_METH);
+    OBJ_NAME_remove(SN_dstu28147_cfb, OBJ_NAME_TYPE_CIPHER_METH);
+    OBJ_NAME_remove(LN_dstu28147_cfb, OBJ_NAME_TYPE_CIPHER_METH);
+
     dstu_cipher_free(dstu_cipher);
+    dstu_cipher = NULL;
     dstu_digest_free(dstu_md);
+    dstu_md = NULL;
 
     ERR_unload_DSTU_strings();
+}
+
+static int dstu_engine_destroy(ENGINE *e)
+{
+    unsigned long long i = 0;
+    (void) e; // Unused
+
+    /* The library has freed the methods already */
+    for (i = 0; i < sizeof(dstu_nids) / sizeof(int); ++i)
+    {
+        dstu_pkey_methods[i] = NULL;
+        dstu_asn1_methods[i] = NULL;
+    }
+
+    dstu_cleanup();
 
     return 1;
 }
@@ -111,7 +141,7 @@ static int dstu_digests(ENGINE *e, const EVP_MD **digest, const int **nids,
         if (NID_dstu34311 == nid)
         {
             *digest = dstu_md_get();
-            return 1;
+            return *digest != NULL;
         }
         else
             return 0;
@@ -134,7 +164,7 @@ static int dstu_ciphers(ENGINE *e, const EVP_CIPHER **cipher, const int **nids,
         if (NID_dstu28147_cfb == nid)
         {
             *cipher = dstu_cipher_get();
-            return 1;
+            return *cipher != NULL;
         }
         else
             return 0;
@@ -187,9 +217,16 @@ static int dstu_bind(ENGINE *e, const char *id)
     if (id && strcmp(id, engine_dstu_id))
         return 0;
 
+    if (!dstu_md_get() || !dstu_cipher_get())
+    {
+        dstu_cleanup();
+        return 0;
+    }
+
     if (!ENGINE_set_id(e, engine_dstu_id) ||
         !ENGINE_set_name(e, engine_dstu_name) ||
         !ENGINE_set_init_function(e, dstu_engine_init) ||
+        !ENGINE_set_destroy_function(e, dstu_engine_destroy) ||
         !ENGINE_set_finish_function(e, dstu_engine_finish) ||
         !ENGINE_set_digests(e, dstu_digests) ||
         !ENGINE_set_ciphers(e, dstu_ciphers) ||
@@ -206,6 +243,11 @@ static int dstu_bind(ENGINE *e, const char *id)
         !EVP_PBE_alg_add_type(EVP_PBE_TYPE_PRF, NID_hmacWithDstu34311, -1, NID_dstu34311, NULL)) /* Adding our algorithms to support PBKDF2 */
     {
         DSTUerr(DSTU_F_BIND_DSTU, ERR_R_EVP_LIB);
+        ENGINE_unregister_digests(e);
+        ENGINE_unregister_ciphers(e);
+        ENGINE_unregister_pkey_meths(e);
+        ENGINE_unregister_pkey_asn1_meths(e);
+        dstu_cleanup();
         return 0;
     }
 
-- 
2.43.0


From dc787a3b834329c7dfc4d32959d7a4e604e27eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:09 +0000
Subject: [PATCH 40/41] fix: give every engine its own key methods

The library frees the methods of an engine with it, so when the engine was loaded twice
the keys of the other one were left with freed methods. They are also made when the
engine is bound, because threads asking for them first at the same time raced.
---
 engine/dstu.c | 121 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 81 insertions(+), 40 deletions(-)

diff --git a/engine/dstu.c b/engine/dstu.c
index 7668313..96e0a9f 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -5,6 +5,7 @@
 #include "ameth.h"
 #include "err.h"
 
+#include <openssl/crypto.h>
 #include <openssl/engine.h>
 #include <openssl/err.h>
 #include <openssl/evp.h>
@@ -37,8 +38,17 @@ static const int DSTU_ENGINE_FLAGS =
 
 static EVP_MD *dstu_md = NULL;
 static EVP_CIPHER *dstu_cipher = NULL;
-static EVP_PKEY_METHOD *dstu_pkey_methods[] = {NULL, NULL};
-static EVP_PKEY_ASN1_METHOD *dstu_asn1_methods[] = {NULL, NULL};
+
+/* The library frees the methods with the engine they came from, so if it is loaded
+ * more than once every engine has its own */
+struct dstu_methods
+{
+    EVP_PKEY_METHOD *pkey[sizeof(dstu_nids) / sizeof(int)];
+    EVP_PKEY_ASN1_METHOD *asn1[sizeof(dstu_nids) / sizeof(int)];
+};
+
+static int methods_index = -1;
+static int engines = 0;
 
 static EVP_MD *dstu_md_get()
 {
@@ -54,36 +64,49 @@ static EVP_CIPHER *dstu_cipher_get()
     return dstu_cipher;
 }
 
-static EVP_PKEY_METHOD *dstu_pkey_meth_get(int nid)
+static void dstu_methods_free(struct dstu_methods *methods)
 {
     unsigned long long i = 0;
+
     for (i = 0; i < sizeof(dstu_nids) / sizeof(int); ++i)
     {
-        if (nid == dstu_nids[i])
-        {
-            if (dstu_pkey_methods[i] == NULL)
-                dstu_pkey_methods[i] = dstu_pkey_meth_new(nid);
-            return dstu_pkey_methods[i];
-        }
+        if (methods->pkey[i])
+            dstu_pkey_meth_free(methods->pkey[i]);
+        if (methods->asn1[i])
+            dstu_asn1_meth_free(methods->asn1[i]);
     }
-
-    return NULL;
+    OPENSSL_free(methods);
 }
 
-static EVP_PKEY_ASN1_METHOD *dstu_asn1_meth_get(int nid)
+static int dstu_methods_set(ENGINE *e)
 {
     unsigned long long i = 0;
+    struct dstu_methods *methods = OPENSSL_zalloc(sizeof(*methods));
+
+    if (!methods)
+        return 0;
+
     for (i = 0; i < sizeof(dstu_nids) / sizeof(int); ++i)
     {
-        if (nid == dstu_nids[i])
+        methods->pkey[i] = dstu_pkey_meth_new(dstu_nids[i]);
+        methods->asn1[i] = dstu_asn1_meth_new(dstu_nids[i]);
+        if (!methods->pkey[i] || !methods->asn1[i])
         {
-            if (dstu_asn1_methods[i] == NULL)
-                dstu_asn1_methods[i] = dstu_asn1_meth_new(nid);
-            return dstu_asn1_methods[i];
+            dstu_methods_free(methods);
+            return 0;
         }
     }
 
-    return NULL;
+    if (methods_index < 0)
+        methods_index = ENGINE_get_ex_new_index(0, NULL, NULL, NULL, NULL);
+
+    if (methods_index < 0 || !ENGINE_set_ex_data(e, methods_index, methods))
+    {
+        dstu_methods_free(methods);
+        return 0;
+    }
+
+    return 1;
 }
 
 static int dstu_engine_init(ENGINE *e)
@@ -117,17 +140,12 @@ static void dstu_cleanup(void)
 
 static int dstu_engine_destroy(ENGINE *e)
 {
-    unsigned long long i = 0;
-    (void) e; // Unused
+    /* The library has freed the methods themselves already */
+    OPENSSL_free(ENGINE_get_ex_data(e, methods_index));
+    ENGINE_set_ex_data(e, methods_index, NULL);
 
-    /* The library has freed the methods already */
-    for (i = 0; i < sizeof(dstu_nids) / sizeof(int); ++i)
-    {
-        dstu_pkey_methods[i] = NULL;
-        dstu_asn1_methods[i] = NULL;
-    }
-
-    dstu_cleanup();
+    if (--engines == 0)
+        dstu_cleanup();
 
     return 1;
 }
@@ -181,35 +199,53 @@ static int dstu_ciphers(ENGINE *e, const EVP_CIPHER **cipher, const int **nids,
 static int dstu_pkey_meths(ENGINE *e, EVP_PKEY_METHOD **pmeth, const int **nids,
                            int nid)
 {
-    (void) e; // Unused
+    struct dstu_methods *methods = NULL;
+    unsigned long long i = 0;
+
     if (!pmeth)
     {
         *nids = dstu_nids;
         return sizeof(dstu_nids) / sizeof(int);
     }
 
-    *pmeth = dstu_pkey_meth_get(nid);
-    if (*pmeth != NULL)
-        return 1;
+    *pmeth = NULL;
+    methods = ENGINE_get_ex_data(e, methods_index);
+    if (!methods)
+        return 0;
+
+    for (i = 0; i < sizeof(dstu_nids) / sizeof(int); ++i)
+    {
+        if (nid == dstu_nids[i])
+            *pmeth = methods->pkey[i];
+    }
 
-    return 0;
+    return *pmeth != NULL;
 }
 
 static int dstu_asn1_meths(ENGINE *e, EVP_PKEY_ASN1_METHOD **ameth,
                            const int **nids, int nid)
 {
-    (void) e; // Unused
+    struct dstu_methods *methods = NULL;
+    unsigned long long i = 0;
+
     if (!ameth)
     {
         *nids = dstu_nids;
         return sizeof(dstu_nids) / sizeof(int);
     }
 
-    *ameth = dstu_asn1_meth_get(nid);
-    if (*ameth != NULL)
-        return 1;
+    *ameth = NULL;
+    methods = ENGINE_get_ex_data(e, methods_index);
+    if (!methods)
+        return 0;
+
+    for (i = 0; i < sizeof(dstu_nids) / sizeof(int); ++i)
+    {
+        if (nid == dstu_nids[i])
+            *ameth = methods->asn1[i];
+    }
 
-    return 0;
+    return *ameth != NULL;
 }
 
 static int dstu_bind(ENGINE *e, const char *id)
@@ -217,9 +253,10 @@ static int dstu_bind(ENGINE *e, const char *id)
     if (id && strcmp(id, engine_dstu_id))
         return 0;
 
-    if (!dstu_md_get() || !dstu_cipher_get())
+    if (!dstu_md_get() || !dstu_cipher_get() || !dstu_methods_set(e))
     {
-        dstu_cleanup();
+        if (engines == 0)
+            dstu_cleanup();
         return 0;
     }
 
@@ -247,11 +284,15 @@ static int dstu_bind(ENGINE *e, const char *id)
         ENGINE_unregister_ciphers(e);
         ENGINE_unregister_pkey_meths(e);
         ENGINE_unregister_pkey_asn1_meths(e);
-        dstu_cleanup();
+        dstu_methods_free(ENGINE_get_ex_data(e, methods_index));
+        ENGINE_set_ex_data(e, methods_index, NULL);
+        if (engines == 0)
+            dstu_cleanup();
         return 0;
     }
 
     ERR_load_DSTU_strings();
+    ++engines;
 
     return 1;
 }
-- 
2.43.0


From 3c63cda1d8d4ae5d9016b450d6412471dbcefffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:36 +0000
Subject: [PATCH 41/41] fix: release the random generator's lock and state with
 the engine

---
 engine/dstu.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engine/dstu.c b/engine/dstu.c
index 96e0a9f..93f3975 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -135,6 +135,9 @@ static void dstu_cleanup(void)
     dstu_digest_free(dstu_md);
     dstu_md = NULL;
 
+    /* Nobody else does when another random generator is chosen */
+    dstu_rand_meth.cleanup();
+
     ERR_unload_DSTU_strings();
 }
 
-- 
2.43.0

