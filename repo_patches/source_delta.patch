From c5e669cbddbfece330de7b718dfb3f8e3b80a61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 01/36] fix: registrar reports a voucher request refused by the
 MASA as a failure

post_voucher_request returned the positive value 400 when the MASA answered
with an error, the caller only looked for negative values, so the pledge got
200 OK with an empty body. Anything but 200 OK from the MASA is now a failure
that is answered with 502.
---
 src/brski/registrar/registrar_api.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 60d8e10..197cf2b 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -118,12 +118,12 @@ int post_voucher_request(struct BinaryArray *voucher_request_cms,
     return -1;
   }
 
-  if (status >= 400) {
+  if (status != 200) {
     log_error("https_post_request failed with HTTP code %d and "
               "response: '%s'",
               status, http_res.response.c_str());
     crypto_free_certcontext(http_res.peer_certificate);
-    return 400;
+    return -1;
   }
 
   crypto_free_certcontext(http_res.peer_certificate);
-- 
2.43.0


From 42eddec7f85f9af77e7e168134f5b0199ac4f8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 02/36] fix: MASA keeps the pinned domain certificate per
 request

masa_requestvoucher stored the certificate of the request in the context shared
by all of the server's threads and freed it at the end of the request without
clearing it: concurrent requests used or freed each other's certificate, and a
request that failed early freed the one of the previous request again.
---
 src/brski/masa/masa_api.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/brski/masa/masa_api.cpp b/src/brski/masa/masa_api.cpp
index 4782073..a885140 100644
--- a/src/brski/masa/masa_api.cpp
+++ b/src/brski/masa/masa_api.cpp
@@ -59,7 +59,11 @@ int masa_requestvoucher(const RequestHeader &request_header,
                         CRYPTO_CERT peer_certificate,
                         ResponseHeader &response_header, std::string &response,
                         void *user_ctx) {
-  struct MasaContext *context = static_cast<struct MasaContext *>(user_ctx);
+  /* The request handlers run concurrently, thus every request works on its own
+   * copy of the context */
+  struct MasaContext request_context =
+      *static_cast<struct MasaContext *>(user_ctx);
+  struct MasaContext *context = &request_context;
   struct registrar_config *rconf = context->rconf;
   struct masa_config *mconf = context->mconf;
 
@@ -136,7 +140,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   }
 
   masa_pledge_voucher = sign_masa_pledge_voucher(
-      &voucher_request_cms, &expires_on, voucher_req_cb, user_ctx,
+      &voucher_request_cms, &expires_on, voucher_req_cb, context,
       masa_sign_cert, masa_sign_key, registrar_verify_certs,
       registrar_store_certs, pledge_verify_certs, pledge_store_certs,
       additional_masa_certs);
-- 
2.43.0


From 01b74786329a850cd445b5cc32f88ad48b90042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 03/36] fix: reject a body that is not valid base64 instead of
 using a freed buffer

base64_gen_decode left its output pointer pointing to the freed buffer when the
padding is invalid, and the callers compared the (unsigned) length of the
decoded voucher request with 0, so the error was never noticed: the freed
buffer was parsed as CMS and freed a second time.
---
 src/brski/brski.cpp                   |  7 ++++---
 src/brski/masa/masa_api.cpp           |  8 +++++---
 src/brski/pledge/pledge_request.cpp   | 10 ++++++----
 src/brski/registrar/registrar_api.cpp | 15 +++++++++++----
 src/voucher/serialize.c               |  1 +
 5 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 92ab7d3..4202961 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -427,12 +427,13 @@ int main(int argc, char *argv[]) {
 
       struct BinaryArray masa_pledge_voucher_cms = {};
 
-      if ((masa_pledge_voucher_cms.length =
-               serialize_base64str2array((const uint8_t *)inbuf, sz,
-                                         &masa_pledge_voucher_cms.array)) < 0) {
+      ssize_t length = serialize_base64str2array(
+          (const uint8_t *)inbuf, sz, &masa_pledge_voucher_cms.array);
+      if (length < 0) {
         log_errno("serialize_base64str2array fail");
         return EXIT_FAILURE;
       }
+      masa_pledge_voucher_cms.length = length;
 
       struct BinaryArray *registrar_tls_cert =
           file_to_x509buf(in_filename.c_str());
diff --git a/src/brski/masa/masa_api.cpp b/src/brski/masa/masa_api.cpp
index a885140..d36d6b1 100644
--- a/src/brski/masa/masa_api.cpp
+++ b/src/brski/masa/masa_api.cpp
@@ -77,6 +77,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   struct BinaryArrayList *additional_masa_certs = NULL;
   struct BinaryArray *masa_pledge_voucher = NULL;
   char *base64 = NULL;
+  ssize_t length;
   const char *cms_str = request_body.c_str();
 
   log_trace("masa_requestvoucher:");
@@ -88,12 +89,13 @@ int masa_requestvoucher(const RequestHeader &request_header,
     goto masa_requestvoucher_fail;
   }
 
-  if ((voucher_request_cms.length =
-           serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
-                                     &voucher_request_cms.array)) < 0) {
+  if ((length = serialize_base64str2array((const uint8_t *)cms_str,
+                                          strlen(cms_str),
+                                          &voucher_request_cms.array)) < 0) {
     log_errno("serialize_base64str2array fail");
     goto masa_requestvoucher_fail;
   }
+  voucher_request_cms.length = length;
 
   if ((context->ldevid_ca_cert = file_to_x509buf(mconf->ldevid_ca_cert_path)) ==
       NULL) {
diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 5f57818..2dd0271 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -177,13 +177,15 @@ int post_voucher_pledge_request(struct pledge_config *pconf,
   const char *masa_pledge_voucher_str = http_res.response.c_str();
   struct BinaryArray masa_pledge_voucher_cms = {};
 
-  if ((masa_pledge_voucher_cms.length =
-           serialize_base64str2array((const uint8_t *)masa_pledge_voucher_str,
-                                     strlen(masa_pledge_voucher_str),
-                                     &masa_pledge_voucher_cms.array)) < 0) {
+  ssize_t length;
+  if ((length = serialize_base64str2array(
+           (const uint8_t *)masa_pledge_voucher_str,
+           strlen(masa_pledge_voucher_str), &masa_pledge_voucher_cms.array)) <
+      0) {
     log_errno("serialize_base64str2array fail");
     goto post_voucher_pledge_request_fail;
   }
+  masa_pledge_voucher_cms.length = length;
 
   if (verify_masa_pledge_request(pconf, &masa_pledge_voucher_cms,
                                  registrar_tls_cert, pinned_domain_cert) < 0) {
diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 197cf2b..77a6a6c 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -188,15 +188,22 @@ int registrar_requestvoucher(const RequestHeader &request_header,
 
   auto pledge_voucher_request_cms =
       std::unique_ptr<BinaryArray, void (*)(BinaryArray *)>{
-          static_cast<BinaryArray *>(std::malloc(sizeof(BinaryArray))),
+          init_binary_array(),
           [](BinaryArray *b) { free_binary_array(b); },
       };
-  if ((pledge_voucher_request_cms->length =
-           serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
-                                     &pledge_voucher_request_cms->array)) < 0) {
+  if (pledge_voucher_request_cms == nullptr) {
+    log_error("init_binary_array fail");
+    return 500;
+  }
+
+  ssize_t cms_length =
+      serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
+                                &pledge_voucher_request_cms->array);
+  if (cms_length < 0) {
     log_errno("serialize_base64str2array fail");
     return 400;
   }
+  pledge_voucher_request_cms->length = cms_length;
 
   if (get_localtime(&created_on) < 0) {
     log_error("get_localtime fail");
diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index 32e0925..ba92a0c 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -242,6 +242,7 @@ static ssize_t base64_gen_decode(const uint8_t *src, const size_t len,
         } else {
           log_error("Invalid padding");
           sys_free(*out);
+          *out = NULL;
           return -1;
         }
         break;
-- 
2.43.0


From f64646ce0d140b24bcab7365f905eded49ca6513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 04/36] fix: refuse a pledge voucher request without a serial
 number

The registrar compared the missing serial number with strcmp and crashed.
---
 src/voucher/request.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 59bab6b..9f53250 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -130,8 +130,8 @@ sign_voucher_request(const struct BinaryArray *pledge_voucher_request_cms,
    * cert serial number */
   const char *const *pledge_serial_number =
       get_attr_str_voucher(pledge_voucher_request, ATTR_SERIAL_NUMBER);
-  if (pledge_serial_number == NULL) {
-    log_error("get_attr_str_voucher fail");
+  if (pledge_serial_number == NULL || *pledge_serial_number == NULL) {
+    log_error("serial-number is missing");
     free_voucher(pledge_voucher_request);
     return NULL;
   }
-- 
2.43.0


From 0c2667f8406b3694d1cef67c1d20acd15a830ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 05/36] fix: do not free the list of certificates or paths
 twice when loading fails

load_cert_files and load_config_value_list freed the list they return on
failure but left the caller's pointer set; the callers free it again.
---
 src/brski/config.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/brski/config.c b/src/brski/config.c
index d109f39..75d492d 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -56,6 +56,7 @@ int load_config_value_list(const char *section, const char *key,
       log_errno("sys_zalloc");
       sys_free(store);
       free_array_list(*value_list);
+      *value_list = NULL;
       return -1;
     }
 
@@ -67,6 +68,7 @@ int load_config_value_list(const char *section, const char *key,
         sys_free(value);
         sys_free(store);
         free_array_list(*value_list);
+        *value_list = NULL;
         return -1;
       }
     }
@@ -694,6 +696,7 @@ int load_cert_files(struct BinaryArrayList *cert_paths,
     if ((cert = file_to_x509buf(cert_path_str)) == NULL) {
       log_error("file_to_x509buf fail");
       free_array_list(*out);
+      *out = NULL;
       return -1;
     }
 
@@ -701,6 +704,7 @@ int load_cert_files(struct BinaryArrayList *cert_paths,
       log_error("push_array_list fail");
       free_binary_array(cert);
       free_array_list(*out);
+      *out = NULL;
       return -1;
     }
     free_binary_array(cert);
-- 
2.43.0


From 3c7ec455b12e76b7d140844f88e7550186588f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 06/36] fix: do not free the nonce twice when the configured
 nonce is not base64

---
 src/brski/pledge/pledge_request.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 2dd0271..d81f915 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -52,7 +52,6 @@ int verify_masa_pledge_request(struct pledge_config *pconf,
                                             strlen(pconf->nonce),
                                             &nonce->array)) < 0) {
       log_errno("serialize_base64str2array fail");
-      free_binary_array(nonce);
       goto verify_masa_pledge_request_fail;
     }
     nonce->length = length;
-- 
2.43.0


From a9ad6cc378e33382f5a5801fa45ba85afccd61f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 07/36] fix: do not drop the references of the certificates in
 a CMS message

CMS_get0_signers returns certificates that belong to the CMS structure, only
the stack itself has to be freed.
---
 src/voucher/crypto_ossl.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 7b13840..f64e5b6 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1570,14 +1570,14 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
   int length = sk_X509_num(signers);
 
   if (!length) {
-    sk_X509_pop_free(signers, X509_free);
+    sk_X509_free(signers);
     return 0;
   }
 
   *out_certs = init_array_list();
   if (*out_certs == NULL) {
     log_error("init_buffer_list fail");
-    sk_X509_pop_free(signers, X509_free);
+    sk_X509_free(signers);
     return -1;
   }
 
@@ -1588,7 +1588,7 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
     if (cert_length < 0) {
       log_error("cert_to_derbuf fail");
       free_array_list(*out_certs);
-      sk_X509_pop_free(signers, X509_free);
+      sk_X509_free(signers);
       *out_certs = NULL;
       return -1;
     }
@@ -1596,14 +1596,14 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
       log_error("push_buffer_list fail");
       sys_free(cert);
       free_array_list(*out_certs);
-      sk_X509_pop_free(signers, X509_free);
+      sk_X509_free(signers);
       *out_certs = NULL;
       return -1;
     }
     sys_free(cert);
   }
 
-  sk_X509_pop_free(signers, X509_free);
+  sk_X509_free(signers);
   return 0;
 }
 
-- 
2.43.0


From 59ef7e750b9ac84c54f2c2ee22e3f13ccb83337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 08/36] fix: verify the registrar certificate against the
 pinned domain certificate

crypto_verify_cert only built a chain. X509_build_chain checks no signature and
without a store it also returns an incomplete chain, so the pledge accepted
every registrar whatever certificate the voucher pinned. Verify the chain up to
the store, or up to the given certificates when there is no store. As before,
issuers need no CA basic constraint and the validity period isn't checked.
---
 src/voucher/crypto_ossl.c | 46 +++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index f64e5b6..15fd66d 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1296,6 +1296,16 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
   return x509_store;
 }
 
+static int verify_cert_cb(int ok, X509_STORE_CTX *ctx) {
+  /* An issuer doesn't have to be marked as a CA */
+  if (!ok && X509_STORE_CTX_get_error(ctx) == X509_V_ERR_INVALID_CA) {
+    X509_STORE_CTX_set_error(ctx, X509_V_OK);
+    return 1;
+  }
+
+  return ok;
+}
+
 int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
                        const struct BinaryArrayList *certs,
                        const struct BinaryArrayList *store) {
@@ -1335,22 +1345,40 @@ int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
     }
   }
 
-  STACK_OF(X509) *out_cert_stack =
-      X509_build_chain(x509, cert_stack, cert_store, 0, NULL, NULL);
-  if (out_cert_stack == NULL) {
-    log_error("X509_build_chain fail");
+  int ret = -1;
+  X509_STORE_CTX *store_ctx = X509_STORE_CTX_new();
+  if (store_ctx == NULL) {
+    log_error("X509_STORE_CTX_new fail with code=%s",
+              ERR_error_string(ERR_get_error(), NULL));
+    goto crypto_verify_cert_end;
+  }
+
+  if (!X509_STORE_CTX_init(store_ctx, cert_store, x509, cert_stack)) {
+    log_error("X509_STORE_CTX_init fail with code=%s",
+              ERR_error_string(ERR_get_error(), NULL));
+    goto crypto_verify_cert_end;
   }
 
-  int ret = (out_cert_stack != NULL) ? 0 : -1;
+  X509_STORE_CTX_set_verify_cb(store_ctx, verify_cert_cb);
+  X509_STORE_CTX_set_flags(store_ctx, X509_V_FLAG_NO_CHECK_TIME);
+  if (cert_store == NULL) {
+    /* Without a store the given certificates are the trust anchors */
+    X509_STORE_CTX_set0_trusted_stack(store_ctx, cert_stack);
+    X509_STORE_CTX_set_flags(store_ctx, X509_V_FLAG_PARTIAL_CHAIN);
+  }
 
-  if (sk_X509_num(out_cert_stack) < 1) {
-    log_error("cert stack is empty");
-    ret = -1;
+  if (X509_verify_cert(store_ctx) == 1) {
+    ret = 0;
+  } else {
+    log_error("X509_verify_cert fail with \"%s\"",
+              X509_verify_cert_error_string(
+                  X509_STORE_CTX_get_error(store_ctx)));
   }
 
+crypto_verify_cert_end:
+  X509_STORE_CTX_free(store_ctx);
   free_x509_store(cert_store, x509_store_list);
   sk_X509_pop_free(cert_stack, X509_free);
-  sk_X509_pop_free(out_cert_stack, X509_free);
   X509_free(x509);
   return ret;
 }
-- 
2.43.0


From e3cbc7ee459f8dc12060c9998fde0cb29698a23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 09/36] fix: use the cryptographic random generator for
 certificate serial numbers

The serial number came from rand() seeded with the time in seconds: pledges
that enrol within the same second got certificates with the same serial number.
---
 src/brski/pledge/pledge_request.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index d81f915..dd832fb 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -210,15 +210,11 @@ std::string create_cert_string(const char *cert) {
   return out;
 }
 
-uint64_t gen_rand64(void) {
-  uint64_t value = 0x0;
+int gen_rand64(uint64_t *value) {
+  struct BinaryArray buf = {.array = (uint8_t *)value,
+                            .length = sizeof(*value)};
 
-  srand(time(0));
-
-  for (int i = 0; i < 64; i += 15) {
-    value = value * ((uint64_t)RAND_MAX + 1) + rand();
-  }
-  return value;
+  return crypto_getrand(&buf);
 }
 
 int generate_sign_cert(struct BinaryArray *scert_cert,
@@ -228,7 +224,7 @@ int generate_sign_cert(struct BinaryArray *scert_cert,
   struct BinaryArray buf = {.array = rand, .length = 8};
 
   struct crypto_cert_meta sign_cert_meta = {
-      .serial_number = gen_rand64(),
+      .serial_number = 0,
       .not_before = 0,
       // Long-lived pledge certificate
       .not_after_absolute = (char *)"99991231235959Z",
@@ -236,6 +232,11 @@ int generate_sign_cert(struct BinaryArray *scert_cert,
       .subject = NULL,
       .basic_constraints = (char *)"CA:false"};
 
+  if (gen_rand64(&sign_cert_meta.serial_number) < 0) {
+    log_error("gen_rand64 fail");
+    return -1;
+  }
+
   if (crypto_getrand(&buf) < 0) {
     log_error("crypto_getrand fail");
     return -1;
-- 
2.43.0


From 55bdd56e0e106bfc4f1708c06cf28950e59d8e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 10/36] fix: notice a failure to generate the pledge's key or
 certificate

The unsigned length was compared with 0, thus the error was never seen.
---
 src/brski/pledge/pledge_request.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index dd832fb..214251d 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -219,6 +219,7 @@ int gen_rand64(uint64_t *value) {
 
 int generate_sign_cert(struct BinaryArray *scert_cert,
                        struct BinaryArray *scert_key) {
+  ssize_t length;
   uint8_t rand[8];
   char rands[17];
   struct BinaryArray buf = {.array = rand, .length = 8};
@@ -273,18 +274,20 @@ int generate_sign_cert(struct BinaryArray *scert_cert,
     goto generate_sign_cert_err;
   }
 
-  if ((scert_key->length = (size_t)crypto_generate_eckey(&scert_key->array)) <
-      0) {
+  if ((length = crypto_generate_eckey(&scert_key->array)) < 0) {
     log_error("crypto_generate_eckey fail");
     goto generate_sign_cert_err;
   }
+  scert_key->length = length;
 
-  if ((scert_cert->length = (size_t)crypto_generate_eccert(
-           &sign_cert_meta, scert_key->array, scert_key->length,
-           &scert_cert->array)) < 0) {
+  if ((length = crypto_generate_eccert(&sign_cert_meta, scert_key->array,
+                                       scert_key->length,
+                                       &scert_cert->array)) < 0) {
+    log_error("crypto_generate_eccert fail");
     free_binary_array_content(scert_key);
     goto generate_sign_cert_err;
   }
+  scert_cert->length = length;
 
   free_keyvalue_list(sign_cert_meta.issuer);
   free_keyvalue_list(sign_cert_meta.subject);
-- 
2.43.0


From 06b603ea8679573d0860742653cb116a60a45ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 11/36] fix: report an output file that could not be written
 completely

The data is written when the file is flushed or closed; that result was
ignored, so a full disk left a truncated file and the command succeeded.
---
 src/voucher/crypto_ossl.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 15fd66d..0da50d1 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -166,6 +166,13 @@ int cmsbuf_to_file(const struct BinaryArray *cms, const char *filename) {
     return -1;
   }
 
+  if (BIO_flush(out) < 1) {
+    log_errno("Couldn't write %s file.", filename);
+    BIO_free(out);
+    CMS_ContentInfo_free(content);
+    return -1;
+  }
+
   BIO_free(out);
   CMS_ContentInfo_free(content);
   return 0;
@@ -195,8 +202,12 @@ int certbuf_to_file(const struct BinaryArray *cert, const char *filename) {
     return -1;
   }
 
-  fclose(fp);
   X509_free(x509);
+  if (fclose(fp) != 0) {
+    log_errno("Couldn't write %s file.", filename);
+    return -1;
+  }
+
   return 0;
 }
 
@@ -224,8 +235,12 @@ int keybuf_to_file(const struct BinaryArray *key, const char *filename) {
     return -1;
   }
 
-  fclose(fp);
   EVP_PKEY_free(pkey);
+  if (fclose(fp) != 0) {
+    log_errno("Couldn't write %s file.", filename);
+    return -1;
+  }
+
   return 0;
 }
 
-- 
2.43.0


From a1c3f4e127a40761af1f683e1d768a6cceedff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 12/36] fix: voucher timestamps are in UTC

The time was the local one but is serialized with the UTC designator Z, and
localtime shares its result between the server's threads.
---
 src/utils/os.c | 6 ++----
 src/utils/os.h | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/utils/os.c b/src/utils/os.c
index 59e1639..a963f0a 100644
--- a/src/utils/os.c
+++ b/src/utils/os.c
@@ -94,7 +94,6 @@ size_t sys_strnlen_s(const char *const str, const size_t max_len) {
 
 int get_localtime(struct tm *current) {
   time_t ltime;
-  struct tm *newtime;
 
   if (current == NULL) {
     log_error("current is NULL");
@@ -102,11 +101,10 @@ int get_localtime(struct tm *current) {
   }
 
   time(&ltime);
-  if ((newtime = localtime(&ltime)) == NULL) {
-    log_errno("localtime");
+  if (gmtime_r(&ltime, current) == NULL) {
+    log_errno("gmtime_r");
     return -1;
   }
-  sys_memcpy(current, newtime, sizeof(struct tm));
 
   return 0;
 }
diff --git a/src/utils/os.h b/src/utils/os.h
index b470b74..a7a514b 100644
--- a/src/utils/os.h
+++ b/src/utils/os.h
@@ -174,8 +174,7 @@ size_t sys_strlcpy(char *const dest, const char *const src, const size_t siz);
 size_t sys_strnlen_s(const char *const str, const size_t max_len);
 
 /**
- * @brief Returns the time since Epoch (00:00:00 UTC, January 1, 1970)
- * using localtime
+ * @brief Returns the current time in UTC
  *
  * @param current The returned time since Epoch as struct tm
  * @return int 0 on success, -1 on failure
-- 
2.43.0


From 0f57fc011dfff5ac249c9e1a9dfee4df125a49a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 13/36] fix: a server that can't listen reports a failure

The result of listen was ignored, so a server with unusable credentials or an
occupied port ended with the exit status of success. The handler of exceptions
stopped the address of the server's pointer instead of the server.
---
 src/brski/http/httplib_wrapper.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index ee56be0..e5502ed 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -225,10 +225,16 @@ int httplib_start(struct http_config *config,
     log_info("Starting the HTTPS server at %s:%d", config->bind_address,
              config->port);
 
-    server->listen(config->bind_address, config->port);
+    if (!server->listen(config->bind_address, config->port)) {
+      log_error("httplib::SSLServer listen fail");
+      httplib_stop(*srv_ctx);
+      *srv_ctx = nullptr;
+      return -1;
+    }
   } catch (...) {
     log_error("httplib::SSLServer() fail");
-    httplib_stop(srv_ctx);
+    httplib_stop(*srv_ctx);
+    *srv_ctx = nullptr;
     return -1;
   }
 
-- 
2.43.0


From 58d7c9d4535126756699d77546fad7f4488588f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 14/36] fix: an error reply has the content type text/plain
 only

set_header adds a second Content-Type header after the one of the handler.
---
 src/brski/http/httplib_wrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index e5502ed..66fd489 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -167,6 +167,7 @@ void set_error_handler(httplib::SSLServer *server) {
           res.body = HTTP_ERROR_REPLY; // set default error response
         }
         // according to BRSKI spec, all errors must be plain text
+        res.headers.erase("Content-Type");
         res.set_header("Content-Type", "text/plain");
       });
 }
-- 
2.43.0


From 405a44198b396be9328d17f0c798721182225be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 15/36] fix: vmasa no longer writes behind its buffer when the
 input has the max size

---
 src/brski/brski.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 4202961..fe0313a 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -407,7 +407,7 @@ int main(int argc, char *argv[]) {
     }
     case CommandId::COMMAND_VERIFY_MASA: {
       struct BinaryArray pinned_domain_cert = {};
-      uint8_t inbuf[MAX_STDIN_SIZE];
+      uint8_t inbuf[MAX_STDIN_SIZE + 1];
       if (in_filename.empty()) {
         log_error("No input registrar certificate file");
         return EXIT_FAILURE;
-- 
2.43.0


From 2adf83e4f3d313a6be895dab7da5d357105d09a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 16/36] fix: handle a failed allocation when a voucher is
 parsed

---
 src/voucher/voucher.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 50084c9..ff7b7e3 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -819,6 +819,11 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
   }
 
   struct Voucher *voucher = init_voucher();
+  if (voucher == NULL) {
+    log_error("init_voucher fail");
+    return NULL;
+  }
+
   bool found_root = false;
 
   for (int idx = 1; idx < count; idx++) {
-- 
2.43.0


From b8e2cc5fd824e1e17e5b126c97a6b03f967c9a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 17/36] fix: do not leak the previous value when a voucher
 attribute is set again

A voucher whose JSON repeats an attribute leaked memory with every request.
---
 src/voucher/voucher.c | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index ff7b7e3..650c359 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -182,10 +182,14 @@ static int set_attr_nstr_voucher(struct Voucher *voucher,
   }
 
   if (length < MAX_SERIAL_NUMBER_SIZE) {
-    if ((voucher->serial_number = sys_strndup(value, length)) == NULL) {
+    char *serial_number = sys_strndup(value, length);
+    if (serial_number == NULL) {
       log_errno("sys_strdup");
       return -1;
     }
+
+    sys_free(voucher->serial_number);
+    voucher->serial_number = serial_number;
   } else {
     log_error("Attribute value exceeds max size");
     return -1;
@@ -228,42 +232,38 @@ int set_attr_array_voucher(struct Voucher *voucher,
     return -1;
   }
 
+  struct BinaryArray *dst = NULL;
   switch (attr) {
     case ATTR_IDEVID_ISSUER:
-      if (copy_binary_array(&voucher->idevid_issuer, value) < 0) {
-        goto set_attr_array_voucher_fail;
-      }
+      dst = &voucher->idevid_issuer;
       break;
     case ATTR_PINNED_DOMAIN_CERT:
-      if (copy_binary_array(&voucher->pinned_domain_cert, value) < 0) {
-        goto set_attr_array_voucher_fail;
-      }
+      dst = &voucher->pinned_domain_cert;
       break;
     case ATTR_NONCE:
-      if (copy_binary_array(&voucher->nonce, value) < 0) {
-        goto set_attr_array_voucher_fail;
-      }
+      dst = &voucher->nonce;
       break;
     case ATTR_PRIOR_SIGNED_VOUCHER_REQUEST:
-      if (copy_binary_array(&voucher->prior_signed_voucher_request, value) <
-          0) {
-        goto set_attr_array_voucher_fail;
-      }
+      dst = &voucher->prior_signed_voucher_request;
       break;
     case ATTR_PROXIMITY_REGISTRAR_CERT:
-      if (copy_binary_array(&voucher->proximity_registrar_cert, value) < 0) {
-        goto set_attr_array_voucher_fail;
-      }
+      dst = &voucher->proximity_registrar_cert;
       break;
     default:
       log_error("Wrong attribute name");
       return -1;
   }
 
+  struct BinaryArray copy = {0};
+  if (copy_binary_array(&copy, value) < 0) {
+    log_error("copy_voucher_array fail");
+    return -1;
+  }
+
+  free_binary_array_content(dst);
+  *dst = copy;
+
   return 0;
-set_attr_array_voucher_fail:
-  log_error("copy_voucher_array fail");
-  return -1;
 }
 
 int set_attr_base64_voucher(struct Voucher *voucher,
-- 
2.43.0


From 5dad807e970e80b4e009c3835ee74da7bc1c65b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 18/36] fix: release certificates and data when the
 verification of a CMS fails late

A registrar request that is signed correctly but contains no valid voucher
leaked the list of its signers with every request, and failed allocations
leaked the extracted data or certificates.
---
 src/voucher/crypto_ossl.c | 3 +++
 src/voucher/request.c     | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 0da50d1..1b731c3 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1303,6 +1303,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
     }
     if (push_ptr_list(*x509_store_list, ptr, el->flags) < 0) {
       log_error("push_ptr_list fail");
+      free_x509_store_cert(ptr, el->flags);
       free_x509_store(x509_store, *x509_store_list);
       return NULL;
     }
@@ -1718,6 +1719,8 @@ ssize_t crypto_verify_cms(const struct BinaryArray *cms,
     *out_certs = NULL;
     if (exatract_cms_certs(content, out_certs) < 0) {
       log_error("exatract_cms_certs fail");
+      sys_free(*data);
+      *data = NULL;
       goto crypto_verify_cms_fail;
     }
   }
diff --git a/src/voucher/request.c b/src/voucher/request.c
index 9f53250..f8ebb29 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -269,6 +269,7 @@ struct BinaryArray *sign_masa_pledge_voucher(
                          registrar_verify_store, &registrar_certs);
   if (voucher_request == NULL) {
     log_error("verify_cms_voucher fail");
+    free_array_list(registrar_certs);
     return NULL;
   }
   struct Voucher *pledge_voucher_request = NULL;
@@ -549,6 +550,7 @@ int verify_masa_pledge_voucher(
                         0) < 0) {
       log_error("push_array_list fail");
       free_array_list(intermediate_certs);
+      free_binary_array_content(&cert_copy);
       goto verify_masa_pledge_voucher_fail;
     }
 
-- 
2.43.0


From e9f0802c8d9598a26733198587ee282095bd2f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 19/36] fix: the registrar issues no certificate that is
 missing in its log

The result of writing the log was ignored.
---
 src/brski/registrar/registrar_api.cpp | 51 +++++++++++++++++++--------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 77a6a6c..14a9dd9 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -28,7 +28,7 @@ extern "C" {
 #include "../config.h"
 }
 
-void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
+int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   struct crypto_cert_meta imeta = {};
   imeta.issuer = init_keyvalue_list();
   imeta.subject = init_keyvalue_list();
@@ -37,14 +37,16 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
 
   if (imeta.issuer == NULL || imeta.subject == NULL) {
     log_error("error allocation metadata");
-    return;
+    free_keyvalue_list(imeta.issuer);
+    free_keyvalue_list(imeta.subject);
+    return -1;
   }
 
   if (crypto_getcert_meta(icert, &imeta) < 0) {
     log_error("crypto_getcert_meta fail");
     free_keyvalue_list(imeta.issuer);
     free_keyvalue_list(imeta.subject);
-    return;
+    return -1;
   }
 
   char *iserial = crypto_getcert_serial(&imeta);
@@ -57,7 +59,9 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
     log_error("error allocation metadata");
     free_keyvalue_list(imeta.issuer);
     free_keyvalue_list(imeta.subject);
-    return;
+    free_keyvalue_list(lmeta.issuer);
+    free_keyvalue_list(lmeta.subject);
+    return -1;
   }
 
   if (crypto_getcert_meta(lcert, &lmeta) < 0) {
@@ -66,17 +70,24 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
     free_keyvalue_list(imeta.subject);
     free_keyvalue_list(lmeta.issuer);
     free_keyvalue_list(lmeta.subject);
-    return;
+    return -1;
   }
 
   char *lserial = crypto_getcert_serial(&lmeta);
 
+  int ret = -1;
   FILE *f = fopen(log_path, "a");
   if (f != NULL) {
-    fprintf(f, "%lu 0x%" PRIx64 " \"%s\" 0x%" PRIx64 " \"%s\"\n", time(NULL),
-            imeta.serial_number, (iserial != NULL) ? iserial : "NULL",
-            lmeta.serial_number, (lserial != NULL) ? lserial : "NULL");
-    fclose(f);
+    int written =
+        fprintf(f, "%lu 0x%" PRIx64 " \"%s\" 0x%" PRIx64 " \"%s\"\n",
+                time(NULL), imeta.serial_number,
+                (iserial != NULL) ? iserial : "NULL", lmeta.serial_number,
+                (lserial != NULL) ? lserial : "NULL");
+    if (fclose(f) == 0 && written > 0) {
+      ret = 0;
+    } else {
+      log_errno("log write fail");
+    }
   } else {
     log_errno("fopen fail");
   }
@@ -85,6 +96,7 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   free_keyvalue_list(imeta.subject);
   free_keyvalue_list(lmeta.issuer);
   free_keyvalue_list(lmeta.subject);
+  return ret;
 }
 
 int post_voucher_request(struct BinaryArray *voucher_request_cms,
@@ -372,6 +384,7 @@ int registrar_est_simpleenroll(const RequestHeader &request_header,
   struct BinaryArray *tls_ca_key = NULL;
   struct BinaryArray *tls_ca_cert = NULL;
   ssize_t length;
+  int status = 400;
   CRYPTO_CERT scert;
 
   log_trace("registrar_est_simpleenroll:");
@@ -416,14 +429,24 @@ int registrar_est_simpleenroll(const RequestHeader &request_header,
     goto registrar_signcert_err;
   }
 
-  response.assign((char *)cert_str);
-
   scert = crypto_cert2context(cert_to_sign.array, cert_to_sign.length);
+  if (scert == NULL) {
+    log_error("crypto_cert2context fail");
+    sys_free(cert_str);
+    goto registrar_signcert_err;
+  }
 
-  if (scert != NULL) {
-    save_to_log(peer_certificate, scert, context->log_path);
+  /* Issue only certificates that are in the log */
+  if (save_to_log(peer_certificate, scert, context->log_path) < 0) {
+    log_error("save_to_log fail");
     crypto_free_certcontext(scert);
+    sys_free(cert_str);
+    status = 500;
+    goto registrar_signcert_err;
   }
+  crypto_free_certcontext(scert);
+
+  response.assign((char *)cert_str);
 
   sys_free(cert_str);
   free_binary_array_content(&cert_to_sign);
@@ -435,5 +458,5 @@ registrar_signcert_err:
   free_binary_array_content(&cert_to_sign);
   free_binary_array(tls_ca_cert);
   free_binary_array(tls_ca_key);
-  return 400;
+  return status;
 }
-- 
2.43.0


From 53c2b92b39f726f5224af48fa29ffafb61ed9786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 20/36] fix: keep the configured address when its replacement
 can't be allocated

The freed address was freed again with the configuration.
---
 src/brski/brski.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index fe0313a..1600fab 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -295,13 +295,14 @@ int main(int argc, char *argv[]) {
       config.rconf.port = port;
 
     if (!address.empty()) {
-      if (config.rconf.bind_address != NULL)
-        sys_free(config.rconf.bind_address);
-
-      if ((config.rconf.bind_address = strdup(address.c_str())) == NULL) {
+      char *bind_address = strdup(address.c_str());
+      if (bind_address == NULL) {
         log_errno("strdup fail");
         return EXIT_FAILURE;
       }
+
+      sys_free(config.rconf.bind_address);
+      config.rconf.bind_address = bind_address;
     }
   }
 
-- 
2.43.0


From 6f338a18776ca0fefa8f1d652646f1581fa433c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 21/36] fix: the sign command succeeds only with a certificate
 for its key

Every reply below 400 counted as success, and the reply was written as the
certificate without a check that it is one and that it belongs to the key.
---
 src/brski/pledge/pledge_request.cpp |  8 +++++++-
 src/voucher/crypto.h                | 13 +++++++++++++
 src/voucher/crypto_ossl.c           | 27 +++++++++++++++++++++++++++
 3 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 214251d..a7dcd75 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -351,7 +351,7 @@ int post_sign_cert(struct pledge_config *pconf, struct registrar_config *rconf,
     goto post_sign_cert_err;
   }
 
-  if (status >= 400) {
+  if (status != 200) {
     log_error("post_voucher_pledge_request_ca failed with HTTP code %d and "
               "response: '%s'",
               status, response.c_str());
@@ -368,6 +368,12 @@ int post_sign_cert(struct pledge_config *pconf, struct registrar_config *rconf,
   }
   out_cert->length = length;
 
+  if (crypto_check_certkey(out_cert->array, out_cert->length, out_key->array,
+                           out_key->length) < 0) {
+    log_error("crypto_check_certkey fail");
+    goto post_sign_cert_err;
+  }
+
   free_binary_array_content(&pinned_domain_cert);
   return 0;
 
diff --git a/src/voucher/crypto.h b/src/voucher/crypto.h
index a61e010..8aa2d66 100644
--- a/src/voucher/crypto.h
+++ b/src/voucher/crypto.h
@@ -289,6 +289,19 @@ ssize_t crypto_sign_cert(const uint8_t *sign_key, const size_t sign_key_length,
 int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
                        const struct BinaryArrayList *certs,
                        const struct BinaryArrayList *store);
+/**
+ * @brief Checks that a private key (DER format) belongs to the public key of a
+ * certificate (DER format)
+ *
+ * @param[in] cert The certificate buffer (DER format)
+ * @param[in] cert_length The certificate buffer length
+ * @param[in] key The private key buffer (DER format)
+ * @param[in] key_length The length of the private key buffer
+ * @return int 0 if the key belongs to the certificate, -1 otherwise
+ */
+int crypto_check_certkey(const uint8_t *cert, const size_t cert_length,
+                         const uint8_t *key, const size_t key_length);
+
 /**
  * @brief Signs a buffer using CMS for an Elliptic Curve private key (DER
  * format)
diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 1b731c3..3b4a43f 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1399,6 +1399,33 @@ crypto_verify_cert_end:
   return ret;
 }
 
+int crypto_check_certkey(const uint8_t *cert, const size_t cert_length,
+                         const uint8_t *key, const size_t key_length) {
+  X509 *x509 = (X509 *)crypto_cert2context(cert, cert_length);
+  if (x509 == NULL) {
+    log_error("crypto_cert2context fail");
+    return -1;
+  }
+
+  EVP_PKEY *pkey = (EVP_PKEY *)crypto_key2context(key, key_length);
+  if (pkey == NULL) {
+    log_error("crypto_key2context fail");
+    X509_free(x509);
+    return -1;
+  }
+
+  int ret = 0;
+  if (!X509_check_private_key(x509, pkey)) {
+    log_error("X509_check_private_key fail with code=%s",
+              ERR_error_string(ERR_get_error(), NULL));
+    ret = -1;
+  }
+
+  EVP_PKEY_free(pkey);
+  X509_free(x509);
+  return ret;
+}
+
 static ssize_t sign_withkey_cms(const uint8_t *data, const size_t data_length,
                                 const uint8_t *cert, const size_t cert_length,
                                 const EVP_PKEY *pkey,
-- 
2.43.0


From d2c1f99f07cc2c1809fbf9cf50b8c5758a6aaac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:11 +0000
Subject: [PATCH 22/36] fix: a voucher is only found under its full root name

A prefix of the name, even the empty one, was taken for it.
---
 src/voucher/voucher.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 650c359..2cfb738 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -827,10 +827,10 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
   bool found_root = false;
 
   for (int idx = 1; idx < count; idx++) {
-    int length = tokens[idx].end - tokens[idx].start;
+    size_t length = tokens[idx].end - tokens[idx].start;
     /* Find the voucher root key */
-    if (strncmp(VOUCHER_ROOT_NAME, (char *)(json + tokens[idx].start),
-                length) == 0) {
+    if (check_size_str_equal(VOUCHER_ROOT_NAME,
+                             (char *)(json + tokens[idx].start), length)) {
       idx++;
       if (idx < count && tokens[idx].type == JSMN_OBJECT) {
         /* Iterate over all the key/value pairs of the voucher root */
-- 
2.43.0


From 1a1ecc8c435954a20dba37622db34c316f7fbf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 23/36] fix: read every value of a repeated certificate list
 key

The lookup by name returned the first value for each occurrence, so only the
first of several trusted or intermediate certificates was used.
---
 src/brski/config.c | 65 ++++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/src/brski/config.c b/src/brski/config.c
index 75d492d..784de92 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -31,52 +31,49 @@
 #define TIME_ISO_STR_SIZE sizeof("9999-12-31T24:59:59Z") + 1
 #define MAX_CONFIG_VALUE_SIZE 2048
 
+struct config_value_search {
+  const char *section;
+  const char *key;
+  struct BinaryArrayList *value_list;
+  bool failed;
+};
+
+static int add_config_value(const char *section, const char *key,
+                            const char *value, void *user_data) {
+  struct config_value_search *search = (struct config_value_search *)user_data;
+
+  if (strcmp(section, search->section) == 0 && strcmp(key, search->key) == 0 &&
+      strlen(value)) {
+    if (push_array_list(search->value_list, (uint8_t *const)value,
+                        strlen(value) + 1, 0) < 0) {
+      log_error("push_array_list fail");
+      search->failed = true;
+      return 0;
+    }
+  }
+
+  return 1;
+}
+
 int load_config_value_list(const char *section, const char *key,
                            const char *filename,
                            struct BinaryArrayList **value_list) {
-  *value_list = NULL;
-  int idx = 0;
-
-  char *store = NULL;
-  if ((store = sys_zalloc(MAX_CONFIG_VALUE_SIZE)) == NULL) {
-    log_errno("sys_zalloc");
-    return -1;
-  }
+  struct config_value_search search = {.section = section, .key = key};
 
   if ((*value_list = init_array_list()) == NULL) {
     log_error("init_array_list fail");
-    sys_free(store);
     return -1;
   }
 
-  while (ini_getkey(section, idx++, store, MAX_CONFIG_VALUE_SIZE, filename) >
-         0) {
-    char *value = NULL;
-    if ((value = sys_zalloc(MAX_CONFIG_VALUE_SIZE)) == NULL) {
-      log_errno("sys_zalloc");
-      sys_free(store);
-      free_array_list(*value_list);
-      *value_list = NULL;
-      return -1;
-    }
-
-    ini_gets(section, store, "", value, INI_BUFFERSIZE, filename);
-
-    if (strcmp(store, key) == 0 && strlen(value)) {
-      if (push_array_list(*value_list, (uint8_t *const)value, strlen(value) + 1,
-                          0) < 0) {
-        sys_free(value);
-        sys_free(store);
-        free_array_list(*value_list);
-        *value_list = NULL;
-        return -1;
-      }
-    }
+  search.value_list = *value_list;
+  ini_browse(add_config_value, &search, filename);
 
-    sys_free(value);
+  if (search.failed) {
+    free_array_list(*value_list);
+    *value_list = NULL;
+    return -1;
   }
 
-  sys_free(store);
   return 0;
 }
 
-- 
2.43.0


From 052398210d5ccdd874df88f094522a798baeb103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 24/36] fix: use the intermediate certificates given to verify
 a CMS

OpenSSL searches them for the signer only, so a message whose signer was issued
by a configured intermediate certificate could never be verified.
---
 src/voucher/crypto_ossl.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 3b4a43f..36f10c2 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1678,6 +1678,25 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
   return 0;
 }
 
+static int add_cms_certs(CMS_ContentInfo *cms, STACK_OF(X509) * certs) {
+  for (int idx = 0; idx < sk_X509_num(certs); idx++) {
+    if (!CMS_add1_cert(cms, sk_X509_value(certs, idx))) {
+      unsigned long code = ERR_peek_last_error();
+
+      if (ERR_GET_LIB(code) != ERR_LIB_CMS ||
+          ERR_GET_REASON(code) != CMS_R_CERTIFICATE_ALREADY_PRESENT) {
+        log_error("CMS_add1_cert fail with code=%s",
+                  ERR_error_string(ERR_get_error(), NULL));
+        return -1;
+      }
+
+      ERR_clear_error();
+    }
+  }
+
+  return 0;
+}
+
 ssize_t crypto_verify_cms(const struct BinaryArray *cms,
                           const struct BinaryArrayList *certs,
                           const struct BinaryArrayList *store, uint8_t **data,
@@ -1727,6 +1746,12 @@ ssize_t crypto_verify_cms(const struct BinaryArray *cms,
     goto crypto_verify_cms_fail;
   }
 
+  /* CMS_verify builds the chains with the certificates of the CMS only */
+  if (add_cms_certs(content, cert_stack) < 0) {
+    log_error("add_cms_certs fail");
+    goto crypto_verify_cms_fail;
+  }
+
   unsigned int flags = (cert_store == NULL) ? CMS_NO_SIGNER_CERT_VERIFY : 0;
 
   if (!CMS_verify(content, cert_stack, cert_store, NULL, mem_data, flags)) {
-- 
2.43.0


From c47c33c6b9e00b5b8977a831b7f28ea6dcfb049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 25/36] fix: a pledge command is not killed when the peer
 closes the connection

Only the HTTP server ignored SIGPIPE, the commands died without a message.
---
 src/brski/brski.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 1600fab..af8a9d1 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -1,5 +1,6 @@
 #include <stdexcept>
 #include <array>
+#include <csignal>
 #include <cstdarg>
 #include <cstdio>
 #include <cstdlib>
@@ -274,6 +275,9 @@ int main(int argc, char *argv[]) {
 
   log_set_lock(log_lock_fun);
 
+  /* Writing to a connection closed by the peer is reported as an error */
+  signal(SIGPIPE, SIG_IGN);
+
   /* Set the log level */
   if (!verbose)
     log_set_quiet(true);
-- 
2.43.0


From bc403d0e6d014fa6220c68888bf01f5c6249abcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:06 +0000
Subject: [PATCH 26/36] fix: do not unlink a list element that was never linked
 when a list push fails

---
 src/voucher/array.c    | 2 +-
 src/voucher/keyvalue.c | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/voucher/array.c b/src/voucher/array.c
index 219b92e..70c298d 100644
--- a/src/voucher/array.c
+++ b/src/voucher/array.c
@@ -75,7 +75,7 @@ int push_array_list(struct BinaryArrayList *arr_list, uint8_t *const arr,
 
   if ((el->arr = sys_memdup(arr, length)) == NULL) {
     log_errno("sys_memdup");
-    free_array_list_el(el);
+    sys_free(el);
     return -1;
   }
 
diff --git a/src/voucher/keyvalue.c b/src/voucher/keyvalue.c
index 0793024..576158a 100644
--- a/src/voucher/keyvalue.c
+++ b/src/voucher/keyvalue.c
@@ -92,14 +92,15 @@ int push_keyvalue_list(struct keyvalue_list *kv_list, char *const key,
   el->key = sys_strdup(key);
   if (el->key == NULL) {
     log_errno("sys_strdup");
-    free_keyvalue_list_el(el);
+    sys_free(el);
     return -1;
   }
 
   el->value = sys_strdup(value);
   if (el->value == NULL) {
     log_errno("sys_strdup");
-    free_keyvalue_list_el(el);
+    sys_free(el->key);
+    sys_free(el);
     return -1;
   }
 
-- 
2.43.0


From 8fed3cc86b4a2164bd7eb732136efcb77cfd7f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 27/36] fix: registrar crash when its TLS certificate or key
 cannot be loaded

---
 src/brski/http/httplib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brski/http/httplib.h b/src/brski/http/httplib.h
index a4e7b8f..c29b46e 100644
--- a/src/brski/http/httplib.h
+++ b/src/brski/http/httplib.h
@@ -8913,7 +8913,7 @@ inline SSLServer::SSLServer(const char *cert_path, const char *private_key_path,
           ctx_, SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT, nullptr);
     }
 
-    if (client_ca_cert_file_path == nullptr &&
+    if (ctx_ && client_ca_cert_file_path == nullptr &&
         client_ca_cert_dir_path == nullptr) {
       SSL_CTX_set_verify(ctx_,
                          SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT,
-- 
2.43.0


From 145b8011f42cf461ad47b89c4b5327402c2b2864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 28/36] fix: clear the OpenSSL error queue before TLS reads and
 writes

An error left behind by the previous request on the connection made
SSL_get_error() misjudge a retryable read (an interrupted system call) as fatal,
so that part of a request was answered as if it were complete.
---
 src/brski/http/httplib.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/brski/http/httplib.h b/src/brski/http/httplib.h
index c29b46e..ec8eb39 100644
--- a/src/brski/http/httplib.h
+++ b/src/brski/http/httplib.h
@@ -8793,6 +8793,9 @@ inline ssize_t SSLSocketStream::read(char *ptr, size_t size) {
   if (SSL_pending(ssl_) > 0) {
     return SSL_read(ssl_, ptr, static_cast<int>(size));
   } else if (is_readable()) {
+    // SSL_get_error() consults the error queue of the thread, which may still
+    // hold errors of the request that was handled before
+    ERR_clear_error();
     auto ret = SSL_read(ssl_, ptr, static_cast<int>(size));
     if (ret < 0) {
       auto err = SSL_get_error(ssl_, ret);
@@ -8828,6 +8831,7 @@ inline ssize_t SSLSocketStream::write(const char *ptr, size_t size) {
     auto handle_size = static_cast<int>(
         std::min<size_t>(size, (std::numeric_limits<int>::max)()));
 
+    ERR_clear_error();
     auto ret = SSL_write(ssl_, ptr, static_cast<int>(handle_size));
     if (ret < 0) {
       auto err = SSL_get_error(ssl_, ret);
-- 
2.43.0


From af3a467106bb13ee2e4b55aa565c1936299f1708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 29/36] fix: a success reply of the MASA without a body is no
 voucher

The registrar passed it on to the pledge as a successful voucher exchange.
---
 src/brski/registrar/registrar_api.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 14a9dd9..c4aacd2 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -139,6 +139,12 @@ int post_voucher_request(struct BinaryArray *voucher_request_cms,
   }
 
   crypto_free_certcontext(http_res.peer_certificate);
+
+  if (http_res.response.empty()) {
+    log_error("https_post_request returned no voucher");
+    return -1;
+  }
+
   response = http_res.response;
 
   return 0;
-- 
2.43.0


From 956a6183ce0fa4d13d9fe95a1722f1a3c7056058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 30/36] fix: escape the serial numbers in the audit log

A quote or a line break in the subject serial number of the submitted
certificate (or of the pledge's certificate) could end the entry and add
entries for other devices.
---
 src/brski/registrar/registrar_api.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index c4aacd2..5bd6c14 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -7,6 +7,8 @@
  * SPDX-License-Identifier: MIT
  * @brief File containing the implementation of the registrar routes.
  */
+#include <cctype>
+#include <cstdio>
 #include <functional>
 #include <memory>
 #include <new>
@@ -28,6 +30,24 @@ extern "C" {
 #include "../config.h"
 }
 
+/* The serial numbers come from the peer, thus they must neither end the quoted
+ * text nor the line */
+static std::string escape_serial(const char *serial) {
+  std::string out;
+
+  for (const char *c = serial; *c != '\0'; c++) {
+    if (*c == '"' || *c == '\\' || iscntrl((unsigned char)*c)) {
+      char buf[5];
+      snprintf(buf, sizeof(buf), "\\x%02x", (unsigned char)*c);
+      out += buf;
+    } else {
+      out += *c;
+    }
+  }
+
+  return out;
+}
+
 int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   struct crypto_cert_meta imeta = {};
   imeta.issuer = init_keyvalue_list();
@@ -81,8 +101,9 @@ int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
     int written =
         fprintf(f, "%lu 0x%" PRIx64 " \"%s\" 0x%" PRIx64 " \"%s\"\n",
                 time(NULL), imeta.serial_number,
-                (iserial != NULL) ? iserial : "NULL", lmeta.serial_number,
-                (lserial != NULL) ? lserial : "NULL");
+                (iserial != NULL) ? escape_serial(iserial).c_str() : "NULL",
+                lmeta.serial_number,
+                (lserial != NULL) ? escape_serial(lserial).c_str() : "NULL");
     if (fclose(f) == 0 && written > 0) {
       ret = 0;
     } else {
-- 
2.43.0


From aaca3b60a6839cb5cfa13974817fe7f29a6ee259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 31/36] fix: free the previous server certificate when the
 client reconnects

A server that ends the connection before it answers makes the client
connect a second time; the certificate of the first connection leaked.
---
 src/brski/http/httplib.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/brski/http/httplib.h b/src/brski/http/httplib.h
index ec8eb39..cdec9f6 100644
--- a/src/brski/http/httplib.h
+++ b/src/brski/http/httplib.h
@@ -9241,8 +9241,10 @@ inline bool SSLClient::initialize_ssl(Socket &socket, Error &error) {
             return false;
           }
           X509_free(server_cert);
-        } else
+        } else {
+          X509_free(server_cert_);
           server_cert_ = SSL_get1_peer_certificate(ssl2);
+        }
 
         return true;
       },
-- 
2.43.0


From 64f264b27c371b94fc4bc4a0765453a9981b21bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:41 +0000
Subject: [PATCH 32/36] fix: take back an audit line that did not fit on the
 disk

---
 src/brski/registrar/registrar_api.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 5bd6c14..b79977a 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -11,8 +11,10 @@
 #include <cstdio>
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <new>
 #include <string>
+#include <unistd.h>
 
 #include "../http/http.hpp"
 #include "../http/https_client.hpp"
@@ -48,6 +50,8 @@ static std::string escape_serial(const char *serial) {
   return out;
 }
 
+static std::mutex audit_log_mutex;
+
 int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   struct crypto_cert_meta imeta = {};
   imeta.issuer = init_keyvalue_list();
@@ -95,9 +99,12 @@ int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
 
   char *lserial = crypto_getcert_serial(&lmeta);
 
+  std::lock_guard<std::mutex> lock(audit_log_mutex);
+
   int ret = -1;
   FILE *f = fopen(log_path, "a");
   if (f != NULL) {
+    long size = fseek(f, 0, SEEK_END) == 0 ? ftell(f) : -1;
     int written =
         fprintf(f, "%lu 0x%" PRIx64 " \"%s\" 0x%" PRIx64 " \"%s\"\n",
                 time(NULL), imeta.serial_number,
@@ -108,6 +115,11 @@ int save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
       ret = 0;
     } else {
       log_errno("log write fail");
+      /* Take back the part of the line that did fit on the disk, so that it
+       * does not end up in front of the next line */
+      if (size < 0 || truncate(log_path, size) < 0) {
+        log_errno("truncate fail");
+      }
     }
   } else {
     log_errno("fopen fail");
-- 
2.43.0


From 3433b2b32c8061a18a24857b009322dfc7d9d266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:41 +0000
Subject: [PATCH 33/36] fix: a client whose TLS context cannot be created fails
 cleanly

---
 src/brski/http/httplib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/brski/http/httplib.h b/src/brski/http/httplib.h
index cdec9f6..c215caa 100644
--- a/src/brski/http/httplib.h
+++ b/src/brski/http/httplib.h
@@ -9021,7 +9021,7 @@ inline SSLClient::SSLClient(const std::string &host, int port,
                   host_components_.emplace_back(b, e);
                 });
 
-  if (!client_cert_path.empty() && !client_key_path.empty()) {
+  if (ctx_ && !client_cert_path.empty() && !client_key_path.empty()) {
     if (SSL_CTX_use_certificate_file(ctx_, client_cert_path.c_str(),
                                      SSL_FILETYPE_PEM) != 1 ||
         SSL_CTX_use_PrivateKey_file(ctx_, client_key_path.c_str(),
@@ -9042,7 +9042,7 @@ inline SSLClient::SSLClient(const std::string &host, int port,
                   host_components_.emplace_back(b, e);
                 });
 
-  if (client_cert != nullptr && client_key != nullptr) {
+  if (ctx_ && client_cert != nullptr && client_key != nullptr) {
     if (SSL_CTX_use_certificate(ctx_, client_cert) != 1 ||
         SSL_CTX_use_PrivateKey(ctx_, client_key) != 1) {
       SSL_CTX_free(ctx_);
-- 
2.43.0


From 9dfdc51c142b0900358a9cdcd116a21bc8bdb6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:41 +0000
Subject: [PATCH 34/36] fix: a server with a port that is not set or out of
 range exits with failure

---
 src/brski/http/httplib_wrapper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index 66fd489..fffa5db 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -207,6 +207,11 @@ int httplib_start(struct http_config *config,
     return -1;
   }
 
+  if (config->port < 1 || config->port > 65535) {
+    log_error("port is not set or is not a valid port number");
+    return -1;
+  }
+
   try {
     httplib::SSLServer *server =
         new httplib::SSLServer(config->tls_cert_path, config->tls_key_path,
-- 
2.43.0


From 460d7f6c308989322a37114902d6c13467489aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 35/36] fix: output file names are not cut off at 254
 characters

With a longer -o argument the certificate and the key went to the same,
truncated file name and the command reported success.
---
 src/brski/brski.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index af8a9d1..2d70684 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -239,8 +239,6 @@ int read_stdin(uint8_t buf[]) {
 
 int output_domain_cert(struct BinaryArray *pinned_domain_cert,
                        std::string &out_filename) {
-  char outf[255];
-
   if (out_filename.empty()) {
     char *cert_str = NULL;
     if (serialize_array2base64str(pinned_domain_cert->array,
@@ -252,8 +250,8 @@ int output_domain_cert(struct BinaryArray *pinned_domain_cert,
     print_cert(cert_str, 0);
     sys_free(cert_str);
   } else {
-    snprintf(outf, 255, "%s.crt", out_filename.c_str());
-    if (certbuf_to_file(pinned_domain_cert, outf) < 0) {
+    std::string outf = out_filename + ".crt";
+    if (certbuf_to_file(pinned_domain_cert, outf.c_str()) < 0) {
       log_error("certbuf_to_file fail");
       return -1;
     }
@@ -268,7 +266,7 @@ int main(int argc, char *argv[]) {
   std::string config_filename, in_filename, out_filename;
   std::string address;
   CommandId command_id;
-  char outf[255];
+  std::string outf;
 
   process_options(argc, argv, verbose, config_filename, in_filename,
                   out_filename, &port, address, command_id);
@@ -335,10 +333,10 @@ int main(int argc, char *argv[]) {
         sys_free(base64);
         free_binary_array(tls_cert);
       } else {
-        snprintf(outf, 255, "%s.smime", out_filename.c_str());
+        outf = out_filename + ".smime";
 
-        if (voucher_pledge_request_to_smimefile(&config.pconf, tls_cert, outf) <
-            0) {
+        if (voucher_pledge_request_to_smimefile(&config.pconf, tls_cert,
+                                                outf.c_str()) < 0) {
           log_error("voucher_pledge_request_to_smimefile fail");
           return EXIT_FAILURE;
         }
@@ -394,13 +392,13 @@ int main(int argc, char *argv[]) {
         print_cert(pki_str, 0);
         sys_free(pki_str);
       } else {
-        snprintf(outf, 255, "%s.crt", out_filename.c_str());
-        if (certbuf_to_file(&out_cert, outf) < 0) {
+        outf = out_filename + ".crt";
+        if (certbuf_to_file(&out_cert, outf.c_str()) < 0) {
           log_error("certbuf_to_file fail");
           return EXIT_FAILURE;
         }
-        snprintf(outf, 255, "%s.key", out_filename.c_str());
-        if (keybuf_to_file(&out_key, outf) < 0) {
+        outf = out_filename + ".key";
+        if (keybuf_to_file(&out_key, outf.c_str()) < 0) {
           log_error("certbuf_to_file fail");
           return EXIT_FAILURE;
         }
-- 
2.43.0


From e2b34bef502c24888cdc7b5938e6f30e85f81569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 36/36] fix: a command whose printed output could not be
 written fails

---
 src/brski/brski.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 2d70684..3be6abd 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -525,5 +525,10 @@ int main(int argc, char *argv[]) {
       break;
   }
 
+  if (std::fflush(stdout) != 0 || std::ferror(stdout)) {
+    log_errno("Failed to write the output");
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
-- 
2.43.0

