From fbd2f8005b0e0944df899fdc267e791875176d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 01/13] fix: do not wrap around in JWT time constraint checks

now + clock_skew and exp + clock_skew wrap around near 2^64, so that a token
with a huge exp was expired and a huge clock skew made a token not yet valid.
---
 src/jwt.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 2c22eb4..3abe9a1 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -146,12 +146,14 @@ Status Jwt::parseFromString(const std::string& jwt) {
 }
 
 Status Jwt::verifyTimeConstraint(uint64_t now, uint64_t clock_skew) const {
+  // The claims and the skew can be anything in the 64-bit range: compare
+  // differences, since sums may wrap around.
   // Check Jwt is active (nbf).
-  if (now + clock_skew < nbf_) {
+  if (nbf_ > now && nbf_ - now > clock_skew) {
     return Status::JwtNotYetValid;
   }
   // Check JWT has not expired (exp).
-  if (exp_ && now > exp_ + clock_skew) {
+  if (exp_ && now > exp_ && now - exp_ > clock_skew) {
     return Status::JwtExpired;
   }
   return Status::Ok;
-- 
2.43.0


From ac77161d206d2a860e112a88803972dfae77d95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 02/13] fix: parsing a Jwt again must not keep fields of the
 previous text

Claims missing from the new text kept their old value, and audiences
accumulated; the same happened on assignment.
---
 src/jwt.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 3abe9a1..9e33711 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -48,10 +48,28 @@ Jwt& Jwt::operator=(const Jwt& rhs) {
 }
 
 Status Jwt::parseFromString(const std::string& jwt) {
-  // jwt must have exactly 2 dots with 3 sections.
+  // Nothing of a previously parsed jwt may survive.
   jwt_ = jwt;
+  header_str_.clear();
+  header_str_base64url_.clear();
+  header_pb_.Clear();
+  payload_str_.clear();
+  payload_str_base64url_.clear();
+  payload_pb_.Clear();
+  signature_.clear();
+  alg_.clear();
+  kid_.clear();
+  iss_.clear();
+  audiences_.clear();
+  sub_.clear();
+  iat_ = 0;
+  nbf_ = 0;
+  exp_ = 0;
+  jti_.clear();
+
+  // jwt must have exactly 2 dots with 3 sections.
   std::vector<absl::string_view> jwt_split =
-      absl::StrSplit(jwt, '.', absl::SkipEmpty());
+      absl::StrSplit(jwt_, '.', absl::SkipEmpty());
   if (jwt_split.size() != 3) {
     return Status::JwtBadFormat;
   }
-- 
2.43.0


From ca94a10bdbb6fa077fdacd3a154dedf9fc74aacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 03/13] fix: reject a JWT with more than two dots

Empty sections were skipped, so that any number of extra dots was accepted.
---
 src/jwt.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 9e33711..f474612 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -69,8 +69,9 @@ Status Jwt::parseFromString(const std::string& jwt) {
 
   // jwt must have exactly 2 dots with 3 sections.
   std::vector<absl::string_view> jwt_split =
-      absl::StrSplit(jwt_, '.', absl::SkipEmpty());
-  if (jwt_split.size() != 3) {
+      absl::StrSplit(jwt_, '.');
+  if (jwt_split.size() != 3 || jwt_split[0].empty() || jwt_split[1].empty() ||
+      jwt_split[2].empty()) {
     return Status::JwtBadFormat;
   }
 
-- 
2.43.0


From 73d4905178e702f80227b81715f64c6d0de8a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 04/13] fix: check the length of ECDSA signatures

A trailing byte was ignored and zero-padded halves were accepted, so that a
signature could be changed without being invalidated (RFC 7518, 3.4).
---
 src/verify.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/verify.cc b/src/verify.cc
index 70eb817..f0e0f90 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -111,6 +111,13 @@ bool verifySignatureEC(EC_KEY* key, const EVP_MD* md, const uint8_t* signature,
       signed_data == nullptr) {
     return false;
   }
+  // The signature is R || S, both padded to the size of the curve's order:
+  // https://tools.ietf.org/html/rfc7518#section-3.4
+  const size_t order_len =
+      (EC_GROUP_order_bits(EC_KEY_get0_group(key)) + 7) / 8;
+  if (signature_len != 2 * order_len) {
+    return false;
+  }
   bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
   std::vector<uint8_t> digest(EVP_MAX_MD_SIZE);
   unsigned int digest_len = 0;
-- 
2.43.0


From df8cff5aeddc1b7dc1aec73a0fd1fa107cd86534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 05/13] fix: use a key only for algorithms of its type and
 curve

A key without alg was used for any JWT alg: an EC key verified an ES256
signature of a token declaring RS256, a P-384 key one of a token declaring
ES256, and so on. A JWK OKP key without alg also ended the search with
JwtEd25519SignatureWrongLength for tokens of other algorithms, whatever other
keys the set had.
---
 src/verify.cc | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/verify.cc b/src/verify.cc
index f0e0f90..e491217 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -14,16 +14,19 @@
 
 #include "jwt_verify_lib/verify.h"
 
+#include "absl/strings/match.h"
 #include "absl/strings/string_view.h"
 #include "absl/time/clock.h"
 #include "jwt_verify_lib/check_audience.h"
 #include "openssl/bn.h"
 #include "openssl/curve25519.h"
+#include "openssl/ec.h"
 #include "openssl/ecdsa.h"
 #include "openssl/err.h"
 #include "openssl/evp.h"
 #include "openssl/hmac.h"
 #include "openssl/mem.h"
+#include "openssl/nid.h"
 #include "openssl/rsa.h"
 #include "openssl/sha.h"
 
@@ -31,6 +34,26 @@ namespace google {
 namespace jwt_verify {
 namespace {
 
+// Whether the key is of the type and curve that the JWT's alg is defined for.
+bool keyFitsAlg(const Jwks::Pubkey& jwk, absl::string_view alg) {
+  if (alg == "ES256" || alg == "ES384" || alg == "ES512") {
+    if (jwk.kty_ != "EC" || jwk.ec_key_ == nullptr) {
+      return false;
+    }
+    const int nid = alg == "ES256"   ? NID_X9_62_prime256v1
+                    : alg == "ES384" ? NID_secp384r1
+                                     : NID_secp521r1;
+    return EC_GROUP_get_curve_name(EC_KEY_get0_group(jwk.ec_key_.get())) == nid;
+  }
+  if (absl::StartsWith(alg, "RS") || absl::StartsWith(alg, "PS")) {
+    return jwk.kty_ == "RSA";
+  }
+  if (absl::StartsWith(alg, "HS")) {
+    return jwk.kty_ == "oct";
+  }
+  return alg == "EdDSA" && jwk.kty_ == "OKP";
+}
+
 // A convenience inline cast function.
 inline const uint8_t* castToUChar(const absl::string_view& str) {
   return reinterpret_cast<const uint8_t*>(str.data());
@@ -233,6 +256,11 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
     }
     kid_alg_matched = true;
 
+    // A key without alg must not be used for an alg of another key type.
+    if (!keyFitsAlg(*jwk, jwt.alg_)) {
+      continue;
+    }
+
     if (jwk->kty_ == "EC") {
       const EVP_MD* md;
       if (jwt.alg_ == "ES384") {
-- 
2.43.0


From 6a0c6756cd926d31c43f6c8f91effe26d65eeec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 06/13] fix: keep no keys when a certificate map fails to load

The keys that happened to come before the bad certificate in map order stayed
in the set, and tokens verified with them, although the status was an error.
---
 src/jwks.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwks.cc b/src/jwks.cc
index 2b1acb0..1ea411a 100644
--- a/src/jwks.cc
+++ b/src/jwks.cc
@@ -409,6 +409,8 @@ Status createFromX509(const ::google::protobuf::Struct& jwks_pb,
     Jwks::PubkeyPtr key_ptr(new Jwks::Pubkey());
     Status status = extractX509(kid.second.string_value(), key_ptr.get());
     if (status != Status::Ok) {
+      // All or nothing: which keys come before the bad one is map order.
+      keys.clear();
       return status;
     }
 
-- 
2.43.0


From 6c6def364dde5eb972b5250165d02ce55c9e3b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 07/13] fix: do not leave entries in the crypto error queue
 when a key is rejected

They made later TLS or crypto operations of the thread look failed.
---
 src/jwks.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jwks.cc b/src/jwks.cc
index 1ea411a..18f5163 100644
--- a/src/jwks.cc
+++ b/src/jwks.cc
@@ -27,6 +27,7 @@
 #include "openssl/bn.h"
 #include "openssl/curve25519.h"
 #include "openssl/ecdsa.h"
+#include "openssl/err.h"
 #include "openssl/evp.h"
 #include "openssl/rsa.h"
 #include "openssl/sha.h"
@@ -65,6 +66,7 @@ class KeyGetter : public WithStatus {
     bssl::UniquePtr<EVP_PKEY> key(
         PEM_read_bio_PUBKEY(buf.get(), nullptr, nullptr, nullptr));
     if (key == nullptr) {
+      ERR_clear_error();
       updateStatus(Status::JwksPemBadBase64);
       return nullptr;
     }
@@ -75,12 +77,14 @@ class KeyGetter : public WithStatus {
                                                const std::string& y) {
     bssl::UniquePtr<EC_KEY> ec_key(EC_KEY_new_by_curve_name(nid));
     if (!ec_key) {
+      ERR_clear_error();
       updateStatus(Status::JwksEcCreateKeyFail);
       return nullptr;
     }
     bssl::UniquePtr<BIGNUM> bn_x = createBigNumFromBase64UrlString(x);
     bssl::UniquePtr<BIGNUM> bn_y = createBigNumFromBase64UrlString(y);
     if (!bn_x || !bn_y) {
+      ERR_clear_error();
       // EC public key field x or y Base64 decode fail
       updateStatus(Status::JwksEcXorYBadBase64);
       return nullptr;
@@ -88,6 +92,7 @@ class KeyGetter : public WithStatus {
 
     if (EC_KEY_set_public_key_affine_coordinates(ec_key.get(), bn_x.get(),
                                                  bn_y.get()) == 0) {
+      ERR_clear_error();
       updateStatus(Status::JwksEcParseError);
       return nullptr;
     }
@@ -99,6 +104,7 @@ class KeyGetter : public WithStatus {
     bssl::UniquePtr<BIGNUM> n_bn = createBigNumFromBase64UrlString(n);
     bssl::UniquePtr<BIGNUM> e_bn = createBigNumFromBase64UrlString(e);
     if (n_bn == nullptr || e_bn == nullptr) {
+      ERR_clear_error();
       // RSA public key field is missing or has parse error.
       updateStatus(Status::JwksRsaParseError);
       return nullptr;
@@ -116,6 +122,7 @@ class KeyGetter : public WithStatus {
     if (rsa == nullptr ||
         !RSA_set0_key(rsa.get(), n_bn.get(), e_bn.get(), /*d=*/nullptr)) {
       // Allocation or programmer error.
+      ERR_clear_error();
       updateStatus(Status::JwksRsaParseError);
       return nullptr;
     }
@@ -124,6 +131,7 @@ class KeyGetter : public WithStatus {
     e_bn.release();
     if (!RSA_check_key(rsa.get())) {
       // Not a valid RSA public key.
+      ERR_clear_error();
       updateStatus(Status::JwksRsaParseError);
       return nullptr;
     }
@@ -409,6 +417,7 @@ Status createFromX509(const ::google::protobuf::Struct& jwks_pb,
     Jwks::PubkeyPtr key_ptr(new Jwks::Pubkey());
     Status status = extractX509(kid.second.string_value(), key_ptr.get());
     if (status != Status::Ok) {
+      ERR_clear_error();
       // All or nothing: which keys come before the bad one is map order.
       keys.clear();
       return status;
-- 
2.43.0


From c7848ec9b47afcf30126f07b3673c8883eaaa77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 08/13] fix: survive allocation failures of the crypto library
 in verification

EVP_PKEY_new and EVP_MD_CTX_create can return null, which was dereferenced;
the error paths also left the failure in the error queue.
---
 src/verify.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index e491217..11806be 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -67,11 +67,13 @@ bool verifySignatureRSA(RSA* key, const EVP_MD* md, const uint8_t* signature,
     return false;
   }
   bssl::UniquePtr<EVP_PKEY> evp_pkey(EVP_PKEY_new());
-  if (EVP_PKEY_set1_RSA(evp_pkey.get(), key) != 1) {
+  bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
+  if (evp_pkey == nullptr || md_ctx == nullptr ||
+      EVP_PKEY_set1_RSA(evp_pkey.get(), key) != 1) {
+    ERR_clear_error();
     return false;
   }
 
-  bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
   if (EVP_DigestVerifyInit(md_ctx.get(), nullptr, md, nullptr,
                            evp_pkey.get()) == 1) {
     if (EVP_DigestVerifyUpdate(md_ctx.get(), signed_data, signed_data_len) ==
@@ -99,11 +101,13 @@ bool verifySignatureRSAPSS(RSA* key, const EVP_MD* md, const uint8_t* signature,
     return false;
   }
   bssl::UniquePtr<EVP_PKEY> evp_pkey(EVP_PKEY_new());
-  if (EVP_PKEY_set1_RSA(evp_pkey.get(), key) != 1) {
+  bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
+  if (evp_pkey == nullptr || md_ctx == nullptr ||
+      EVP_PKEY_set1_RSA(evp_pkey.get(), key) != 1) {
+    ERR_clear_error();
     return false;
   }
 
-  bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
   // pctx is owned by md_ctx, no need to free it separately.
   EVP_PKEY_CTX* pctx;
   if (EVP_DigestVerifyInit(md_ctx.get(), &pctx, md, nullptr, evp_pkey.get()) ==
@@ -142,29 +146,38 @@ bool verifySignatureEC(EC_KEY* key, const EVP_MD* md, const uint8_t* signature,
     return false;
   }
   bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
+  if (md_ctx == nullptr) {
+    ERR_clear_error();
+    return false;
+  }
   std::vector<uint8_t> digest(EVP_MAX_MD_SIZE);
   unsigned int digest_len = 0;
 
   if (EVP_DigestInit(md_ctx.get(), md) == 0) {
+    ERR_clear_error();
     return false;
   }
 
   if (EVP_DigestUpdate(md_ctx.get(), signed_data, signed_data_len) == 0) {
+    ERR_clear_error();
     return false;
   }
 
   if (EVP_DigestFinal(md_ctx.get(), digest.data(), &digest_len) == 0) {
+    ERR_clear_error();
     return false;
   }
 
   bssl::UniquePtr<ECDSA_SIG> ecdsa_sig(ECDSA_SIG_new());
   if (!ecdsa_sig) {
+    ERR_clear_error();
     return false;
   }
 
   if (BN_bin2bn(signature, signature_len / 2, ecdsa_sig->r) == nullptr ||
       BN_bin2bn(signature + (signature_len / 2), signature_len / 2,
                 ecdsa_sig->s) == nullptr) {
+    ERR_clear_error();
     return false;
   }
 
-- 
2.43.0


From a4656edb83c33fe47ad618128014898a7e67bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 09/13] fix: keep the LRU list consistent when lookups with and
 without update_eviction_order overlap

An entry could be linked twice, which corrupts the list, or be left unlinked
and thus never be evicted or expire; an idle entry pinned by such a lookup
failed an assertion (or left the cache, with assertions off).
---
 simple_lru_cache/simple_lru_cache_inl.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 99aad30..9aa2de2 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -187,6 +187,15 @@ struct SimpleLRUCacheElem {
     next->prev = this;  // i.e. head->next->prev = this;
     prev->next = this;  // i.e. head->next = this;
   }
+
+  // Link where the list of "head" stays sorted by last use, most recent first.
+  void linkSorted(SimpleLRUCacheElem* head) {
+    SimpleLRUCacheElem* pos = head;
+    while (pos->next != head && pos->next->last_use_ > last_use_) {
+      pos = pos->next;
+    }
+    link(pos);
+  }
   static const int64_t kNeverUsed = -1;
 };
 
@@ -735,11 +744,16 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::releaseWithOptions(
     assert(e->pin > 0);
     if (lru_ && options.update_eviction_order()) {
       e->last_use_ = SimpleCycleTimer::now();
+      // A lookup that does not update the eviction order may have left the
+      // entry on the LRU list, where its position is now outdated.
+      e->unlink();
     }
     e->pin--;
 
     if (e->pin == 0) {
-      if (lru_ && options.update_eviction_order()) e->link(&head_);
+      // This is the front of the list, unless the last release is not the last
+      // one that updates the eviction order.
+      if (!e->isLinked()) e->linkSorted(&head_);
       pinned_units_ -= e->units;
       if (isOverfullInternal()) {
         // This element is no longer needed, and we are full. So kick it out.
@@ -921,10 +935,10 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::discardIdle(
 #endif
 
     Elem* prev = e->prev;
-    // There are no pinned elements on the list in the LRU mode, and in the
+    // Pinned elements are on the list in the LRU mode only if their lookup does
+    // not update the eviction order; they are in use, not idle. In the
     // age-based mode we push them out of the main table regardless of pinning.
-    assert(e->pin == 0 || !lru_);
-    remove(e->key);
+    if (e->pin == 0 || !lru_) remove(e->key);
     e = prev;
   }
 }
-- 
2.43.0


From 92f062728354ab41e17dd6be481a4b248a9089b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 10/13] fix: relink pinned entries when switching between LRU
 and age-based eviction

They were linked twice on release after a switch to LRU, which corrupts the
list, and never evicted or expired after a switch to age-based eviction.
---
 simple_lru_cache/simple_lru_cache_inl.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 9aa2de2..8e6f812 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -574,6 +574,7 @@ class SimpleLRUCacheBase {
   void discardIdle(int64_t max_idle);  // Discard to meet idle-time constraints
 
   void setTimeout(double seconds, bool lru);
+  void setLru(bool lru);  // Switch between LRU and age-based eviction
 
   bool isOverfullInternal() const {
     return ((units_ > max_units_) || isOverfull());
@@ -605,14 +606,14 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::setTimeout(double seconds,
                                                              bool lru) {
   if (seconds < 0 || std::isinf(seconds)) {
     // Treat as no expiration based on idle time
-    lru_ = lru;
+    setLru(lru);
     max_idle_ = -1;
   } else if (max_idle_ >= 0 && lru != lru_) {
     // LOG(DFATAL) << "Can't setMaxIdleSeconds() and setAgeBasedEviction()";
     // In production we'll just ignore the second call
     assert(0);
   } else {
-    lru_ = lru;
+    setLru(lru);
 
     // Convert to cycles ourselves in order to perform all calculations in
     // floating point so that we avoid integer overflow.
@@ -638,6 +639,21 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::setTimeout(double seconds,
   }
 }
 
+template <class Key, class Value, class MapType, class EQ>
+void SimpleLRUCacheBase<Key, Value, MapType, EQ>::setLru(bool lru) {
+  if (lru == lru_) return;
+  lru_ = lru;
+  // Pinned entries are on the list in the age-based mode but not in the LRU
+  // mode.
+  for (TableIterator iter = table_.begin(); iter != table_.end(); ++iter) {
+    Elem* e = iter->second;
+    if (e->pin > 0) {
+      e->unlink();
+      if (!lru_) e->linkSorted(&head_);
+    }
+  }
+}
+
 template <class Key, class Value, class MapType, class EQ>
 void SimpleLRUCacheBase<Key, Value, MapType, EQ>::removeAll() {
   // For each element: call "Remove"
-- 
2.43.0


From 66c55c455a0471f0ba85074eb9810d866fb48883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 11/13] fix: StructUtils::GetUInt64 must report NaN as out of
 range

Converting NaN to an integer is undefined behaviour; a Struct that does not
come from JSON can hold it.
---
 src/struct_utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/struct_utils.cc b/src/struct_utils.cc
index 077a1d5..5673dd3 100644
--- a/src/struct_utils.cc
+++ b/src/struct_utils.cc
@@ -57,7 +57,8 @@ StructUtils::FindResult StructUtils::GetUInt64(const std::string& name,
   if (result != OK) {
     return result;
   }
-  if (double_value < 0 ||
+  // Written so that NaN is out of range.
+  if (!(double_value >= 0) ||
       double_value >=
           static_cast<double>(std::numeric_limits<uint64_t>::max())) {
     return OUT_OF_RANGE;
-- 
2.43.0


From fc09406555cc6cd383bd72b98a6c2648e11b31a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:21 +0000
Subject: [PATCH 12/13] fix: a key set is usable once addKeyFromPem has added a
 key

---
 src/jwks.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwks.cc b/src/jwks.cc
index 18f5163..049e9ec 100644
--- a/src/jwks.cc
+++ b/src/jwks.cc
@@ -440,6 +440,8 @@ Status Jwks::addKeyFromPem(const std::string& pkey, const std::string& kid,
   }
   keys_.insert(keys_.end(), std::make_move_iterator(tmp->keys_.begin()),
                std::make_move_iterator(tmp->keys_.end()));
+  // Now it holds a key, even if its own loading had failed.
+  resetStatus(Status::Ok);
   return Status::Ok;
 }
 
-- 
2.43.0


From 0ca4df76740d1afadb40a0c2a6cd658e6ac1d024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 13/13] fix: age of the LRU item overflowed for items unused
 for more than 106 days

---
 simple_lru_cache/simple_lru_cache_inl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 8e6f812..7a4942f 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -993,8 +993,10 @@ template <class Key, class Value, class MapType, class EQ>
 int64_t SimpleLRUCacheBase<Key, Value, MapType,
                            EQ>::ageOfLRUItemInMicroseconds() const {
   if (head_.prev == &head_) return 0;
-  return kSecToUsec * (SimpleCycleTimer::now() - head_.prev->last_use_) /
-         SimpleCycleTimer::frequency();
+  const int64_t age = SimpleCycleTimer::now() - head_.prev->last_use_;
+  const int64_t frequency = SimpleCycleTimer::frequency();
+  // Whole seconds first: the product of a long age would overflow.
+  return age / frequency * kSecToUsec + age % frequency * kSecToUsec / frequency;
 }
 
 template <class Key, class Value, class MapType, class EQ>
-- 
2.43.0

