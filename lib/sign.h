// Deterministic signing with the fixture keys, and texts of keys and tokens. Independent of the code under test.
#pragma once
#include <assert.h>
#include <openssl/bn.h>
#include <openssl/bio.h>
#include <openssl/curve25519.h>
#include <openssl/digest.h>
#include <openssl/ec.h>
#include <openssl/ec_key.h>
#include <openssl/ecdsa.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/nid.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/sha.h>

#include <string>
#include <vector>

#include "fixtures.h"

namespace fx {
using std::string;

inline string b64u(const string& in) {
  static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
  string r;
  size_t i = 0;
  for (; i + 3 <= in.size(); i += 3) {
    unsigned v = (unsigned char)in[i] << 16 | (unsigned char)in[i + 1] << 8 | (unsigned char)in[i + 2];
    r += t[v >> 18];
    r += t[v >> 12 & 63];
    r += t[v >> 6 & 63];
    r += t[v & 63];
  }
  if (in.size() - i == 1) {
    unsigned v = (unsigned char)in[i] << 16;
    r += t[v >> 18];
    r += t[v >> 12 & 63];
  } else if (in.size() - i == 2) {
    unsigned v = (unsigned char)in[i] << 16 | (unsigned char)in[i + 1] << 8;
    r += t[v >> 18];
    r += t[v >> 12 & 63];
    r += t[v >> 6 & 63];
  }
  return r;
}
// Strict: canonical base64url without padding. Returns false otherwise.
inline bool unb64u_strict(const string& in, string* out) {
  out->clear();
  unsigned acc = 0;
  int bits = 0;
  for (unsigned char c : in) {
    int v = c >= 'A' && c <= 'Z'   ? c - 'A'
            : c >= 'a' && c <= 'z' ? c - 'a' + 26
            : c >= '0' && c <= '9' ? c - '0' + 52
            : c == '-'             ? 62
            : c == '_'             ? 63
                                   : -1;
    if (v < 0) return false;
    acc = acc << 6 | v;
    bits += 6;
    if (bits >= 8) {
      bits -= 8;
      *out += char(acc >> bits);
      acc &= (1u << bits) - 1;
    }
  }
  return in.size() % 4 != 1 && acc == 0;
}

enum KeyId { R0, R1, E0, E1, F0, F1, G0, G1, H0, H1, O0, O1, kNumKeys };
static const char* const kKeyName[] = {"R0", "R1", "E0", "E1", "F0", "F1", "G0", "G1", "H0", "H1", "O0", "O1"};
struct Key {
  KeyId id;
  string name, kty, crv;
  EVP_PKEY* priv = nullptr;
  string pem;           // public key, where there is a PEM form
  string jwk;           // members kty, crv, key material of the JWK, without braces
  string jwk_no_crv;    // the same without crv
  string n, e, x, y, k;  // raw material (big-endian, fixed length for x, y)
};

inline string bn_bytes(const BIGNUM* b, size_t len = 0) {
  string r(len ? len : BN_num_bytes(b), 0);
  BN_bn2bin_padded((uint8_t*)&r[0], r.size(), b);
  return r;
}
inline EVP_PKEY* load_priv(const char* pem) {
  BIO* b = BIO_new_mem_buf(pem, -1);
  EVP_PKEY* k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
  BIO_free(b);
  if (!k) abort();
  return k;
}
inline size_t order_len(const Key& k) {
  const EC_GROUP* g = EC_KEY_get0_group(EVP_PKEY_get0_EC_KEY(k.priv));
  return (EC_GROUP_order_bits(g) + 7) / 8;
}

inline const Key& key(int id) {
  static std::vector<Key>* keys = [] {
    auto* v = new std::vector<Key>(kNumKeys);
    const char* priv[] = {kR0_priv, kR1_priv, kE0_priv, kE1_priv, kF0_priv, kF1_priv, kG0_priv, kG1_priv, 0, 0, kO0_priv, kO1_priv};
    const char* pub[] = {kR0_pub, kR1_pub, kE0_pub, kE1_pub, kF0_pub, kF1_pub, kG0_pub, kG1_pub, 0, 0, kO0_pub, kO1_pub};
    for (int i = 0; i < kNumKeys; i++) {
      Key& k = (*v)[i];
      k.id = KeyId(i);
      k.name = kKeyName[i];
      if (priv[i]) {
        k.priv = load_priv(priv[i]);
        k.pem = pub[i];
      }
      if (i <= R1) {
        k.kty = "RSA";
        const BIGNUM *n, *e;
        RSA_get0_key(EVP_PKEY_get0_RSA(k.priv), &n, &e, nullptr);
        k.n = bn_bytes(n);
        k.e = bn_bytes(e);
        k.jwk = k.jwk_no_crv = "\"kty\":\"RSA\",\"n\":\"" + b64u(k.n) + "\",\"e\":\"" + b64u(k.e) + "\"";
      } else if (i <= G1) {
        k.kty = "EC";
        k.crv = i <= E1 ? "P-256" : i <= F1 ? "P-384" : "P-521";
        size_t len = i <= E1 ? 32 : i <= F1 ? 48 : 66;
        EC_KEY* ec = EVP_PKEY_get0_EC_KEY(k.priv);
        BIGNUM *x = BN_new(), *y = BN_new();
        EC_POINT_get_affine_coordinates_GFp(EC_KEY_get0_group(ec), EC_KEY_get0_public_key(ec), x, y, nullptr);
        k.x = bn_bytes(x, len);
        k.y = bn_bytes(y, len);
        BN_free(x);
        BN_free(y);
        k.jwk_no_crv = "\"kty\":\"EC\",\"x\":\"" + b64u(k.x) + "\",\"y\":\"" + b64u(k.y) + "\"";
        k.jwk = k.jwk_no_crv + ",\"crv\":\"" + k.crv + "\"";
      } else if (i <= H1) {
        k.kty = "oct";
        k.k = i == H0 ? "0123456789abcdef0123456789abcdef" : string("another secret\0with a zero byte, 40 bytes", 40);
        k.jwk = k.jwk_no_crv = "\"kty\":\"oct\",\"k\":\"" + b64u(k.k) + "\"";
      } else {
        k.kty = "OKP";
        k.crv = "Ed25519";
        uint8_t raw[32];
        size_t l = 32;
        if (!EVP_PKEY_get_raw_public_key(k.priv, raw, &l)) abort();
        k.x = string((char*)raw, 32);
        k.jwk_no_crv = "\"kty\":\"OKP\",\"x\":\"" + b64u(k.x) + "\"";
        k.jwk = k.jwk_no_crv + ",\"crv\":\"Ed25519\"";
      }
    }
    return v;
  }();
  return (*keys)[id];
}

static const char* const kAlgs[] = {"ES256", "ES384", "ES512", "HS256", "HS384", "HS512", "RS256",
                                    "RS384", "RS512", "PS256", "PS384", "PS512", "EdDSA"};
constexpr int kNumAlgs = 13;
inline string alg_kty(const string& a) {
  return a[0] == 'E' ? (a == "EdDSA" ? "OKP" : "EC") : a[0] == 'H' ? "oct" : "RSA";
}
inline string alg_crv(const string& a) {
  return a == "ES256" ? "P-256" : a == "ES384" ? "P-384" : a == "ES512" ? "P-521" : a == "EdDSA" ? "Ed25519" : "";
}
// The key is of the type and curve the algorithm is defined for.
inline bool fits(const Key& k, const string& alg) { return k.kty == alg_kty(alg) && k.crv == alg_crv(alg); }
inline const EVP_MD* alg_md(const string& a) {
  return a.substr(2) == "384" ? EVP_sha384() : a.substr(2) == "512" ? EVP_sha512() : EVP_sha256();
}
inline string digest(const EVP_MD* md, const string& d) {
  uint8_t b[64];
  unsigned n;
  EVP_Digest(d.data(), d.size(), b, &n, md, nullptr);
  return string((char*)b, n);
}

// EMSA-PSS with a fixed salt as long as the hash.
inline string pss(const Key& k, const EVP_MD* md, const string& data) {
  RSA* rsa = EVP_PKEY_get0_RSA(k.priv);
  size_t em = RSA_size(rsa), h = EVP_MD_size(md);
  string salt(h, 0);
  for (size_t i = 0; i < h; i++) salt[i] = char(i * 7 + 1);
  string hash = digest(md, string(8, 0) + digest(md, data) + salt);
  size_t dbl = em - h - 1;
  string db = string(dbl - h - 1, 0) + "\x01" + salt, mask;
  for (unsigned c = 0; mask.size() < dbl; c++)
    mask += digest(md, hash + string({char(c >> 24), char(c >> 16), char(c >> 8), char(c)}));
  for (size_t i = 0; i < dbl; i++) db[i] ^= mask[i];
  db[0] &= 0x7f;  // emBits is a multiple of 8 minus 1
  string m = db + hash + "\xbc";
  string out(em, 0);
  size_t n;
  if (!RSA_sign_raw(rsa, &n, (uint8_t*)&out[0], em, (const uint8_t*)m.data(), m.size(), RSA_NO_PADDING)) abort();
  return out;
}

// Signature bytes by `k` under `scheme` (the algorithm really used, which may differ from what a token declares).
inline string sign(const Key& k, const string& scheme, const string& data) {
  const EVP_MD* md = alg_md(scheme);
  if (k.kty == "RSA" && scheme[0] == 'P') return pss(k, md, data);
  if (k.kty == "RSA") {
    string d = digest(md, data), out(RSA_size(EVP_PKEY_get0_RSA(k.priv)), 0);
    unsigned n;
    if (!RSA_sign(EVP_MD_type(md), (const uint8_t*)d.data(), d.size(), (uint8_t*)&out[0], &n, EVP_PKEY_get0_RSA(k.priv))) abort();
    return out;
  }
  if (k.kty == "EC") {
    string d = digest(md, data), nonce = digest(EVP_sha512(), "nonce" + k.name + d);
    size_t len = order_len(k);
    nonce.resize(len, 1);
    nonce[0] = 0;
    ECDSA_SIG* s = ECDSA_sign_with_nonce_and_leak_private_key_for_testing(
        (const uint8_t*)d.data(), d.size(), EVP_PKEY_get0_EC_KEY(k.priv), (const uint8_t*)nonce.data(), nonce.size());
    if (!s) abort();
    string out = bn_bytes(ECDSA_SIG_get0_r(s), len) + bn_bytes(ECDSA_SIG_get0_s(s), len);
    ECDSA_SIG_free(s);
    return out;
  }
  if (k.kty == "oct") {
    uint8_t b[64];
    unsigned n;
    HMAC(md, k.k.data(), k.k.size(), (const uint8_t*)data.data(), data.size(), b, &n);
    return string((char*)b, n);
  }
  uint8_t b[64], seed[32], pub[32], priv[64];
  size_t l = 32;
  EVP_PKEY_get_raw_private_key(k.priv, seed, &l);
  ED25519_keypair_from_seed(pub, priv, seed);
  ED25519_sign(b, (const uint8_t*)data.data(), data.size(), priv);
  return string((char*)b, 64);
}
inline string hmac_with(const string& secret, const string& scheme, const string& data) {
  uint8_t b[64];
  unsigned n;
  HMAC(alg_md(scheme), secret.data(), secret.size(), (const uint8_t*)data.data(), data.size(), b, &n);
  return string((char*)b, n);
}
inline string header(const string& alg, const string& kid = "", const string& extra = "") {
  return "{\"alg\":\"" + alg + "\"" + (kid.empty() ? "" : ",\"kid\":\"" + kid + "\"") + extra + "}";
}
inline string token(const string& hdr, const string& payload, const Key& k, const string& scheme) {
  string d = b64u(hdr) + "." + b64u(payload);
  return d + "." + b64u(sign(k, scheme, d));
}
// First key of each type that fits the algorithm.
inline KeyId key_for(const string& alg, int n = 0) {
  string t = alg_kty(alg), c = alg_crv(alg);
  int b = t == "RSA" ? R0 : t == "oct" ? H0 : t == "OKP" ? O0 : c == "P-256" ? E0 : c == "P-384" ? F0 : G0;
  return KeyId(b + n);
}
}  // namespace fx
