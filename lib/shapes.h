// Keys of unusual shape, and others that resemble them.
#pragma once
#include <string>
#include <vector>
#include "fixtures_rsa.h"
#include "sign.h"

namespace fx {
using std::string;
using std::vector;
// Keys by shape, derived from a counter, so that every run has the same ones.
inline Key ec_shape(const string& crv, int want) {
  int nid = crv == "P-256" ? NID_X9_62_prime256v1 : crv == "P-384" ? NID_secp384r1 : NID_secp521r1;
  size_t len = crv == "P-256" ? 32 : crv == "P-384" ? 48 : 66;
  for (int c = 1;; c++) {
    EC_KEY* ec = EC_KEY_new_by_curve_name(nid);
    const EC_GROUP* gr = EC_KEY_get0_group(ec);
    BIGNUM* d = BN_new();
    BN_set_word(d, c * 2654435761u + 12345);
    EC_POINT* pt = EC_POINT_new(gr);
    EC_POINT_mul(gr, pt, d, nullptr, nullptr, nullptr);
    BIGNUM *x = BN_new(), *y = BN_new();
    EC_POINT_get_affine_coordinates_GFp(gr, pt, x, y, nullptr);
    string xs = bn_bytes(x, len), ys = bn_bytes(y, len);
    // 0: x starts with a zero byte; 1: y does; 2: x ends with one; 3: y does
    size_t z = crv == "P-521" ? 1 : 0;
    bool hit = want == 0 ? xs[0] == 0 && xs[z] == 0 : want == 1 ? ys[0] == 0 && ys[z] == 0 : want == 2 ? xs.back() == 0 : ys.back() == 0;
    if (hit) {
      EC_KEY_set_private_key(ec, d);
      EC_KEY_set_public_key(ec, pt);
      Key k;
      k.id = E0;
      k.kty = "EC";
      k.crv = crv;
      const char* w[] = {" with x starting in 0", " with y starting in 0", " with x ending in 0", " with y ending in 0"};
      k.name = crv + w[want];
      k.priv = EVP_PKEY_new();
      EVP_PKEY_assign_EC_KEY(k.priv, ec);
      k.x = xs;
      k.y = ys;
      k.jwk_no_crv = "\"kty\":\"EC\",\"x\":\"" + b64u(xs) + "\",\"y\":\"" + b64u(ys) + "\"";
      k.jwk = k.jwk_no_crv + ",\"crv\":\"" + crv + "\"";
      ec = nullptr;
      BN_free(d), EC_POINT_free(pt), BN_free(x), BN_free(y);
      return k;
    }
    EC_KEY_free(ec), BN_free(d), EC_POINT_free(pt), BN_free(x), BN_free(y);
  }
}
inline Key ed_shape(int want) {
  for (int c = 1;; c++) {
    uint8_t seed[32], pub[32], priv[64];
    SHA256((const uint8_t*)&c, sizeof c, seed);
    ED25519_keypair_from_seed(pub, priv, seed);
    if (want == 0 ? pub[0] : want == 1 ? pub[31] : pub[5]) continue;
    Key k;
    k.id = O0;
    k.kty = "OKP";
    k.crv = "Ed25519";
    k.name = "Ed25519 with a zero byte " + string(want == 0 ? "at the start" : want == 1 ? "at the end" : "inside");
    k.priv = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, seed, 32);
    k.x = string((char*)pub, 32);
    k.jwk = "\"kty\":\"OKP\",\"x\":\"" + b64u(k.x) + "\",\"crv\":\"Ed25519\"";
    return k;
  }
}
inline Key rsa_shape(const char* pem, const string& name) {
  Key k;
  k.id = R0;
  k.kty = "RSA";
  k.name = name;
  k.priv = load_priv(pem);
  const BIGNUM *n, *e;
  RSA_get0_key(EVP_PKEY_get0_RSA(k.priv), &n, &e, nullptr);
  k.n = bn_bytes(n);
  k.e = bn_bytes(e);
  k.jwk = "\"kty\":\"RSA\",\"n\":\"" + b64u(k.n) + "\",\"e\":\"" + b64u(k.e) + "\"";
  return k;
}
inline Key oct_shape(const string& secret, const string& name) {
  Key k;
  k.id = H0;
  k.kty = "oct";
  k.name = name;
  k.k = secret;
  k.jwk = "\"kty\":\"oct\",\"k\":\"" + b64u(secret) + "\"";
  return k;
}
inline string pub_pem(EVP_PKEY* p) {
  BIO* b = BIO_new(BIO_s_mem());
  PEM_write_bio_PUBKEY(b, p);
  const uint8_t* d;
  size_t n;
  BIO_mem_contents(b, &d, &n);
  string r((const char*)d, n);
  BIO_free(b);
  return r;
}
struct ShapeKey {
  Key key;
  vector<Key> near;  // keys that resemble it and must not do instead
};
inline vector<ShapeKey>* g_shapes;
inline void init_shapes() {
  if (g_shapes) return;
  g_shapes = new vector<ShapeKey>;
  for (const char* c : {"P-256", "P-384", "P-521"})
    for (int w = 0; w < 4; w++) {
      ShapeKey s{ec_shape(c, w), {}};
      for (int o : {E1, F1, G1})
        if (key(o).crv == c) s.near.push_back(key(o));
      g_shapes->push_back(s);
    }
  for (int w = 0; w < 3; w++) {
    ShapeKey s{ed_shape(w), {key(O1)}};
    Key b = s.key;  // another byte behind the zero
    b.x[w == 1 ? 0 : 31] ^= 1;
    b.jwk = "\"kty\":\"OKP\",\"x\":\"" + b64u(b.x) + "\",\"crv\":\"Ed25519\"";
    b.name += ", one bit changed";
    s.near.push_back(b);
    g_shapes->push_back(s);
  }
  const char* pems[] = {kS0_priv, kS1_priv, kS2_priv, kS3_priv};
  const char* names[] = {"RSA 1024", "RSA 3072", "RSA 4096 with e=3", "RSA 2056"};
  for (int i = 0; i < 4; i++) g_shapes->push_back({rsa_shape(pems[i], names[i]), {key(R0), key(R1)}});
  for (int len : {1, 2, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 200, 1000}) {
    for (int fill = 0; fill < 3; fill++) {
      string sec(len, 0);
      for (int i = 0; i < len; i++) sec[i] = char(1 + (i * 7 + len) % 251);
      if (fill == 1) sec[0] = 0;
      if (fill == 2) sec[len / 2] = 0;
      if (len > 1) sec[len - 1] = 'z';  // trailing zero bytes make no other HMAC key
      const char* w[] = {"", ", first byte 0", ", middle byte 0"};
      ShapeKey s{oct_shape(sec, "secret of " + std::to_string(len) + " bytes" + w[fill]), {}};
      auto near = [&](string x, const char* n) {
        if (!x.empty() && x != sec && (len > 1 || fill == 0)) s.near.push_back(oct_shape(x, s.key.name + n));
      };
      string x = sec;
      x[len - 1] ^= 1;
      near(x, ", last byte changed");
      x = sec;
      x[0] ^= 1;
      near(x, ", first byte changed");
      near(sec.substr(0, len - 1), ", last byte missing");
      near(sec + "x", ", a byte more");
      near(sec.substr(0, 32) == sec ? "" : sec.substr(0, 32), ", 32 bytes of it");
      near(sec.substr(0, 64) == sec ? "" : sec.substr(0, 64), ", 64 bytes of it");
      near(sec.substr(0, 128) == sec ? "" : sec.substr(0, 128), ", 128 bytes of it");
      if (fill == 2 && len > 2) near(sec.substr(0, len / 2), ", up to its zero byte");
      near(b64u(sec), ", its text in base64url");
      g_shapes->push_back(s);
    }
  }
}}  // namespace fx
