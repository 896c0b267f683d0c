// Common to the harnesses of the JWT library.
#pragma once
#include "mc.h"
#include "sign.h"

#include "jwt_verify_lib/check_audience.h"
#include "jwt_verify_lib/jwks.h"
#include "jwt_verify_lib/jwt.h"
#include "jwt_verify_lib/status.h"
#include "jwt_verify_lib/struct_utils.h"
#include "jwt_verify_lib/verify.h"

namespace jm {
using google::jwt_verify::Jwks;
using google::jwt_verify::JwksPtr;
using google::jwt_verify::Jwt;
using google::jwt_verify::Status;
using std::string;
using std::vector;

inline int si(Status s) { return static_cast<int>(s); }
inline string st(Status s) {
  return std::to_string(si(s)) + " \"" + google::jwt_verify::getStatusString(s) + "\"";
}

// All fields of a token object, as one text.
inline string dump(const Jwt& j) {
  string r;
  auto add = [&](const char* n, const string& v) {
    r += n;
    r += "=";
    r += std::to_string(v.size()) + ":" + v + ";";
  };
  add("jwt", j.jwt_);
  add("hs", j.header_str_);
  add("hb", j.header_str_base64url_);
  add("ps", j.payload_str_);
  add("pb", j.payload_str_base64url_);
  add("sig", j.signature_);
  add("alg", j.alg_);
  add("kid", j.kid_);
  add("iss", j.iss_);
  add("sub", j.sub_);
  add("jti", j.jti_);
  for (auto& a : j.audiences_) add("aud", a);
  r += std::to_string(j.iat_) + "," + std::to_string(j.nbf_) + "," + std::to_string(j.exp_) + ";";
  return r;
}
// Canonical text of a protobuf Struct (map order does not matter).
inline string canon(const google::protobuf::Struct& s);
inline string canon(const google::protobuf::Value& v) {
  char b[64];
  switch (v.kind_case()) {
    case google::protobuf::Value::kNullValue: return "null";
    case google::protobuf::Value::kNumberValue: snprintf(b, sizeof b, "%.17g", v.number_value()); return b;
    case google::protobuf::Value::kStringValue: return "'" + std::to_string(v.string_value().size()) + ":" + v.string_value() + "'";
    case google::protobuf::Value::kBoolValue: return v.bool_value() ? "true" : "false";
    case google::protobuf::Value::kStructValue: return canon(v.struct_value());
    case google::protobuf::Value::kListValue: {
      string r = "[";
      for (auto& e : v.list_value().values()) r += canon(e) + ",";
      return r + "]";
    }
    default: return "unset";
  }
}
inline string canon(const google::protobuf::Struct& s) {
  std::map<string, string> m;
  for (auto& f : s.fields()) m[f.first] = canon(f.second);
  string r = "{";
  for (auto& f : m) r += std::to_string(f.first.size()) + ":" + f.first + "=" + f.second + ",";
  return r + "}";
}
inline string dump_all(const Jwt& j) { return dump(j) + canon(j.header_pb_) + canon(j.payload_pb_); }

// Public key material and attributes of a loaded key, as one text.
inline string material(const Jwks::Pubkey& k) {
  string r = "kty=" + k.kty_ + ";";
  if (k.rsa_) {
    const BIGNUM *n, *e;
    RSA_get0_key(k.rsa_.get(), &n, &e, nullptr);
    r += "rsa(" + (n ? fx::b64u(fx::bn_bytes(n)) : "null") + "," + (e ? fx::b64u(fx::bn_bytes(e)) : "null") + ");";
  }
  if (k.ec_key_) {
    const EC_GROUP* g = EC_KEY_get0_group(k.ec_key_.get());
    const EC_POINT* p = EC_KEY_get0_public_key(k.ec_key_.get());
    r += "ec(" + std::to_string(g ? EC_GROUP_get_curve_name(g) : 0);
    if (g && p) {
      BIGNUM *x = BN_new(), *y = BN_new();
      if (EC_POINT_get_affine_coordinates_GFp(g, p, x, y, nullptr))
        r += "," + fx::b64u(fx::bn_bytes(x)) + "," + fx::b64u(fx::bn_bytes(y));
      BN_free(x);
      BN_free(y);
    }
    r += ");";
  }
  if (!k.hmac_key_.empty()) r += "oct(" + fx::b64u(k.hmac_key_) + ");";
  if (!k.okp_key_raw_.empty()) r += "okp(" + fx::b64u(k.okp_key_raw_) + ");";
  return r;
}
inline string dump(const Jwks& s) {
  string r = "status=" + std::to_string(si(s.getStatus())) + ";";
  for (auto& k : s.keys())
    r += "[kid=" + std::to_string(k->kid_.size()) + ":" + k->kid_ + ";alg=" + k->alg_ + ";crv=" + k->crv_ + ";" + material(*k) + "]";
  return r;
}
inline int nid_of(const string& crv) {
  return crv == "P-256" ? NID_X9_62_prime256v1 : crv == "P-384" ? NID_secp384r1 : crv == "P-521" ? NID_secp521r1 : 0;
}
inline string strip0(const string& s) {
  size_t i = 0;
  while (i < s.size() && !s[i]) i++;
  return s.substr(i);
}
// What material() gives for a correctly loaded fixture key.
inline string want_material(const fx::Key& k) {
  string r = "kty=" + k.kty + ";";
  if (k.kty == "RSA") r += "rsa(" + fx::b64u(k.n) + "," + fx::b64u(k.e) + ");";
  if (k.kty == "EC")
    r += "ec(" + std::to_string(nid_of(k.crv)) + "," + fx::b64u(strip0(k.x)) + "," + fx::b64u(strip0(k.y)) + ");";
  if (k.kty == "oct") r += "oct(" + fx::b64u(k.k) + ");";
  if (k.kty == "OKP") r += "okp(" + fx::b64u(k.x) + ");";
  return r;
}
inline string jwk(const string& members, const string& alg = "", const string& kid = "") {
  return "{" + members + (alg.empty() ? "" : ",\"alg\":\"" + alg + "\"") + (kid.empty() ? "" : ",\"kid\":\"" + kid + "\"") + "}";
}
inline string jwks_of(const vector<string>& entries) {
  string r = "{\"keys\":[";
  for (size_t i = 0; i < entries.size(); i++) r += (i ? "," : "") + entries[i];
  return r + "]}";
}
}  // namespace jm
