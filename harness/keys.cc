// C11: entries of a JWKS.  C12: status of a key set.  C13: PEM keys.  C14: certificate maps.  C17: crypto error queue.
#include "../lib/jwtmc.h"
#include "../lib/shapes.h"
#include <signal.h>
#include <sys/prctl.h>
#include <ucontext.h>
#include <algorithm>
#include <memory>

using namespace jm;
using google::jwt_verify::verifyJwtWithoutTimeChecking;

namespace {
const EC_GROUP* group_of(int nid) {
  static std::map<int, EC_GROUP*> m;
  auto& g = m[nid];
  if (!g) g = EC_GROUP_new_by_curve_name(nid);
  return g;
}
bool on_curve(int nid, const string& x, const string& y) {
  const EC_GROUP* g = group_of(nid);
  BIGNUM *bx = BN_bin2bn((const uint8_t*)x.data(), x.size(), nullptr), *by = BN_bin2bn((const uint8_t*)y.data(), y.size(), nullptr);
  EC_POINT* p = EC_POINT_new(g);
  bool ok = EC_POINT_set_affine_coordinates_GFp(g, p, bx, by, nullptr) == 1;
  EC_POINT_free(p);
  BN_free(bx);
  BN_free(by);
  ERR_clear_error();
  return ok;
}
void queue(const char* what) {
  if (!mc::active("C17")) return;
  uint32_t e = ERR_peek_error();
  if (e) {
    char b[256];
    ERR_error_string_n(e, b, sizeof b);
    ERR_clear_error();
    mc::fail("the crypto error queue is not empty after %s: %s", what, b);
  }
}
// C12 for any set; returns whether it holds keys.
void consistent(const Jwks& s, const string& what) {
  if (!mc::active("C12")) return;
  Status st_ = s.getStatus();
  if ((st_ == Status::Ok) != !s.keys().empty()) mc::fail("%s: status %s with %zu keys", what.c_str(), st(st_).c_str(), s.keys().size());
  for (auto& k : s.keys()) {
    if (!k) mc::fail("%s: null key", what.c_str());
    bool ok = k->kty_ == "RSA"   ? k->rsa_ != nullptr && !k->ec_key_ && k->hmac_key_.empty() && k->okp_key_raw_.empty()
              : k->kty_ == "EC"  ? k->ec_key_ != nullptr && !k->rsa_ && k->hmac_key_.empty() && k->okp_key_raw_.empty()
              : k->kty_ == "oct" ? !k->hmac_key_.empty() && !k->rsa_ && !k->ec_key_ && k->okp_key_raw_.empty()
              : k->kty_ == "OKP" ? k->okp_key_raw_.size() == 32 && !k->rsa_ && !k->ec_key_ && k->hmac_key_.empty()
                                 : false;
    if (k->kty_ == "RSA" && ok) {
      const BIGNUM *n, *e;
      RSA_get0_key(k->rsa_.get(), &n, &e, nullptr);
      ok = n && e;
    }
    if (k->kty_ == "EC" && ok) ok = EC_KEY_get0_public_key(k->ec_key_.get()) && EC_KEY_check_key(k->ec_key_.get());
    if (!ok) mc::fail("%s: incomplete key %s", what.c_str(), material(*k).c_str());
  }
}
// A genuine token per key, to see what a set verifies.
const vector<Jwt>& probes() {
  static vector<Jwt> v = [] {
    vector<Jwt> v;
    for (const char* a : {"RS256", "ES256", "ES384", "ES512", "HS256", "EdDSA", "PS256"})
      for (int n = 0; n < 2; n++) {
        Jwt j;
        const fx::Key& k = fx::key(fx::key_for(a, n));
        if (j.parseFromString(fx::token(fx::header(a), "{}", k, a)) != Status::Ok) abort();
        v.push_back(j);
      }
    return v;
  }();
  return v;
}
string verdicts(const Jwks& s) {
  string r;
  for (auto& j : probes()) {
    Status x = verifyJwtWithoutTimeChecking(j, s);
    mc::step();
    queue("verifying");
    r += std::to_string(si(x)) + ",";
  }
  return r;
}
void nothing_verifies(const Jwks& s, const string& what) {
  if (!mc::active("C12") && !mc::active("C17")) return;
  for (auto& j : probes()) {
    Status x = verifyJwtWithoutTimeChecking(j, s);
    mc::step();
    queue("verifying against an empty set");
    MC_CHECK("C12", x != Status::Ok, "%s: a token verifies against the empty set", what.c_str());
  }
}

// ---- JWKS entries ----
enum Cls { kAbsent, kType, kText, kLenient, kBadB64 };  // kText: of string attributes, the string; of material, its bytes
struct Field {
  string json;
  Cls cls;
  string v;      // string, or decoded bytes
  bool mat_ok;   // RSA modulus: known to be good
};
Field F_absent() { return {"", kAbsent, "", false}; }
Field F_str(const string& s, const string& json = "") { return {json.empty() ? "\"" + s + "\"" : json, kText, s, false}; }
Field F_raw(const string& raw, bool ok = true) { return {"\"" + fx::b64u(raw) + "\"", kText, raw, ok}; }
Field F_type(const string& json) { return {json, kType, "", false}; }
Field F_bad(const string& text) { return {"\"" + text + "\"", kBadB64, "", false}; }
Field F_pad(const string& raw, bool ok = true) {
  string t = fx::b64u(raw);
  while (t.size() % 4) t += '=';
  return {"\"" + t + "\"", kLenient, raw, ok};
}
void add_types(vector<Field>* v) {
  for (const char* j : {"5", "null", "true", "[\"RSA\"]", "{}"}) v->push_back(F_type(j));
}
struct Outcome {
  bool may_keep = false, may_skip = false;
  std::set<Status> faults;
  string key;  // as jm::dump writes it, if kept
};
enum { kKty, kKid, kAlg, kCrv, kN, kE, kX, kY, kK, kFields };
const char* const kName[] = {"kty", "kid", "alg", "crv", "n", "e", "x", "y", "k"};

Outcome evaluate(const Field* const* f) {
  Outcome o;
  bool maybe = false;
  auto fault = [&](Status s) { o.faults.insert(s); };
  auto skip = [&] {
    o.may_skip = true;
    return o;
  };
  if (f[kKty]->cls == kAbsent) return fault(Status::JwksMissingKty), skip();
  if (f[kKty]->cls == kType) return fault(Status::JwksBadKty), skip();
  const string kty = f[kKty]->v;
  if (kty != "RSA" && kty != "EC" && kty != "oct" && kty != "OKP") return fault(Status::JwksNotImplementedKty), skip();
  string kid = f[kKid]->cls == kText ? f[kKid]->v : "", alg = f[kAlg]->cls == kText ? f[kAlg]->v : "", crv;
  if (f[kKid]->cls == kType) maybe = true;
  if (f[kAlg]->cls == kType) maybe = true;
  bool bad = false;
  auto bads = [&](Status s) {
    bad = true;
    fault(s);
  };
  auto need = [&](int i, Status missing, Status type, Status b64) {
    switch (f[i]->cls) {
      case kAbsent: bads(missing); return false;
      case kType: bads(type); return false;
      case kBadB64: bads(b64); return false;
      case kLenient: maybe = true; fault(b64); return true;
      default: return true;
    }
  };
  string mat = "kty=" + kty + ";";
  if (kty == "RSA") {
    bool known = false;
    for (const char* a : {"", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512"}) known |= alg == a;
    if (!known) {
      fault(Status::JwksRSAKeyBadAlg);
      if (alg.compare(0, 2, "RS") == 0 || alg.compare(0, 2, "PS") == 0) maybe = true;  // kept today, but never usable
      else bad = true;
    }
    bool n = need(kN, Status::JwksRSAKeyMissingN, Status::JwksRSAKeyBadN, Status::JwksRsaParseError);
    bool e = need(kE, Status::JwksRSAKeyMissingE, Status::JwksRSAKeyBadE, Status::JwksRsaParseError);
    if (f[kN]->cls == kAbsent || f[kE]->cls == kAbsent) fault(Status::JwksRsaParseError);
    string ev = strip0(f[kE]->v), nv = strip0(f[kN]->v);
    if (e && ev != "\x03" && ev != string("\x01\x00\x01", 3)) bads(Status::JwksRsaParseError);
    if (n && !f[kN]->mat_ok) bads(Status::JwksRsaParseError);
    if (nv.size() != f[kN]->v.size() || ev.size() != f[kE]->v.size()) {
      maybe = true;
      fault(Status::JwksRsaParseError);
    }
    mat += "rsa(" + fx::b64u(nv) + "," + fx::b64u(ev) + ");";
  } else if (kty == "EC") {
    if (f[kCrv]->cls == kType) bads(Status::JwksECKeyBadCrv);
    string c = f[kCrv]->cls == kText ? f[kCrv]->v : "";
    if (f[kCrv]->cls == kText && c.empty()) {
      maybe = true;
      fault(Status::JwksECKeyBadCrv);
      fault(Status::JwksECKeyAlgOrCrvUnsupported);
    }
    if (!alg.empty() && alg.compare(0, 2, "ES")) bads(Status::JwksECKeyBadAlg);
    bool crv_known = c == "P-256" || c == "P-384" || c == "P-521", alg_known = alg == "ES256" || alg == "ES384" || alg == "ES512";
    if ((!c.empty() && !crv_known) || (!alg.empty() && !alg_known)) {
      bads(Status::JwksECKeyAlgOrCrvUnsupported);
      if (!c.empty() && !alg.empty()) fault(Status::JwksECKeyAlgNotCompatibleWithCrv);
    }
    string by_alg = alg == "ES256" ? "P-256" : alg == "ES384" ? "P-384" : alg == "ES512" ? "P-521" : "";
    if (alg_known && crv_known && by_alg != c) bads(Status::JwksECKeyAlgNotCompatibleWithCrv);
    crv = crv_known ? c : alg_known ? by_alg : "P-256";
    bool x = need(kX, Status::JwksECKeyMissingX, Status::JwksECKeyBadX, Status::JwksEcXorYBadBase64);
    bool y = need(kY, Status::JwksECKeyMissingY, Status::JwksECKeyBadY, Status::JwksEcXorYBadBase64);
    if (x && y) {
      if (!on_curve(nid_of(crv), f[kX]->v, f[kY]->v)) bads(Status::JwksEcParseError);
      size_t len = crv == "P-256" ? 32 : crv == "P-384" ? 48 : 66;
      if (f[kX]->v.size() != len || f[kY]->v.size() != len) {  // RFC 7518 asks for the full length
        maybe = true;
        fault(Status::JwksEcParseError);
      }
    }
    mat += "ec(" + std::to_string(nid_of(crv)) + "," + fx::b64u(strip0(f[kX]->v)) + "," + fx::b64u(strip0(f[kY]->v)) + ");";
  } else if (kty == "oct") {
    if (!alg.empty() && alg != "HS256" && alg != "HS384" && alg != "HS512") bads(Status::JwksHMACKeyBadAlg);
    if (need(kK, Status::JwksHMACKeyMissingK, Status::JwksHMACKeyBadK, Status::JwksOctBadBase64) && f[kK]->v.empty()) bads(Status::JwksOctBadBase64);
    mat += "oct(" + fx::b64u(f[kK]->v) + ");";
  } else {
    if (!alg.empty() && alg != "EdDSA") bads(Status::JwksOKPKeyBadAlg);
    crv = f[kCrv]->v;
    if (f[kCrv]->cls == kAbsent) bads(Status::JwksOKPKeyMissingCrv);
    else if (f[kCrv]->cls == kType) bads(Status::JwksOKPKeyBadCrv);
    else if (crv != "Ed25519") bads(Status::JwksOKPKeyCrvUnsupported);
    if (need(kX, Status::JwksOKPKeyMissingX, Status::JwksOKPKeyBadX, Status::JwksOKPXBadBase64) && f[kX]->v.size() != 32) bads(Status::JwksOKPXWrongLength);
    mat += "okp(" + fx::b64u(f[kX]->v) + ");";
  }
  o.may_keep = !bad;
  o.may_skip = bad || maybe;
  if (maybe && !bad)  // whatever is reported for leniently accepted entries
    for (Status s : {Status::JwksRSAKeyBadAlg, Status::JwksECKeyBadAlg, Status::JwksHMACKeyBadAlg, Status::JwksOKPKeyBadAlg}) fault(s);
  o.key = "[kid=" + std::to_string(kid.size()) + ":" + kid + ";alg=" + alg + ";crv=" + crv + ";" + mat + "]";
  return o;
}
struct Entry {
  string json;
  Outcome o;
};
// What jm::dump writes after the status.
string keys_of(const Jwks& s) {
  string d = dump(s);
  return d.substr(d.find(';') + 1);
}
// Loads and judges a set of entries.
void judge(const vector<Entry>& es, const string& text) {
  JwksPtr s = Jwks::createFrom(text, Jwks::JWKS);
  mc::step();
  mc::outcome(si(s->getStatus()));
  queue("loading a JWKS");
  string what = "JWKS " + mc::esc(text, 900);
  MC_NOTE("%s: %s", what.c_str(), dump(*s).c_str());
  consistent(*s, what);
  // the kept keys, in order: match against the entries
  vector<string> got;
  for (auto& k : s->keys())
    got.push_back("[kid=" + std::to_string(k->kid_.size()) + ":" + k->kid_ + ";alg=" + k->alg_ + ";crv=" + k->crv_ + ";" + material(*k) + "]");
  if (mc::active("C11")) {
    std::function<bool(size_t, size_t)> match = [&](size_t i, size_t j) -> bool {
      if (i == es.size()) return j == got.size();
      if (es[i].o.may_keep && j < got.size() && got[j] == es[i].o.key && match(i + 1, j + 1)) return true;
      return es[i].o.may_skip && match(i + 1, j);
    };
    if (!match(0, 0)) {
      string want;
      for (auto& e : es)
        want += e.o.may_keep ? (e.o.may_skip ? "maybe " : "") + e.o.key + " " : "(skipped) ";
      mc::fail("%s:\n expected keys %s\n got %s", what.c_str(), want.c_str(), keys_of(*s).c_str());
    }
  }
  if (got.empty()) {
    Status x = s->getStatus();
    bool ok = x == Status::JwksNoValidKeys;
    for (auto& e : es) ok |= e.o.faults.count(x) > 0;
    MC_CHECK("C12", ok, "%s: reported as %s, which is not among its faults", what.c_str(), st(x).c_str());
    nothing_verifies(*s, what);
  }
}

const vector<Field>& variants(int field, const fx::Key& k, bool with_alg) {
  static std::map<int, vector<Field>> cache;
  auto& v = cache[(field * 16 + k.id) * 2 + with_alg];
  if (!v.empty()) return v;
  const fx::Key &R0 = fx::key(fx::R0), &R1 = fx::key(fx::R1), &E0 = fx::key(fx::E0), &E1 = fx::key(fx::E1), &F0 = fx::key(fx::F0);
  auto strings = [&](std::initializer_list<const char*> l) {
    for (auto s : l) v.push_back(F_str(s));
  };
  switch (field) {
    case kKty:
      v.push_back(F_str(k.kty));
      strings({"RSA", "EC", "oct", "OKP", "", "rsa", "Ec", "OCT", "RSA ", "EC-HSM", "AKP"});
      v.push_back(F_absent());
      add_types(&v);
      break;
    case kKid:
      v.push_back(F_str("k1"));
      strings({"", "another", "a.b"});
      v.push_back(F_str(string("a\0b", 3), "\"a\\u0000b\""));
      v.push_back(F_str("\xc3\xa9", "\"\\u00e9\""));
      v.push_back(F_str(string(300, 'k')));
      v.push_back(F_absent());
      add_types(&v);
      break;
    case kAlg: {
      string fit;
      for (auto a : fx::kAlgs)
        if (fit.empty() && fx::fits(k, a)) fit = a;
      if (with_alg) {
        v.push_back(F_str(fit));
        v.push_back(F_absent());
      } else {
        v.push_back(F_absent());
        v.push_back(F_str(fit));
      }
      for (auto a : fx::kAlgs) v.push_back(F_str(a));
      strings({"", "none", "RS", "R", "E", "ES", "ES256K", "es256", "RS999", "RSA-OAEP", "HS", "HS1024", "EdDSA ", "Ed25519", "P", "PS"});
      add_types(&v);
      break;
    }
    case kCrv:
      v.push_back(k.crv.empty() ? F_absent() : F_str(k.crv));
      strings({"P-256", "P-384", "P-521", "Ed25519", "X25519", "Ed448", "p-256", "P-512", "", "secp256k1", "P-256 "});
      v.push_back(F_absent());
      add_types(&v);
      break;
    case kN: {
      v.push_back(k.n.empty() ? F_absent() : F_raw(k.n));
      v.push_back(F_raw(R0.n));
      v.push_back(F_raw(R1.n));
      v.push_back(F_raw(string(1, '\0') + R0.n));
      string even = R0.n;
      even.back() ^= 1;
      v.push_back(F_raw(even, false));
      v.push_back(F_raw("", false));
      v.push_back(F_raw(string(3, '\0'), false));
      v.push_back(F_raw("\x03", false));
      v.push_back(F_raw(string(4096, '\xff'), false));
      v.push_back(F_bad("!" + fx::b64u(R0.n)));
      v.push_back(F_bad("A"));
      v.push_back(F_bad(fx::b64u(R0.n.substr(0, 255)) + "+"));
      v.push_back(F_pad(R0.n));
      v.push_back(F_absent());
      add_types(&v);
      break;
    }
    case kE:
      v.push_back(k.e.empty() ? F_absent() : F_raw(k.e));
      for (auto x : {string("\x01\x00\x01", 3), string("\x03"), string("\x01"), string("\x02"), string("\x01\x00\x00", 3), string("\x11"), string("\x01\x00\x03", 3), string(""), string("\x00", 1),
                     string("\x00\x00\x03", 3), string("\x01\x00\x00\x00\x00\x00\x01\x00\x01", 9), string("\x01\x00\x00\x00\x00\x00\x00\x00\x03", 9), string(300, '\xff')})
        v.push_back(F_raw(x));
      v.push_back(F_bad("AQAB!"));
      v.push_back(F_bad("AQABA"));
      v.push_back(F_pad("\x03"));
      v.push_back(F_absent());
      add_types(&v);
      break;
    case kX:
    case kY: {
      const string own = field == kX ? k.x : k.y;
      auto of = [&](const fx::Key& o) { return field == kX ? o.x : o.y; };
      v.push_back(own.empty() ? F_absent() : F_raw(own));
      v.push_back(F_raw(of(E0)));
      v.push_back(F_raw(of(E1)));
      v.push_back(F_raw(of(F0)));
      v.push_back(F_raw(fx::key(fx::O1).x));
      v.push_back(F_raw(""));
      v.push_back(F_raw(string(32, '\0')));
      v.push_back(F_raw(string(32, '\xff')));
      if (!own.empty()) {
        v.push_back(F_raw(string(1, '\0') + own));
        v.push_back(F_raw(string(1, '\x01') + own));
        v.push_back(F_raw(own.substr(0, own.size() - 1)));
        v.push_back(F_raw(own.substr(1)));
        v.push_back(F_raw(own + '\0'));
        string flip = own;
        flip[own.size() / 2] ^= 4;
        v.push_back(F_raw(flip));
        v.push_back(F_pad(own));
        v.push_back(F_bad(fx::b64u(own) + "*"));
        if (k.kty == "EC") {  // the negated point; the coordinate plus the field prime
          BIGNUM *p = BN_new(), *b = BN_bin2bn((const uint8_t*)own.data(), own.size(), nullptr), *r = BN_new();
          EC_GROUP_get_curve_GFp(group_of(nid_of(k.crv)), p, nullptr, nullptr, nullptr);
          BN_sub(r, p, b);
          v.push_back(F_raw(fx::bn_bytes(r, own.size())));
          BN_add(r, p, b);
          v.push_back(F_raw(fx::bn_bytes(r)));
          BN_free(p);
          BN_free(b);
          BN_free(r);
        }
      }
      v.push_back(F_bad("!"));
      v.push_back(F_absent());
      add_types(&v);
      break;
    }
    case kK:
      v.push_back(k.k.empty() ? F_absent() : F_raw(k.k));
      for (auto x : {string("s"), string("\0", 1), string(1000, 'q'), string("\xff\xfe\xfd"), string("")}) v.push_back(F_raw(x));
      v.push_back(F_bad("a"));
      v.push_back(F_bad("ab+/"));
      v.push_back(F_bad("YWJj!"));
      v.push_back(F_pad("abcd"));
      v.push_back(F_absent());
      add_types(&v);
      break;
  }
  return v;
}
void entries() {
  const fx::Key& k = fx::key(mc::choose("key", fx::kNumKeys));
  bool with_alg = mc::choose("with alg", 2);
  const Field* f[kFields];
  for (int i = 0; i < kFields; i++) f[i] = &mc::pick(kName[i], variants(i, k, with_alg), 1);
  static const vector<string> extra = {"", "\"use\":\"sig\",\"key_ops\":[\"verify\"]", "\"use\":\"enc\",\"KTY\":\"EC\",\"n.x\":1", "\"x5c\":[\"!\"],\"d\":5,\"ext\":null,\"oth\":{\"kty\":7,\"kid\":7}"};
  const string& ex = mc::pick("extra", extra, 1);
  vector<string> parts;
  for (int i = 0; i < kFields; i++)
    if (!f[i]->json.empty()) parts.push_back(string("\"") + kName[i] + "\":" + f[i]->json);
  if (!ex.empty()) parts.push_back(ex);
  if (mc::choose("reversed", 2, 1)) std::reverse(parts.begin(), parts.end());
  string j = "{";
  for (size_t i = 0; i < parts.size(); i++) j += (i ? "," : "") + parts[i];
  j += "}";
  vector<Entry> es{{j, evaluate(f)}};
  mc::state(mc::Hash().s(j).h);
  judge(es, "{\"keys\":[" + j + "]}");
}
// Entries for lists.
const vector<Entry>& pool() {
  static vector<Entry> v = [] {
    vector<Entry> v;
    auto make = [&](int id, std::map<int, Field> over) {
      const fx::Key& k = fx::key(id);
      static std::vector<std::unique_ptr<Field>> keep;
      const Field* f[kFields];
      string j = "{";
      for (int i = 0; i < kFields; i++) {
        keep.push_back(std::make_unique<Field>(over.count(i) ? over[i] : variants(i, k, false)[0]));
        f[i] = keep.back().get();
        if (!f[i]->json.empty()) j += string(j.size() > 1 ? "," : "") + "\"" + kName[i] + "\":" + f[i]->json;
      }
      v.push_back({j + "}", evaluate(f)});
    };
    make(fx::R0, {});
    make(fx::R0, {{kKid, F_absent()}, {kAlg, F_str("PS512")}});
    make(fx::R1, {});
    make(fx::E0, {{kAlg, F_str("ES256")}});
    make(fx::E1, {{kCrv, F_absent()}});
    make(fx::F0, {{kKid, F_str("k2")}});
    make(fx::G0, {});
    make(fx::H0, {{kKid, F_absent()}});
    make(fx::H0, {{kK, F_raw("x")}, {kAlg, F_str("HS384")}});
    make(fx::O0, {});
    make(fx::R0, {{kN, F_bad("!")}});
    make(fx::E0, {{kCrv, F_str("P-384")}});
    make(fx::E0, {{kAlg, F_str("RS256")}});
    make(fx::G0, {{kY, F_absent()}});
    make(fx::H0, {{kK, F_type("5")}});
    make(fx::O0, {{kX, F_raw("short")}});
    make(fx::R0, {{kKty, F_absent()}});
    make(fx::R0, {{kKty, F_str("dsa")}});
    for (const char* j : {"5", "null", "[]", "\"x\"", "{}"}) {
      Outcome o;
      o.may_skip = true;
      if (j[0] == '{') o.faults.insert(Status::JwksMissingKty);
      v.push_back({j, o});
    }
    return v;
  }();
  return v;
}
void lists() {
  int n = mc::choose("entries", mc::qt(4, 5));
  vector<Entry> es;
  vector<string> t;
  for (int i = 0; i < n; i++) {
    es.push_back(mc::pick("entry", pool()));
    t.push_back(es.back().json);
  }
  mc::state(mc::Hash().s(jwks_of(t)).h);
  judge(es, jwks_of(t));
}
// Long lists: something may change with size.
const int kMany[] = {4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257};
std::set<int> places(int n) {
  std::set<int> r{0, 1, 2, n - 2, n - 1, n / 2, 8, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256};
  for (auto it = r.begin(); it != r.end();) it = *it < 0 || *it >= n ? r.erase(it) : std::next(it);
  return r;
}
Entry make_entry(int id, std::map<int, Field> over) {
  Field keep[kFields];
  const Field* f[kFields];
  string j = "{";
  const fx::Key& k = fx::key(id);
  for (int i = 0; i < kFields; i++) {
    keep[i] = over.count(i) ? over[i] : variants(i, k, false)[0];
    f[i] = &keep[i];
    if (!keep[i].json.empty()) j += string(j.size() > 1 ? "," : "") + "\"" + kName[i] + "\":" + keep[i].json;
  }
  return {j + "}", evaluate(f)};
}
void long_lists() {
  int n = mc::pick("entries", kMany);
  static const char* const patterns[] = {"round robin", "RSA", "EC", "oct", "OKP", "one key id", "no good one", "every second good", "no key ids", "descending key ids"};
  int pat = mc::choose("pattern", 10);
  vector<Entry> es;
  static const int rr[] = {fx::R0, fx::E0, fx::H0, fx::O0, fx::R1, fx::F0, fx::H1, fx::G0, fx::O1, fx::E1};
  for (int i = 0; i < n; i++) {
    int id = pat == 1 ? (i % 2 ? fx::R1 : fx::R0) : pat == 2 ? rr[1 + i % 2 * 4] : pat == 3 ? (i % 2 ? fx::H1 : fx::H0) : pat == 4 ? (i % 2 ? fx::O1 : fx::O0) : rr[i % 10];
    string kid = "kid-" + std::to_string(pat == 5 ? 7 : pat == 9 ? n - i : i);
    std::map<int, Field> over{{kKid, pat == 8 ? F_absent() : F_str(kid)}};
    if (pat == 6 || (pat == 7 && i % 2)) over[kKty] = F_str("unknown");
    es.push_back(make_entry(id, over));
  }
  mc::state(mc::Hash().u(n).u(pat).h);
  MC_NOTE("%d entries, %s", n, patterns[pat]);
  auto go = [&](const vector<Entry>& e) {
    vector<string> t;
    for (auto& x : e) t.push_back(x.json);
    judge(e, jwks_of(t));
  };
  // one entry of another sort, at every place: two valid ones (RSA, EC), seven faulty ones
  static const vector<int> odds = mc::thorough() ? vector<int>{1, 3, 10, 11, 13, 14, 15, 16, 18} : vector<int>{3, 10, 13, 18};
  int odd = mc::pick("odd", odds);
  if (odd == odds[0]) go(es);
  for (int p : places(n)) {
    if (!mc::thorough() && p != n / 2 && p != n - 1 && (p || n > 100)) continue;
    vector<Entry> e = es;
    e[p] = pool()[odd];
    go(e);
  }
}
// Long texts inside an entry.
void long_texts() {
  static const int lens[] = {100, 127, 128, 254, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 65535, 65536, 100000, 1000000};
  int len = mc::pick("length", lens);
  int what = mc::choose("what", 6), id = mc::choose("key", fx::kNumKeys);
  string big(len, 'L');
  for (int i = 0; i < len; i++) big[i] = char('A' + i * 11 % 26);
  Entry e = make_entry(id, what == 0 ? std::map<int, Field>{{kKid, F_str(big)}} : std::map<int, Field>{});
  string member;
  if (what == 1) member = ",\"use\":\"" + big + "\"";
  if (what == 2) member = ",\"" + big + "\":1";
  if (what == 3) member = ",\"x5c\":[\"" + big + "\"]";
  if (what == 4)
    for (int i = 0; i < len / 50; i++) member += ",\"m" + std::to_string(i) + "\":" + std::to_string(i);
  if (what == 5) member = ",\"blank\":" + string(len, ' ') + "1";
  e.json.insert(e.json.size() - 1, member);
  mc::state(mc::Hash().u(len).u(what).u(id).h);
  const Entry &a = pool()[0], &b = pool()[6];
  vector<Entry> es{a, e, b};
  judge(es, jwks_of({a.json, e.json, b.json}));
}
// Top level of the document.
void toplevel() {
  const string good = "[" + pool()[0].json + "]", bad = "[" + pool()[10].json + "]", empty = "[]";
  struct V {
    string text;
    int keys;
    std::set<Status> faults;
  };
  const Status P = Status::JwksParseError, N = Status::JwksNoKeys, B = Status::JwksBadKeys, NV = Status::JwksNoValidKeys;
  static vector<V> v;
  if (v.empty()) {
    for (const char* t : {"", " ", "{", "}", "[]", "null", "5", "\"x\"", "{]", "{\"keys\":}", "{\"keys\":[}", "{\"keys\":[]]}", "{\"keys\"}", "{\"keys\":[{]}", "keys", "{\"keys\":[1 2]}", "\xef\xbb\xbf", "{\"keys\":[]}x"})
      v.push_back({t, 0, {P}});
    for (const char* t : {"{}", "{\"key\":[]}", "{\"KEYS\":[]}", "{\"keys \":[]}", "{\"a\":{\"keys\":[]}}", "{\"a.keys\":[]}", "{\"jwks\":{}}"}) v.push_back({t, 0, {N}});
    for (const char* t : {"null", "5", "true", "\"x\"", "{}", "{\"0\":{}}"}) v.push_back({string("{\"keys\":") + t + "}", 0, {B}});
    v.push_back({"{\"keys\":{\"kty\":\"RSA\"}}", 0, {B}});
    v.push_back({"{\"keys\":[]}", 0, {NV}});
    v.push_back({"{\"keys\":[[],[[]],5,null,\"\"]}", 0, {NV}});
    v.push_back({"{\"keys\":" + bad + "}", 0, {NV, Status::JwksRsaParseError}});
    for (const char* x : {"\"a\":1", "\"a\":null", "\"status\":\"x\",\"b\":[]", "\"key\":{}", "\"\":\"\""})
      for (bool first : {false, true}) {
        string o = string("{") + (first ? string(x) + "," : "") + "\"keys\":%" + (first ? "" : string(",") + x) + "}";
        auto sub = [&](const string& a) { string r = o; return r.replace(r.find('%'), 1, a); };
        v.push_back({sub(good), 1, {}});
        v.push_back({sub(empty), 0, {NV}});
        v.push_back({sub("7"), 0, {B}});
      }
    v.push_back({" \n{ \"keys\" : " + good + " } \n", 1, {}});
    string crt;
    for (char c : string(fx::kR0_crt)) crt += c == '\n' ? "\\n" : string(1, c);
    v.push_back({"{\"keys\":" + good + ",\"c\":\"" + crt + "\"}", 1, {}});
    v.push_back({"{\"keys\":" + empty + ",\"c\":\"" + crt + "\"}", 0, {NV}});
    v.push_back({"{\"keys\":\"" + crt + "\"}", 0, {B}});
    v.push_back({good, 0, {P}});
    v.push_back({"{\"keys\":[" + good + "]}", 0, {NV}});
    v.push_back({"{\"keys\":" + good.substr(0, good.size() - 1) + "}", 0, {P}});
  }
  V& t = mc::pick("document", v);
  JwksPtr s = Jwks::createFrom(t.text, Jwks::JWKS);
  mc::step();
  mc::state(mc::Hash().s(t.text).h);
  mc::outcome(si(s->getStatus()));
  queue("loading a JWKS");
  string what = "document " + mc::esc(t.text);
  consistent(*s, what);
  string want = t.keys ? pool()[0].o.key : "";
  MC_CHECK("C11", keys_of(*s) == want, "%s: expected keys %s, got %s", what.c_str(), want.c_str(), keys_of(*s).c_str());
  if (!t.keys) {
    MC_CHECK("C12", t.faults.count(s->getStatus()), "%s: reported as %s", what.c_str(), st(s->getStatus()).c_str());
    nothing_verifies(*s, what);
  }
}

// ---- PEM ----
struct Pem {
  string name, text;
  int key;        // fixture key, -1: none, -2: P-224 (an EC key no algorithm fits)
  bool may_fail;  // either way is fine
};
const vector<Pem>& pems() {
  static vector<Pem> v = [] {
    vector<Pem> v;
    for (int i = 0; i < fx::kNumKeys; i++)
      if (!fx::key(i).pem.empty()) v.push_back({fx::key(i).name, fx::key(i).pem, i, false});
    const string r = fx::key(fx::R0).pem, e = fx::key(fx::E0).pem, o = fx::key(fx::O0).pem;
    v.push_back({"P-224", fx::kP224_pub, -2, true});
    v.push_back({"X25519", fx::kX0_pub, -1, false});
    v.push_back({"DSA", fx::kD0_pub, -1, false});
    v.push_back({"empty", "", -1, false});
    v.push_back({"text", "not a key", -1, false});
    v.push_back({"certificate", fx::kR0_crt, -1, false});
    v.push_back({"private key", fx::kR0_priv, -1, false});
    v.push_back({"JWK", "{" + fx::key(fx::R0).jwk + "}", -1, false});
    for (auto* p : {&r, &e, &o}) {
      int id = p == &r ? fx::R0 : p == &e ? fx::E0 : fx::O0;
      string body = p->substr(27), x;
      v.push_back({"truncated", p->substr(0, p->size() / 2), -1, false});
      v.push_back({"no end line", p->substr(0, p->find("-----END")), -1, false});
      v.push_back({"no begin line", body, -1, false});
      v.push_back({"end line only", p->substr(p->find("-----END")), -1, false});
      x = *p;
      x[40] = '!';
      v.push_back({"foreign character", x, -1, false});
      x = *p;
      x.erase(50, 4);
      v.push_back({"four characters missing", x, -1, false});
      x = *p;
      x.replace(x.find("PUBLIC"), 6, "PUBLYC");
      v.push_back({"wrong label", x, -1, false});
      v.push_back({"text before", "hello\n" + *p, id, true});
      v.push_back({"text after", *p + "trailing\n", id, true});
      v.push_back({"twice", *p + e, id, true});
      x.clear();
      for (char c : *p) x += c == '\n' ? "\r\n" : string(1, c);
      v.push_back({"CRLF", x, id, true});
      v.push_back({"NUL first", string(1, '\0') + *p, id, true});
      v.push_back({"NUL last", *p + string(1, '\0'), id, true});
    }
    return v;
  }();
  return v;
}
string pem_key(const Pem& p, const string& kid, const string& alg) {
  if (p.key == -2) return "";  // not compared
  const fx::Key& k = fx::key(p.key);
  return "kid=" + std::to_string(kid.size()) + ":" + kid + ";alg=" + alg + ";" + want_material(k);
}
// Without crv: a PEM has no name for it, and it plays no part in verification.
string keys_no_crv(const Jwks& s) {
  string r;
  for (auto& k : s.keys()) r += "kid=" + std::to_string(k->kid_.size()) + ":" + k->kid_ + ";alg=" + k->alg_ + ";" + material(*k) + "|";
  return r;
}
void pem_fault(const Pem& p, Status s, const string& what) {
  if (s == Status::Ok || p.may_fail) return;
  bool type = p.name == "X25519" || p.name == "DSA";
  MC_CHECK("C12", s == Status::JwksPemBadBase64 || (type && s == Status::JwksPemNotImplementedKty), "%s: reported as %s", what.c_str(), st(s).c_str());
}
void pem_single() {
  const Pem& p = mc::pick("text", pems());
  static const vector<string> kids = {"", "k1", "a.b", string("x\0y", 3)};
  static const vector<string> algs = {"", "ES256", "ES384", "ES512", "HS256", "RS256", "PS384", "EdDSA", "none", "es256", "RS", "E"};
  const string kid = mc::pick("kid", kids), alg = mc::pick("alg", algs);
  int how = mc::choose("how", 3);
  string what = string(how == 0 ? "createFrom(PEM)" : how == 1 ? "createFromPem" : "addKeyFromPem") + " of " + p.name + " kid=" + mc::esc(kid) + " alg=" + alg;
  if (how == 0 && !(kid.empty() && alg.empty())) return;
  JwksPtr s;
  if (how == 0) s = Jwks::createFrom(p.text, Jwks::PEM);
  if (how == 1) s = Jwks::createFromPem(p.text, kid, alg);
  Status ret = Status::Ok;
  if (how == 2) {
    s = Jwks::createFrom(jwks_of({jwk(fx::key(fx::H1).jwk)}), Jwks::JWKS);
    ret = s->addKeyFromPem(p.text, kid, alg);
  }
  mc::step();
  mc::state(mc::Hash().s(p.text).s(kid).s(alg).u(how).h);
  mc::outcome(si(how == 2 ? ret : s->getStatus()));
  queue(what.c_str());
  consistent(*s, what);
  string got = keys_no_crv(*s), base = how == 2 ? "kid=0:;alg=;" + want_material(fx::key(fx::H1)) + "|" : "";
  Status r = how == 2 ? ret : s->getStatus();
  bool none = got == base;
  if (p.key == -2) {
    MC_CHECK("C13", none ? r != Status::Ok : r == Status::Ok, "%s: keys %s, status %s", what.c_str(), got.c_str(), st(r).c_str());
  } else if (p.key == -1) {
    MC_CHECK("C13", none && r != Status::Ok, "%s: keys %s, status %s", what.c_str(), got.c_str(), st(r).c_str());
  } else {
    bool full = got == base + pem_key(p, kid, alg) + "|" && r == Status::Ok;
    MC_CHECK("C13", full || (p.may_fail && none && r != Status::Ok), "%s: keys %s, status %s", what.c_str(), got.c_str(), st(r).c_str());
  }
  pem_fault(p, r, what);
  if (how != 2 && s->keys().empty()) nothing_verifies(*s, what);
}
// Keys of unusual shape, stated in every way the formats know.
struct Stated {
  fx::Key key;
  bool pem;
};
vector<Stated>* g_stated;
void init_stated() {
  if (g_stated) return;
  fx::init_shapes();
  g_stated = new vector<Stated>;
  for (auto& s : *fx::g_shapes) {
    g_stated->push_back({s.key, s.key.priv != nullptr});
    for (auto& n : s.near) g_stated->push_back({n, false});
  }
  // Moduli of many sizes (nobody has their factors; loading does not ask).
  for (int bytes : {64, 65, 96, 127, 128, 129, 130, 192, 255, 256, 257, 258, 320, 383, 384, 385, 511, 512, 513, 768, 1024})
    for (int top : {0xff, 0x80, 0x01})
      for (int e : {3, 65537}) {
        fx::Key k;
        k.id = fx::R0;
        k.kty = "RSA";
        k.name = "modulus of " + std::to_string(bytes) + " bytes from " + std::to_string(top) + ", e=" + std::to_string(e);
        k.n.resize(bytes);
        for (int i = 0; i < bytes; i++) k.n[i] = char(i * 37 + bytes);
        k.n[0] = char(top);
        k.n[bytes - 1] |= 1;
        k.n[bytes / 2] = 0;
        k.e = e == 3 ? "\x03" : string("\x01\x00\x01", 3);
        k.jwk = "\"kty\":\"RSA\",\"n\":\"" + fx::b64u(k.n) + "\",\"e\":\"" + fx::b64u(k.e) + "\"";
        g_stated->push_back({k, false});
      }
  for (int len : {3, 4, 5, 6, 7, 8, 15, 16, 17, 48, 255, 256, 257, 4096})
    for (int b : {0, 0xff, 0x61}) g_stated->push_back({fx::oct_shape(string(len, char(b)), "secret of " + std::to_string(len) + " equal bytes"), false});
  // Every form of Ed25519 point the format can carry: 32 bytes.
  for (int b : {0, 1, 0x7f, 0x80, 0xff})
    for (int last : {0, 0x7f, 0x80, 0xff}) {
      fx::Key k;
      k.id = fx::O0;
      k.kty = "OKP";
      k.crv = "Ed25519";
      k.name = "Ed25519 key of equal bytes";
      k.x = string(31, char(b)) + string(1, char(last));
      k.jwk = "\"kty\":\"OKP\",\"x\":\"" + fx::b64u(k.x) + "\",\"crv\":\"Ed25519\"";
      g_stated->push_back({k, false});
    }
}
void shapes() {
  const Stated& s = mc::pick("key", *g_stated);
  const fx::Key& k = s.key;
  vector<string> algs{""};
  for (auto a : fx::kAlgs)
    if (fx::fits(k, a)) algs.push_back(a);
  const string alg = mc::pick("alg", algs);
  static const vector<string> kids = {"", "k1", string(200, 'k')};
  const string kid = mc::pick("kid", kids);
  const fx::Key &a = fx::key(fx::E1), &b = fx::key(fx::R1);
  auto want = [&](const fx::Key& x, const string& al, const string& ki) { return "kid=" + std::to_string(ki.size()) + ":" + ki + ";alg=" + al + ";" + want_material(x) + "|"; };
  mc::state(mc::Hash().s(k.jwk).s(alg).s(kid).h);
  for (int form = 0; form < (s.pem ? 8 : 4); form++) {
    JwksPtr set;
    string w = want(k, alg, kid), what;
    bool before = form & 1, behind = form & 2;
    if (form < 4) {
      vector<string> e{jwk(k.jwk, alg, kid)};
      if (before) e.insert(e.begin(), jwk(a.jwk));
      if (behind) e.push_back(jwk(b.jwk));
      set = Jwks::createFrom(jwks_of(e), Jwks::JWKS);
      what = "JWKS " + mc::esc(jwks_of(e), 900);
    } else {
      if (before) set = Jwks::createFrom(jwks_of({jwk(a.jwk)}), Jwks::JWKS);
      if (before) set->addKeyFromPem(fx::pub_pem(k.priv), kid, alg);
      else set = Jwks::createFromPem(fx::pub_pem(k.priv), kid, alg);
      if (behind) set->addKeyFromPem(b.pem, "", "");
      what = "PEM of " + k.name;
    }
    if (before) w = want(a, "", "") + w;
    if (behind) w += want(b, "", "");
    mc::step();
    mc::outcome(si(set->getStatus()));
    queue(what.c_str());
    consistent(*set, what);
    const char* prop = form < 4 ? "C11" : "C13";
    string got = keys_no_crv(*set);
    MC_CHECK(prop, got == w, "%s (%s):\n expected keys %s\n got %s", what.c_str(), k.name.c_str(), w.c_str(), got.c_str());
    if (form < 4)
      for (auto& x : set->keys())
        if (material(*x) == want_material(k)) MC_CHECK("C11", x->crv_ == k.crv, "%s: curve \"%s\"", what.c_str(), x->crv_.c_str());
  }
}
void pem_sequence() {
  static const vector<string> start = {jwks_of({jwk(fx::key(fx::R1).jwk, "", "k1"), jwk(fx::key(fx::H0).jwk)}), "{", "{\"keys\":[]}", jwks_of({"{\"kty\":\"RSA\"}"}), "{\"keys\":7}", fx::key(fx::E1).pem, "no key"};
  int b = mc::choose("start", int(start.size()));
  JwksPtr s = Jwks::createFrom(start[b], b < 5 ? Jwks::JWKS : Jwks::PEM);
  mc::step();
  string want = keys_no_crv(*s);
  struct Add {
    int pem;
    const char *kid, *alg;
  };
  static const vector<Add> adds = [] {
    vector<Add> a;
    auto find = [](const char* n) {
      for (size_t i = 0; i < pems().size(); i++)
        if (pems()[i].name == n) return int(i);
      abort();
    };
    int r = find(fx::key(fx::R0).name.c_str()), e = find(fx::key(fx::E0).name.c_str()), o = find(fx::key(fx::O0).name.c_str()), g = find(fx::key(fx::G0).name.c_str());
    return vector<Add>{{r, "k1", "RS256"}, {r, "", ""}, {e, "k1", "ES256"}, {e, "k2", "RS256"}, {g, "", "ES512"}, {o, "k1", "EdDSA"},
                       {find("X25519"), "k1", ""}, {find("DSA"), "", "RS256"}, {find("truncated"), "k1", "RS256"}, {find("empty"), "", ""}, {find("private key"), "k3", "RS512"}};
  }();
  int n = mc::qt(3, 4);
  for (int i = 0; i < n; i++) {
    const Add& a = mc::pick("add", adds);
    const Pem& p = pems()[a.pem];
    string before = dump(*s), vb;
    if (p.key < 0) vb = verdicts(*s);
    Status r = s->addKeyFromPem(p.text, a.kid, a.alg);
    mc::step();
    mc::outcome(si(r));
    queue("addKeyFromPem");
    string what = "adding " + p.name + " kid=" + a.kid + " alg=" + a.alg + " to a set of status " + st(s->getStatus()) + " with " + std::to_string(s->keys().size()) + " keys after it";
    MC_NOTE("%s: %s", what.c_str(), st(r).c_str());
    if (p.key < 0) {
      MC_CHECK("C13", r != Status::Ok, "%s: succeeds", what.c_str());
      MC_CHECK("C13", dump(*s) == before, "%s: a failed addition changes the set from %s to %s", what.c_str(), before.c_str(), dump(*s).c_str());
      string va = verdicts(*s);
      MC_CHECK("C13", va == vb, "%s: a failed addition changes verdicts from %s to %s", what.c_str(), vb.c_str(), va.c_str());
      pem_fault(p, r, what);
    } else {
      want += pem_key(p, a.kid, a.alg) + "|";
      MC_CHECK("C13", r == Status::Ok, "%s: fails: %s", what.c_str(), st(r).c_str());
    }
    MC_CHECK("C13", keys_no_crv(*s) == want, "%s: expected %s, got %s", what.c_str(), want.c_str(), keys_no_crv(*s).c_str());
    consistent(*s, what);
    mc::state(mc::Hash().s(dump(*s)).h);
  }
}

// Many additions, with failing ones among them.
void pem_many() {
  int n = mc::pick("additions", kMany);
  int period = mc::choose("period", 4);  // every how many additions one fails: none, 2, 7, all but one
  int start = mc::choose("start", 4);
  vector<string> e;
  for (int i = 0; i < (start == 2 ? 70 : start == 3 ? 8 : 1); i++) e.push_back(jwk(fx::key(i % 2 ? fx::H0 : fx::R1).jwk, "", "s" + std::to_string(i)));
  JwksPtr s = start == 0 ? Jwks::createFrom("{", Jwks::JWKS) : Jwks::createFrom(jwks_of(e), Jwks::JWKS);
  string want = keys_no_crv(*s);
  mc::state(mc::Hash().u(n).u(period).u(start).h);
  static const int ids[] = {fx::R0, fx::E0, fx::F0, fx::O0, fx::G0, fx::R1};
  static const vector<string> bad = {fx::kX0_pub, "", fx::key(fx::R0).pem.substr(0, 200), fx::kD0_pub};
  for (int i = 0; i < n; i++) {
    bool fails = period == 1 ? i % 2 : period == 2 ? i % 7 == 6 : period == 3 && i != n / 2;
    string kid = "p" + std::to_string(i);
    Status r = s->addKeyFromPem(fails ? bad[i % 4] : fx::key(ids[i % 6]).pem, kid, "");
    mc::step();
    mc::outcome(si(r));
    queue("addKeyFromPem");
    if (!fails) want += "kid=" + std::to_string(kid.size()) + ":" + kid + ";alg=;" + want_material(fx::key(ids[i % 6])) + "|";
    MC_CHECK("C13", (r != Status::Ok) == fails, "addition %d of %d to start %d returns %s", i, n, start, st(r).c_str());
    if (i == n - 1 || i % 8 == 0) {
      MC_CHECK("C13", keys_no_crv(*s) == want, "after addition %d of %d to start %d: expected %s, got %s", i, n, start, want.c_str(), keys_no_crv(*s).c_str());
      consistent(*s, "many additions");
    }
  }
}

// ---- certificate maps ----
// The order of a protobuf map comes from a seed made of the time stamp counter and its address: trap the former.
uint64_t g_tsc;
bool g_trap_ok;
void on_segv(int, siginfo_t*, void* c) {
  auto* u = static_cast<ucontext_t*>(c);
  auto* ip = reinterpret_cast<const uint8_t*>(u->uc_mcontext.gregs[REG_RIP]);
  if (ip && ip[0] == 0x0f && ip[1] == 0x31) {
    u->uc_mcontext.gregs[REG_RAX] = uint32_t(g_tsc);
    u->uc_mcontext.gregs[REG_RDX] = uint32_t(g_tsc >> 32);
    u->uc_mcontext.gregs[REG_RIP] += 2;
    return;
  }
  signal(SIGSEGV, SIG_DFL);
}
void init_trap() {
#if __has_feature(address_sanitizer)
  return;
#endif
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_segv;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSEGV, &sa, nullptr);
}
struct TscTrap {
#if __has_feature(address_sanitizer)  // which owns SIGSEGV
  TscTrap() { (void)g_trap_ok; }
#else
  TscTrap() { g_trap_ok = prctl(PR_SET_TSC, PR_TSC_SIGSEGV) == 0; }
  ~TscTrap() { prctl(PR_SET_TSC, PR_TSC_ENABLE); }
#endif
};
struct CertVal {
  string name, json;
  int shape;  // 0: a PEM certificate text, 1: a text that is not, 2: not a text
  int key;    // fixture key or -1: bad certificate
};
string js(const string& s) {
  string r = "\"";
  for (char c : s) r += c == '\n' ? "\\n" : c == '"' ? "\\\"" : string(1, c);
  return r + "\"";
}
const vector<CertVal>& certs() {
  static vector<CertVal> v = [] {
    const string r0 = fx::kR0_crt, r1 = fx::kR1_crt, e0 = fx::kE0_crt, o0 = fx::kO0_crt;
    const string pre = "-----BEGIN CERTIFICATE-----\n", suf = "\n-----END CERTIFICATE-----\n";
    string broken = r0;
    broken[100] = broken[100] == 'A' ? 'B' : 'A';
    string der = r0;  // valid base64, cut DER
    der.erase(r0.size() - suf.size() - 200, 4 * 20);
    vector<CertVal> v{{"R0", js(r0), 0, fx::R0},       {"R1", js(r1), 0, fx::R1},         {"EC cert", js(e0), 0, -1},       {"Ed25519 cert", js(o0), 0, -1},
                      {"no body", js(pre + suf), 0, -1}, {"bad body", js(pre + "!!!!" + suf), 0, -1}, {"cut DER", js(der), 0, -1}, {"key in cert", js(pre + fx::key(fx::R0).pem + suf), 0, -1},
                      {"no final newline", js(r0.substr(0, r0.size() - 1)), 1, -1}, {"no prefix", js(r0.substr(5)), 1, -1}, {"text", js("x"), 1, -1}, {"empty", "\"\"", 1, -1}, {"public key", js(fx::key(fx::R0).pem), 1, -1},
                      {"blank before", js(" " + r0), 1, -1}, {"text behind", js(r0 + "rest"), 1, -1}, {"newline behind", js(r0 + "\n"), 1, -1},
                      {"no newline before the last line", js(string(r0).erase(r0.size() - suf.size(), 1)), 1, -1}, {"no newline behind the first line", js(string(r0).erase(pre.size() - 1, 1)), 1, -1},
                      {"lower case", js("-----begin certificate-----\n" + r0.substr(pre.size())), 1, -1}, {"other label", js("-----BEGIN X509 CERTIFICATE-----\n" + r0.substr(pre.size())), 1, -1}, {"number", "5", 2, -1}, {"null", "null", 2, -1}, {"object", "{}", 2, -1}, {"list", "[" + js(r0) + "]", 2, -1}};
    (void)broken;
    return v;
  }();
  return v;
}
void x509_map_of(int n, const vector<string>& names);
void x509_maps() {
  static const vector<string> names = {"k1", "k2", "a.b", "", "keys ", "\xc3\xa9"};
  x509_map_of(mc::choose("members", mc::qt(4, 4)), names);
}
void x509_many() {
  static const vector<string> names = {"k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8"};
  x509_map_of(4 + mc::choose("members", 5), names);
}
void x509_long();
void x509_map_of(int n, const vector<string>& names) {
  vector<std::pair<string, const CertVal*>> ms;
  vector<string> left = names;
  for (int i = 0; i < n; i++) {
    int c = names.size() == 8 ? 0 : mc::choose("name", int(left.size()), 1);
    ms.push_back({left[c], nullptr});
    left.erase(left.begin() + c);
    ms.back().second = &mc::pick("value", certs(), 1);
  }
  string t = "{";
  bool is_map = n > 0, good = n > 0, empty_name = false;
  for (int i = 0; i < n; i++) {
    t += (i ? "," : "") + js(ms[i].first) + ":" + ms[i].second->json;
    if (ms[i].first.empty()) empty_name = true;
    if (ms[i].second->shape) is_map = false;
    if (ms[i].second->key < 0) good = false;
  }
  if (empty_name) is_map = false;
  t += "}";
  std::map<string, string> want;
  if (is_map && good)
    for (auto& m : ms) want[m.first] = "alg=;" + want_material(fx::key(m.second->key));
  mc::state(mc::Hash().s(t).h);
  string what;
  for (auto& m : ms) what += "\"" + m.first + "\": " + m.second->name + ", ";
  std::set<string> orders;
#if __has_feature(address_sanitizer)
  int reps = n;
#else
  int reps = n <= 1 ? 2 : n == 2 ? 12 : is_map && good && n == 3 ? 48 : mc::qt(12, 48);
#endif
  for (int rep = 0; rep < reps; rep++) {
    g_tsc = 0x9e3779b97f4a7c15ull * (rep + 1);
    JwksPtr s;
    {
      TscTrap trap;
      s = Jwks::createFrom(t, Jwks::JWKS);
    }
    mc::step();
    mc::outcome(si(s->getStatus()));
    queue(("loading the map " + what).c_str());
    consistent(*s, "map {" + what + "}");
    std::map<string, string> got;
    string order;
    for (auto& k : s->keys()) {
      if (got.count(k->kid_)) MC_CHECK("C14", false, "map {%s}: key %s twice", what.c_str(), k->kid_.c_str());
      got[k->kid_] = "alg=" + k->alg_ + ";" + material(*k);
      order += k->kid_ + "|";
    }
    orders.insert(order);
    if (got != want) {
      string d;
      for (auto& g : got) d += g.first + " ";
      MC_CHECK("C14", false, "map {%s}: expected %zu keys, got %zu (%s), status %s", what.c_str(), want.size(), got.size(), d.c_str(), st(s->getStatus()).c_str());
    }
    Status x = s->getStatus();
    if (is_map && good) {
      MC_CHECK("C14", x == Status::Ok, "map {%s}: status %s", what.c_str(), st(x).c_str());
    } else {
      bool cert_fault = x == Status::JwksX509ParseError || x == Status::JwksX509GetPubkeyError;
      bool ok = is_map ? cert_fault : x == Status::JwksNoKeys;
      MC_CHECK("C14", ok, "map {%s}: status %s", what.c_str(), st(x).c_str());
      MC_CHECK("C12", ok, "map {%s}: status %s", what.c_str(), st(x).c_str());
      if (rep == 0) nothing_verifies(*s, "map {" + what + "}");
    }
  }
  // outcomes 40..: how many of the orders of a good map were seen
  if (is_map && good) mc::outcome(40 + unsigned(orders.size()));
}

// Large maps and long names.
void x509_long() {
  static const int sizes[] = {1, 2, 3, 5, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 50, 63, 64, 65, 100, 128, 129, 256, 257};
  int n = mc::pick("members", sizes);
  static const int lens[] = {0, 60, 255, 256, 257, 1000, 5000};
  int len = mc::pick("name length", lens);
  int odd = mc::choose("odd", 7);
  static const int kOdd[] = {-1, 2, 6, 8, 9, 20, 22};  // none; bad certificates; texts that are none; other kinds
  vector<string> names;
  string prefix(len, 'p');
  for (int i = 0; i < n; i++) names.push_back(prefix + std::to_string(i));
  mc::state(mc::Hash().u(n).u(len).u(odd).h);
  for (int p : odd ? places(n) : std::set<int>{0}) {
    if (len > 1000 && n > 20) continue;
    if (!mc::thorough() && n > 20 && p && p != n - 1 && p != n / 2 && p != 8 && p != 31) continue;
    string t = "{";
    std::map<string, string> want;
    for (int i = 0; i < n; i++) {
      const CertVal& v = odd && i == p ? certs()[kOdd[odd]] : certs()[i % 2];
      t += (i ? "," : "") + js(names[i]) + ":" + v.json;
      if (!odd) want[names[i]] = "alg=;" + want_material(fx::key(v.key));
    }
    t += "}";
    JwksPtr s = Jwks::createFrom(t, Jwks::JWKS);
    mc::step();
    mc::outcome(si(s->getStatus()));
    string what = "a map of " + std::to_string(n) + " members with names of about " + std::to_string(len) + " bytes" + (odd ? ", number " + std::to_string(p) + " " + certs()[kOdd[odd]].name : "");
    queue(what.c_str());
    consistent(*s, what);
    std::map<string, string> got;
    for (auto& k : s->keys()) got[k->kid_] = "alg=" + k->alg_ + ";" + material(*k);
    Status x = s->getStatus();
    MC_CHECK("C14", got == want && s->keys().size() == want.size(), "%s: expected %zu keys, got %zu, status %s", what.c_str(), want.size(), s->keys().size(), st(x).c_str());
    bool ok = !odd ? x == Status::Ok : certs()[kOdd[odd]].shape ? x == Status::JwksNoKeys : x == Status::JwksX509ParseError || x == Status::JwksX509GetPubkeyError;
    MC_CHECK("C14", ok, "%s: status %s", what.c_str(), st(x).c_str());
    MC_CHECK("C12", ok, "%s: status %s", what.c_str(), st(x).c_str());
  }
}

// ---- error queue while verifying ----
void verify_queue() {
  const string alg = fx::kAlgs[mc::choose("alg", fx::kNumAlgs)];
  struct KS {
    string name;
    JwksPtr s;
  };
  static vector<KS>* sets = [] {
    auto* v = new vector<KS>;
    for (int i = 0; i < fx::kNumKeys; i++) {
      v->push_back({fx::key(i).name, Jwks::createFrom(jwks_of({jwk(fx::key(i).jwk)}), Jwks::JWKS)});
      if (!fx::key(i).pem.empty())
        for (auto a : fx::kAlgs) v->push_back({"PEM " + fx::key(i).name + " alg " + a, Jwks::createFromPem(fx::key(i).pem, "", a)});
    }
    v->push_back({"P-224", Jwks::createFromPem(fx::kP224_pub, "", "")});
    v->push_back({"X.509", Jwks::createFrom("{\"k\":" + js(fx::kR0_crt) + "}", Jwks::JWKS)});
    string all, algs;
    vector<string> e;
    for (int i = 0; i < fx::kNumKeys; i++) e.push_back(jwk(fx::key(i).jwk));
    v->push_back({"all", Jwks::createFrom(jwks_of(e), Jwks::JWKS)});
    v->push_back({"none", Jwks::createFrom("{\"keys\":[]}", Jwks::JWKS)});
    return v;
  }();
  const KS& ks = mc::pick("key set", *sets);
  const fx::Key& k = fx::key(fx::key_for(alg));
  string data = fx::b64u(fx::header(alg)) + "." + fx::b64u("{}"), good = fx::sign(k, alg, data);
  static const int kVar = 14;
  int var = mc::choose("signature", kVar);
  string s = good;
  size_t n = s.size();
  switch (var) {
    case 1: s[0] ^= 1; break;
    case 2: s[n - 1] ^= 0x80; break;
    case 3: s = string(n, '\0'); break;
    case 4: s = string(n, '\xff'); break;
    case 5: s.resize(n - 1); break;
    case 6: s += '\0'; break;
    case 7: s = "x"; break;
    case 8: s = string(n / 2, '\0') + s.substr(n / 2); break;
    case 9: s = s.substr(0, n / 2) + string(n - n / 2, '\0'); break;
    case 10: s = s + s; break;
    case 11: s = string(2000, 'a'); break;
    case 12: s = string("\x30\x06\x02\x01\x01\x02\x01\x01", 8); break;
    case 13: s = s.substr(0, n / 2) + string(n - n / 2, '\xff'); break;
  }
  Jwt j;
  if (j.parseFromString(data + "." + fx::b64u(s)) != Status::Ok) mc::fail("token does not parse");
  queue("parsing a token");
  Status r = verifyJwtWithoutTimeChecking(j, *ks.s);
  mc::step();
  mc::state(mc::Hash().s(alg).s(ks.name).u(var).h);
  mc::outcome(si(r));
  queue(("verifying a token of " + alg + " with signature variant " + std::to_string(var) + " against " + ks.name).c_str());
}

void reg() {
  auto& S = mc::suites();
  S.push_back({"entries", {"C11", "C12", "C17"}, entries, 2, 3,
               "every entry with at most 2 (3) deviations from the 12 fixture keys, with and without alg: ~17 kty, 12 kid, 36 alg, 18 crv, 20 n, 23 e, 25 x, 25 y, 16 k, extra members, member order", false});
  S.push_back({"lists", {"C11", "C12", "C17"}, lists, -1, -1, "every list of up to 3 (4) of 23 entries (10 valid ones, faulty ones of every sort, non-objects)", false});
  S.push_back({"long-lists", {"C11", "C12", "C17"}, long_lists, -1, -1, "lists of 28 lengths up to 257 entries in 10 patterns, with one entry of 4 (9) other sorts at 3 (up to 17) places", false});
  S.push_back({"long-texts", {"C11", "C12", "C17"}, long_texts, -1, -1, "entries of 10 keys with a key id, a member, a member name, many members or a blank of 24 lengths up to a million", false});
  S.push_back({"toplevel", {"C11", "C12", "C17"}, toplevel, -1, -1, "about 70 forms of the whole document", false});
  S.push_back({"pem", {"C12", "C13", "C17"}, pem_single, -1, -1, "57 PEM texts (10 keys, unsupported types, 13 corruptions of 3 keys, other PEM kinds) x 4 kids x 12 algs x 3 ways of loading", false});
  S.push_back({"shapes", {"C11", "C12", "C13", "C17"}, shapes, -1, -1,
               "about 900 keys of unusual shape (coordinates, points and secrets with zero bytes, moduli of 64..1024 bytes, secrets of 1..4096 bytes) x every algorithm that fits x 3 key ids x alone, behind and before another, as JWK and PEM", false, init_stated});
  S.push_back({"pem-seq", {"C12", "C13", "C17"}, pem_sequence, -1, -1, "every sequence of 3 (4) additions of 11 to 7 starting sets (good, failed and empty ones)", false});
  S.push_back({"pem-many", {"C12", "C13", "C17"}, pem_many, -1, -1, "28 numbers of additions up to 257, none, some or nearly all failing, to 4 starting sets of up to 70 keys", false});
  S.push_back({"x509-long", {"C12", "C14", "C17"}, x509_long, -1, -1, "certificate maps of 28 sizes up to 257 members x 7 name lengths up to 5000 x none or one of 6 other values at 5 (up to 17) places", false, init_trap});
  S.push_back({"x509-many", {"C12", "C14"}, x509_many, mc::qt(2, 3), 3,
               "certificate maps of 4..8 members of which at most 2 (3) are something else than a good certificate, under 48 map seeds", false, init_trap});
  S.push_back({"x509", {"C12", "C14", "C17"}, x509_maps, mc::qt(4, 6), 6,
               "every certificate map of 0..3 members with at most 4 (6) deviations over 6 names and 24 values, each loaded under up to 48 map seeds (time stamp counter trapped) so that every member order occurs", false, init_trap});
  S.push_back({"verify-queue", {"C17"}, verify_queue, -1, -1, "13 algorithms x 146 key sets x 14 signature variants", false});
}
}  // namespace

int main(int argc, char** argv) {
  reg();
  return mc::main_(argc, argv);
}
