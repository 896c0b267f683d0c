// C01, C02, C03: the verdict on every (token, key set) of a finite alphabet against a verdict computed from identities.
// C04: every single edit of a genuine token.  C18: verdicts do not depend on history.  C17: error queue (part).
#include "../lib/jwtmc.h"
#include "../lib/shapes.h"
#include <memory>
#include <new>

using namespace jm;
using fx::Key;
using google::jwt_verify::verifyJwtWithoutTimeChecking;

#if !__has_feature(address_sanitizer)
// An allocator that hands out the block freed last among those of the same size class, so that an object that replaces another
// has its address: whatever is remembered by address is then taken for its predecessor.
namespace recycler {
struct Head {
  size_t cls;
  Head* next;
};
Head* g_free[64];
void* get(size_t n) {
  size_t cls = 6;
  while ((size_t(1) << cls) < n) cls++;
  if (Head* h = g_free[cls]) {
    g_free[cls] = h->next;
    return h + 1;
  }
  Head* h = static_cast<Head*>(malloc(sizeof(Head) + (size_t(1) << cls)));
  if (!h) abort();
  h->cls = cls;
  return h + 1;
}
void put(void* p) {
  if (!p) return;
  Head* h = static_cast<Head*>(p) - 1;
  h->next = g_free[h->cls];
  g_free[h->cls] = h;
}
}  // namespace recycler
void* operator new(size_t n) { return recycler::get(n); }
void* operator new[](size_t n) { return recycler::get(n); }
void operator delete(void* p) noexcept { recycler::put(p); }
void operator delete[](void* p) noexcept { recycler::put(p); }
void operator delete(void* p, size_t) noexcept { recycler::put(p); }
void operator delete[](void* p, size_t) noexcept { recycler::put(p); }
#endif

namespace {

struct KeyDesc {
  int id;
  string alg, kid;
};
struct KeySet {
  string desc;
  JwksPtr jwks;
  vector<KeyDesc> keys;
};
struct Signer {
  string desc;
  int id;         // fixture key, or -1: none that any key set holds
  string scheme;  // algorithm really used
  string secret;  // HMAC with this text, for id -1
};

enum Class { kOk, kMismatch, kFail, kFailOrLength };
const char* const kClassName[] = {"accepted", "kid/alg mismatch", "verification failure", "wrong Ed25519 signature length"};

// The reference verdict. `genuine`: the signature bytes are the ones the signer made over this very content.
Class expect(const string& alg, const string& kid, const Signer& s, bool genuine, size_t siglen, const vector<KeyDesc>& keys) {
  bool compat = false, okp = false;
  for (auto& k : keys) {
    if (!kid.empty() && !k.kid.empty() && kid != k.kid) continue;
    if (!k.alg.empty() && k.alg != alg) continue;
    compat = true;
    const Key& key = fx::key(k.id);
    if (!fx::fits(key, alg)) continue;
    if (key.kty == "OKP") okp = true;
    if (genuine && s.id == k.id && s.scheme == alg) return kOk;
  }
  if (!compat) return kMismatch;
  if (alg == "EdDSA" && siglen != 64 && okp) return kFailOrLength;
  return kFail;
}
bool agrees(Class c, Status s) {
  switch (c) {
    case kOk: return s == Status::Ok;
    case kMismatch: return s == Status::JwksKidAlgMismatch;
    case kFail: return s == Status::JwtVerificationFail;
    case kFailOrLength: return s == Status::JwtEd25519SignatureWrongLength;
  }
  return false;
}
void judge(Class want, Status got, const std::function<string()>& desc) {
  mc::step();
  mc::outcome(si(got));
  bool ok = agrees(want, got);
  if (ok) return;
  string d = "expected: " + string(kClassName[want]) + ", got status " + st(got) + " for " + desc();
  MC_CHECK("C01", !(got == Status::Ok && want != kOk), "%s", d.c_str());
  MC_CHECK("C02", !(got != Status::Ok && want == kOk), "%s", d.c_str());
  MC_CHECK("C03", got == Status::Ok || want == kOk, "%s", d.c_str());
}

vector<Signer>& signers() {
  static vector<Signer> v = [] {
    vector<Signer> v;
    for (int i = 0; i < fx::kNumKeys; i++) {
      const Key& k = fx::key(i);
      vector<string> sch = k.kty == "RSA"   ? vector<string>{"RS256", "RS384", "RS512", "PS256", "PS384", "PS512"}
                           : k.kty == "EC"  ? vector<string>{"ES256", "ES384", "ES512"}
                           : k.kty == "oct" ? vector<string>{"HS256", "HS384", "HS512"}
                                            : vector<string>{"EdDSA"};
      for (auto& s : sch) v.push_back({k.name + "/" + s, i, s, ""});
    }
    for (const char* s : {"HS256", "HS384", "HS512"}) {
      v.push_back({string(s) + " with R0's PEM text as secret", -1, s, fx::key(fx::R0).pem});
      v.push_back({string(s) + " with R0's modulus as secret", -1, s, fx::key(fx::R0).n});
      v.push_back({string(s) + " with E0's PEM text as secret", -1, s, fx::key(fx::E0).pem});
      v.push_back({string(s) + " with O0's raw key as secret", -1, s, fx::key(fx::O0).x});
      v.push_back({string(s) + " with the empty secret", -1, s, ""});
    }
    return v;
  }();
  return v;
}
string sign_with(const Signer& s, const string& data) {
  return s.id >= 0 ? fx::sign(fx::key(s.id), s.scheme, data) : fx::hmac_with(s.secret, s.scheme, data);
}

vector<KeySet>* g_singles;
void init_singles() {
  if (g_singles) return;
  g_singles = new vector<KeySet>;
  auto add = [&](const string& desc, JwksPtr j, int id, const string& alg, const string& kid) {
    g_singles->push_back({desc, std::move(j), {{id, alg, kid}}});
  };
  for (int i = 0; i < fx::kNumKeys; i++) {
    const Key& k = fx::key(i);
    for (const char* kid : {"", "k1", "k2"}) {
      vector<string> algs{""};
      for (const char* a : fx::kAlgs)
        if (fx::alg_kty(a) == k.kty && (k.kty != "EC" || fx::alg_crv(a) == k.crv)) algs.push_back(a);
      for (auto& a : algs) {
        string t = jwks_of({jwk(k.jwk, a, kid)});
        add("JWKS " + k.name + " alg=" + a + " kid=" + kid, Jwks::createFrom(t, Jwks::JWKS), i, a, kid);
        if (k.kty == "EC" && (!a.empty() || k.crv == "P-256")) {
          t = jwks_of({jwk(k.jwk_no_crv, a, kid)});
          add("JWKS without crv " + k.name + " alg=" + a + " kid=" + kid, Jwks::createFrom(t, Jwks::JWKS), i, a, kid);
        }
      }
      if (!k.pem.empty()) {
        vector<string> pa{"", "none", "RS", "es256"};
        for (const char* a : fx::kAlgs) pa.push_back(a);
        for (auto& a : pa)
          add("PEM " + k.name + " alg=" + a + " kid=" + kid, Jwks::createFromPem(k.pem, kid, a), i, a, kid);
      }
    }
  }
  for (int i : {fx::R0, fx::R1}) {
    string crt = i == fx::R0 ? fx::kR0_crt : fx::kR1_crt, js;
    for (char c : crt) js += c == '\n' ? string("\\n") : string(1, c);
    for (const char* kid : {"k1", "k2"})
      add("X.509 " + fx::key(i).name + " kid=" + kid, Jwks::createFrom("{\"" + string(kid) + "\":\"" + js + "\"}", Jwks::JWKS), i, "", kid);
  }
}

// Every token (declared algorithm x kid x real signer) against every single-key set.
void single() {
  string alg = fx::kAlgs[mc::choose("declared alg", fx::kNumAlgs)];
  static const vector<string> kids{"", "k1", "k2", "K1", "k"};
  const string& kid = mc::pick("token kid", kids);
  const Signer& s = mc::pick("real signer", signers());
  string data = fx::b64u(fx::header(alg, kid)) + "." + fx::b64u("{\"iss\":\"i\"}");
  string sig = sign_with(s, data);
  MC_NOTE("token declares alg=%s kid=%s, really signed by %s", alg.c_str(), kid.c_str(), s.desc.c_str());
  Jwt jwt;
  Status ps = jwt.parseFromString(data + "." + fx::b64u(sig));
  if (ps != Status::Ok) mc::fail("genuine token does not parse: %s", st(ps).c_str());
  for (auto& ks : *g_singles) {
    Class want = expect(alg, kid, s, true, sig.size(), ks.keys);
    Status got = verifyJwtWithoutTimeChecking(jwt, *ks.jwks);
    mc::state(mc::Hash().s(alg).s(kid).s(s.desc).s(ks.desc).u(si(got)).h);
    judge(want, got, [&] { return "token declaring alg=" + alg + " kid='" + kid + "' signed by " + s.desc + ", key set " + ks.desc; });
  }
}

// Key sets of up to three keys: the genuine key, decoys of every kind, in every order.
struct Slot {
  string name;
  KeyDesc d;
};
vector<Slot> slots_for(const string& alg) {
  int g = fx::key_for(alg), w = fx::key_for(alg, 1);
  string other = alg[0] == 'R' ? "PS256" : alg[0] == 'P' ? "RS256" : alg == "HS256" ? "HS512" : alg[0] == 'H' ? "HS256" : "";
  vector<Slot> v{{"genuine", {g, "", ""}},
                 {"genuine+alg+k1", {g, alg, "k1"}},
                 {"genuine+alg+k2", {g, alg, "k2"}},
                 {"wrong", {w, "", ""}},
                 {"wrong+alg+k1", {w, alg, "k1"}}};
  if (!other.empty()) v.push_back({"genuine+otheralg", {g, other, "k1"}});
  for (int d : {fx::R1, fx::E1, fx::F1, fx::G1, fx::H1, fx::O1})
    if (d != w) v.push_back({"decoy " + fx::key(d).name, {d, "", d == fx::O1 ? "k1" : ""}});
  return v;
}
string slot_jwk(const KeyDesc& d) { return jwk(fx::key(d.id).jwk, d.alg, d.kid); }

void lists() {
  string alg = fx::kAlgs[mc::choose("declared alg", fx::kNumAlgs)];
  vector<Slot> sl = slots_for(alg);
  int n = mc::choose("list length", 4);
  vector<KeyDesc> keys;
  vector<string> entries;
  string desc;
  for (int i = 0; i < n; i++) {
    const Slot& s = mc::pick("slot", sl);
    keys.push_back(s.d);
    entries.push_back(slot_jwk(s.d));
    desc += s.name + ", ";
  }
  MC_NOTE("token declares %s; key set of: %s", alg.c_str(), desc.c_str());
  JwksPtr jwks = Jwks::createFrom(jwks_of(entries), Jwks::JWKS);
  Signer s{"", fx::key_for(alg), alg, ""};
  const Key& k = fx::key(s.id);
  for (const char* kid : {"", "k1"}) {
    string data = fx::b64u(fx::header(alg, kid)) + "." + fx::b64u("{}");
    static std::map<string, string> memo;
    string& sig = memo[data];
    if (sig.empty()) sig = fx::sign(k, alg, data);
    vector<std::pair<string, string>> vars{{"genuine", sig}};
    string t = sig;
    t[t.size() / 3] ^= 4;
    vars.push_back({"one bit flipped", t});
    vars.push_back({"last byte dropped", sig.substr(0, sig.size() - 1)});
    vars.push_back({"one zero byte appended", sig + string(1, 0)});
    if (n < 3 || mc::thorough()) vars.push_back({"one byte", "x"});
    if (n < 3 || mc::thorough()) vars.push_back({"64 zero bytes", string(64, 0)});
    for (auto& v : vars) {
      Jwt jwt;
      Status ps = jwt.parseFromString(data + "." + fx::b64u(v.second));
      if (ps != Status::Ok) mc::fail("token does not parse: %s", st(ps).c_str());
      Class want = expect(alg, kid, s, v.first == "genuine", v.second.size(), keys);
      Status got = verifyJwtWithoutTimeChecking(jwt, *jwks);
      mc::state(mc::Hash().s(alg).s(kid).s(desc).s(v.first).u(si(got)).h);
      judge(want, got, [&] { return alg + " token with kid '" + kid + "', signature: " + v.first + ", key set of " + desc; });
    }
  }
}

// ---- C04 ----
struct Genuine {
  string alg, hdr, pay, sig;  // hdr, pay as text; sig as bytes
  JwksPtr one, many;
};
Genuine& genuine(int a, int which = 0) {
  static std::map<int, Genuine> m;
  Genuine& g = m[a * 4 + which];
  if (g.alg.empty()) {
    g.alg = fx::kAlgs[a];
    const Key& k = fx::key(fx::key_for(g.alg));
    g.hdr = fx::b64u(fx::header(g.alg, which ? "k1" : ""));
    g.pay = fx::b64u(which ? "{\"sub\":\"b\",\"exp\":2}" : "{\"sub\":\"a\"}");
    g.sig = fx::sign(k, g.alg, g.hdr + "." + g.pay);
    g.one = Jwks::createFrom(jwks_of({jwk(k.jwk, g.alg, "")}), Jwks::JWKS);
    vector<string> all;
    for (int i = 0; i < fx::kNumKeys; i++) all.push_back(jwk(fx::key(i).jwk));
    g.many = Jwks::createFrom(jwks_of(all), Jwks::JWKS);
  }
  return g;
}
// The order of the curve, for edits that are algebraic rather than textual.
string add_order(const Key& k, const string& half) {
  const EC_GROUP* gr = EC_KEY_get0_group(EVP_PKEY_get0_EC_KEY(k.priv));
  BIGNUM* b = BN_bin2bn((const uint8_t*)half.data(), half.size(), nullptr);
  BIGNUM* n = BN_new();
  EC_GROUP_get_order(gr, n, nullptr);
  BN_add(b, b, n);
  string r = fx::bn_bytes(b);
  BN_free(b);
  BN_free(n);
  return r;
}
void try_token(const Genuine& g, const string& h, const string& p, const string& sigtext, const string& sigbytes, const char* what, long arg) {
  mc::step();
  bool same = h == g.hdr && p == g.pay && sigbytes == g.sig;
  Jwt jwt;
  Status ps = jwt.parseFromString(h + "." + p + "." + sigtext);
  mc::outcome(ps == Status::Ok);
  if (ps != Status::Ok) {
    if (same && sigtext == fx::b64u(g.sig)) mc::fail("the unchanged token does not parse");
    return;
  }
  const Jwks* sets[] = {g.one.get(), g.many.get()};
  for (int i = 0; i < (g.alg[0] == 'R' || g.alg[0] == 'P' || mc::thorough() ? 1 : 2); i++) {
    Status s = verifyJwtWithoutTimeChecking(jwt, *sets[i]);
    if (same && s != Status::Ok) {
      if (sigtext == fx::b64u(g.sig)) mc::fail("the unchanged token does not verify: %s", st(s).c_str());
      continue;
    }
    if (!same && s == Status::Ok)
      mc::fail("changed token verifies (%s, edit %s at %ld): header '%s' payload '%s' signature of %zu bytes", g.alg.c_str(), what, arg,
               mc::esc(h).c_str(), mc::esc(p).c_str(), sigbytes.size());
  }
}
void try_sig(const Genuine& g, const string& sig, const char* what, long arg) {
  mc::state(mc::Hash().s(g.alg).s(sig).h);
  try_token(g, g.hdr, g.pay, fx::b64u(sig), sig, what, arg);
}
void tamper() {
  int a = mc::choose("alg", fx::kNumAlgs);
  Genuine& g = genuine(a);
  const Key& k = fx::key(fx::key_for(g.alg));
  bool cheap = g.alg[0] == 'H' || g.alg == "EdDSA" || g.alg == "ES256";
  int slow = g.alg == "ES384" || g.alg == "ES512";
  const string& s = g.sig;
  long n = s.size();
  int cls = mc::choose("class of edits", 13);
  MC_NOTE("alg %s, class of edits %d, genuine signature of %ld bytes", g.alg.c_str(), cls, n);
  switch (cls) {
    case 0: try_sig(g, s, "none", 0); break;
    case 1: {  // every bit of the signature (part by part, so that the work spreads)
      int part = mc::choose("part", 16);
      for (long i = part; i < n; i += 16)
        for (int b = 0; b < 8; b++) {
          if (slow && !mc::thorough() && b % 4 != (i & 3)) continue;
          string t = s;
          t[i] ^= 1 << b;
          try_sig(g, t, "bit flip", i * 8 + b);
        }
      break;
    }
    case 2:  // truncation to every length
      for (long l = 1; l < n; l++) try_sig(g, s.substr(0, l), "truncation", l);
      break;
    case 3:  // suffixes
      for (int c = 0; c < 256; c += (cheap || mc::thorough() ? 1 : 15)) try_sig(g, s + string(1, char(c)), "byte appended", c);
      for (int l = 2; l <= 70; l++) {
        try_sig(g, s + string(l, 0), "zero bytes appended", l);
        try_sig(g, s + s.substr(0, l), "own bytes appended", l);
      }
      try_sig(g, s + s, "doubled", 0);
      break;
    case 4:  // prefixes
      for (int l = 1; l <= 70; l++) try_sig(g, string(l, 0) + s, "zero bytes prepended", l);
      for (int c = 1; c < 256; c += (cheap || mc::thorough() ? 1 : 15)) try_sig(g, string(1, char(c)) + s, "byte prepended", c);
      for (long l = 1; l < n; l++) try_sig(g, s.substr(l), "bytes removed at the front", l);
      break;
    case 5: {  // every single byte deleted; a byte inserted at every position
      int part = mc::choose("part", 8);
      for (long i = part; i < n; i += 8) {
        string t = s;
        t.erase(i, 1);
        try_sig(g, t, "byte deleted", i);
        for (int c : {0, 1, 255}) {
          t = s;
          t.insert(i, 1, char(c));
          try_sig(g, t, "byte inserted", i);
        }
      }
      break;
    }
    case 6: {  // halves: the structure of ECDSA and EdDSA signatures
      string r = s.substr(0, n / 2), t = s.substr(n / 2);
      try_sig(g, t + r, "halves exchanged", 0);
      for (int l = 1; l <= 66; l++) {
        try_sig(g, string(l, 0) + r + string(l, 0) + t, "halves zero-padded at the front", l);
        try_sig(g, r + string(l, 0) + t + string(l, 0), "halves zero-padded at the end", l);
      }
      for (int lr = 0; lr <= 3; lr++)
        for (int ls = 0; ls <= 3; ls++)
          if (lr + ls) try_sig(g, string(lr, 0) + r + string(ls, 0) + t, "halves zero-padded unevenly", lr * 10 + ls);
      try_sig(g, r.substr(1) + t.substr(1), "halves shortened", 1);
      string z(n / 2, 0), one = z, f(n / 2, char(255));
      one.back() = 1;
      for (const string& x : {z, one, f, r})
        for (const string& y : {z, one, f, t})
          if (x != r || y != t) try_sig(g, x + y, "halves replaced", 0);
      if (k.kty == "EC") {
        string rn = add_order(k, r), tn = add_order(k, t);
        size_t m = std::max(rn.size(), tn.size());
        auto pad = [](const string& x, size_t l) { return x.size() < l ? string(l - x.size(), 0) + x : x; };
        try_sig(g, pad(rn, m) + pad(tn, m), "order added to both", 0);
        try_sig(g, pad(rn, m) + pad(t, m), "order added to r", 0);
        try_sig(g, pad(r, m) + pad(tn, m), "order added to s", 0);
        // The DER form of the same signature.
        ECDSA_SIG* sg = ECDSA_SIG_new();
        BN_bin2bn((const uint8_t*)r.data(), r.size(), sg->r);
        BN_bin2bn((const uint8_t*)t.data(), t.size(), sg->s);
        uint8_t* der;
        size_t dl;
        ECDSA_SIG_to_bytes(&der, &dl, sg);
        try_sig(g, string((char*)der, dl), "DER form", 0);
        OPENSSL_free(der);
        ECDSA_SIG_free(sg);
      }
      string rev(s.rbegin(), s.rend());
      try_sig(g, rev, "reversed", 0);
      break;
    }
    case 7: {  // every character of header or payload replaced by every other
      int which = mc::choose("section", 2), part = mc::choose("part", 8);
      const string& o = which ? g.pay : g.hdr;
      static const string al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_+/=. \n";
      for (size_t i = part; i < o.size(); i += 8)
        for (char c : al) {
          if (c == o[i]) continue;
          string t = o;
          t[i] = c;
          mc::state(mc::Hash().s(g.alg).u(which).s(t).h);
          if (c == '.') {
            Jwt j;
            mc::step();
            if (j.parseFromString((which ? g.hdr : t) + "." + (which ? t : g.pay) + "." + fx::b64u(s)) == Status::Ok)
              mc::fail("a token with three dots parses");
            continue;
          }
          try_token(g, which ? g.hdr : t, which ? t : g.pay, fx::b64u(s), s, which ? "payload char" : "header char", i);
        }
      break;
    }
    case 8: {  // a character inserted or deleted, at every position
      int which = mc::choose("section", 2);
      const string& o = which ? g.pay : g.hdr;
      for (size_t i = 0; i <= o.size(); i++) {
        for (char c : string("Aaz09-_= \t\n")) {
          string t = o;
          t.insert(i, 1, c);
          try_token(g, which ? g.hdr : t, which ? t : g.pay, fx::b64u(s), s, "char inserted", i);
        }
        if (i < o.size()) {
          string t = o;
          t.erase(i, 1);
          if (!t.empty()) try_token(g, which ? g.hdr : t, which ? t : g.pay, fx::b64u(s), s, "char deleted", i);
          t = o.substr(0, i);
          if (!t.empty()) try_token(g, which ? g.hdr : t, which ? t : g.pay, fx::b64u(s), s, "section truncated", i);
        }
      }
      // "=" padding and white space decode to the same bytes but are a different text.
      for (const char* x : {"=", "==", " ", "\n"}) try_token(g, which ? g.hdr : g.hdr + x, which ? g.pay + x : g.pay, fx::b64u(s), s, "padded", 0);
      break;
    }
    case 9: {  // sections exchanged with another genuine token of the same key
      Genuine& o = genuine(a, 1);
      string vs[3][2] = {{g.hdr, o.hdr}, {g.pay, o.pay}, {s, o.sig}};
      for (int m = 1; m < 7; m++)
        try_token(g, vs[0][m & 1], vs[1][m >> 1 & 1], fx::b64u(vs[2][m >> 2]), vs[2][m >> 2], "exchange", m);
      try_token(g, g.pay, g.hdr, fx::b64u(s), s, "header and payload exchanged", 0);
      break;
    }
    case 10: {  // the dot between header and payload moved
      string all = g.hdr + g.pay;
      for (size_t i = 1; i < all.size(); i++) try_token(g, all.substr(0, i), all.substr(i), fx::b64u(s), s, "dot moved", i);
      break;
    }
    case 11: {  // another declared algorithm over the same signature; alg confusion
      for (const char* al : fx::kAlgs)
        if (al != g.alg) try_token(g, fx::b64u(fx::header(al)), g.pay, fx::b64u(s), s, "alg replaced", 0);
      for (const char* al : {"none", "None", "", "es256", "HS256 "}) try_token(g, fx::b64u(fx::header(al)), g.pay, fx::b64u(s), s, "alg replaced", 0);
      break;
    }
    case 12: {  // two edits: every pair of bit flips (cheap algorithms), in parts
      if (!(g.alg[0] == 'H' || (g.alg == "EdDSA" && mc::thorough()))) break;
      int part = mc::choose("part", 16);
      for (long i = part; i < n * 8; i += 16)
        for (long j = i + 1; j < n * 8; j += mc::qt(5, 1)) {
          string t = s;
          t[i / 8] ^= 1 << (i & 7);
          t[j / 8] ^= 1 << (j & 7);
          try_sig(g, t, "two bit flips", i * 10000 + j);
        }
      break;
    }
  }
}
// Signature texts that decode to the same or other bytes.
void sigtext() {
  int a = mc::choose("alg", fx::kNumAlgs);
  Genuine& g = genuine(a);
  string t = fx::b64u(g.sig);
  static const string al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
  int part = mc::choose("part", 8);
  for (size_t i = part; i < t.size(); i += 8) {
    int stepc = g.alg == "ES384" || g.alg == "ES512" || g.alg[0] == 'P' || g.alg[0] == 'R' ? mc::qt(9, 1) : 1;
    for (size_t c = 0; c < al.size(); c += stepc) {
      string u = t;
      u[i] = al[c];
      string bytes;
      if (!fx::unb64u_strict(u, &bytes)) continue;  // not canonical: which bytes it means is not ours to say
      try_token(g, g.hdr, g.pay, u, bytes, "signature char", i);
    }
  }
}

// ---- C18: histories ----
struct HTok {
  string text;
  int key;
  string alg, kid;
  bool good;
};
void history() {
  // Tokens and key sets that are easy to confuse: same kid, other key; same payload, other signature; ...
  static vector<HTok>* toks = [] {
    auto* v = new vector<HTok>;
    auto add = [&](const string& alg, const string& kid, int key, const string& payload, bool good) {
      string d = fx::b64u(fx::header(alg, kid)) + "." + fx::b64u(payload), s = fx::sign(fx::key(key), alg, d);
      if (!good) s[5] ^= 1;
      v->push_back({d + "." + fx::b64u(s), key, alg, kid, good});
    };
    add("HS256", "k1", fx::H0, "{\"sub\":\"a\"}", true);
    add("HS256", "k1", fx::H0, "{\"sub\":\"a\"}", false);
    add("HS256", "k1", fx::H1, "{\"sub\":\"a\"}", true);
    add("HS512", "k1", fx::H0, "{\"sub\":\"a\"}", true);
    add("ES256", "k1", fx::E0, "{\"sub\":\"a\"}", true);
    add("ES256", "k1", fx::E1, "{\"sub\":\"a\"}", true);
    add("EdDSA", "k1", fx::O0, "{\"sub\":\"b\"}", true);
    add("RS256", "", fx::R0, "{\"sub\":\"b\"}", true);
    add("PS256", "", fx::R0, "{\"sub\":\"b\"}", true);
    add("EdDSA", "k1", fx::O1, "{\"sub\":\"b\"}", true);
    add("HS512", "", fx::H1, "{\"sub\":\"a\"}", true);
    add("RS256", "k1", fx::R1, "{\"sub\":\"b\"}", true);
    return v;
  }();
  static vector<std::pair<string, vector<KeyDesc>>>* sets = [] {
    auto* v = new vector<std::pair<string, vector<KeyDesc>>>;
    auto add = [&](vector<KeyDesc> k) {
      vector<string> e;
      for (auto& d : k) e.push_back(slot_jwk(d));
      v->push_back({jwks_of(e), k});
    };
    add({{fx::H0, "", "k1"}, {fx::E0, "", "k1"}, {fx::R0, "", ""}});
    add({{fx::H1, "", "k1"}, {fx::E1, "", "k1"}, {fx::R1, "", ""}});
    add({{fx::O0, "EdDSA", "k1"}, {fx::H0, "HS512", "k1"}});
    add({{fx::O1, "EdDSA", "k1"}, {fx::H1, "HS512", "k1"}, {fx::R1, "", "k1"}});
    v->push_back({"{\"keys\":[{\"kty\":\"EC\"}]}", {}});
    return v;
  }();
  // Two token slots, two key set slots; operations: parse into a slot, load into a slot (the old one destroyed),
  // add a PEM key, verify, leave an entry in the error queue.
  std::unique_ptr<Jwt> tok[2];
  int tokid[2] = {-1, -1};
  JwksPtr ks[2];
  vector<KeyDesc> kd[2];
  ERR_clear_error();
#if __has_feature(address_sanitizer)
  int depth = mc::qt(3, 4);  // freed memory is watched, and so not used again
#else
  int depth = mc::qt(4, 5);  // freed memory is used again at once
#endif
  // Start from loaded slots, so that every step counts.
  auto load = [&](int s, int i) {
    ks[s].reset();
    ks[s] = Jwks::createFrom((*sets)[i].first, Jwks::JWKS);
    kd[s] = (*sets)[i].second;
    if (ks[s]->keys().size() != kd[s].size()) mc::fail("key set %d loads %zu keys instead of %zu", i, ks[s]->keys().size(), kd[s].size());
  };
  auto parse = [&](int s, int i) {
    if (!tok[s]) tok[s].reset(new Jwt);
    tokid[s] = i;
    Status st_ = tok[s]->parseFromString((*toks)[i].text);
    if (st_ != Status::Ok) mc::fail("token %d does not parse: %s", i, st(st_).c_str());
  };
  load(0, 0);
  load(1, 1);
  auto verify = [&](int t, int s) {
    const HTok& h = (*toks)[tokid[t]];
    Signer sg{"", h.key, h.alg, ""};
    Class want = expect(h.alg, h.kid, sg, h.good, 64, kd[s]);
    string before = dump_all(*tok[t]), kb = dump(*ks[s]);
    Status got = verifyJwtWithoutTimeChecking(*tok[t], *ks[s]);
    mc::step();
    mc::outcome(si(got));
    MC_NOTE("verify token %d against set slot %d -> %s", tokid[t], s, st(got).c_str());
    if (!agrees(want, got)) mc::fail("verdict depends on history: expected %s, got %s", kClassName[want], st(got).c_str());
    if (dump_all(*tok[t]) != before) mc::fail("verification changed the token");
    if (dump(*ks[s]) != kb) mc::fail("verification changed the key set");
  };
  mc::Hash h;
  for (int i = 0; i < depth; i++) {
    int nt = toks->size(), nsets = sets->size();
    int op = mc::choose("op", nt + nsets + 4);
    h.u(op);
    mc::state(h.h);
    if (op < nt) {  // parse into slot i%2 and verify against both sets
      parse(i % 2, op);
      MC_NOTE("parse token %d", op);
      verify(i % 2, 0);
      verify(i % 2, 1);
    } else if (op < nt + nsets) {
      MC_NOTE("load set %d into slot %d", op - nt, i % 2);
      load(i % 2, op - nt);
      for (int t = 0; t < 2; t++)
        if (tok[t]) verify(t, i % 2);
    } else if (op == nt + nsets) {
      MC_NOTE("add PEM key E1 to slot 0");
      if (ks[0]->addKeyFromPem(fx::key(fx::E1).pem, "k1", "ES256") != Status::Ok) mc::fail("addKeyFromPem fails");
      kd[0].push_back({fx::E1, "ES256", "k1"});
      for (int t = 0; t < 2; t++)
        if (tok[t]) verify(t, 0);
    } else if (op == nt + nsets + 1) {
      MC_NOTE("error queue made non-empty");
      OPENSSL_PUT_ERROR(USER, 1);
    } else if (op == nt + nsets + 2) {
      MC_NOTE("destroy tokens");
      tok[0].reset();
      tok[1].reset();
    } else {
      MC_NOTE("failing operations: bad PEM, bad token");
      Jwks::createFrom("x", Jwks::PEM);
      Jwt j;
      j.parseFromString("a.b.c");
      for (int t = 0; t < 2; t++)
        if (tok[t]) verify(t, 1);
    }
  }
  ERR_clear_error();
}

// ---- shapes: unusual but genuine keys, signatures, texts and key ids ----
using fx::g_shapes;
using fx::init_shapes;
using fx::pub_pem;
using fx::ShapeKey;
vector<string> algs_of(const Key& k) {
  vector<string> r;
  for (const char* a : fx::kAlgs)
    if (fx::fits(k, a) && !(k.name == "RSA 1024" && string(a) == "PS512")) r.push_back(a);  // no room for that salt
  return r;
}
Status run_token(const string& token, const Jwks& set) {
  Jwt jwt;
  Status ps = jwt.parseFromString(token);
  if (ps != Status::Ok) mc::fail("a genuine token does not parse: %s", st(ps).c_str());
  return verifyJwtWithoutTimeChecking(jwt, set);
}
void key_shapes() {
  const ShapeKey& s = mc::pick("key", *g_shapes);
  vector<string> algs = algs_of(s.key);
  string alg = mc::pick("alg", algs);
  string form = s.key.kty != "oct" && mc::choose("form", 2) ? "PEM" : "JWK";
  auto load = [&](const Key& k) {
    JwksPtr p = form == "JWK" ? Jwks::createFrom(jwks_of({jwk(k.jwk, "", "")}), Jwks::JWKS) : Jwks::createFrom(pub_pem(k.priv), Jwks::PEM);
    return p;
  };
  JwksPtr own = load(s.key);
  if (own->getStatus() != Status::Ok || own->keys().size() != 1) mc::fail("key does not load: %s as %s: %s", s.key.name.c_str(), form.c_str(), st(own->getStatus()).c_str());
  string d = fx::b64u(fx::header(alg)) + "." + fx::b64u("{}");
  string sig = fx::sign(s.key, alg, d), tok = d + "." + fx::b64u(sig);
  mc::state(mc::Hash().s(s.key.name).s(alg).s(form).h);
  judge(kOk, run_token(tok, *own), [&] { return alg + " token signed by " + s.key.name + " as " + form; });
  for (auto& n : s.near) {
    if (form == "PEM" && n.kty == "OKP" && &n != &s.near[0]) continue;  // has no private half to write
    JwksPtr other = load(n);
    if (other->keys().empty()) continue;
    judge(kFail, run_token(tok, *other), [&] { return alg + " token signed by " + s.key.name + ", key " + n.name; });
    JwksPtr both = Jwks::createFrom(jwks_of({jwk(n.jwk, "", ""), jwk(s.key.jwk, "", "")}), Jwks::JWKS);
    if (both->keys().size() == 2) judge(kOk, run_token(tok, *both), [&] { return alg + " token signed by " + s.key.name + ", behind " + n.name; });
  }
}
// Genuine signatures with zero bytes at places where a text, a number or a padding would end.
void sig_shapes() {
  string alg = fx::kAlgs[mc::choose("alg", fx::kNumAlgs)];
  const Key& k = fx::key(fx::key_for(alg));
  JwksPtr set = Jwks::createFrom(jwks_of({jwk(k.jwk, "", "")}), Jwks::JWKS);
  JwksPtr wrong = Jwks::createFrom(jwks_of({jwk(fx::key(fx::key_for(alg, 1)).jwk, "", "")}), Jwks::JWKS);
  bool halves = k.kty == "EC" || k.kty == "OKP";
  int shape = mc::choose("shape", halves ? 6 : 3);
  const char* names[] = {"first byte 0", "last byte 0", "second byte 0", "second half starts with 0", "first half ends in 0", "both halves start with 0 (or nearly)"};
  string d, sig;
  size_t hi = k.crv == "P-521" ? 1 : 0;  // the first byte there has one bit only
  bool found = false;
  for (int c = 0; c < 6000 && !found; c++) {
    d = fx::b64u(fx::header(alg)) + "." + fx::b64u("{\"jti\":\"" + std::to_string(c) + "\"}");
    sig = fx::sign(k, alg, d);
    size_t n = sig.size(), h = n / 2;
    switch (shape) {
      case 0: found = !sig[0] && !sig[hi]; break;
      case 1: found = !sig[n - 1]; break;
      case 2: found = !sig[1 + hi]; break;
      case 3: found = !sig[h] && !sig[h + hi]; break;
      case 4: found = !sig[h - 1]; break;
      case 5: found = !(sig[hi] & 0xf0) && !sig[0] && !(sig[h + hi] & 0xf0) && !sig[h]; break;
    }
  }
  if (!found) return;
  mc::state(mc::Hash().s(alg).u(shape).h);
  MC_NOTE("%s signature whose %s", alg.c_str(), names[shape]);
  auto desc = [&] { return alg + " token whose signature has the shape: " + names[shape]; };
  judge(kOk, run_token(d + "." + fx::b64u(sig), *set), desc);
  judge(kFail, run_token(d + "." + fx::b64u(sig), *wrong), desc);
  long n = sig.size();
  for (long i = 0; i < n; i++) {
    string t = sig;
    t[i] ^= 0x10;
    mc::step();
    Status s = run_token(d + "." + fx::b64u(t), *set);
    MC_CHECK("C04", s != Status::Ok, "%s, byte %ld changed: accepted", desc().c_str(), i);
    if (i % 8 && !mc::thorough()) continue;
    t = sig.substr(0, i) + sig.substr(i + 1);
    s = run_token(d + "." + fx::b64u(t), *set);
    MC_CHECK("C04", s != Status::Ok, "%s, byte %ld deleted: accepted", desc().c_str(), i);
  }
  // Zero bytes removed where they stand, at the edges and in the middle.
  vector<string> v;
  size_t lead = sig.find_first_not_of('\0');
  v.push_back(sig.substr(lead));
  v.push_back(sig.substr(0, sig.find_last_not_of('\0') + 1));
  string r = sig.substr(0, n / 2), s2 = sig.substr(n / 2);
  v.push_back(r.substr(r.find_first_not_of('\0')) + s2.substr(s2.find_first_not_of('\0')));
  for (auto& t : v) {
    if (t == sig) continue;
    mc::step();
    Status s = run_token(d + "." + fx::b64u(t), *set);
    MC_CHECK("C04", s != Status::Ok, "%s, zero bytes removed: accepted", desc().c_str());
  }
}
// Contents of every length up to a bound and of lengths around powers of two.
void lengths() {
  string alg = fx::kAlgs[mc::choose("alg", fx::kNumAlgs)];
  const Key& k = fx::key(fx::key_for(alg));
  bool cheap = alg[0] == 'H';
  static const vector<size_t> big{300, 510, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 1048576,
                                  16385, 16386, 16387, 32769, 32770, 65538, 65539, 98304, 98305, 98306, 98307, 131073, 131074, 131075, 1048577};
  int part = mc::choose("part", 16);
  JwksPtr set = Jwks::createFrom(jwks_of({jwk(k.jwk, "", "")}), Jwks::JWKS);
  vector<size_t> lens;
  for (size_t l = part; l < mc::qt(140, 600); l += cheap ? 16 : 16 * mc::qt(5, 1)) lens.push_back(l);
  bool first = (alg.substr(2) == "256" || alg == "EdDSA");
  for (size_t i = part; i < big.size(); i += 16)
    if (big[i] < 66000 || first || mc::thorough()) lens.push_back(big[i]);
  for (size_t l : lens)
    for (int where = 0; where < (l > 140 ? 2 : 1); where++) {
      string filler(l, 'x');
      string h = fx::b64u(fx::header(alg, "", where ? ",\"x\":\"" + filler + "\"" : "")), p = fx::b64u("{\"x\":\"" + (where ? "" : filler) + "\",\"y\":\"z\"}");
      string d = h + "." + p, sig = fx::sign(k, alg, d);
      mc::state(mc::Hash().s(alg).u(l).u(where).h);
      auto desc = [&] { return alg + " token with " + std::to_string(l) + " characters in its " + (where ? "header" : "payload"); };
      judge(kOk, run_token(d + "." + fx::b64u(sig), *set), desc);
      // A signature over a part of the text only does not do.
      if (cheap || l < 2 || l == 300 || l > 65536) {
        std::set<size_t> cuts{0, 1, d.size() - 1, h.size(), h.size() + 1};
        for (size_t c = 32; c < d.size(); c *= l < 10000 ? 2 : 16) cuts.insert(c), cuts.insert(d.size() - c);
        if (l > 65536) cuts.insert(65536);
        int left = cheap ? 100 : alg[0] == 'E' && alg != "EdDSA" ? 4 : 8;
        for (size_t c : cuts) {
          if (left-- == 0) break;
          for (const string& part : {d.substr(0, c), d.substr(c)}) {
            if (part == d) continue;
            mc::step();
            Status s = run_token(d + "." + fx::b64u(fx::sign(k, alg, part)), *set);
            MC_CHECK("C04", s == Status::JwtVerificationFail, "%s, signed for %zu of its %zu characters: %s", desc().c_str(), part.size(), d.size(), st(s).c_str());
            MC_CHECK("C01", s == Status::JwtVerificationFail, "%s, signed for %zu of its %zu characters: %s", desc().c_str(), part.size(), d.size(), st(s).c_str());
          }
        }
      }
      // One character of the content changed: at the beginning, in the middle, near the end (the text stays valid JSON).
      for (double at : {0.3, 0.6, 0.99}) {
        string f2 = filler;
        if (l == 0) break;
        f2[size_t(l * at)] ^= 1;
        string h2 = where ? fx::b64u(fx::header(alg, "", ",\"x\":\"" + f2 + "\"")) : h, p2 = where ? p : fx::b64u("{\"x\":\"" + f2 + "\",\"y\":\"z\"}");
        mc::step();
        Status s = run_token(h2 + "." + p2 + "." + fx::b64u(sig), *set);
        MC_CHECK("C04", s == Status::JwtVerificationFail, "%s, one character changed: %s", desc().c_str(), st(s).c_str());
      }
      string p3 = where ? fx::b64u("{\"x\":\"\",\"y\":\"Z\"}") : fx::b64u("{\"x\":\"" + filler + "\",\"y\":\"Z\"}");
      mc::step();
      Status s = run_token(h + "." + p3 + "." + fx::b64u(sig), *set);
      MC_CHECK("C04", s == Status::JwtVerificationFail, "%s, last member changed: %s", desc().c_str(), st(s).c_str());
    }
}
// Key ids that are easily taken for one another.
void kids() {
  struct Kid {
    string json, bytes;
  };
  static const vector<Kid> v{{"", ""}, {"k1", "k1"}, {"K1", "K1"}, {"k", "k"}, {"k10", "k10"}, {"1k", "1k"}, {"k1 ", "k1 "}, {" k1", " k1"}, {" ", " "},
                             {"k1\\u0000", string("k1\0", 3)}, {"k1\\u0000x", string("k1\0x", 4)}, {"\\u0000", string("\0", 1)}, {"\\u0000k1", string("\0k1", 3)},
                             {"k1\\n", "k1\n"}, {"k1/", "k1/"}, {"https://k1", "https://k1"}, {"k1=", "k1="}, {"\\u00e9", "\xc3\xa9"}, {"e\\u0301", "e\xcc\x81"}, {"e", "e"},
                             {"1", "1"}, {"01", "01"}, {"1.0", "1.0"}, {"*", "*"}, {".*", ".*"}, {"null", "null"}, {"k,1", "k,1"}, {"k-1", "k-1"}, {"k_1", "k_1"},
                             {string(15, 'a'), string(15, 'a')}, {string(16, 'a'), string(16, 'a')}, {string(17, 'a'), string(17, 'a')}, {string(300, 'a'), string(300, 'a')}, {string(299, 'a') + "b", string(299, 'a') + "b"},
                             {string(64, 'a'), string(64, 'a')}, {string(64, 'a') + "b", string(64, 'a') + "b"}};
  const Kid& tk = mc::pick("token kid", v);
  string d = fx::b64u(fx::header("HS256", tk.json)) + "." + fx::b64u("{}");
  string tok = d + "." + fx::b64u(fx::sign(fx::key(fx::H0), "HS256", d));
  static const Kid none{"k9", "k9"};
  for (auto& kk : v)
    for (int second = 0; second < 3; second++) {  // alone; behind a key of another id; behind the wrong key of the same id
      vector<string> e;
      if (second == 1) e.push_back(jwk(fx::key(fx::H1).jwk, "", "k9"));
      if (second == 2) e.push_back(jwk(fx::key(fx::H1).jwk, "", tk.json));
      e.push_back(jwk(fx::key(fx::H0).jwk, "", kk.json));
      JwksPtr set = Jwks::createFrom(jwks_of(e), Jwks::JWKS);
      if (set->keys().size() != e.size()) mc::fail("a key with kid \"%s\" does not load", kk.json.c_str());
      bool use = tk.bytes.empty() || kk.bytes.empty() || tk.bytes == kk.bytes;
      bool other = second == 2 || (second == 1 && tk.bytes.empty());
      mc::state(mc::Hash().s(tk.json).s(kk.json).u(second).h);
      judge(use ? kOk : other ? kFail : kMismatch, run_token(tok, *set), [&] { return "token with kid \"" + tk.json + "\", its key has kid \"" + kk.json + "\", form " + std::to_string(second); });
    }
}

// Long key sets: the genuine key at every position among keys that do not do.
void positions() {
  string alg = fx::kAlgs[mc::choose("alg", fx::kNumAlgs)];
  static const vector<int> lens{4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 32, 33, 64, 65, 100, 128, 129, 257};
  int n = mc::pick("length", lens);
  int kind = mc::choose("the others", 6);
  const char* const kinds[] = {"wrong keys of the same type", "keys of other types", "keys of another id", "keys of another algorithm", "all kinds", "bad entries"};
  if (alg == "ES384" || alg == "ES512") {
    if (n > 65 && (kind == 0 || kind == 4) && !mc::thorough()) return;
  }
  const Key &g = fx::key(fx::key_for(alg)), &w = fx::key(fx::key_for(alg, 1));
  bool with_kid = kind == 2 || kind == 4 || mc::choose("key id", 2);
  string kid = with_kid ? "k1" : "";
  auto other = [&](int i, int k) -> string {
    switch (k) {
      case 0: return jwk(w.jwk, i & 1 ? alg : "", i & 2 ? kid : "");
      case 1: {
        static const int all[] = {fx::R1, fx::E1, fx::F1, fx::G1, fx::H1, fx::O1};
        for (int j = i;; j++)
          if (fx::key(all[j % 6]).kty != g.kty) return jwk(fx::key(all[j % 6]).jwk, "", kid);
      }
      case 2: return jwk((i & 1 ? g : w).jwk, "", "k" + std::to_string(i + 2));
      case 3: {
        const char* o = alg[0] == 'R' ? "PS256" : alg[0] == 'P' ? "RS256" : alg == "HS256" ? "HS512" : "HS256";
        return jwk(g.kty == "RSA" || g.kty == "oct" ? g.jwk : fx::key(fx::H1).jwk, o, kid);
      }
      case 5: return i % 3 == 0 ? "{\"kty\":\"EC\"}" : i % 3 == 1 ? "null" : "{\"kty\":\"RSA\",\"n\":\"AQ\",\"e\":\"AQAB\"}";
    }
    return "";
  };
  string d = fx::b64u(fx::header(alg, kid)) + "." + fx::b64u("{}");
  static std::map<string, string> memo;
  string& sig = memo[d];
  if (sig.empty()) sig = fx::sign(g, alg, d);
  string tok = d + "." + fx::b64u(sig);
  for (int pos = -1; pos < n; pos++) {
    if (n > 12 && pos > 1 && pos < n - 1 && pos != n / 2) continue;
    vector<string> e;
    bool some = false;
    for (int i = 0; i < n; i++) {
      int k = kind == 4 ? i % 4 : kind;
      e.push_back(i == pos ? jwk(g.jwk, pos & 1 ? alg : "", pos & 2 ? kid : "") : other(i, k));
      if (i != pos && (k < 2 || (k == 2 && !with_kid))) some = true;
    }
    JwksPtr set = Jwks::createFrom(jwks_of(e), Jwks::JWKS);
    if (kind != 5 && int(set->keys().size()) != n) mc::fail("%zu keys load instead of %d", set->keys().size(), n);
    mc::state(mc::Hash().s(alg).u(n).u(kind).u(with_kid).u(pos + 1).h);
    judge(pos >= 0 ? kOk : some ? kFail : kMismatch, run_token(tok, *set),
          [&] { return alg + " token against a set of " + std::to_string(n) + ", the genuine key at " + std::to_string(pos) + ", the others are " + kinds[kind]; });
  }
}

void reg() {
  auto& S = mc::suites();
  S.push_back({"single", {"C01", "C02", "C03"}, single, -1, -1,
               "every (declared algorithm 13 x token kid 5 x real signer 53: every fixture key under every scheme of its type, HMAC with public keys as secret) "
               "x every single-key set (12 keys x JWK/PEM/X.509 x declared algs x 3 kids)", false, init_singles});
  S.push_back({"lists", {"C01", "C02", "C03"}, lists, -1, -1,
               "every list of 0..3 key slots (genuine with/without alg/kid, wrong key, declared otherwise, decoys of every type) x 13 algorithms x token kid x 4-6 signature variants", false});
  S.push_back({"key-shapes", {"C01", "C02", "C03"}, key_shapes, -1, -1,
               "keys of unusual shape: EC coordinates and Ed25519 keys with zero bytes at the edges, RSA of 1024/2056/3072/4096 bits, 45 secrets of 1..1000 bytes with and without zero bytes, as JWK and PEM, each against keys that resemble it", false, init_shapes});
  S.push_back({"sig-shapes", {"C01", "C02", "C03", "C04"}, sig_shapes, -1, -1,
               "genuine signatures with zero bytes at their edges and middle, for all 13 algorithms; every byte of them changed, deleted, zero bytes stripped", false});
  S.push_back({"lengths", {"C01", "C02", "C03", "C04"}, lengths, -1, -1,
               "headers and payloads of every length up to 140 (thorough: 600) and around powers of two up to 1 MiB, for all 13 algorithms, with edits near the beginning, middle and end and signatures over a part only", false});
  S.push_back({"positions", {"C01", "C02", "C03"}, positions, -1, -1,
               "key sets of 4..257 entries of 6 kinds, the genuine key at every position (long sets: first, second, middle, last) or missing, for all 13 algorithms with and without key id", false});
  S.push_back({"kids", {"C01", "C02", "C03"}, kids, -1, -1,
               "all pairs of 36 key ids that are easily confused (case, prefixes, zero bytes, blanks, composed characters, long ones) in three arrangements", false});
  S.push_back({"tamper", {"C04"}, tamper, -1, -1,
               "13 genuine tokens x every edit of 12 classes: signature bit flips, truncations, appended/prepended/inserted/deleted bytes, half manipulations, DER; header/payload characters; exchanges; dot moves; alg confusion; pairs of flips", false});
  S.push_back({"sigtext", {"C04"}, sigtext, -1, -1, "every character of the signature text replaced by the base64url characters", false});
  S.push_back({"history", {"C18"}, history, -1, -1,
               "all sequences of 4 operations (3 under ASan; thorough: one more) over 12 confusable tokens, 5 key sets, an allocator that reuses addresses at once, 2+2 slots: parse, load, add PEM, failing calls, dirty error queue, destroy; every verdict against the reference", false});
}
}  // namespace

int main(int argc, char** argv) {
  reg();
  return mc::main_(argc, argv);
}
