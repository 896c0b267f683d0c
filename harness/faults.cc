// C15: every single allocation failure (and every failure from some point on, and pairs) in the crypto library while keys
// are loaded and tokens verified.  C20: the balance of all allocations over operations, failing ones included.
#include "../lib/jwtmc.h"
#include <malloc.h>
#include <cmath>
#include <memory>

#include "simple_lru_cache/simple_lru_cache_inl.h"

using namespace jm;
using google::jwt_verify::CheckAudience;
using google::jwt_verify::StructUtils;
using google::jwt_verify::verifyJwt;
using google::jwt_verify::verifyJwtWithoutTimeChecking;

// ---- the crypto library's allocator, by the hooks it provides ----
enum FaultMode { kNone, kOne, kFrom, kTwo };
static FaultMode g_mode = kNone;
static int g_at = 0, g_at2 = 0, g_calls = 0, g_failed = 0;
static long g_crypto_blocks = 0, g_crypto_bytes = 0;
extern "C" void* OPENSSL_memory_alloc(size_t n) {
  int c = g_calls++;
  if ((g_mode == kOne && c == g_at) || (g_mode == kFrom && c >= g_at) || (g_mode == kTwo && (c == g_at || c == g_at2))) {
    g_failed++;
    return nullptr;
  }
  char* p = (char*)malloc(n + 16);
  if (!p) return nullptr;
  *(size_t*)p = n;
  g_crypto_blocks++;
  g_crypto_bytes += n;
  return p + 16;
}
extern "C" void OPENSSL_memory_free(void* p) {
  if (!p) return;
  g_crypto_blocks--;
  g_crypto_bytes -= *(size_t*)((char*)p - 16);
  free((char*)p - 16);
}
extern "C" size_t OPENSSL_memory_get_size(void* p) { return p ? *(size_t*)((char*)p - 16) : 0; }

// ---- the C library's allocator, counted (where no sanitizer has its own) ----
static long g_blocks = 0;
#if !__has_feature(address_sanitizer)
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  if (p) g_blocks++;
  return p;
}
void* calloc(size_t a, size_t b) {
  void* p = __libc_calloc(a, b);
  if (p) g_blocks++;
  return p;
}
void* realloc(void* q, size_t n) {
  void* p = __libc_realloc(q, n);
  if (!q && p) g_blocks++;
  if (q && !p && !n) g_blocks--;
  return p;
}
void* memalign(size_t a, size_t n) {
  void* p = __libc_memalign(a, n);
  if (p) g_blocks++;
  return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) {
  *p = memalign(a, n);
  return *p ? 0 : ENOMEM;
}
void free(void* p) {
  if (p) g_blocks--;
  __libc_free(p);
}
}
#endif

namespace {
void arm(FaultMode m, int at = 0, int at2 = 0) {
  g_calls = g_failed = 0;
  g_at = at;
  g_at2 = at2;
  g_mode = m;
}
int disarm() {
  g_mode = kNone;
  return g_calls;
}

enum Form { kJwksForm, kX509Form, kPemForm };
struct Load {
  string desc;
  Form form;
  std::function<JwksPtr()> fn;
  vector<int> keys;  // fixture keys it holds when all goes well
};
vector<Load>* g_loads;
string esc_nl(const string& s) {
  string r;
  for (char c : s) r += c == '\n' ? string("\\n") : string(1, c);
  return r;
}
string cert(const char* c) {
  string s = c;
  while (!s.empty() && s.back() == '\n') s.pop_back();
  return s + "\n";
}
void init_loads() {
  if (g_loads) return;
  g_loads = new vector<Load>;
  auto json = [](const string& d, Form f, const string& t, vector<int> keys) {
    g_loads->push_back({d, f, [t] { return Jwks::createFrom(t, Jwks::JWKS); }, keys});
  };
  for (int i = 0; i < fx::kNumKeys; i += 2) json("JWKS " + fx::key(i).name, kJwksForm, jwks_of({jwk(fx::key(i).jwk)}), {i});
  json("JWKS R0,E0", kJwksForm, jwks_of({jwk(fx::key(fx::R0).jwk, "", "a"), jwk(fx::key(fx::E0).jwk, "", "b")}), {fx::R0, fx::E0});
  json("JWKS E1,E0", kJwksForm, jwks_of({jwk(fx::key(fx::E1).jwk), jwk(fx::key(fx::E0).jwk)}), {fx::E1, fx::E0});
  json("JWKS O0,bad,R1", kJwksForm,
       jwks_of({jwk(fx::key(fx::O0).jwk), "{\"kty\":\"EC\",\"x\":\"AA\",\"y\":\"AA\"}", jwk(fx::key(fx::R1).jwk, "RS256", "k")}), {fx::O0, fx::R1});
  json("certificate R0", kX509Form, "{\"a\":\"" + esc_nl(cert(fx::kR0_crt)) + "\"}", {fx::R0});
  json("certificates R0,R1", kX509Form, "{\"a\":\"" + esc_nl(cert(fx::kR0_crt)) + "\",\"b\":\"" + esc_nl(cert(fx::kR1_crt)) + "\"}", {fx::R0, fx::R1});
  for (int i = 0; i < fx::kNumKeys; i += 2)
    if (!fx::key(i).pem.empty())
      g_loads->push_back({"PEM " + fx::key(i).name, kPemForm, [i] { return Jwks::createFromPem(fx::key(i).pem, "kid", ""); }, {i}});
}

struct Token {
  string desc, alg, text;
  int key;  // the fixture key that signed it, -1: none
};
vector<Token>* g_tokens;
void init_tokens() {
  if (g_tokens) return;
  g_tokens = new vector<Token>;
  for (const char* a : fx::kAlgs) {
    for (int n = 0; n < 2; n++) {
      int k = fx::key_for(a, n);
      string t = fx::token(fx::header(a), "{\"sub\":\"s\"}", fx::key(k), a);
      g_tokens->push_back({string(a) + " by " + fx::key(k).name, a, t, k});
      if (n == 0) {
        string u = t;
        u[u.size() - 8] = u[u.size() - 8] == 'A' ? 'B' : 'A';
        g_tokens->push_back({string(a) + " by " + fx::key(k).name + " with a changed signature", a, u, -1});
        g_tokens->push_back({string(a) + " by " + fx::key(k).name + " with other claims", a, fx::b64u(fx::header(a)) + "." + fx::b64u("{\"sub\":\"t\"}") + t.substr(t.rfind('.')), -1});
        // What a buffer may hold that was never filled: forged signatures of the right length.
        size_t len = fx::sign(fx::key(k), a, "x").size();
        string d = t.substr(0, t.rfind('.') + 1), one(len, 0);
        one[len - 1] = one[len / 2 - 1] = 1;
        g_tokens->push_back({string(a) + " with a signature of zero bytes", a, d + fx::b64u(string(len, 0)), -1});
        g_tokens->push_back({string(a) + " with a signature of 0xff bytes", a, d + fx::b64u(string(len, char(0xff))), -1});
        g_tokens->push_back({string(a) + " with a signature whose halves are 1", a, d + fx::b64u(one), -1});
      }
    }
  }
}

// The keys of a set, one text each.
vector<string> key_texts(const Load& l, const Jwks& s) {
  vector<string> r;
  for (auto& k : s.keys()) {
    r.push_back("kid=" + k->kid_ + ";alg=" + k->alg_ + ";crv=" + k->crv_ + ";" + material(*k));
  }
  if (l.form == kX509Form) std::sort(r.begin(), r.end());  // a map has no order; the fixtures' key ids are in the order of the names
  return r;
}
struct Fault {
  FaultMode mode = kNone;
  int at = 0, at2 = 0;
  string desc() const {
    if (mode == kOne) return "crypto allocation " + std::to_string(at) + " fails";
    if (mode == kFrom) return "crypto allocations from " + std::to_string(at) + " on fail";
    if (mode == kTwo) return "crypto allocations " + std::to_string(at) + " and " + std::to_string(at2) + " fail";
    return "no failure";
  }
};
Fault choose_fault(int n) {
  Fault f;
  if (n <= 0) return f;
  f.mode = FaultMode(1 + mc::choose("kind of failure", mc::qt(2, 3)));
  f.at = mc::choose("allocation that fails", n);
  if (f.mode == kTwo) {
    // The second failure: later, also among the allocations that only happen because of the first.
    int width = n - f.at - 1 + 4;
    f.at2 = f.at + 1 + mc::choose("second allocation that fails", width < 24 ? width : 24);
  }
  return f;
}

void check_loaded(const Load& l, const Jwks& s, const vector<string>& want, bool faulted, const string& when) {
  vector<string> got = key_texts(l, s);
  bool ok = s.getStatus() == Status::Ok;
  if (ok != !got.empty()) mc::fail("%s: status %s with %zu keys; %s", l.desc.c_str(), st(s.getStatus()).c_str(), got.size(), when.c_str());
  if (!faulted && got != want) mc::fail("%s: %zu keys instead of %zu; %s", l.desc.c_str(), got.size(), want.size(), when.c_str());
  // Every key is one of the keys stated, in order; all of them unless single entries may be skipped.
  size_t j = 0;
  for (auto& g : got) {
    while (j < want.size() && want[j] != g) j++;
    if (j++ >= want.size()) mc::fail("%s: yields a key that was not stated (%s); %s", l.desc.c_str(), g.c_str(), when.c_str());
  }
  if (ok && l.form != kJwksForm && got.size() != want.size())
    mc::fail("%s: %zu of %zu keys; %s", l.desc.c_str(), got.size(), want.size(), when.c_str());
}
// What the set must say about every token, according to the keys it holds.
void check_use(const Load& l, const Jwks& s, const vector<string>& want, const string& when) {
  vector<string> got = key_texts(l, s);
  for (auto& t : *g_tokens) {
    bool holds = false, kin = false;
    for (size_t i = 0; i < want.size(); i++) {
      if (std::find(got.begin(), got.end(), want[i]) == got.end()) continue;
      if (fx::fits(fx::key(l.keys[i]), t.alg)) kin = true;
      if (l.keys[i] == t.key && (l.desc.find("bad,R1") == string::npos || t.key != fx::R1 || t.alg == "RS256")) holds = true;
    }
    if (!kin) continue;
    Jwt j;
    j.parseFromString(t.text);
    mc::step();
    Status v = verifyJwtWithoutTimeChecking(j, s);
    if ((v == Status::Ok) != holds) mc::fail("%s, %s: status %s; %s", l.desc.c_str(), t.desc.c_str(), st(v).c_str(), when.c_str());
  }
}

void load_body() {
  const Load& l = mc::pick("load", *g_loads);
  arm(kNone);
  JwksPtr ref = l.fn();
  int n = disarm();
  vector<string> want = key_texts(l, *ref);
  if (want.size() != l.keys.size()) mc::fail("%s without failures: %zu keys, status %s", l.desc.c_str(), want.size(), st(ref->getStatus()).c_str());
  Fault f = choose_fault(n);
  MC_NOTE("load %s (%d allocations), %s", l.desc.c_str(), n, f.desc().c_str());
  arm(f.mode, f.at, f.at2);
  JwksPtr s = l.fn();
  disarm();
  mc::step();
  mc::outcome(si(s->getStatus()));
  mc::state(mc::Hash().s(l.desc).s(dump(*s)).u(g_failed).h);
  MC_NOTE("status %s, %zu keys", st(s->getStatus()).c_str(), s->keys().size());
  check_loaded(l, *s, want, g_failed > 0, f.desc());
  if (!s->keys().empty()) check_use(l, *s, want, f.desc() + " while loading");
  // With memory available again.
  JwksPtr again = l.fn();
  check_loaded(l, *again, want, false, "loaded again after: " + f.desc());
  // Adding to the very set.
  size_t before = s->keys().size();
  Status a = s->addKeyFromPem(fx::key(fx::E1).pem, "late", "ES256");
  if (a != Status::Ok || s->getStatus() != Status::Ok || s->keys().size() != before + 1)
    mc::fail("%s: adding a key afterwards gives %s; %s", l.desc.c_str(), st(a).c_str(), f.desc().c_str());
}

void add_body() {
  const Load& l = mc::pick("set", *g_loads);
  int i = mc::choose("added key", fx::kNumKeys / 2) * 2;
  if (fx::key(i).pem.empty()) return;
  auto add = [&](Jwks* s) { return s->addKeyFromPem(fx::key(i).pem, "new", ""); };
  JwksPtr ref = l.fn();
  vector<string> want = key_texts(l, *ref);
  arm(kNone);
  add(ref.get());
  int n = disarm();
  vector<string> with = key_texts(l, *ref);
  JwksPtr s = l.fn();
  Fault f = choose_fault(n);
  MC_NOTE("add PEM %s to %s, %s", fx::key(i).name.c_str(), l.desc.c_str(), f.desc().c_str());
  arm(f.mode, f.at, f.at2);
  Status r = add(s.get());
  disarm();
  mc::step();
  mc::outcome(si(r));
  vector<string> got = key_texts(l, *s);
  if (got != (r == Status::Ok ? with : want))
    mc::fail("adding PEM %s to %s gives %s and %zu keys; %s", fx::key(i).name.c_str(), l.desc.c_str(), st(r).c_str(), got.size(), f.desc().c_str());
  if (s->getStatus() != Status::Ok) mc::fail("a failed addition changes the status of the set; %s", f.desc().c_str());
  if (r != Status::Ok && add(s.get()) != Status::Ok) mc::fail("adding again fails; %s", f.desc().c_str());
  if (key_texts(l, *s) != with) mc::fail("adding again yields other keys; %s", f.desc().c_str());
}

void verify_body() {
  const Load& l = mc::pick("set", *g_loads);
  vector<const Token*> rel;
  for (auto& t : *g_tokens)
    for (int k : l.keys)
      if (fx::fits(fx::key(k), t.alg)) {
        rel.push_back(&t);
        break;
      }
  const Token& t = *rel[mc::choose("token", rel.size())];
  Jwt j;
  if (j.parseFromString(t.text) != Status::Ok) mc::fail("token %s does not parse", t.desc.c_str());
  JwksPtr ref = l.fn(), s = l.fn();
  arm(kNone);
  Status clean = verifyJwtWithoutTimeChecking(j, *ref);
  int n = disarm();
  string before = dump(*s), jb = dump(j);
  bool unordered = l.form == kX509Form && l.keys.size() > 1;
  if (unordered) n = 80;  // how many there are depends on which member comes first
  Fault f = choose_fault(n);
  MC_NOTE("verify %s against %s (%d allocations, then %s), %s", t.desc.c_str(), l.desc.c_str(), n, st(clean).c_str(), f.desc().c_str());
  auto judge = [&](Status v, const char* what) {
    mc::step();
    mc::outcome(si(v));
    mc::state(mc::Hash().s(l.desc).s(t.desc).u(si(v)).u(g_failed).h);
    if (v != clean && v != Status::JwtVerificationFail)
      mc::fail("%s against %s: %s instead of %s; %s %s", t.desc.c_str(), l.desc.c_str(), st(v).c_str(), st(clean).c_str(), f.desc().c_str(), what);
    if (g_failed == 0 && v != clean) mc::fail("%s against %s: %s instead of %s, although nothing failed", t.desc.c_str(), l.desc.c_str(), st(v).c_str(), st(clean).c_str());
  };
  arm(f.mode, f.at, f.at2);
  Status v = verifyJwtWithoutTimeChecking(j, *s);
  disarm();
  MC_NOTE("status %s", st(v).c_str());
  judge(v, "");
  if (mc::thorough() && f.mode != kTwo && n > 0) {
    // A second operation that runs out of memory, on the objects the first one left.
    Fault g;
    g.mode = kOne;
    g.at = mc::choose("allocation that fails in the second verification", n < 40 ? n : 40);
    arm(g.mode, g.at);
    v = verifyJwtWithoutTimeChecking(j, *s);
    disarm();
    judge(v, "then again");
  }
  if (dump(*s) != before || dump(j) != jb) mc::fail("a failed verification changes its arguments; %s", f.desc().c_str());
  v = verifyJwtWithoutTimeChecking(j, *s);
  if (v != clean)
    mc::fail("%s against %s with memory available again: %s instead of %s; %s", t.desc.c_str(), l.desc.c_str(), st(v).c_str(), st(clean).c_str(), f.desc().c_str());
  // Every other token against the set, as usual.
  for (auto* o : rel) {
    Jwt k;
    k.parseFromString(o->text);
    Status a = verifyJwtWithoutTimeChecking(k, *s), b = verifyJwtWithoutTimeChecking(k, *ref);
    mc::step();
    if (a != b) mc::fail("afterwards %s against %s: %s instead of %s; %s", o->desc.c_str(), l.desc.c_str(), st(a).c_str(), st(b).c_str(), f.desc().c_str());
  }
}

// ---- C20 ----
struct Scenario {
  string desc;
  std::function<int()> fn;  // returns some status
  bool unordered = false;   // a certificate map of several members
};
vector<Scenario>* g_sc;
string g_audience = "https://example.com/";
void init_scenarios() {
  if (g_sc) return;
  init_loads();
  init_tokens();
  g_sc = new vector<Scenario>;
  auto add = [](const string& d, std::function<int()> f) { g_sc->push_back({d, f}); };
  for (auto& l : *g_loads) {
    bool unordered = l.form == kX509Form && l.keys.size() > 1;
    add("load " + l.desc, [&l] { return si(l.fn()->getStatus()); });
    for (auto& t : *g_tokens) {
      bool kin = false;
      for (int k : l.keys) kin |= fx::fits(fx::key(k), t.alg);
      if (!kin && t.alg != "ES256") continue;
      add("load " + l.desc + ", verify " + t.desc + " twice", [&l, &t] {
        JwksPtr s = l.fn();
        Jwt j;
        j.parseFromString(t.text);
        verifyJwtWithoutTimeChecking(j, *s);
        return si(verifyJwt(j, *s, {g_audience}, 5));
      });
      g_sc->back().unordered = unordered;
    }
    for (int i = 0; i < fx::kNumKeys; i += 2)
      add("add PEM " + fx::key(i).name + " to " + l.desc, [&l, i] {
        JwksPtr s = l.fn();
        s->addKeyFromPem(fx::key(i).pem, "a", "");
        return si(s->addKeyFromPem(fx::key(i).pem, "b", ""));
      });
  }
  // Failing loads.
  const fx::Key &r = fx::key(fx::R0), &e = fx::key(fx::E0), &o = fx::key(fx::O0);
  vector<string> bad = {"", "x", "{", "{}", "[]", "{\"keys\":{}}", "{\"keys\":[]}", "{\"keys\":[1,\"a\",null,[],{}]}", jwks_of({"{\"kty\":\"EC\"}", "{\"kty\":1}"})};
  auto ent = [&](const string& s) { bad.push_back(jwks_of({s})); };
  ent("{\"kty\":\"RSA\",\"n\":\"" + fx::b64u(r.n) + "\"}");
  ent("{\"kty\":\"RSA\",\"n\":\"" + fx::b64u(r.n) + "\",\"e\":\"*\"}");
  ent("{\"kty\":\"RSA\",\"n\":\"*\",\"e\":\"AQAB\"}");
  ent("{\"kty\":\"RSA\",\"n\":\"" + fx::b64u(r.n) + "\",\"e\":\"AQAC\"}");
  ent("{\"kty\":\"RSA\",\"n\":\"" + fx::b64u(r.n) + "\",\"e\":\"BQ\"}");
  ent("{\"kty\":\"RSA\",\"n\":\"AQ\",\"e\":\"AQAB\"}");
  ent("{\"kty\":\"RSA\",\"n\":\"\",\"e\":\"AQAB\"}");
  ent("{\"kty\":\"RSA\",\"n\":\"" + fx::b64u(string(2100, '\x7f')) + "\",\"e\":\"AQAB\"}");
  ent("{\"kty\":\"RSA\",\"n\":\"" + fx::b64u(r.n.substr(0, 255) + "\x02") + "\",\"e\":\"AQAB\"}");
  ent("{\"kty\":\"EC\",\"crv\":\"P-256\",\"x\":\"" + fx::b64u(e.x) + "\",\"y\":\"*\"}");
  ent("{\"kty\":\"EC\",\"crv\":\"P-256\",\"x\":\"*\",\"y\":\"" + fx::b64u(e.y) + "\"}");
  ent("{\"kty\":\"EC\",\"crv\":\"P-256\",\"x\":\"" + fx::b64u(e.x) + "\",\"y\":\"" + fx::b64u(e.x) + "\"}");
  ent("{\"kty\":\"EC\",\"crv\":\"P-521\",\"x\":\"" + fx::b64u(e.x) + "\",\"y\":\"" + fx::b64u(e.y) + "\"}");
  ent("{\"kty\":\"EC\",\"crv\":\"P-256\",\"x\":\"" + fx::b64u(string(80, 'x')) + "\",\"y\":\"" + fx::b64u(e.y) + "\"}");
  ent("{\"kty\":\"OKP\",\"crv\":\"Ed25519\",\"x\":\"" + fx::b64u(o.x.substr(1)) + "\"}");
  ent("{\"kty\":\"oct\",\"k\":\"*\"}");
  ent("{\"kty\":\"oct\",\"k\":\"\"}");
  bad.push_back(jwks_of({"{\"kty\":\"RSA\",\"n\":\"AQ\",\"e\":\"AQAB\"}", jwk(e.jwk), "{\"kty\":\"EC\",\"x\":\"AA\",\"y\":\"AA\"}", jwk(r.jwk)}));
  string c0 = esc_nl(cert(fx::kR0_crt)), broken = "-----BEGIN CERTIFICATE-----\\nMIIB\\n-----END CERTIFICATE-----\\n";
  for (auto& c : {broken, esc_nl(cert(fx::kE0_crt)), esc_nl(cert(fx::kO0_crt))}) {
    bad.push_back("{\"a\":\"" + c + "\"}");
    for (const char* n : {"b", "c", "d"}) bad.push_back("{\"a\":\"" + c0 + "\",\"" + n + "\":\"" + c + "\"}");
  }
  for (auto& b : bad) {
    add("load JSON " + mc::esc(b, 120), [b] {
      JwksPtr s = Jwks::createFrom(b, Jwks::JWKS);
      Jwt j;
      j.parseFromString((*g_tokens)[0].text);
      verifyJwtWithoutTimeChecking(j, *s);
      s->addKeyFromPem(b, "", "");
      return si(s->getStatus());
    });
    g_sc->back().unordered = b.find("\"a\":") != string::npos;
  }
  vector<string> pems = {"", "x", "-----BEGIN PUBLIC KEY-----\n-----END PUBLIC KEY-----\n", "-----BEGIN PUBLIC KEY-----\nMIIB\n-----END PUBLIC KEY-----\n",
                         fx::kX0_pub, fx::kP224_pub, fx::kD0_pub, fx::kR0_crt, fx::kR0_pub + string(fx::kE0_pub), string(fx::kR0_priv), string(fx::kE0_priv)};
  for (int i = 0; i < fx::kNumKeys; i += 2)
    if (!fx::key(i).pem.empty()) {
      string p = fx::key(i).pem;
      for (size_t cut : {p.size() / 4, p.size() / 2, p.size() - 30}) pems.push_back(p.substr(0, cut));
      size_t m = p.size() / 2;
      for (char c : {'A', '*', '\n'}) {
        string q = p;
        q[m] = c;
        pems.push_back(q);
      }
      size_t at = p.find('\n') + 10;
      string q = p;
      q[at] = q[at] == 'B' ? 'C' : 'B';
      pems.push_back(q);
    }
  for (auto& p : pems)
    add("load PEM " + mc::esc(p, 120), [p] {
      JwksPtr s = Jwks::createFromPem(p, "kid", "ES256");
      s->addKeyFromPem(p, "kid", "RS256");
      s->addKeyFromPem(fx::key(fx::E0).pem, "kid", "ES256");
      return si(s->addKeyFromPem(p, "kid", ""));
    });
  // Parsing.
  string sig = "." + fx::b64u("signature");
  auto tok = [&](const string& h, const string& p) { return fx::b64u(h) + "." + fx::b64u(p) + sig; };
  vector<string> toks = {"", ".", "..", "a.b", "a.b.c", "a.b.c.d", "*." + fx::b64u("{}") + sig, fx::b64u(fx::header("ES256")) + ".*" + sig,
                         fx::b64u(fx::header("ES256")) + "." + fx::b64u("{}") + ".*", tok("{", "{}"), tok("{}", "{}"), tok(fx::header("none"), "{}"),
                         tok("{\"alg\":1}", "{}"), tok("{\"alg\":\"ES256\",\"kid\":[]}", "{}"), tok(fx::header("ES256"), "{")};
  for (const char* m : {"iss", "sub", "jti", "aud", "iat", "nbf", "exp"})
    for (const char* v : {"\"a\"", "1", "-1", "1e30", "[]", "[\"a\",\"b\"]", "[1]", "{}", "null", "true"})
      toks.push_back(tok(fx::header("RS256", "k"), string("{\"") + m + "\":" + v + "}"));
  for (auto& t : toks)
    add("parse " + mc::esc(t, 120), [t] {
      Jwt j;
      int r = si(j.parseFromString(t));
      Jwt k(j);
      Jwt l;
      l.parseFromString((*g_tokens)[0].text);
      l = k;
      k = k;
      CheckAudience c({g_audience, "b"});
      c.areAudiencesAllowed(j.audiences_);
      StructUtils u(j.payload_pb_);
      string s;
      uint64_t n;
      vector<string> v;
      const google::protobuf::Value* p;
      u.GetString("iss", &s);
      u.GetUInt64("exp", &n);
      u.GetStringList("aud", &v);
      u.GetValue("a.b.c", p);
      j.verifyTimeConstraint(1);
      return r;
    });
}
struct Use {
  long blocks, crypto;
};
Use now_used() { return {g_blocks, g_crypto_blocks}; }
// Runs it `times` times and tells whether memory grows with every further run.
void balance(const Scenario& sc, const Fault& f) {
  const int kRuns = 5;
  Use u[kRuns];
  int r = 0, failed = 0;
  for (int i = 0; i < kRuns; i++) {
    arm(f.mode, f.at, f.at2);
    r = sc.fn();
    failed = g_failed;
    disarm();
    u[i] = now_used();
  }
  mc::step(kRuns);
  mc::outcome(r);
  mc::state(mc::Hash().s(sc.desc).u(r).u(failed).h);
  MC_NOTE("%s; %s: status %d, blocks %ld %ld %ld %ld %ld", sc.desc.c_str(), f.desc().c_str(), r, u[0].blocks, u[1].blocks, u[2].blocks, u[3].blocks, u[4].blocks);
  bool grows = true, cgrows = true;
  for (int i = 2; i < kRuns; i++) {
    if (u[i].blocks <= u[i - 1].blocks) grows = false;
    if (u[i].crypto <= u[i - 1].crypto) cgrows = false;
  }
  if (grows || cgrows)
    mc::fail("leak: each run of '%s' (%s) keeps %ld more blocks of memory, %ld of them the crypto library's", sc.desc.c_str(), f.desc().c_str(),
             u[kRuns - 1].blocks - u[kRuns - 2].blocks, u[kRuns - 1].crypto - u[kRuns - 2].crypto);
}
void balance_body() {
  const Scenario& sc = mc::pick("scenario", *g_sc);
  balance(sc, Fault());
}
void balance_oom_body() {
  const Scenario& sc = mc::pick("scenario", *g_sc);
  arm(kNone);
  sc.fn();
  int n = disarm();
  if (sc.unordered) n = 320;  // how many there are depends on which member comes first
  if (!n) return;
  Fault f;
  f.mode = FaultMode(1 + mc::choose("kind of failure", 2));
  f.at = mc::choose("allocation that fails", n);
  balance(sc, f);
}

// The cache: all sequences of operations, then everything destroyed.
struct Val {
  string s;
};
typedef google::simple_lru_cache::SimpleLRUCache<string, Val> Cache;
void lru_body() {
  enum { kIns, kInsPin, kLook, kRel, kRem, kRemAll, kRemUnp, kCap, kTouch, kDefer, kClear, kOps };
  int depth = mc::qt(6, 7), op[8], key[8];
  for (int i = 0; i < depth; i++) {
    op[i] = mc::choose("operation", kOps);
    key[i] = op[i] == kIns || op[i] == kInsPin || op[i] == kLook || op[i] == kRem || op[i] == kTouch ? mc::choose("key", 2) : 0;
  }
  static const char* names[] = {"insert", "insertPinned", "lookup", "release", "remove", "removeAll", "removeUnpinned", "setMaxSize", "touch", "removeAndInsert", "clear"};
  string d;
  if (mc::g_want_notes)
    for (int i = 0; i < depth; i++) d += string(names[op[i]]) + "(" + char('A' + key[i]) + ") ";
  MC_NOTE("%s", d.c_str());
  Use u0 = now_used();
  {
    Cache c(2);
    Val* pin[8];
    string pk[8];
    int np = 0;
    for (int i = 0; i < depth; i++) {
      string k = string(40, char('A' + key[i]));
      switch (op[i]) {
        case kIns: c.insert(k, new Val{string(50, 'x')}, 1); break;
        case kInsPin:
          pin[np] = new Val{string(50, 'y')};
          pk[np] = k;
          c.insertPinned(k, pin[np++], 1);
          break;
        case kLook:
          if (Val* v = c.lookup(k)) {
            pin[np] = v;
            pk[np++] = k;
          }
          break;
        case kRel:
          if (np) {
            np--;
            c.release(pk[np], pin[np]);
          }
          break;
        case kRem: c.remove(k); break;
        case kRemAll: c.removeAll(); break;
        case kRemUnp: c.removeUnpinned(); break;
        case kCap: c.setMaxSize(1); break;
        case kTouch: { Cache::ScopedLookup l(&c, k); break; }
        case kDefer: c.insert(string(40, 'C'), new Val{string(50, 'z')}, 2); break;
        case kClear: if (!np) c.clear(); break;
      }
    }
    while (np) {
      np--;
      c.release(pk[np], pin[np]);
    }
    c.clear();
  }
  Use u1 = now_used();
  mc::step(depth);
  if (u1.blocks != u0.blocks) mc::fail("the cache keeps %ld blocks of memory after its destruction", u1.blocks - u0.blocks);
}

void init_c15() {
  init_loads();
  init_tokens();
  // Once-only initialisation inside the crypto library and the runtime happens before anything is measured.
  for (auto& l : *g_loads) {
    JwksPtr s = l.fn();
    for (auto& t : *g_tokens) {
      Jwt j;
      j.parseFromString(t.text);
      verifyJwtWithoutTimeChecking(j, *s);
    }
  }
}
void init_c20() {
  init_scenarios();
  for (int i = 0; i < 2; i++)
    for (auto& s : *g_sc) s.fn();
}

}  // namespace

int main(int argc, char** argv) {
  auto& S = mc::suites();
  auto suite = [&](const char* name, const char* prop, void (*body)(), void (*init)(), const char* what) {
    mc::Suite s;
    s.name = name;
    s.props = {prop};
    s.body = body;
    s.init = init;
    s.what = what;
    S.push_back(s);
  };
  suite("load_oom", "C15", load_body, init_c15,
        "loads: JWKS of each key type and of two or three keys, certificate maps of one and two, PEM of each type; failures: each single crypto allocation, each suffix of the "
        "allocations, thorough: pairs; afterwards: keys compared, all related tokens verified, loaded again, a key added");
  suite("add_oom", "C15", add_body, init_c15, "each PEM key added to each of those sets, with the same failures");
  suite("verify_oom", "C15", verify_body, init_c15,
        "genuine, forged and altered tokens of all 13 algorithms against each related set freshly loaded, with the same failures (thorough: also one more in a second verification); "
        "afterwards all related tokens verified without failures");
  suite("balance", "C20", balance_body, init_c20,
        "each scenario (loads of all kinds incl. about 80 faulty texts, verifications, additions, parses, copies, lookups) five times: no growth of live allocations");
  suite("balance_oom", "C20", balance_oom_body, init_c20, "each scenario with each single crypto allocation failure and each suffix of failures, five times");
  suite("balance_lru", "C20", lru_body, nullptr, "all cache operation sequences up to the depth (quick 6, thorough 7) over 2-3 keys, then destruction: live allocations as before");
  return mc::main_(argc, argv);
}
