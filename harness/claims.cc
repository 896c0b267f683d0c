// C05: time constraints.  C06: audiences.  C07: entry points and their clock.  C21: claim lookup.  C22: descriptions.
#include "../lib/jwtmc.h"
#include <math.h>
#include <algorithm>
#include <cctype>
#include <limits>
#include <memory>

using namespace jm;
using google::jwt_verify::CheckAudience;
using google::jwt_verify::StructUtils;
using google::jwt_verify::verifyJwt;
using google::jwt_verify::verifyJwtWithoutTimeChecking;
typedef unsigned __int128 u128;

// ---- the wall clock, under control ----
static bool g_fake_clock = false;
static int64_t g_wall_s = 0, g_wall_ns = 0;
static uint64_t g_clock_reads = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
  if (g_fake_clock && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
    ts->tv_sec = g_wall_s;
    ts->tv_nsec = g_wall_ns;
    g_clock_reads++;
    return 0;
  }
  return int(syscall(SYS_clock_gettime, id, ts));
}
extern "C" time_t time(time_t* t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
// Abseil extrapolates from the cycle counter: give it the controlled clock, too.
#include "absl/time/clock.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
int64_t GetCurrentTimeNanos() {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  return int64_t(ts.tv_sec) * 1000000000 + ts.tv_nsec;
}
Time Now() { return FromUnixNanos(GetCurrentTimeNanos()); }
ABSL_NAMESPACE_END
}  // namespace absl

namespace {
const uint64_t kMax = ~uint64_t(0);

// ---- C05 ----
Status time_verdict(uint64_t nbf, bool has_exp, uint64_t exp, uint64_t now, uint64_t skew) {
  if (u128(now) + skew < u128(nbf)) return Status::JwtNotYetValid;
  if (has_exp && u128(now) > u128(exp) + skew) return Status::JwtExpired;
  return Status::Ok;
}
struct Fix {
  Jwt jwt;
  JwksPtr jwks;
};
Fix& hs() {
  static Fix f;
  if (!f.jwks) {
    const fx::Key& k = fx::key(fx::H0);
    f.jwt.parseFromString(fx::token(fx::header("HS256"), "{\"iss\":\"i\"}", k, "HS256"));
    f.jwks = Jwks::createFrom(jwks_of({jwk(k.jwk)}), Jwks::JWKS);
    if (verifyJwtWithoutTimeChecking(f.jwt, *f.jwks) != Status::Ok) mc::fail("the genuine token does not verify");
  }
  return f;
}
string times(uint64_t nbf, uint64_t exp, uint64_t now, uint64_t skew) {
  return "nbf=" + std::to_string(nbf) + " exp=" + std::to_string(exp) + " now=" + std::to_string(now) + " skew=" + std::to_string(skew);
}
void check_time(uint64_t nbf, uint64_t exp, uint64_t now, uint64_t skew, bool full) {
  Fix& f = hs();
  f.jwt.nbf_ = nbf;
  f.jwt.exp_ = exp;
  // When the token was issued plays no part.
  static const uint64_t iats[] = {0, 1, kMax, 1700000000, uint64_t(1) << 63};
  static unsigned turn = 0;
  f.jwt.iat_ = iats[turn++ % 5];
  Status want = time_verdict(nbf, exp != 0, exp, now, skew);
  Status got = f.jwt.verifyTimeConstraint(now, skew);
  mc::step();
  mc::outcome(si(got));
  if (got != want) mc::fail("verifyTimeConstraint: %s: expected %s, got %s", times(nbf, exp, now, skew).c_str(), st(want).c_str(), st(got).c_str());
  if (skew == 60) {
    got = f.jwt.verifyTimeConstraint(now);
    mc::step();
    if (got != want) mc::fail("verifyTimeConstraint with the default skew: %s: expected %s, got %s", times(nbf, exp, now, skew).c_str(), st(want).c_str(), st(got).c_str());
  }
  if (!full) return;
  got = verifyJwt(f.jwt, *f.jwks, now, skew);
  mc::step();
  if (got != want) mc::fail("verifyJwt(now, skew): %s: expected %s, got %s", times(nbf, exp, now, skew).c_str(), st(want).c_str(), st(got).c_str());
  if (skew == 60) {
    got = verifyJwt(f.jwt, *f.jwks, now);
    mc::step();
    if (got != want) mc::fail("verifyJwt(now): %s: expected %s, got %s", times(nbf, exp, now, skew).c_str(), st(want).c_str(), st(got).c_str());
    got = verifyJwt(f.jwt, *f.jwks, vector<string>{}, now);
    mc::step();
    if (got != want) mc::fail("verifyJwt(audiences, now): %s: expected %s, got %s", times(nbf, exp, now, skew).c_str(), st(want).c_str(), st(got).c_str());
    if (now <= 4102444800u) {
      g_fake_clock = true;
      g_wall_s = int64_t(now);
      g_wall_ns = 999999999;
      got = verifyJwt(f.jwt, *f.jwks);
      Status got2 = verifyJwt(f.jwt, *f.jwks, vector<string>{});
      g_fake_clock = false;
      mc::step(2);
      if (got != want || got2 != want) mc::fail("verifyJwt at wall clock: %s: expected %s, got %s and %s", times(nbf, exp, now, skew).c_str(), st(want).c_str(), st(got).c_str(), st(got2).c_str());
    }
  }
}
vector<uint64_t>& grid_values() {
  static vector<uint64_t> v = [] {
    vector<uint64_t> v{0, 1, 2, 3, 29, 30, 31, 59, 60, 61, 62, 119, 120, 121, 1000, 1700000000, 1700000060, 1700000061};
    for (uint64_t b : {uint64_t(1) << 31, uint64_t(1) << 32, uint64_t(1) << 53, uint64_t(1) << 63})
      for (int64_t d : {-61, -60, -1, 0, 1, 60, 61})
        if (mc::thorough() || d == -1 || d == 0 || d == 60) v.push_back(b + d);
    for (uint64_t d : {0, 1, 2, 30, 58, 59, 60, 61, 62, 120, 121}) v.push_back(kMax - d);
    return v;
  }();
  return v;
}
void c05_grid() {
  auto& v = grid_values();
  uint64_t nbf = mc::pick("nbf", v), exp = mc::pick("exp", v);
  mc::state(mc::Hash().u(nbf).u(exp).h);
  for (uint64_t now : v)
    for (uint64_t skew : v) check_time(nbf, exp, now, skew, skew <= 60 || skew >= kMax - 1);
}
void c05_cube() {
  int n = mc::qt(9, 17);
  uint64_t off[] = {0, kMax - n + 1, (uint64_t(1) << 63) - n / 2};
  uint64_t bn = mc::pick("base nbf", off), be = mc::pick("base exp", off), bt = mc::pick("base now", off);
  uint64_t nbf = bn + mc::choose("nbf", n), exp = be + mc::choose("exp", n);
  mc::state(mc::Hash().u(nbf).u(exp).u(bt).h);
  for (int i = 0; i < n; i++)
    for (uint64_t bs : off)
      for (int j = 0; j < n; j++) check_time(nbf, exp, bt + i, bs + j, false);
}
// Time claims as they stand in a token.
struct Lit {
  const char* text;  // null: absent
  bool present;
  uint64_t v;
};
const Lit kLits[] = {{nullptr, false, 0},
                     {"1", true, 1},
                     {"1.5", true, 1},
                     {"60", true, 60},
                     {"1e3", true, 1000},
                     {"1700000000", true, 1700000000},
                     {"1.7e9", true, 1700000000},
                     {"1700000000.999", true, 1700000000},
                     {"4294967296", true, 4294967296ull},
                     {"9007199254740991", true, 9007199254740991ull},
                     {"9223372036854775808", true, 9223372036854775808ull},
                     {"18446744073709549568", true, 18446744073709549568ull},
                     {"0", true, 0},
                     {"0.5", true, 0},
                     {"-0.0", true, 0}};
void c05_text() {
  const Lit& n = mc::pick("nbf", kLits);
  const Lit& e = mc::pick("exp", kLits);
  string p = "{";
  if (n.text) p += string("\"nbf\":") + n.text;
  if (e.text) p += string(n.text ? "," : "") + "\"exp\":" + e.text;
  p += "}";
  const fx::Key& k = fx::key(fx::H0);
  Jwt j;
  Status ps = j.parseFromString(fx::token(fx::header("HS256"), p, k, "HS256"));
  if (ps != Status::Ok) mc::fail("payload %s does not parse: %s", p.c_str(), st(ps).c_str());
  MC_NOTE("payload %s", p.c_str());
  std::set<uint64_t> nows{0, 1, 59, 60, 61, 62, kMax};
  for (uint64_t b : {n.v, e.v})
    for (int64_t d : {-61, -60, -1, 0, 1, 60, 61}) nows.insert(b + d);
  for (uint64_t now : nows)
    for (uint64_t skew : {uint64_t(0), uint64_t(1), uint64_t(60), kMax}) {
      Status want = time_verdict(n.v, e.present, e.v, now, skew), got = verifyJwt(j, *hs().jwks, now, skew);
      mc::step();
      mc::state(mc::Hash().s(p).u(now).u(skew).h);
      mc::outcome(si(got));
      if (got == want) continue;
      string d = "a token with payload " + p + " at now=" + std::to_string(now) + " skew=" + std::to_string(skew) + ": expected " + st(want) + ", got " + st(got);
      if (e.present && e.v == 0 && want == Status::JwtExpired && got == Status::Ok)
        mc::fail_unless_known("explicit-exp-zero", d);
      else
        mc::fail("%s", d.c_str());
    }
}

// ---- C06 ----
string strip(string s) {
  for (const char* p : {"http://", "https://"})
    if (s.compare(0, strlen(p), p) == 0) {
      s = s.substr(strlen(p));
      break;
    }
  if (!s.empty() && s.back() == '/') s.pop_back();
  return s;
}
bool aud_ok(const vector<string>& conf, const vector<string>& jwt) {
  if (conf.empty()) return true;
  for (auto& c : conf)
    for (auto& j : jwt)
      if (strip(c) == strip(j)) return true;
  return false;
}
string list(const vector<string>& v) {
  string r = "[";
  for (auto& s : v) r += "\"" + mc::esc(s) + "\" ";
  return r + "]";
}
vector<string>& aud_strings() {
  static vector<string> r = [] {
    const char* tok[] = {"http://", "https://", "http:/", "HTTP://", "/", "a", "b", "A", " ", "ttp://"};
    std::set<string> all{""}, last{""};
    for (int d = 0; d < mc::qt(3, 4); d++) {
      std::set<string> next;
      for (auto& s : last)
        for (auto t : tok) next.insert(s + t);
      all.insert(next.begin(), next.end());
      last = next;
    }
    all.insert(string("a\0b", 3));
    all.insert(string("a\0", 2));
    all.insert(string(300, 'a'));
    all.insert(string(300, 'a') + "/");
    all.insert("\xc3\xa9");
    all.insert("e\xcc\x81");
    return vector<string>(all.begin(), all.end());
  }();
  return r;
}
void c06_pairs() {
  auto& v = aud_strings();
  const string& c = mc::pick("allowed", v);
  mc::state(mc::Hash().s(c).h);
  CheckAudience chk({c});
  if (chk.empty()) mc::fail("a list of allowed audiences holding %s is empty", mc::esc(c).c_str());
  string sc = strip(c);
  for (auto& j : v) {
    bool want = sc == strip(j), got = chk.areAudiencesAllowed({j});
    mc::step();
    mc::outcome(got);
    if (want != got) mc::fail("allowed \"%s\", token has \"%s\": expected %s", mc::esc(c).c_str(), mc::esc(j).c_str(), want ? "accepted" : "rejected");
  }
  if (chk.areAudiencesAllowed({})) mc::fail("allowed \"%s\", token has no audience: accepted", mc::esc(c).c_str());
}
void c06_lists() {
  const char* a[] = {"a", "", "/", "a/", "http://a", "https://a/", "A", "b", "http://", "b/"};
  vector<string> conf, jwt;
  int n = mc::choose("allowed audiences", 4);
  for (int i = 0; i < n; i++) conf.push_back(mc::pick("allowed", a));
  CheckAudience chk(conf);
  if (chk.empty() != conf.empty()) mc::fail("empty() of %s", list(conf).c_str());
  std::function<void(int)> rec = [&](int left) {
    bool want = aud_ok(conf, jwt), got = chk.areAudiencesAllowed(jwt);
    mc::step();
    mc::outcome(got);
    if (want != got) mc::fail("allowed %s, token has %s: expected %s", list(conf).c_str(), list(jwt).c_str(), want ? "accepted" : "rejected");
    if (!left) return;
    for (auto s : a) {
      jwt.push_back(s);
      rec(left - 1);
      jwt.pop_back();
    }
  };
  mc::Hash h;
  for (auto& s : conf) h.s(s);
  mc::state(h.h);
  rec(mc::qt(3, 4));
}

// Long lists and long strings: something may change with size.
const int kMany[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257};
std::set<int> places(int n) {
  std::set<int> r{0, n - 1, n / 2, 7, 8, 9, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256};
  for (int i = 0; i < 5; i++) r.insert(i);
  for (auto it = r.begin(); it != r.end();) it = *it < 0 || *it >= n ? r.erase(it) : std::next(it);
  return r;
}
void c06_long_lists() {
  int n = mc::pick("allowed audiences", kMany), m = mc::pick("token audiences", kMany);
  // forms: how the one match is written on either side, or how the other entries almost match
  static const char* const form[][2] = {{"svc", "svc"}, {"https://svc/", "svc"}, {"svc", "http://svc"}, {"", "/"}, {"svc", "Svc"}, {"svc/", "svc//"}};
  int f = mc::choose("form", 6);
  bool match = strip(form[f][0]) == strip(form[f][1]);
  mc::state(mc::Hash().u(n).u(m).u(f).h);
  // names of the other entries come in both orders, and with repetitions
  for (int style = 0; style < 4; style++) {
    auto other = [&](const char* side, int i, int n) {
      int k = style == 0 ? i : style == 1 ? n - i : style == 2 ? i / 2 : i * 7919 % 1009;
      char b[40];
      snprintf(b, sizeof b, "%s%05d%s", side, k, style == 3 ? "/" : "");
      return string(b);
    };
    vector<string> conf, jwt;
    for (int i = 0; i < n; i++) conf.push_back(other("c", i, n));
    for (int i = 0; i < m; i++) jwt.push_back(other("t", i, m));
    for (int i : places(n)) {
      vector<string> c = conf;
      c[i] = form[f][0];
      CheckAudience chk(c);
      auto ask = [&](const vector<string>& j, bool want, int at) {
        bool got = chk.areAudiencesAllowed(j);
        mc::step();
        mc::outcome(got);
        if (got != want)
          mc::fail("%d allowed audiences with \"%s\" as number %d, %d token audiences with \"%s\" as number %d (of style %d): expected %s", n, form[f][0], i, m,
                   form[f][1], at, style, want ? "accepted" : "rejected");
      };
      ask(jwt, false, -1);
      for (int j : places(m)) {
        vector<string> t = jwt;
        t[j] = form[f][1];
        ask(t, match, j);
      }
    }
  }
}
void c06_long_strings() {
  static const int lens[] = {1, 2, 7, 8, 9, 14, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1000000};
  int n = mc::pick("length", lens);
  string base(n, 'x');
  for (int i = 0; i < n; i++) base[i] = char('a' + i * 7 % 26);
  vector<string> v{base, "http://" + base, "https://" + base + "/", base + "/", base + "//", "http://http://" + base, base + string(1, '\0'), base + base,
                   base + string(n, '/'), string(n, '/') + base};
  for (int at : {0, 1, 6, 7, 8, 14, 15, 16, 22, 31, 32, 63, 64, 127, 128, 254, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 65535, n / 2, n - 2, n - 1})
    if (at >= 0 && at < n) {
      string s = base;
      s[at] = char(s[at] ^ 0x20);
      v.push_back(s);
      s.erase(at);
      v.push_back(s);
      string t = base;
      t[at] = '/';
      v.push_back(t);
    }
  mc::state(mc::Hash().u(n).h);
  for (auto& c : v) {
    CheckAudience chk({c});
    for (auto& j : v) {
      bool want = strip(c) == strip(j), got = chk.areAudiencesAllowed({j});
      mc::step();
      mc::outcome(got);
      if (want != got) mc::fail("strings number %d and %d derived from %d letters: expected %s", int(&c - &v[0]), int(&j - &v[0]), n, want ? "accepted" : "rejected");
    }
  }
}

// ---- C07 ----
struct Token {
  vector<string> aud;
  int sig;  // 0 good, 1 bad signature, 2 no key with that id
  Jwt jwt;
};
vector<Token>& tokens() {
  static vector<Token> v = [] {
    vector<Token> v;
    const fx::Key& k = fx::key(fx::H0);
    for (vector<string> aud : {vector<string>{}, {"a"}, {"c", "http://b/"}, {"c"}, {""}})
      for (int sig = 0; sig < 3; sig++) {
        string p = "{\"aud\":[";
        for (size_t i = 0; i < aud.size(); i++) p += (i ? ",\"" : "\"") + aud[i] + "\"";
        p += "]}";
        Token t{aud, sig, {}};
        string s = fx::token(fx::header("HS256", sig == 2 ? "other" : "k1"), p, k, "HS256");
        if (sig == 1) s[s.size() - 20] = s[s.size() - 20] == 'A' ? 'B' : 'A';
        if (t.jwt.parseFromString(s) != Status::Ok) mc::fail("fixture token does not parse");
        v.push_back(t);
        v.back().jwt = t.jwt;
      }
    return v;
  }();
  return v;
}
Jwks& c07_keys() {
  static JwksPtr j = Jwks::createFrom(jwks_of({jwk(fx::key(fx::H0).jwk, "", "k1")}), Jwks::JWKS);
  return *j;
}
const vector<string> kAllowed[] = {{}, {"a"}, {"b", "x"}, {"https://a", "c/"}, {""}};
const char* const kEntry[] = {"verifyJwtWithoutTimeChecking", "verifyJwt(jwt, jwks)", "verifyJwt(.., now)", "verifyJwt(.., now, skew)",
                              "verifyJwt(.., audiences)", "verifyJwt(.., audiences, now)"};
void call(int entry, Token& t, const vector<string>& allowed, uint64_t nbf, uint64_t exp, uint64_t now, uint64_t skew, int64_t wall, int64_t wall_ns, uint64_t iat) {
  t.jwt.nbf_ = nbf;
  t.jwt.exp_ = exp;
  t.jwt.iat_ = iat;
  g_wall_s = wall;
  g_wall_ns = wall_ns;
  g_fake_clock = true;
  Status got = Status::Ok;
  Jwks& ks = c07_keys();
  switch (entry) {
    case 0: got = verifyJwtWithoutTimeChecking(t.jwt, ks); break;
    case 1: got = verifyJwt(t.jwt, ks); break;
    case 2: got = verifyJwt(t.jwt, ks, now); break;
    case 3: got = verifyJwt(t.jwt, ks, now, skew); break;
    case 4: got = verifyJwt(t.jwt, ks, allowed); break;
    case 5: got = verifyJwt(t.jwt, ks, allowed, now); break;
  }
  g_fake_clock = false;
  mc::step();
  mc::outcome(si(got));
  std::set<Status> bad;
  if (entry >= 4 && !aud_ok(allowed, t.aud)) bad.insert(Status::JwtAudienceNotAllowed);
  if (entry >= 1) {
    uint64_t at = entry == 1 || entry == 4 ? uint64_t(wall) : now, sk = entry == 3 ? skew : 60;
    if (time_verdict(nbf, false, 0, at, sk) != Status::Ok) bad.insert(Status::JwtNotYetValid);
    if (time_verdict(0, exp != 0, exp, at, sk) != Status::Ok) bad.insert(Status::JwtExpired);
  }
  if (t.sig == 1) bad.insert(Status::JwtVerificationFail);
  if (t.sig == 2) bad.insert(Status::JwksKidAlgMismatch);
  bool ok = bad.empty() ? got == Status::Ok : bad.count(got) > 0;
  if (ok && !mc::g_want_notes) return;
  string d = string(kEntry[entry]) + ": token with audiences " + list(t.aud) + " and a signature that is " +
             (t.sig == 0 ? "good" : t.sig == 1 ? "bad" : "by a key of another id") + ", nbf=" + std::to_string(nbf) + " exp=" + std::to_string(exp) +
             ", allowed " + list(allowed) + ", iat=" + std::to_string(iat) + " now=" + std::to_string(now) + " skew=" + std::to_string(skew) + ", wall clock " + std::to_string(wall) + "." +
             std::to_string(wall_ns) + ": got " + st(got) + ", failing checks:";
  for (auto b : bad) d += " " + st(b);
  MC_NOTE("%s", d.c_str());
  if (!ok) mc::fail("%s", d.c_str());
}
void c07_single() {
  int entry = mc::choose("entry point", 6);
  Token& t = mc::pick("token", tokens());
  const vector<string>& allowed = entry >= 4 ? mc::pick("allowed", kAllowed) : kAllowed[0];
  int64_t walls[] = {1000, 0, 1700000000, 2147483647, 2147483648, 4294967296, 9000000000};
  int64_t wall = mc::pick("wall", walls);
  mc::state(mc::Hash().u(entry).u(&t - &tokens()[0]).u(wall).u(&allowed - kAllowed).h);
  bool wall_only = entry == 1 || entry == 4;
  for (int64_t ns : {0, 999999999}) {
    for (uint64_t now : {uint64_t(0), uint64_t(1000), uint64_t(1700000000), uint64_t(5000000000), uint64_t(1) << 63, kMax - 60, kMax}) {
      if (wall_only && now) continue;
      std::set<uint64_t> vals{0, 1, kMax};
      for (uint64_t b : {uint64_t(wall), now})
        for (int64_t d : {-61, -60, 0, 1, 60, 61}) vals.insert(b + d);
      for (uint64_t nbf : vals)
        for (uint64_t exp : vals) {
          for (uint64_t iat : {uint64_t(0), uint64_t(wall) + 100, uint64_t(1), kMax}) {
            if (entry == 3) {
              for (uint64_t skew : {uint64_t(0), uint64_t(60), uint64_t(61), kMax}) call(entry, t, allowed, nbf, exp, now, skew, wall, ns, iat);
            } else {
              call(entry, t, allowed, nbf, exp, now, 12345, wall, ns, iat);
            }
          }
        }
    }
  }
}
// Sequences of calls while the wall clock moves: nothing may be remembered.
void c07_seq() {
  int n = mc::qt(3, 4);
  static const int kTok[] = {0, 3, 4, 5, 9};  // no audience; "a" good, bad, other key; "c"
  for (int i = 0; i < n; i++) {
    int entry = mc::choose("entry point", 6);
    Token& t = tokens()[mc::pick("token", kTok)];
    int64_t walls[] = {1000, 2000};
    int64_t wall = mc::pick("wall", walls);
    // valid only around 1000; the given time is the other one than the wall clock
    const vector<string>& allowed = kAllowed[entry >= 4 ? mc::choose("allowed", 2) : 0];
    call(entry, t, allowed, 900, 1100, wall == 1000 ? 2000 : 1000, 0, wall, 5, 0);
  }
}

// ---- C21 ----
typedef google::protobuf::Struct PStruct;
typedef google::protobuf::Value PValue;
enum { kMissing, kStr, kEmptyStr, kNum, kBool, kNull, kList0, kListS, kListMixed, kListLast, kObj, kUnset, kKinds };
void fill_value(PValue* v, int kind, int depth, const char* name);
void fill_struct(PStruct* s, int depth) {
  static const char* const keys0[] = {"a", "b", "a.b", "", "."};
  static const char* const keys1[] = {"a", "b", ""};
  int n = depth == 0 ? 5 : 3;
  for (int i = 0; i < n; i++) {
    const char* k = depth == 0 ? keys0[i] : keys1[i];
    int kind = mc::choose(k, depth < 3 ? kKinds : kObj, 1);
    if (kind != kMissing) fill_value(&(*s->mutable_fields())[k], kind, depth, k);
  }
}
void fill_value(PValue* v, int kind, int depth, const char* name) {
  string tag = name + std::to_string(depth);
  switch (kind) {
    case kStr: v->set_string_value("s" + tag); break;
    case kEmptyStr: v->set_string_value(""); break;
    case kNum: v->set_number_value(7.25 + depth); break;
    case kBool: v->set_bool_value(depth % 2 == 0); break;
    case kNull: v->set_null_value(google::protobuf::NULL_VALUE); break;
    case kList0: v->mutable_list_value(); break;
    case kListS:
      v->mutable_list_value()->add_values()->set_string_value("x" + tag);
      v->mutable_list_value()->add_values()->set_string_value("");
      break;
    case kListMixed:
      v->mutable_list_value()->add_values()->set_number_value(1);
      v->mutable_list_value()->add_values()->set_string_value("x");
      break;
    case kListLast:
      v->mutable_list_value()->add_values()->set_string_value("x");
      v->mutable_list_value()->add_values()->mutable_list_value();
      break;
    case kObj: fill_struct(v->mutable_struct_value(), depth + 1); break;
    default: break;  // kUnset
  }
}
// Independent lookup over the components of the path.
StructUtils::FindResult ref_find(const PStruct& s, const vector<string>& path, size_t i, const PValue** out) {
  const PValue* v = nullptr;
  for (auto& f : s.fields())
    if (f.first == path[i]) v = &f.second;
  if (!v) return StructUtils::MISSING;
  if (i + 1 == path.size()) {
    *out = v;
    return StructUtils::OK;
  }
  if (!v->has_struct_value()) return StructUtils::WRONG_TYPE;
  return ref_find(v->struct_value(), path, i + 1, out);
}
void c21_lookup(const PStruct& s, const vector<string>& path) {
  string name;
  for (size_t i = 0; i < path.size(); i++) name += (i ? "." : "") + path[i];
  const PValue* v = nullptr;
  auto r = ref_find(s, path, 0, &v);
  StructUtils u(s);
  auto check = [&](const char* fn, int got, bool type_ok, bool range_ok = true) {
    mc::step();
    int want = r != StructUtils::OK ? r : !type_ok ? StructUtils::WRONG_TYPE : !range_ok ? StructUtils::OUT_OF_RANGE : StructUtils::OK;
    mc::outcome(want);
    if (got != want) mc::fail("%s(\"%s\") of %s: expected result %d, got %d", fn, name.c_str(), canon(s).c_str(), want, got);
    return want == StructUtils::OK;
  };
  const PValue* found = nullptr;
  if (check("GetValue", u.GetValue(name, found), true) && found != v) mc::fail("GetValue(\"%s\") of %s returns another value", name.c_str(), canon(s).c_str());
  string str = "unset";
  if (check("GetString", u.GetString(name, &str), v && v->kind_case() == PValue::kStringValue) && str != v->string_value())
    mc::fail("GetString(\"%s\") of %s returns \"%s\"", name.c_str(), canon(s).c_str(), str.c_str());
  double d = -1;
  bool isnum = v && v->kind_case() == PValue::kNumberValue;
  double nv = isnum ? v->number_value() : 0;
  if (check("GetDouble", u.GetDouble(name, &d), isnum) && memcmp(&d, &nv, sizeof d)) mc::fail("GetDouble(\"%s\") of %s returns %.17g", name.c_str(), canon(s).c_str(), d);
  uint64_t n = 99;
  bool in = nv >= 0 && nv < 18446744073709551616.0;  // false for NaN
  if (check("GetUInt64", u.GetUInt64(name, &n), isnum, in)) {
    // exact: compare as long double, which holds every uint64 and every double of the range
    long double t = truncl((long double)nv);
    if ((long double)n != t) mc::fail("GetUInt64(\"%s\") of %s returns %llu", name.c_str(), canon(s).c_str(), (unsigned long long)n);
  }
  bool b = !(v && v->bool_value());
  if (check("GetBoolean", u.GetBoolean(name, &b), v && v->kind_case() == PValue::kBoolValue) && b != v->bool_value())
    mc::fail("GetBoolean(\"%s\") of %s returns %d", name.c_str(), canon(s).c_str(), b);
  vector<string> l, wl;
  bool lok = false;
  if (v && v->kind_case() == PValue::kStringValue) {
    lok = true;
    wl.push_back(v->string_value());
  } else if (v && v->kind_case() == PValue::kListValue) {
    lok = true;
    for (auto& e : v->list_value().values()) {
      if (e.kind_case() != PValue::kStringValue) lok = false;
      wl.push_back(e.string_value());
    }
  }
  if (check("GetStringList", u.GetStringList(name, &l), lok) && l != wl) mc::fail("GetStringList(\"%s\") of %s returns %s", name.c_str(), canon(s).c_str(), list(l).c_str());
}
vector<vector<string>>& paths() {
  static vector<vector<string>> r = [] {
    vector<vector<string>> r;
    for (auto a : {"a", "b", "", "c"}) {
      r.push_back({a});
      for (auto b : {"a", "b", "", "c"}) {
        r.push_back({a, b});
        for (auto c : {"a", "b", ""}) {
          r.push_back({a, b, c});
          if (*a == 'a') r.push_back({a, b, c, "a"});
        }
      }
    }
    return r;
  }();
  return r;
}
void c21_struct() {
  PStruct s;
  fill_struct(&s, 0);
  string before = canon(s);
  mc::state(mc::Hash().s(before).h);
  MC_NOTE("%s", before.c_str());
  for (auto& p : paths()) c21_lookup(s, p);
  if (canon(s) != before) mc::fail("lookups changed the object");
}
void c21_numbers() {
  static vector<double> v = [] {
    vector<double> v{NAN, -NAN, INFINITY, -INFINITY, 0.0, -0.0, 5e-324, -5e-324, 1e-300, -1e-300, 0.5, -0.5, 0.9999999999999999, 1e308, -1e308};
    for (int e = 0; e <= 70; e++)
      for (double sgn : {1.0, -1.0}) {
        double b = ldexp(sgn, e);
        for (double x : {b, nextafter(b, INFINITY), nextafter(b, -INFINITY), b + 0.5, b - 0.5, b + 1, b - 1}) v.push_back(x);
      }
    return v;
  }();
  double x = mc::pick("number", v);
  mc::state(mc::Hash().s(string((char*)&x, 8)).h);
  PStruct s;
  (*s.mutable_fields())["a"].set_number_value(x);
  (*(*s.mutable_fields())["b"].mutable_struct_value()->mutable_fields())["a"].set_number_value(x);
  c21_lookup(s, {"a"});
  c21_lookup(s, {"b", "a"});
}

// Deep paths, long names, wide objects and long lists.
void c21_deep() {
  static const int lens[] = {1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 1000};
  static const int depths[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 31, 32, 33, 40};
  int d = mc::pick("depth", depths), len = mc::pick("name length", lens);
  auto name = [&](int i) { return string(len - 1, 'n') + char('a' + i % 26); };
  // kind of the member the path meets at `stop`
  int stop = mc::choose("level", d);
  int kind = mc::choose("kind", 5);
  PStruct s;
  PStruct* at = &s;
  vector<string> path;
  for (int i = 0; i < d; i++) {
    path.push_back(name(i));
    // a neighbour with almost the same name
    (*at->mutable_fields())[name(i) + "x"].set_string_value("neighbour");
    if (len > 1) (*at->mutable_fields())[name(i).substr(0, len - 1)].set_string_value("shorter neighbour");
    if (i == stop && kind == 0) break;
    PValue& v = (*at->mutable_fields())[name(i)];
    if (i == stop) {
      if (kind == 1) v.set_string_value("s" + std::to_string(i));
      if (kind == 2) v.set_number_value(i + 0.5);
      if (kind == 3) v.mutable_struct_value();
      if (kind == 4) v.mutable_list_value()->add_values()->set_string_value("e");
      break;
    }
    at = v.mutable_struct_value();
  }
  while (int(path.size()) < d) path.push_back(name(path.size()));
  mc::state(mc::Hash().u(d).u(len).u(stop).u(kind).h);
  c21_lookup(s, path);
  path.resize(stop + 1);
  c21_lookup(s, path);
  path.push_back("");
  c21_lookup(s, path);
  path.back() = "zz";
  c21_lookup(s, path);
}
void c21_wide() {
  int n = mc::pick("members", kMany);
  bool nested = mc::choose("nested", 2);
  PStruct s;
  PStruct* at = nested ? (*s.mutable_fields())["a"].mutable_struct_value() : &s;
  vector<string> pre;
  if (nested) pre.push_back("a");
  for (int i = 0; i < n; i++) {
    PValue& v = (*at->mutable_fields())["m" + std::to_string(i)];
    if (i % 3 == 0) v.set_string_value("s" + std::to_string(i));
    if (i % 3 == 1) v.set_number_value(i);
    if (i % 3 == 2)
      for (int j = 0; j < n; j++) {
        // of the long lists, every second has one member that is no string
        auto* e = v.mutable_list_value()->add_values();
        if (i % 2 && j == i % n)
          e->set_number_value(1);
        else
          e->set_string_value(std::to_string(i) + "." + std::to_string(j));
      }
  }
  mc::state(mc::Hash().u(n).u(nested).h);
  for (int i = 0; i <= n; i++) {
    vector<string> p = pre;
    p.push_back("m" + std::to_string(i));
    c21_lookup(s, p);
  }
}

// ---- C22 ----
struct StatusWords {
  Status s;
  const char* words;  // all of them occur in the description (any case)
};
#define S(n, w) {Status::n, w}
const StatusWords kWords[] = {
    S(Ok, "ok"), S(JwtMissed, "jwt missing"), S(JwtNotYetValid, "jwt not yet valid"), S(JwtExpired, "jwt expired"),
    S(JwtBadFormat, "jwt header.payload.signature"), S(JwtHeaderParseErrorBadBase64, "jwt header base64"),
    S(JwtHeaderParseErrorBadJson, "jwt header json"), S(JwtHeaderBadAlg, "jwt header alg string"),
    S(JwtHeaderNotImplementedAlg, "jwt header alg support"), S(JwtHeaderBadKid, "jwt header kid string"),
    S(JwtPayloadParseErrorBadBase64, "jwt payload base64"), S(JwtPayloadParseErrorBadJson, "jwt payload json"),
    S(JwtPayloadParseErrorIssNotString, "jwt payload [iss] string"), S(JwtPayloadParseErrorSubNotString, "jwt payload [sub] string"),
    S(JwtPayloadParseErrorIatNotInteger, "jwt payload [iat] not integer"), S(JwtPayloadParseErrorIatOutOfRange, "jwt payload [iat] 64"),
    S(JwtPayloadParseErrorNbfNotInteger, "jwt payload [nbf] not integer"), S(JwtPayloadParseErrorNbfOutOfRange, "jwt payload [nbf] 64"),
    S(JwtPayloadParseErrorExpNotInteger, "jwt payload [exp] not integer"), S(JwtPayloadParseErrorExpOutOfRange, "jwt payload [exp] 64"),
    S(JwtPayloadParseErrorJtiNotString, "jwt payload [jti] string"), S(JwtPayloadParseErrorAudNotString, "jwt payload [aud] string list"),
    S(JwtSignatureParseErrorBadBase64, "jwt signature base64"), S(JwtEd25519SignatureWrongLength, "jwt ed25519 signature length"),
    S(JwtUnknownIssuer, "jwt issuer"), S(JwtAudienceNotAllowed, "audience allowed"), S(JwtVerificationFail, "jwt verification fail"),
    S(JwtMultipleTokens, "multiple jwt"), S(JwksParseError, "jwks json"), S(JwksNoKeys, "jwks not [keys]"), S(JwksBadKeys, "[keys] jwks array"),
    S(JwksNoValidKeys, "jwks valid key"), S(JwksKidAlgMismatch, "jwks kid alg match"), S(JwksRsaParseError, "rsa [n] [e] parse"),
    S(JwksEcCreateKeyFail, "ec create key"), S(JwksEcXorYBadBase64, "ec [x] [y] base64"), S(JwksEcParseError, "ec [x] [y] parse"),
    S(JwksOctBadBase64, "oct base64"), S(JwksOKPXBadBase64, "okp [x] base64"), S(JwksOKPXWrongLength, "okp [x] length"),
    S(JwksFetchFail, "jwks fetch fail"), S(JwksMissingKty, "[kty] missing"), S(JwksBadKty, "[kty] bad"), S(JwksNotImplementedKty, "[kty] not support"),
    S(JwksRSAKeyBadAlg, "[alg] rsa"), S(JwksRSAKeyMissingN, "[n] missing rsa"), S(JwksRSAKeyBadN, "[n] string rsa"),
    S(JwksRSAKeyMissingE, "[e] missing rsa"), S(JwksRSAKeyBadE, "[e] string rsa"), S(JwksECKeyBadAlg, "[alg] ec"), S(JwksECKeyBadCrv, "[crv] string ec"),
    S(JwksECKeyAlgOrCrvUnsupported, "[crv] [alg] support ec"), S(JwksECKeyAlgNotCompatibleWithCrv, "[crv] [alg] compatible ec"),
    S(JwksECKeyMissingX, "[x] missing ec"), S(JwksECKeyBadX, "[x] string ec"), S(JwksECKeyMissingY, "[y] missing ec"), S(JwksECKeyBadY, "[y] string ec"),
    S(JwksHMACKeyBadAlg, "[alg] hmac"), S(JwksHMACKeyMissingK, "[k] missing hmac"), S(JwksHMACKeyBadK, "[k] string hmac"),
    S(JwksOKPKeyBadAlg, "[alg] okp"), S(JwksOKPKeyMissingCrv, "[crv] missing okp"), S(JwksOKPKeyBadCrv, "[crv] string okp"),
    S(JwksOKPKeyCrvUnsupported, "[crv] support okp"), S(JwksOKPKeyMissingX, "[x] missing okp"), S(JwksOKPKeyBadX, "[x] string okp"),
    S(JwksX509BioWriteError, "x509 memory"), S(JwksX509ParseError, "x509 parse fail"), S(JwksX509GetPubkeyError, "x509 get pubkey"),
    S(JwksPemNotImplementedKty, "pem type support"), S(JwksPemBadBase64, "pem parse fail"), S(JwksPemGetRawEd25519Error, "pem raw ed25519"),
    S(JwksBioAllocError, "bio alloc"),
};
#undef S
const int kStatuses = sizeof kWords / sizeof kWords[0];
string lower(string s) {
  for (auto& c : s) c = tolower((unsigned char)c);
  return s;
}
string desc_of(int i) {  // i over the enumeration and values outside of it
  static const int out[] = {-1, kStatuses, kStatuses + 1, 127, 128, 255, 256, 65536, 1 << 30, INT32_MAX, INT32_MIN};
  int v = i < kStatuses ? si(kWords[i].s) : out[i - kStatuses];
  mc::step();
  return google::jwt_verify::getStatusString(static_cast<Status>(v));
}
void c22() {
  const int all = kStatuses + 11;
  static bool values_checked = false;
  if (!values_checked) {  // the table covers the enumeration, whose values are contiguous
    for (int i = 0; i < kStatuses; i++)
      if (si(kWords[i].s) != i) mc::fail("status %d of the table has the value %d", i, si(kWords[i].s));
    values_checked = true;
  }
  int a = mc::choose("first", all), b = mc::choose("second", all);
  string da = desc_of(a), db = desc_of(b), da2 = desc_of(a);
  mc::state(mc::Hash().s(da).s(db).h);
  mc::outcome(da.empty());
  if (da != da2) mc::fail("status %d: described as \"%s\", then as \"%s\"", a, da.c_str(), da2.c_str());
  if (a < kStatuses) {
    if (da.empty()) mc::fail("status %d has no description", a);
    string low = lower(da), w = kWords[a].words;
    for (size_t p = 0; p < w.size();) {
      size_t e = w.find(' ', p);
      if (e == string::npos) e = w.size();
      if (low.find(w.substr(p, e - p)) == string::npos)
        mc::fail("status %d is described as \"%s\", which does not speak of \"%s\"", a, da.c_str(), w.substr(p, e - p).c_str());
      p = e + 1;
    }
  } else if (!da.empty()) {
    mc::fail("a value outside the enumeration is described as \"%s\"", da.c_str());
  }
  if (a != b && a < kStatuses && b < kStatuses && da == db) mc::fail("statuses %d and %d have the same description \"%s\"", a, b, da.c_str());
}

void reg() {
  auto& S = mc::suites();
  S.push_back({"time-grid", {"C05"}, c05_grid, -1, -1,
               "every (nbf, exp, now, skew) of 38 (thorough: 54) boundary values each (0, 1, around 60, 2^31, 2^32, 2^53, 2^63, 2^64), through verifyTimeConstraint "
               "and, for skews up to 60 and near 2^64, every entry point with a genuine HS256 token", false});
  S.push_back({"time-cube", {"C05"}, c05_cube, -1, -1, "every (nbf, exp, now, skew) of the cubes of side 9 (17) at 0, 2^63 and the top of the 64-bit range, in every combination", false});
  S.push_back({"time-text", {"C05"}, c05_text, -1, -1, "nbf and exp as 15 literals of a parsed token, at every time next to their bounds", false});
  S.push_back({"aud-pairs", {"C06"}, c06_pairs, -1, -1, "every pair of strings made of up to 3 (4) of 10 tokens (schemes, partial schemes, slashes, letters, blanks)", false});
  S.push_back({"aud-lists", {"C06"}, c06_lists, -1, -1, "every list of up to 3 allowed audiences x every list of up to 3 (4) token audiences of 10 strings", false});
  S.push_back({"aud-long-lists", {"C06"}, c06_long_lists, -1, -1, "28x28 lengths up to 257 of the two lists x 6 forms of one pair x its places x 4 orders of the others", false});
  S.push_back({"aud-long-strings", {"C06"}, c06_long_strings, -1, -1, "strings of 37 lengths up to a million: every pair of the string, its decorated forms and its single edits at up to 28 places", false});
  S.push_back({"entries", {"C07"}, c07_single, -1, -1,
               "6 entry points x (5 audience lists x 3 signature outcomes) x 5 allowed lists x 7x2 wall clock values x 7 given times x every nbf and exp next to their bounds x 4 skews", false});
  S.push_back({"entry-seq", {"C07"}, c07_seq, -1, -1, "every sequence of 3 (4) calls over 6 entry points, 5 tokens, 2 wall clock values, 2 allowed lists", false});
  S.push_back({"objects", {"C21"}, c21_struct, 3, 4, "every object of depth up to 4 with at most 3 (4) fields of 11 kinds under names including the empty one and ones with dots x every path of up to 4 components x 6 getters", false});
  S.push_back({"numbers", {"C21"}, c21_numbers, -1, -1, "about 1000 doubles around every power of two up to 2^70, both signs, NaN and infinities", false});
  S.push_back({"deep-paths", {"C21"}, c21_deep, -1, -1, "paths of 22 depths up to 40 with names of 14 lengths up to 1000 that meet nothing, or a value of 4 kinds, at every level", false});
  S.push_back({"wide-objects", {"C21"}, c21_wide, -1, -1, "objects of 28 sizes up to 257 members of 3 kinds, lists as long, every member", false});
  S.push_back({"descriptions", {"C22"}, c22, -1, -1, "every ordered pair of the statuses and 11 values outside the enumeration", false});
}
}  // namespace

int main(int argc, char** argv) {
  reg();
  return mc::main_(argc, argv);
}
