// C19: no text makes the library crash, read out of bounds, invoke undefined behaviour or hang; every outcome is a
// documented status. Runs under AddressSanitizer and UndefinedBehaviorSanitizer, with assertions on.
#include "../lib/jwtmc.h"
#include <memory>

using namespace jm;
using google::jwt_verify::CheckAudience;
using google::jwt_verify::StructUtils;
using google::jwt_verify::verifyJwt;
using google::jwt_verify::verifyJwtWithoutTimeChecking;

namespace {
vector<Jwt>* g_jwts;   // one genuine and one altered token per algorithm
vector<JwksPtr>* g_sets;  // one set per key type, and one of all

void documented(Status s, const char* what) {
  mc::step();
  mc::outcome(si(s));
  if (si(s) < 0 || google::jwt_verify::getStatusString(s).empty()) mc::fail("%s reports the undocumented status %d", what, si(s));
}
void init() {
  if (g_jwts) return;
  g_jwts = new vector<Jwt>;
  for (const char* a : fx::kAlgs) {
    string t = fx::token(fx::header(a), "{\"exp\":1}", fx::key(fx::key_for(a)), a);
    g_jwts->resize(g_jwts->size() + 1);
    g_jwts->back().parseFromString(t);
    t[t.size() - 6] = t[t.size() - 6] == 'A' ? 'B' : 'A';
    g_jwts->resize(g_jwts->size() + 1);
    g_jwts->back().parseFromString(t);
  }
  g_sets = new vector<JwksPtr>;
  vector<string> all;
  for (int i = 0; i < fx::kNumKeys; i += 2) {
    g_sets->push_back(Jwks::createFrom(jwks_of({jwk(fx::key(i).jwk)}), Jwks::JWKS));
    all.push_back(jwk(fx::key(i).jwk));
  }
  g_sets->push_back(Jwks::createFrom(jwks_of(all), Jwks::JWKS));
}
// Everything one can do with a token text.
void use_token(const string& text) {
  Jwt j;
  Status s = j.parseFromString(text);
  documented(s, "parseFromString");
  MC_NOTE("token %s: status %s", mc::esc(text).c_str(), st(s).c_str());
  Jwt k(j), l;
  l = j;
  j = j;
  documented(l.verifyTimeConstraint(~0ull, ~0ull), "verifyTimeConstraint");
  documented(verifyJwt(k, *g_sets->back(), vector<string>{"a", "https://b/"}), "verifyJwt");
  documented(verifyJwtWithoutTimeChecking(j, *g_sets->back()), "verifyJwtWithoutTimeChecking");
  StructUtils h(j.header_pb_), p(j.payload_pb_);
  string v;
  vector<string> vv;
  uint64_t n;
  const google::protobuf::Value* pv;
  for (const char* m : {"alg", "iss", "aud", "exp", ".", "a.b", ""}) {
    h.GetString(m, &v);
    p.GetString(m, &v);
    p.GetStringList(m, &vv);
    p.GetUInt64(m, &n);
    p.GetValue(m, pv);
  }
}
void use_set(Jwks& s, bool all_tokens = true) {
  documented(s.getStatus(), "the key set");
  for (auto& k : s.keys()) {
    // As the verification will use it.
    if (k->kty_.empty()) mc::fail("a key without type is in the set");
  }
  if (s.keys().empty()) {
    documented(verifyJwtWithoutTimeChecking((*g_jwts)[0], s), "verify");
    return;
  }
  const string& t = s.keys()[0]->kty_;
  for (auto& j : *g_jwts)
    if (all_tokens || fx::alg_kty(j.alg_) == t) documented(verifyJwtWithoutTimeChecking(j, s), "verify");
}
void use_json(const string& text) {
  JwksPtr s = Jwks::createFrom(text, Jwks::JWKS);
  MC_NOTE("JSON %s: status %s, %zu keys", mc::esc(text).c_str(), st(s->getStatus()).c_str(), s->keys().size());
  use_set(*s, false);
}
void use_pem(const string& text) {
  JwksPtr s = Jwks::createFromPem(text, "kid", "");
  MC_NOTE("PEM %s: status %s, %zu keys", mc::esc(text, 1200).c_str(), st(s->getStatus()).c_str(), s->keys().size());
  use_set(*s, false);
  JwksPtr t = Jwks::createFrom(text, Jwks::PEM);
  documented(t->addKeyFromPem(text, "", "RS256"), "addKeyFromPem");
}

// All concatenations of up to n fragments.
string concat(const vector<string>& frag, int n) {
  string r;
  for (int i = 0; i < n; i++) {
    int c = mc::choose("fragment", frag.size() + 1);
    if (!c) break;
    r += frag[c - 1];
  }
  mc::state(mc::Hash().s(r).h);
  return r;
}
void short_token_body() {
  static const vector<string> f = {".", fx::b64u(fx::header("RS256")), fx::b64u(fx::header("EdDSA", "k")), fx::b64u("{\"exp\":1}"), "e30", "*", "=", "A", string(1, 0), "\xff", fx::b64u("sig")};
  use_token(concat(f, mc::qt(6, 7)));
}
void short_json_body() {
  static const vector<string> ctx = {"", "{\"keys\":[", "{\"keys\":[{\"kty\":", "{\"keys\":[{\"kty\":\"EC\",\"x\":", "{\"a\":"};
  static const vector<string> f = {"{", "}", "[", "]", ":", ",", "\"keys\"", "\"kty\"", "\"RSA\"", "\"\\u0000\"", "\"\\ud800\"", "-1e999", "null", "\"", "\\", string(1, 0), "\xff\xfe",
                                   "\"-----BEGIN CERTIFICATE-----\\n\\n-----END CERTIFICATE-----\\n\""};
  const string& c = mc::pick("context", ctx);
  use_json(c + concat(f, mc::qt(4, 5)));
}
// The same as claims of a token.
void short_claims_body() {
  static const vector<string> ctx = {"", "{\"aud\":", "{\"exp\":", "{\"a\":{\"b\":", "{\"iss\":\"x\","};
  static const vector<string> f = {"{", "}", "[", "]", ":", ",", "\"a\"", "\"aud\"", "18446744073709551616", "-0", "1e308", "NaN", "Infinity", "null", "\"", "\xff"};
  bool hdr = mc::choose("section", 2);
  string t = mc::pick("context", ctx);
  t += concat(f, mc::qt(3, 4));
  string sig = "." + fx::b64u("sig");
  use_token(hdr ? fx::b64u(t) + "." + fx::b64u("{}") + sig : fx::b64u(fx::header("HS256")) + "." + fx::b64u(t) + sig);
}
void pem_text_body() {
  static const vector<string> f = {"-----BEGIN PUBLIC KEY-----\n", "-----END PUBLIC KEY-----\n", "-----BEGIN PUBLIC KEY-----", "-----", "\n", "MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAE", "A", "=", "====\n",
                                   string(1, 0), "Proc-Type: 4,ENCRYPTED\nDEK-Info: AES-128-CBC,00\n\n", "-----BEGIN RSA PUBLIC KEY-----\n", string(2000, 'A'), "\r\n"};
  use_pem(concat(f, mc::qt(5, 6)));
}

// ---- edits of DER ----
struct Doc {
  string name, label, der;
};
vector<Doc>* g_docs;
string unpem(const string& p) {
  string b;
  size_t a = p.find('\n') + 1, e = p.rfind("-----END");
  static string t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  unsigned acc = 0;
  int bits = 0;
  for (size_t i = a; i < e; i++) {
    size_t v = t.find(p[i]);
    if (v == string::npos) continue;
    acc = acc << 6 | unsigned(v);
    bits += 6;
    if (bits >= 8) {
      bits -= 8;
      b += char(acc >> bits);
      acc &= (1u << bits) - 1;
    }
  }
  return b;
}
string b64lines(const string& d) {
  string u = fx::b64u(d), r;
  for (auto& c : u) c = c == '-' ? '+' : c == '_' ? '/' : c;
  while (u.size() % 4) u += '=';
  for (size_t i = 0; i < u.size(); i += 64) r += u.substr(i, 64) + "\n";
  return r;
}
void init_docs() {
  init();
  if (g_docs) return;
  g_docs = new vector<Doc>;
  for (int i = 0; i < fx::kNumKeys; i += 2)
    if (!fx::key(i).pem.empty()) g_docs->push_back({"PEM " + fx::key(i).name, "PUBLIC KEY", unpem(fx::key(i).pem)});
  g_docs->push_back({"PEM X25519", "PUBLIC KEY", unpem(fx::kX0_pub)});
  g_docs->push_back({"PEM P-224", "PUBLIC KEY", unpem(fx::kP224_pub)});
  g_docs->push_back({"PEM DSA", "PUBLIC KEY", unpem(fx::kD0_pub)});
  g_docs->push_back({"certificate R0", "CERTIFICATE", unpem(fx::kR0_crt)});
  g_docs->push_back({"certificate E0", "CERTIFICATE", unpem(fx::kE0_crt)});
  g_docs->push_back({"certificate O0", "CERTIFICATE", unpem(fx::kO0_crt)});
}
void der_body() {
  const Doc& d = mc::pick("document", *g_docs);
  string x = d.der;
  int at = mc::choose("byte", x.size());
  int what = mc::choose("edit", mc::qt(9, 4 + 255));
  unsigned char c = x[at];
  switch (what) {
    case 0: x = x.substr(0, at); break;
    case 1: x.erase(at, 1); break;
    case 2: x.insert(at, 1, x[at]); break;
    case 3: x = x.substr(0, at) + string(x.size() - at, '\xff'); break;
    default:
      if (mc::thorough()) {
        x[at] = char(c + what - 3);
      } else {
        const unsigned char v[] = {0, 0xff, uint8_t(c ^ 0x80), uint8_t(c + 1), uint8_t(c - 1)};
        x[at] = char(v[what - 4]);
      }
  }
  string pem = "-----BEGIN " + d.label + "-----\n" + b64lines(x) + "-----END " + d.label + "-----\n";
  MC_NOTE("%s, edit %d at byte %d", d.name.c_str(), what, at);
  mc::state(mc::Hash().s(x).h);
  if (d.label == "PUBLIC KEY") {
    use_pem(pem);
  } else {
    string j;
    for (char ch : pem) j += ch == '\n' ? string("\\n") : string(1, ch);
    use_json("{\"kid\":\"" + j + "\"}");
  }
}

// ---- members of JWKs of every length ----
void jwk_len_body() {
  struct M {
    const char* pre;
    const char* mid;
    int max;
  };
  int kind = mc::choose("member", 11);
  int len = mc::choose("length", mc::qt(140, 700));
  if (kind <= 1 && !mc::thorough()) {  // RSA: around the sizes that matter
    const int at[] = {0, 56, 120, 248, 376, 504, 1016, 2040};
    len = at[len % 8] + len / 8;
  }
  int fill = mc::choose("fill", 4);
  string v(len, fill == 0 ? '\0' : fill == 1 ? '\xff' : fill == 2 ? 'U' : '\x01');
  if (fill == 3 && len) v[0] = '\0';
  if (kind <= 1 && len) v[len - 1] |= 1;
  string b = fx::b64u(v);
  const fx::Key &r = fx::key(fx::R0), &e = fx::key(fx::E0), &f = fx::key(fx::F0), &g = fx::key(fx::G0);
  string m;
  auto ec = [&](const fx::Key& k, bool x, bool both) {
    m = "\"kty\":\"EC\",\"crv\":\"" + k.crv + "\",\"x\":\"" + (x || both ? b : fx::b64u(k.x)) + "\",\"y\":\"" + (!x || both ? b : fx::b64u(k.y)) + "\"";
  };
  switch (kind) {
    case 0: m = "\"kty\":\"RSA\",\"e\":\"AQAB\",\"n\":\"" + b + "\""; break;
    case 1: m = "\"kty\":\"RSA\",\"e\":\"Aw\",\"n\":\"" + b + "\""; break;
    case 2: m = "\"kty\":\"RSA\",\"n\":\"" + fx::b64u(r.n) + "\",\"e\":\"" + b + "\""; break;
    case 3: ec(e, true, false); break;
    case 4: ec(e, false, false); break;
    case 5: ec(e, true, true); break;
    case 6: ec(f, true, false); break;
    case 7: ec(g, true, false); break;
    case 8: ec(g, false, true); break;
    case 9: m = "\"kty\":\"oct\",\"k\":\"" + b + "\""; break;
    case 10: m = "\"kty\":\"OKP\",\"crv\":\"Ed25519\",\"x\":\"" + b + "\""; break;
  }
  MC_NOTE("member %d, length %d, fill %d", kind, len, fill);
  mc::state(mc::Hash().u(kind).u(len).u(fill).h);
  use_json(jwks_of({"{" + m + "}"}));
}
// Every member of every kind of value.
void jwk_member_body() {
  static const char* const vals[] = {"", "1", "null", "{}", "[]", "[\"a\"]", "true", "\"\"", "\"*\"", "\"A\"", "\"AA\"", "\"AAA=\"", "\"RS256\"", "\"R\"", "\"ES\"", "\"P-256\"", "\"RSA\"", "\"EC\"", "\"oct\"", "\"OKP\"", "\"\\u0000\""};
  int base = mc::choose("key type", 6);
  const int ids[] = {fx::R0, fx::E0, fx::F0, fx::G0, fx::H0, fx::O0};
  const fx::Key& k = fx::key(ids[base]);
  std::map<string, string> m;
  m["kty"] = "\"" + k.kty + "\"";
  if (k.kty == "RSA") m["n"] = "\"" + fx::b64u(k.n) + "\"", m["e"] = "\"" + fx::b64u(k.e) + "\"";
  if (k.kty == "EC") m["x"] = "\"" + fx::b64u(k.x) + "\"", m["y"] = "\"" + fx::b64u(k.y) + "\"", m["crv"] = "\"" + k.crv + "\"";
  if (k.kty == "oct") m["k"] = "\"" + fx::b64u(k.k) + "\"";
  if (k.kty == "OKP") m["x"] = "\"" + fx::b64u(k.x) + "\"", m["crv"] = "\"" + k.crv + "\"";
  for (const char* n : {"kty", "alg", "kid", "crv", "n", "e", "x", "y", "k", ""})
    if (int c = mc::choose("value of a member", std::size(vals) + 1, 1)) m[n] = vals[c - 1];
  string t;
  for (auto& p : m)
    if (!p.second.empty()) t += (t.empty() ? "" : ",") + ("\"" + p.first + "\":") + p.second;
  mc::state(mc::Hash().s(t).h);
  use_json(jwks_of({"{" + t + "}"}));
}
// Signatures of every length against every key.
void sig_len_body() {
  const char* alg = fx::kAlgs[mc::choose("algorithm", fx::kNumAlgs)];
  int len = mc::choose("length", mc::qt(280, 1100)), fill = mc::choose("fill", 3);
  string sig(len, fill == 0 ? '\0' : fill == 1 ? '\xff' : '\x30');
  Jwt j;
  documented(j.parseFromString(fx::b64u(fx::header(alg)) + "." + fx::b64u("{}") + "." + fx::b64u(sig)), "parse");
  MC_NOTE("%s, signature of %d bytes", alg, len);
  mc::state(mc::Hash().s(alg).u(len).u(fill).h);
  for (auto& s : *g_sets) documented(verifyJwtWithoutTimeChecking(j, *s), "verify");
}
void nesting_body() {
  static const int depths[] = {1, 2, 10, 31, 32, 33, 63, 64, 65, 98, 99, 100, 101, 102, 127, 128, 129, 500, mc::qt(1000, 5000)};
  int where = mc::choose("where", 6), d = mc::pick("depth", depths);
  bool arr = mc::choose("kind", 2), closed = mc::choose("closed", 2);
  string o, c, q = arr ? "[" : "{\"a\":", e = arr ? "]" : "}";
  for (int i = 0; i < d; i++) o += q, c += e;
  string v = o + "1" + (closed ? c : "");
  MC_NOTE("depth %d of %s at place %d", d, arr ? "arrays" : "objects", where);
  mc::state(mc::Hash().u(where).u(d).u(arr).u(closed).h);
  string sig = "." + fx::b64u("sig");
  switch (where) {
    case 0: use_json(v); break;
    case 1: use_json("{\"keys\":[" + v + "]}"); break;
    case 2: use_json("{\"keys\":[{\"kty\":\"RSA\",\"n\":" + v + "}]}"); break;
    case 3: use_token(fx::b64u(fx::header("HS256")) + "." + fx::b64u("{\"a\":" + v + "}") + sig); break;
    case 4: use_token(fx::b64u("{\"alg\":\"HS256\",\"x\":" + v + "}") + "." + fx::b64u("{}") + sig); break;
    case 5: {
      use_token(fx::b64u(fx::header("HS256")) + "." + fx::b64u(v) + sig);
      Jwt j;
      j.parseFromString(fx::b64u(fx::header("HS256")) + "." + fx::b64u(v) + sig);
      StructUtils u(j.payload_pb_);
      string name;
      for (int i = 0; i < d + 2; i++) {
        name += i ? ".a" : "a";
        const google::protobuf::Value* pv;
        u.GetValue(name, pv);
        mc::step();
        if (i > 300) break;
      }
      break;
    }
  }
}
void big_body() {
  static const size_t sizes[] = {1000, 65535, 65536, 1 << 20};
  int what = mc::choose("what", 9);
  size_t n = mc::pick("size", sizes);
  char c = "A.\0\"{\xff"[mc::choose("character", 6)];
  string big(n, c);
  MC_NOTE("%zu times %02x at place %d", n, (unsigned char)c, what);
  mc::state(mc::Hash().u(what).u(n).u(c).h);
  string sig = "." + fx::b64u("sig");
  switch (what) {
    case 0: use_token(big); break;
    case 1: use_token(big + "." + big + "." + big); break;
    case 2: use_token(fx::b64u(big) + "." + fx::b64u("{}") + sig); break;
    case 3: use_token(fx::b64u(fx::header("RS256")) + "." + fx::b64u("{\"iss\":\"" + big + "\"}") + sig); break;
    case 4: use_token(fx::b64u(fx::header("RS256")) + "." + fx::b64u("{}") + "." + fx::b64u(big)); break;
    case 5: use_json(big); break;
    case 6: use_json("{\"keys\":[{\"kty\":\"RSA\",\"e\":\"AQAB\",\"n\":\"" + big + "\"}]}"); break;
    case 7: use_pem("-----BEGIN PUBLIC KEY-----\n" + big + "\n-----END PUBLIC KEY-----\n"); break;
    case 8: use_json("{\"" + big + "\":\"-----BEGIN CERTIFICATE-----\\n" + big + "\\n-----END CERTIFICATE-----\\n\"}"); break;
  }
}
void certmap_body() {
  static const string B = "-----BEGIN CERTIFICATE-----", E = "-----END CERTIFICATE-----";
  static const vector<string> f = {B + "\\n", "\\n" + E + "\\n", B, E, "\\n", "-----", "MIIB", string(70, 'A'), "=", "\\u0000"};
  string t = concat(f, mc::qt(5, 6));
  use_json("{\"k\":\"" + t + "\"}");
}
void audience_body() {
  static const vector<string> f = {"http://", "https://", "http:", "/", "h", "s", "//", "a", string(1, 0), "\xff", "HTTP://"};
  string a = concat(f, 3), b = concat(f, mc::qt(2, 3));
  CheckAudience c({a, b});
  mc::step();
  MC_NOTE("audiences %s %s", mc::esc(a).c_str(), mc::esc(b).c_str());
  c.areAudiencesAllowed({b});
  c.areAudiencesAllowed({});
  c.areAudiencesAllowed({"x", a + "/"});
  if (!c.areAudiencesAllowed({a})) mc::fail("'%s' is not accepted although allowed", mc::esc(a).c_str());
}
void names_body() {
  static const vector<string> f = {".", "a", "b", "ab", string(1, 0), "\xff", "..", "1"};
  static Jwt* j = [] {
    auto* j = new Jwt;
    j->parseFromString(fx::b64u(fx::header("HS256")) + "." +
                       fx::b64u("{\"a\":{\"a\":{\"b\":1,\"\":[]},\"b\":\"x\",\"\":{\"\":null}},\"b\":[1,\"a\"],\"ab\":null,\"\":{\"a\":\"y\",\"\":2},\"1\":-1e300,\"n\":{\"a\":1e300}}") + "." +
                       fx::b64u("s"));
    return j;
  }();
  string n = concat(f, mc::qt(5, 6));
  StructUtils u(j->payload_pb_);
  string s;
  vector<string> v;
  uint64_t x;
  const google::protobuf::Value* p;
  MC_NOTE("name %s", mc::esc(n).c_str());
  for (int r : {int(u.GetString(n, &s)), int(u.GetUInt64(n, &x)), int(u.GetStringList(n, &v)), int(u.GetValue(n, p))}) {
    mc::step();
    if (r < 0 || r > int(StructUtils::OUT_OF_RANGE)) mc::fail("lookup of '%s' has the undocumented result %d", mc::esc(n).c_str(), r);
  }
}
void number_body() {
  static const char* const nums[] = {"0", "-0", "-0.0", "0.5", "-0.5", "-1", "1e-400", "1e308", "1e309", "-1e308", "18446744073709551614", "18446744073709551615", "18446744073709551616", "1.8446744073709552e19",
                                     "1.8446744073709550e19", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "NaN", "Infinity", "-Infinity", "\"NaN\"", "1e99999999999", "00", "0x10", "1.", ".1", "--1", "1e"};
  const char* m[] = {"iat", "nbf", "exp"};
  const char* name = mc::pick("claim", m);
  string t = mc::pick("number", nums);
  bool two = mc::choose("second claim", 2);
  string p = string("{\"") + name + "\":" + t + (two ? string(",\"exp\":") + mc::pick("second number", nums) : "") + "}";
  string text = fx::b64u(fx::header("HS256")) + "." + fx::b64u(p) + "." + fx::b64u("s");
  MC_NOTE("claims %s", p.c_str());
  mc::state(mc::Hash().s(p).h);
  use_token(text);
  Jwt j;
  if (j.parseFromString(text) == Status::Ok)
    for (uint64_t now : {uint64_t(0), uint64_t(1), ~uint64_t(0)})
      for (uint64_t skew : {uint64_t(0), uint64_t(60), ~uint64_t(0)}) documented(j.verifyTimeConstraint(now, skew), "verifyTimeConstraint");
}
void status_body() {
  int v = mc::choose("status", 3000) - 1000;
  string s = google::jwt_verify::getStatusString(Status(v));
  mc::step();
  MC_NOTE("status %d: %s", v, s.c_str());
  mc::state(mc::Hash().s(s).h);
}
}  // namespace

int main(int argc, char** argv) {
  auto& S = mc::suites();
  auto suite = [&](const char* name, void (*body)(), const char* what, void (*in)() = init, int bq = -1, int bt = -1) {
    mc::Suite s;
    s.name = name;
    s.props = {"C19"};
    s.body = body;
    s.init = in;
    s.what = what;
    s.bound_q = bq;
    s.bound_t = bt;
    s.timeout_s = 60;
    S.push_back(s);
  };
  suite("tokens", short_token_body, "all concatenations of up to 6 (thorough 7) of 11 fragments of tokens");
  suite("json", short_json_body, "all concatenations of up to 4 (thorough 5) of 18 JSON fragments after each of 5 beginnings, as key set");
  suite("claims", short_claims_body, "all concatenations of up to 3 (thorough 4) of 16 JSON fragments after each of 5 beginnings, as header or claims");
  suite("pem_text", pem_text_body, "all concatenations of up to 5 (thorough 6) of 14 PEM fragments");
  suite("certmap", certmap_body, "all concatenations of up to 5 (thorough 6) of 10 certificate fragments, as certificate map");
  suite("der", der_body, "every byte of 8 public keys and 3 certificates: truncated there, removed, doubled, rest set to ff, replaced (quick: 5 values, thorough: all)", init_docs);
  suite("jwk_length", jwk_len_body, "every JWK member that holds numbers or bytes, of every length up to a bound, 4 fillings, then verification with all algorithms");
  suite("jwk_member", jwk_member_body, "JWKs of every type with up to 2 (thorough 3) members replaced or added, each by 21 values", init, 2, 3);
  suite("signature", sig_len_body, "signatures of every length up to 279 (thorough 1099), 3 fillings, 13 algorithms, against keys of each type");
  suite("nesting", nesting_body, "arrays and objects nested 1 to 1000 (thorough 5000) deep, closed or not, at 6 places");
  suite("big", big_body, "texts of up to 1 MiB of 6 characters at 9 places");
  suite("audience", audience_body, "all pairs of audiences of up to 3 fragments");
  suite("names", names_body, "all claim names of up to 5 (thorough 6) of 8 fragments");
  suite("numbers", number_body, "29 writings of numbers as time claims, single and in pairs, at extreme times and skews");
  suite("status", status_body, "all status values from -1000 to 1999");
  return mc::main_(argc, argv);
}
