// C08, C09: what parses, with which fields, and which fault is reported.  C10: a token object has no memory.
#include "../lib/jwtmc.h"
#include <cmath>
#include <algorithm>

using namespace jm;

namespace {
// A way to write one member: its text (without the name), its canonical value, and the fault it makes.
struct Var {
  string json;   // empty: absent
  string canon;  // as jm::canon writes it
  Status fault;  // Ok: none
  bool maybe;    // the fault may or may not be reported
  // value if no fault
  string s;
  uint64_t n;
  vector<string> l;
};
string cs(const string& s) { return "'" + std::to_string(s.size()) + ":" + s + "'"; }
string cn(double d) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
Var absent(Status f = Status::Ok) { return {"", "", f, false, "", 0, {}}; }
Var str(const string& json, const string& v) { return {json, cs(v), Status::Ok, false, v, 0, {v}}; }
Var bad(const string& json, const string& canon, Status f) { return {json, canon, f, false, "", 0, {}}; }
Var num(const string& json, double d, uint64_t v) { return {json, cn(d), Status::Ok, false, "", v, {}}; }
Var lst(const string& json, const vector<string>& v) {
  string c = "[";
  for (auto& s : v) c += cs(s) + ",";
  return {json, c + "]", Status::Ok, false, "", 0, v};
}
void add_non_strings(vector<Var>* v, Status f, bool lists) {
  v->push_back(bad("5", cn(5), f));
  v->push_back(bad("null", "null", f));
  v->push_back(bad("true", "true", f));
  v->push_back(bad("{}", "{}", f));
  v->push_back(bad("{\"a\":\"b\"}", "{1:a='1:b',}", f));
  if (lists) {
    v->push_back(bad("[]", "[]", f));
    v->push_back(bad("[\"x\"]", "['1:x',]", f));
  }
}
void add_odd_strings(vector<Var>* v) {
  v->push_back(str("\"\"", ""));
  v->push_back(str("\"\\u00e9\\n\\\"\\\\\\/\"", "\xc3\xa9\n\"\\/"));
  v->push_back(str("\"\xe2\x82\xac\"", "\xe2\x82\xac"));
  v->push_back(str("\"\\ud83d\\ude00\"", "\xf0\x9f\x98\x80"));
  v->push_back(str("\"a\\u0000b\"", string("a\0b", 3)));
  v->push_back(str("\"" + string(3000, 'y') + "\"", string(3000, 'y')));
  v->push_back(str("\"5\"", "5"));
  v->push_back(str("\"a.b.c\"", "a.b.c"));
}
vector<Var> string_claim(const string& def, Status f) {
  vector<Var> v{str("\"" + def + "\"", def), absent()};
  add_odd_strings(&v);
  add_non_strings(&v, f, true);
  return v;
}
vector<Var> number_claim(const string& def, double d, uint64_t n, Status wrong, Status range, Status json) {
  vector<Var> v{num(def, d, n), absent()};
  v.push_back(num("0", 0, 0));
  v.push_back(num("1", 1, 1));
  v.push_back(num("1.999", 1.999, 1));
  v.push_back(num("0.5", 0.5, 0));
  v.push_back(num("1e3", 1000, 1000));
  v.push_back(num("25E-1", 2.5, 2));
  v.push_back(num("9007199254740991", 9007199254740991.0, 9007199254740991ull));
  v.push_back(num("9223372036854775808", 9223372036854775808.0, 9223372036854775808ull));
  v.push_back(num("18446744073709549568", 18446744073709549568.0, 18446744073709549568ull));
  v.push_back(num("1.8446744073709549e19", 18446744073709549000.0, 18446744073709547520ull));
  v.back().n = uint64_t(18446744073709549000.0);
  v.push_back(bad("18446744073709551616", cn(18446744073709551616.0), range));
  v.push_back(bad("36893488147419103232", cn(36893488147419103232.0), range));
  v.push_back(bad("1e30", cn(1e30), range));
  v.push_back(bad("1e300", cn(1e300), range));
  v.push_back(bad("1e301", cn(1e301), range));
  v.push_back(bad("1.7976931348623157e308", cn(1.7976931348623157e308), range));
  v.push_back(bad("-1e308", cn(-1e308), range));
  v.push_back(bad("-1", cn(-1), range));
  v.push_back(bad("-1e19", cn(-1e19), range));
  v.push_back(bad("-0.5", cn(-0.5), range));
  v.push_back(bad("\"5\"", cs("5"), wrong));
  v.push_back(bad("\"\"", cs(""), wrong));
  v.push_back(bad("null", "null", wrong));
  v.push_back(bad("true", "true", wrong));
  v.push_back(bad("[5]", "[5,]", wrong));
  v.push_back(bad("{}", "{}", wrong));
  v.push_back(bad("NaN", "", json));
  v.push_back(bad("5 5", "", json));
  return v;
}
struct Member {
  string name;
  vector<Var> vars;
  int minimal;  // variant in the minimal token
};
enum { kAlg, kKid, kTyp };
enum { kIss, kSub, kJti, kIat, kNbf, kExp, kAud, kExtra, kPayloadMembers };

vector<Member>& header_members() {
  static vector<Member> v = [] {
    Member alg{"alg", {}, 0};
    for (const char* a : {"RS256", "ES256", "ES384", "ES512", "HS256", "HS384", "HS512", "RS384", "RS512", "PS256", "PS384", "PS512", "EdDSA"})
      alg.vars.push_back(str(string("\"") + a + "\"", a));
    alg.vars.push_back(str("\"\\u0045S256\"", "ES256"));
    alg.vars.push_back(absent(Status::JwtHeaderBadAlg));
    add_non_strings(&alg.vars, Status::JwtHeaderBadAlg, true);
    for (const char* a : {"", "none", "None", "rs256", "RS256 ", " RS256", "RS2560", "RS25", "RS", "ES257", "ES256K", "EDDSA", "eddsa", "Ed25519", "HS256\\u0000", "HS1", "PS", "A128KW", "RS256,ES256"}) {
      Var x = str(string("\"") + a + "\"", a == string("HS256\\u0000") ? string("HS256\0", 6) : a);
      x.fault = Status::JwtHeaderNotImplementedAlg;
      alg.vars.push_back(x);
    }
    Member kid{"kid", string_claim("k1", Status::JwtHeaderBadKid), 1};
    Member typ{"typ", {str("\"JWT\"", "JWT"), absent(), num("3", 3, 3), {"{\"alg\":\"none\",\"kid\":7}", "{3:alg='4:none',3:kid=7,}", Status::Ok, false, "", 0, {}}}, 1};
    return vector<Member>{alg, kid, typ};
  }();
  return v;
}
vector<Member>& payload_members() {
  static vector<Member> v = [] {
    vector<Member> v;
    v.push_back({"iss", string_claim("the issuer", Status::JwtPayloadParseErrorIssNotString), 1});
    v.push_back({"sub", string_claim("the subject", Status::JwtPayloadParseErrorSubNotString), 1});
    v.push_back({"jti", string_claim("the id", Status::JwtPayloadParseErrorJtiNotString), 1});
    v.push_back({"iat", number_claim("1501281058", 1501281058, 1501281058, Status::JwtPayloadParseErrorIatNotInteger, Status::JwtPayloadParseErrorIatOutOfRange, Status::JwtPayloadParseErrorBadJson), 1});
    v.push_back({"nbf", number_claim("1501281000", 1501281000, 1501281000, Status::JwtPayloadParseErrorNbfNotInteger, Status::JwtPayloadParseErrorNbfOutOfRange, Status::JwtPayloadParseErrorBadJson), 1});
    v.push_back({"exp", number_claim("2501281058", 2501281058, 2501281058, Status::JwtPayloadParseErrorExpNotInteger, Status::JwtPayloadParseErrorExpOutOfRange, Status::JwtPayloadParseErrorBadJson), 1});
    const Status A = Status::JwtPayloadParseErrorAudNotString;
    Member aud{"aud", {lst("[\"aud1\",\"aud2\"]", {"aud1", "aud2"}), absent()}, 1};
    add_odd_strings(&aud.vars);
    aud.vars.push_back(lst("[]", {}));
    aud.vars.push_back(lst("[\"\"]", {""}));
    aud.vars.push_back(lst("[\"x\",\"y\",\"x\"]", {"x", "y", "x"}));
    aud.vars.push_back(lst(" [ \"x\" ] ", {"x"}));
    add_non_strings(&aud.vars, A, false);
    aud.vars.push_back(bad("[1]", "[1,]", A));
    aud.vars.push_back(bad("[\"x\",1]", "['1:x',1,]", A));
    aud.vars.push_back(bad("[\"x\",null]", "['1:x',null,]", A));
    aud.vars.push_back(bad("[[\"x\"]]", "[['1:x',],]", A));
    aud.vars.push_back(bad("[{\"a\":\"x\"}]", "[{1:a='1:x',},]", A));
    v.push_back(aud);
    v.push_back({"data",
                 {absent(), str("\"d\"", "d"),
                  {"{\"iss\":5,\"aud\":[1],\"exp\":\"x\"}", "{3:aud=[1,],3:exp='1:x',3:iss=5,}", Status::Ok, false, "", 0, {}},
                  {"[[],{},null,false]", "[[],{},null,false,]", Status::Ok, false, "", 0, {}}},
                 0});
    return v;
  }();
  return v;
}
// The text of an object: shapes.
struct Shape {
  string before, after;
  bool ok;
};
const vector<Shape> kShapes = {{"{", "}", true},   {" {", "}\n", true}, {"\t{ ", " }", true}, {"{", "", false},   {"", "}", false},     {"{", "}}", false},
                               {"{", "}{}", false}, {"{", "}x", false},  {"[{", "}]", false}, {"\"{", "}\"", false}, {"{,", "}", false}, {"{", "]", false}, {"{", ",1}", false}, {"{\"", "}", false}};
// How a section is encoded.
enum Enc { kPlain, kPad, kBadChar, kPlus, kSlash, kShort, kWrongPad, kSpace, kNonAscii, kNul, kInnerPad, kTrailBits, kTilde, kEncs };
// Returns the text; sets *bad (must be refused) or *maybe (may be refused).
string encode(const string& raw, int enc, bool* isbad, bool* maybe) {
  string t = fx::b64u(raw);
  *isbad = *maybe = false;
  size_t mid = t.size() / 2;
  switch (enc) {
    case kPlain: break;
    case kPad:
      if (t.size() % 4) {
        while (t.size() % 4) t += '=';
        *maybe = true;
      }
      break;
    case kBadChar: t.insert(mid, "!"); *isbad = true; break;
    case kTilde: t[mid] = '~'; *isbad = true; break;
    case kPlus: t[mid] = '+'; *isbad = true; break;
    case kSlash: t[mid] = '/'; *isbad = true; break;
    case kShort:
      while (t.size() % 4 != 1) t += 'A';
      *isbad = true;
      break;
    case kWrongPad:
      t += t.size() % 4 == 0 ? "=" : t.size() % 4 == 3 ? "==" : "=";
      *isbad = true;
      break;
    case kSpace: t.insert(mid, " "); *maybe = true; break;
    case kNonAscii: t.insert(mid, "\xc3\xa9"); *isbad = true; break;
    case kNul: t.insert(mid, string(1, '\0')); *isbad = true; break;
    case kInnerPad: t.insert(mid, "="); *isbad = true; break;
    case kTrailBits:
      if (t.size() % 4) {
        static const char* al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
        t.back() = *(strchr(al, t.back()) + 1);  // canonical last characters are never '_' here
        *maybe = true;
      }
      break;
  }
  return t;
}
enum Struct { kThree, kTwo, kOne, kFour, kDotFirst, kDotLast, kDoubleDot1, kDoubleDot2, kNoHeader, kNoPayload, kNoSig, kDots, kEmpty, kFiveEmpty, kStructs };

struct Expect {
  std::set<Status> faults, maybes;
  string fields;  // dump_all if accepted
};
string text_and_expect(Expect* e) {
  int base = mc::choose("base", 2);
  auto member_vars = [&](vector<Member>& ms, vector<const Var*>* out) {
    for (auto& m : ms) {
      int def = base ? m.minimal : 0, n = int(m.vars.size());
      int c = mc::choose(m.name.c_str(), n, 1);  // rotate so that alternative 0 is the default
      out->push_back(&m.vars[(c + def) % n]);
    }
  };
  auto object = [&](vector<Member>& ms, const vector<const Var*>& vs, const Shape& sh, bool reverse, string* canon) {
    std::map<string, string> c;
    vector<string> parts;
    for (size_t i = 0; i < ms.size(); i++)
      if (!vs[i]->json.empty()) {
        parts.push_back("\"" + ms[i].name + "\":" + vs[i]->json);
        c[ms[i].name] = vs[i]->canon;
      }
    if (reverse) std::reverse(parts.begin(), parts.end());
    string r = sh.before;
    for (size_t i = 0; i < parts.size(); i++) r += (i ? "," : "") + parts[i];
    *canon = "{";
    for (auto& f : c) *canon += std::to_string(f.first.size()) + ":" + f.first + "=" + f.second + ",";
    *canon += "}";
    return r + sh.after;
  };
  vector<const Var*> h, p;
  member_vars(header_members(), &h);
  member_vars(payload_members(), &p);
  const Shape& hs = mc::pick("header shape", kShapes, 1);
  const Shape& ps = mc::pick("payload shape", kShapes, 1);
  bool rev = mc::choose("member order", 2, 1);
  int henc = mc::choose("header encoding", kEncs, 1), penc = mc::choose("payload encoding", kEncs, 1), senc = mc::choose("signature encoding", kEncs, 1);
  static const vector<string> sigs = {string("\x00\xff\xfe\x10 signature", 14), "s", "si", string(64, '\xfb'), string(3, '\0')};
  const string& sig = mc::pick("signature", sigs, 1);
  int st = mc::choose("structure", kStructs, 1);

  string hc, pc;
  string hraw = object(header_members(), h, hs, rev, &hc), praw = object(payload_members(), p, ps, rev, &pc);
  bool hb, hm, pb, pm, sb, sm;
  string ht = encode(hraw, henc, &hb, &hm), pt = encode(praw, penc, &pb, &pm), stx = encode(sig, senc, &sb, &sm);
  string t;
  switch (st) {
    case kThree: t = ht + "." + pt + "." + stx; break;
    case kTwo: t = ht + "." + pt; break;
    case kOne: t = ht; break;
    case kFour: t = ht + "." + pt + "." + stx + "." + stx; break;
    case kDotFirst: t = "." + ht + "." + pt + "." + stx; break;
    case kDotLast: t = ht + "." + pt + "." + stx + "."; break;
    case kDoubleDot1: t = ht + ".." + pt + "." + stx; break;
    case kDoubleDot2: t = ht + "." + pt + ".." + stx; break;
    case kNoHeader: t = "." + pt + "." + stx; break;
    case kNoPayload: t = ht + ".." + stx; break;
    case kNoSig: t = ht + "." + pt + "."; break;
    case kDots: t = ".."; break;
    case kEmpty: t = ""; break;
    case kFiveEmpty: t = ht + "." + pt + "." + stx + "...."; break;
  }
  if (st != kThree) {
    e->faults.insert(Status::JwtBadFormat);
    return t;
  }
  auto fault = [&](Status s) {
    if (s != Status::Ok) e->faults.insert(s);
  };
  if (hb) {
    fault(Status::JwtHeaderParseErrorBadBase64);
  } else {
    if (hm) e->maybes.insert(Status::JwtHeaderParseErrorBadBase64);
    if (!hs.ok) {
      fault(Status::JwtHeaderParseErrorBadJson);
    } else {
      for (auto v : h) fault(v->fault);
    }
  }
  if (pb) {
    fault(Status::JwtPayloadParseErrorBadBase64);
  } else {
    if (pm) e->maybes.insert(Status::JwtPayloadParseErrorBadBase64);
    bool json_ok = ps.ok;
    for (auto v : p)
      if (v->fault == Status::JwtPayloadParseErrorBadJson) json_ok = false;
    if (!json_ok) {
      fault(Status::JwtPayloadParseErrorBadJson);
    } else {
      for (auto v : p) fault(v->fault);
    }
  }
  if (sb) fault(Status::JwtSignatureParseErrorBadBase64);
  if (sm) e->maybes.insert(Status::JwtSignatureParseErrorBadBase64);
  if (e->faults.empty()) {
    Jwt j;  // only a record here
    j.jwt_ = t;
    j.header_str_ = hraw;
    j.header_str_base64url_ = ht;
    j.payload_str_ = praw;
    j.payload_str_base64url_ = pt;
    j.signature_ = sig;
    j.alg_ = h[kAlg]->s;
    j.kid_ = h[kKid]->s;
    j.iss_ = p[kIss]->s;
    j.sub_ = p[kSub]->s;
    j.jti_ = p[kJti]->s;
    j.iat_ = p[kIat]->n;
    j.nbf_ = p[kNbf]->n;
    j.exp_ = p[kExp]->n;
    j.audiences_ = p[kAud]->l;
    e->fields = dump(j) + hc + pc;
  }
  return t;
}
string names(const std::set<Status>& s) {
  string r;
  for (auto x : s) r += st(x) + "; ";
  return r;
}
void judge(const string& text, const Expect& e) {
  Jwt j;
  Status got = j.parseFromString(text);
  mc::step();
  mc::outcome(si(got));
  auto show = [&] {
    string d = "\"" + mc::esc(text, 300) + "\"";
    size_t a = text.find('.'), b = text.find('.', a + 1);
    string raw;
    if (a != string::npos && fx::unb64u_strict(text.substr(0, a), &raw)) d += " header " + mc::esc(raw);
    if (b != string::npos && fx::unb64u_strict(text.substr(a + 1, b - a - 1), &raw)) d += " payload " + mc::esc(raw);
    return d;
  };
  MC_NOTE("%s: got %s; faults: %s", show().c_str(), st(got).c_str(), names(e.faults).c_str());
  if (got == Status::Ok) {
    MC_CHECK("C08", e.faults.empty(), "accepted, although it has faults (%s): %s", names(e.faults).c_str(), show().c_str());
    if (e.faults.empty()) {
      string d = dump_all(j);
      MC_CHECK("C08", d == e.fields, "fields differ for %s:\n expected %s\n got      %s", show().c_str(), mc::esc(e.fields, 1200).c_str(), mc::esc(d, 1200).c_str());
    }
    return;
  }
  MC_CHECK("C08", !(e.faults.empty() && e.maybes.empty()), "a well-formed token is rejected (%s): %s", st(got).c_str(), show().c_str());
  MC_CHECK("C09", e.faults.count(got) || e.maybes.count(got), "rejected with a fault it does not have: %s; faults: %s; %s", st(got).c_str(), names(e.faults).c_str(), show().c_str());
}
void grammar() {
  Expect e;
  string t = text_and_expect(&e);
  mc::state(mc::Hash().s(t).h);
  judge(t, e);
}

// All short sequences of sections and dots.
void structure() {
  const string H = fx::b64u("{\"alg\":\"HS256\"}"), P = fx::b64u("{\"iss\":\"i\",\"exp\":7}"), E = fx::b64u("{}"), S = "c2ln";
  const vector<string> tok = {".", H, P, E, S, "!", " "};
  int n = mc::choose("length", mc::qt(7, 9));
  string t;
  for (int i = 0; i < n; i++) t += mc::pick("part", tok);
  mc::state(mc::Hash().s(t).h);
  vector<string> sec{""};
  for (char c : t)
    if (c == '.')
      sec.push_back("");
    else
      sec.back() += c;
  Expect e;
  bool structure_ok = sec.size() == 3 && !sec[0].empty() && !sec[1].empty() && !sec[2].empty();
  if (!structure_ok) {
    e.faults.insert(Status::JwtBadFormat);
    judge(t, e);
    return;
  }
  bool known = true;
  auto in = [&](const string& s, std::initializer_list<string> l) { return std::find(l.begin(), l.end(), s) != l.end(); };
  if (sec[0].find('!') != string::npos) e.faults.insert(Status::JwtHeaderParseErrorBadBase64);
  else if (in(sec[0], {P, E})) e.faults.insert(Status::JwtHeaderBadAlg);
  else if (sec[0] == S) e.faults.insert(Status::JwtHeaderParseErrorBadJson);
  else if (sec[0] != H) known = false;
  if (sec[1].find('!') != string::npos) e.faults.insert(Status::JwtPayloadParseErrorBadBase64);
  else if (sec[1] == S) e.faults.insert(Status::JwtPayloadParseErrorBadJson);
  else if (!in(sec[1], {H, P, E})) known = false;
  if (sec[2].find('!') != string::npos) e.faults.insert(Status::JwtSignatureParseErrorBadBase64);
  else if (!in(sec[2], {H, P, E, S})) known = false;
  if (known) {
    string raw[3];
    for (int i = 0; i < 3; i++) fx::unb64u_strict(sec[i], &raw[i]);
    if (e.faults.empty()) {
      Jwt j;
      j.jwt_ = t;
      j.header_str_ = raw[0];
      j.header_str_base64url_ = sec[0];
      j.payload_str_ = raw[1];
      j.payload_str_base64url_ = sec[1];
      j.signature_ = raw[2];
      j.alg_ = "HS256";
      string pc = sec[1] == H ? "{3:alg='5:HS256',}" : sec[1] == P ? "{3:exp=7,3:iss='1:i',}" : "{}";
      if (sec[1] == P) {
        j.iss_ = "i";
        j.exp_ = 7;
      }
      e.fields = dump(j) + "{3:alg='5:HS256',}" + pc;
    }
    judge(t, e);
    return;
  }
  // Sections glued together: only the structure is known to be good.
  Jwt j;
  Status got = j.parseFromString(t);
  mc::step();
  MC_CHECK("C09", got != Status::JwtBadFormat, "reported as badly structured: \"%s\"", mc::esc(t).c_str());
  MC_CHECK("C08", got != Status::Ok || e.faults.empty(), "accepted: \"%s\"", mc::esc(t).c_str());
}
// All short texts of a base64url section.
void base64() {
  static const string al("A_-Qz9+/=! \n~\0\x80", 15);
  int n = 1 + mc::choose("length", mc::qt(5, 6));
  string s;
  for (int i = 0; i < n; i++) s += al[mc::choose("character", int(al.size()))];
  mc::state(mc::Hash().s(s).h);
  static const string h = fx::b64u("{\"alg\":\"HS256\"}") + "." + fx::b64u("{}") + ".";
  string t = h + s, raw, squeezed;
  bool foreign = false;
  for (char c : s) {
    if (!c || strchr("+/!~\x80", c)) foreign = true;
    if (c != '=' && c != ' ' && c != '\n') squeezed += c;
  }
  Jwt j;
  Status got = j.parseFromString(t);
  mc::step();
  mc::outcome(si(got));
  bool canonical = !foreign && fx::unb64u_strict(s, &raw);
  bool must_fail = foreign || squeezed.size() % 4 == 1;
  MC_CHECK("C08", !canonical || got == Status::Ok, "signature section \"%s\" is refused: %s", mc::esc(s).c_str(), st(got).c_str());
  MC_CHECK("C08", !must_fail || got != Status::Ok, "signature section \"%s\" is accepted", mc::esc(s).c_str());
  MC_CHECK("C09", got == Status::Ok || got == Status::JwtSignatureParseErrorBadBase64, "signature section \"%s\" is reported as: %s", mc::esc(s).c_str(), st(got).c_str());
  if (got != Status::Ok || must_fail) return;
  // lenient decoding: whole bytes of the characters of the alphabet
  static const string b64al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
  unsigned acc = 0;
  int bits = 0;
  string want;
  for (char c : squeezed) {
    acc = (acc << 6 | unsigned(b64al.find(c))) & 0xffff;
    bits += 6;
    if (bits >= 8) {
      bits -= 8;
      want += char(acc >> bits & 0xff);
    }
  }
  MC_CHECK("C08", j.signature_ == want, "signature section \"%s\" is decoded as %s instead of %s", mc::esc(s).c_str(), mc::esc(j.signature_).c_str(), mc::esc(want).c_str());
}

// What a token of these objects is expected to be; `fault` if it has one.
void judge_objects(const string& hraw, const string& hcanon, const string& praw, const string& pcanon, const string& sig, Jwt* want, Status fault, bool maybe_json = false) {
  string ht = fx::b64u(hraw), pt = fx::b64u(praw), t = ht + "." + pt + "." + fx::b64u(sig);
  Expect e;
  if (fault != Status::Ok) e.faults.insert(fault);
  if (maybe_json) e.maybes.insert(Status::JwtPayloadParseErrorBadJson);
  want->jwt_ = t;
  want->header_str_ = hraw;
  want->header_str_base64url_ = ht;
  want->payload_str_ = praw;
  want->payload_str_base64url_ = pt;
  want->signature_ = sig;
  if (fault == Status::Ok) e.fields = dump(*want) + hcanon + pcanon;
  mc::state(mc::Hash().s(t).h);
  judge(t, e);
}
const int kMany[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000};
// Long audience lists, one of which may be of a wrong type, or empty, or a repetition.
void long_audiences() {
  int n = mc::pick("audiences", kMany);
  vector<int> at{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, n / 2, n - 2, n - 1};
  at.erase(std::remove_if(at.begin(), at.end(), [&](int i) { return i < 0 || i >= n; }), at.end());
  std::sort(at.begin(), at.end());
  at.erase(std::unique(at.begin(), at.end()), at.end());
  struct Odd {
    const char *json, *canon;
    bool bad;
  };
  static const Odd odd[] = {{"", "", false}, {"\"\"", "'0:'", false}, {"\"a0\"", "'2:a0'", false}, {"5", "5", true}, {"null", "null", true}, {"[\"a\"]", "['1:a',]", true}, {"{}", "{}", true}, {"false", "false", true}};
  const Odd& o = mc::pick("odd one", odd);
  int style = mc::choose("style", 3);
  for (int p : at) {
    string json = "{\"aud\":[", canon = "{3:aud=[";
    Jwt w;
    w.alg_ = "HS256";
    for (int i = 0; i < n; i++) {
      string a = style == 0 ? "a" + std::to_string(i) : style == 1 ? "a" + std::to_string(n - i) : string(i % 40, 'z');
      string j = "\"" + a + "\"", c = cs(a);
      if (i == p && *o.json) {
        j = o.json;
        c = o.canon;
        a = string(o.json) == "\"\"" ? "" : "a0";
      }
      json += (i ? "," : "") + j;
      canon += c + ",";
      w.audiences_.push_back(a);
    }
    if (o.bad) w.audiences_.clear();
    judge_objects("{\"alg\":\"HS256\"}", "{3:alg='5:HS256',}", json + "],\"iss\":\"i\"}", canon + "],3:iss='1:i',}", "sig", (w.iss_ = "i", &w), o.bad ? Status::JwtPayloadParseErrorAudNotString : Status::Ok);
    if (!*o.json) break;
  }
}
// Every string of a token at many lengths; signatures too.
void long_strings() {
  static const int lens[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 200000, 1000000};
  int len = mc::pick("length", lens);
  static const char* const whats[] = {"kid", "typ", "iss", "sub", "jti", "aud", "data", "sig", "name", "header blank", "payload blank"};
  int what = mc::choose("what", 11);
  string big(len, 'x');
  for (int i = 0; i < len; i++) big[i] = char('A' + (i * 7 + len) % 26);
  if (what == 7)
    for (int i = 0; i < len; i++) big[i] = char(i * 151 + len);
  Jwt w;
  w.alg_ = "ES256";
  string h = "{\"alg\":\"ES256\"", hc = "{3:alg='5:ES256',", p = "{\"exp\":7", pc = "{", q = "\"" + big + "\"", sig = "sig";
  w.exp_ = 7;
  string n = whats[what];
  std::map<string, string> c{{"exp", "7"}};
  if (what < 2) {
    h += ",\"" + n + "\":" + q;
    hc += "3:" + n + "=" + cs(big) + ",";
    if (what == 0) w.kid_ = big;
  } else if (what < 7) {
    p += ",\"" + n + "\":" + q;
    c[n] = cs(big);
    if (what == 2) w.iss_ = big;
    if (what == 3) w.sub_ = big;
    if (what == 4) w.jti_ = big;
    if (what == 5) w.audiences_ = {big};
  } else if (what == 7) {
    sig = big;
  } else if (what == 8) {
    p += "," + q + ":1";
    c[big] = "1";
  } else if (what == 9) {
    h += string(len, ' ');
  } else {
    p += string(len, '\n');
  }
  for (auto& f : c) pc += std::to_string(f.first.size()) + ":" + f.first + "=" + f.second + ",";
  judge_objects(h + "}", hc + "}", p + "}", pc + "}", sig, &w, Status::Ok);
}
// Many members, and deep ones, around those that count.
void wide_objects() {
  int n = mc::pick("members", kMany);
  int where = mc::choose("claims at", 3);  // first, last, in the middle
  int kind = mc::choose("kind", 4);
  string jti = "\"iss\":\"i\",\"exp\":5,\"aud\":[\"a\",\"b\"]", p, hx;
  std::map<string, string> c{{"iss", "'1:i'"}, {"exp", "5"}, {"aud", "['1:a','1:b',]"}}, hc{{"alg", "'5:HS256'"}, {"kid", "'1:k'"}};
  bool deep = false;
  for (int i = 0; i < n; i++) {
    if (i == (where == 0 ? 0 : where == 1 ? n : n / 2)) p += (p.empty() ? "" : ",") + jti;
    string name = (kind == 1 ? "iss" : "m") + std::to_string(i), v = std::to_string(i), cv = v;
    if (kind == 2) {
      v = "{\"exp\":\"" + v + "\",\"aud\":[" + v + "]}";
      cv = "{3:aud=[" + std::to_string(i) + ",],3:exp=" + cs(cv) + ",}";
    }
    if (kind == 3) {  // as deep as it is far behind
      int d = i % 120;
      v = string(d, '[') + string(d, ']');
      cv = v;
      if (!d) v = cv = "true";
      deep |= d > 20;
      // canonical form puts a comma after every member
      if (d > 1) {
        cv = string(d, '[');
        cv += "]";
        for (int k = 1; k < d; k++) cv += ",]";
      }
    }
    p += (p.empty() ? "" : ",") + ("\"" + name + "\":" + v);
    c[name] = cv;
    if (kind < 2) {
      hx += ",\"" + name + "\":" + v;
      hc[name] = cv;
    }
  }
  if (where == 1) p += "," + jti;
  auto canon = [](const std::map<string, string>& m) {
    string r = "{";
    for (auto& f : m) r += std::to_string(f.first.size()) + ":" + f.first + "=" + f.second + ",";
    return r + "}";
  };
  Jwt w;
  w.alg_ = "HS256";
  w.kid_ = "k";
  w.iss_ = "i";
  w.exp_ = 5;
  w.audiences_ = {"a", "b"};
  judge_objects("{\"alg\":\"HS256\",\"kid\":\"k\"" + hx + "}", canon(hc), "{" + p + "}", canon(c), "sig", &w, Status::Ok, deep);
}
// Numbers around every power of two, in several writings.
void numerals() {
  static const vector<double> v = [] {
    vector<double> v{0.0, -0.0, 5e-324, -5e-324, 1e-300, -1e-300, 0.9999999999999999, 1e17, 1e18, 1e19, 1e20, 123456789.987654321};
    for (int e = 0; e <= 70; e++)
      for (double sgn : {1.0, -1.0}) {
        double b = ldexp(sgn, e);
        for (double x : {b, nextafter(b, INFINITY), nextafter(b, -INFINITY), b + 0.5, b - 0.5, b + 1, b - 1}) v.push_back(x);
      }
    return v;
  }();
  double d = mc::pick("number", v);
  int claim = mc::choose("claim", 3), form = mc::choose("form", 4);
  char b[400];
  snprintf(b, sizeof b, form == 0 ? "%.17g" : form == 1 ? "%.20e" : form == 2 ? "%.30f" : "%.0f", d);
  double back = strtod(b, nullptr);
  if (memcmp(&back, &d, sizeof d)) return;  // %.0f of a fraction
  if (d == 0 && std::signbit(d) && !strchr(b, '.')) return;  // -0 may be read as an integer, which has no sign
  static const char* const name[] = {"iat", "nbf", "exp"};
  static const Status range[] = {Status::JwtPayloadParseErrorIatOutOfRange, Status::JwtPayloadParseErrorNbfOutOfRange, Status::JwtPayloadParseErrorExpOutOfRange};
  // digits a double cannot hold exactly may also be refused as no JSON number: not with these, they are doubles
  bool in = d >= 0 && d < 18446744073709551616.0;
  Jwt w;
  w.alg_ = "HS256";
  uint64_t n = in ? uint64_t(d) : 0;
  (claim == 0 ? w.iat_ : claim == 1 ? w.nbf_ : w.exp_) = n;
  string pc = string("{3:") + name[claim] + "=" + cn(d) + ",}";
  judge_objects("{\"alg\":\"HS256\"}", "{3:alg='5:HS256',}", string("{\"") + name[claim] + "\":" + b + "}", pc, "sig", &w, in ? Status::Ok : range[claim]);
}

// ---- C10 ----
vector<string>& texts() {
  static vector<string> v = [] {
    auto mk = [](const string& h, const string& p, const string& s) { return fx::b64u(h) + "." + fx::b64u(p) + "." + s; };
    return vector<string>{
        mk("{\"alg\":\"RS256\",\"kid\":\"k1\",\"x\":1}", "{\"iss\":\"i\",\"sub\":\"s\",\"jti\":\"j\",\"iat\":1,\"nbf\":2,\"exp\":3,\"aud\":[\"a\",\"b\"],\"q\":[1]}", "c2ln"),
        mk("{\"alg\":\"HS256\"}", "{}", "AA"),
        mk("{\"alg\":\"ES256\",\"kid\":\"k2\"}", "{\"aud\":\"one\",\"exp\":9}", "c2lnMg"),
        "!." + fx::b64u("{\"iss\":\"never\"}") + ".c2ln",                                                        // bad header
        mk("{\"alg\":\"PS256\",\"kid\":5}", "{}", "c2ln"),                                                      // bad kid
        mk("{\"alg\":\"PS512\",\"kid\":\"k3\"}", "{\"iss\":\"i3\",\"sub\":\"s3\",\"nbf\":4,\"exp\":\"x\"}", "c2ln"),  // bad exp
        mk("{\"alg\":\"ES384\"}", "{\"iss\":\"i4\",\"aud\":[\"p\",1,\"q\"]}", "c2ln"),                             // bad aud
        mk("{\"alg\":\"EdDSA\",\"kid\":\"k5\"}", "{\"jti\":\"j5\",\"aud\":[\"z\"]}", "!!"),                         // bad signature text
        "a.b",
    };
  }();
  return v;
}
struct Ref {
  Status status;
  string dump;
  string payload;
};
const Ref& ref_of(const string& text) {
  static std::map<string, Ref> m;
  auto it = m.find(text);
  if (it == m.end()) {
    Jwt j;
    Status s = j.parseFromString(text);
    it = m.emplace(text, Ref{s, dump_all(j), j.payload_str_}).first;
  }
  return it->second;
}
void sequences() {
  auto obj = std::make_unique<Jwt>();
  auto obj2 = std::make_unique<Jwt>();
  std::unique_ptr<Jwt>* o[2] = {&obj, &obj2};
  string want[2] = {"", ""};
  int depth = mc::qt(4, 5), nt = int(texts().size());
  for (int d = 0; d < depth; d++) {
    int op = mc::choose("operation", 2 * nt + 10);
    string desc;
    if (op < 2 * nt) {
      int i = op / nt;
      const string& t = texts()[op % nt];
      Status s = (*o[i])->parseFromString(t);
      want[i] = t;
      if (mc::g_want_notes) desc = "parse text " + std::to_string(op % nt) + " into " + std::to_string(i);
      if (s != ref_of(t).status) mc::fail("text %d gives %s, a fresh object %s", op % nt, st(s).c_str(), st(ref_of(t).status).c_str());
    } else {
      int i = (op - 2 * nt) & 1;
      Jwt &a = **o[i], &b = **o[1 - i];
      switch ((op - 2 * nt) >> 1) {
        case 0: a = b; want[i] = want[1 - i]; desc = "assign other to "; break;
        case 1: {
          Jwt& alias = a;
          a = alias;
          desc = "self-assign ";
          break;
        }
        case 2: *o[i] = std::make_unique<Jwt>(b); want[i] = want[1 - i]; desc = "copy-construct from other "; break;
        case 3: {
          Status s = a.parseFromString(a.jwt_);
          desc = "parse own text ";
          if (s != ref_of(want[i]).status) mc::fail("parsing its own text again gives %s", st(s).c_str());
          break;
        }
        case 4: {
          string t = ref_of(want[i]).payload;  // of a well-behaved object
          Status s = a.parseFromString(a.payload_str_);
          want[i] = t;
          desc = "parse own payload ";
          if (s != ref_of(t).status) mc::fail("parsing its own payload gives %s", st(s).c_str());
          break;
        }
      }
      desc += std::to_string(i);
    }
    mc::step();
    MC_NOTE("%s", desc.c_str());
    mc::state(mc::Hash().s(want[0]).s(want[1]).u(op).h);
    for (int i = 0; i < 2; i++) {
      string d = dump_all(**o[i]);
      if (d != ref_of(want[i]).dump)
        mc::fail("object %d is not what a fresh object is that parsed the same text:\n expected %s\n got      %s", i, mc::esc(ref_of(want[i]).dump, 1200).c_str(), mc::esc(d, 1200).c_str());
    }
  }
}

void reg() {
  auto& S = mc::suites();
  S.push_back({"grammar", {"C08", "C09"}, grammar, 3, mc::qt(3, 3),
               "every token text with at most 3 deviations from a full and from a minimal genuine token: 40 writings of alg, 17 of each string, 26 of each number, 25 of aud, "
               "14 shapes of both objects, member order, 13 encodings of each section, 14 structures", false});
  S.push_back({"structure", {"C08", "C09"}, structure, -1, -1, "every sequence of up to 6 (8) of: dot, 4 sections, a foreign character, a blank", false});
  S.push_back({"base64", {"C08", "C09"}, base64, -1, -1, "every signature section of up to 5 (6) of 15 characters (alphabet ends, +/, padding, blanks, foreign)", false});
  S.push_back({"long-audiences", {"C08", "C09"}, long_audiences, -1, -1, "audience lists of 29 lengths up to 1000 with one member of 7 other sorts at up to 20 places x 3 orders", false});
  S.push_back({"long-strings", {"C08", "C09"}, long_strings, -1, -1, "every string of a token, a member name, the signature and blanks at 45 lengths up to a million", false});
  S.push_back({"wide-objects", {"C08", "C09"}, wide_objects, -1, -1, "objects of 29 numbers of other members up to 1000, plain, of similar names, nested or deep, around the claims", false});
  S.push_back({"numerals", {"C08", "C09"}, numerals, -1, -1, "about 1000 numbers around every power of two up to 2^70 in 4 writings as each of the three time claims", false});
  S.push_back({"sequences", {"C10"}, sequences, -1, -1,
               "every sequence of 4 (5) operations on two objects: parse of 9 texts (faulty in every part), assignment, self-assignment, copy construction, parsing its own text or payload", false});
}
}  // namespace

int main(int argc, char** argv) {
  reg();
  return mc::main_(argc, argv);
}
