// C30..C36: operation sequences on the real cache under a controlled clock, against a reference model.
#include "../lib/lrurig.h"

namespace {
// One step's alternatives.
struct Op {
  int op, k;
  int64_t a, b;
};
enum { oInsert, oInsertPinned, oLookup, oRelease, oTouch, oRemove, oRemoveAll, oRemoveUnpinned, oClear, oUpdate, oSetMax, oIdle, oAge, oExpire, oAdvance };

struct Cfg {
  int keys, depth;
  int64_t cap;
  vector<int64_t> units{1}, pinned_units{1}, sizes, caps;  // insert, insertPinned, updateSize, setMaxSize
  bool lookups = true, touches = false, opt = false, remove = true, bulk = true, any_update = true;
  vector<double> idle, age;  // reconfiguration
  int64_t limit = kNoLimit;
  bool lru = true;
  bool advance = false;
  int max_pins = 3;
  bool merge = false;  // states are merged: see any_length
};

// A pin-preserving symmetry: a key not yet used is interchangeable with every other one.
template <class R>
void alternatives(R& r, const Cfg& c, int used, vector<Op>* out) {
  World& w = r.w;
  int lim = std::min(c.keys, used + 1);
  int pins = 0;
  for (auto& e : w.live) pins += e.pins();
  for (int k = 0; k < lim; k++) {
    for (auto u : c.units) out->push_back({oInsert, k, u, 0});
    if (pins < c.max_pins)
      for (auto u : c.pinned_units) out->push_back({oInsertPinned, k, u, 0});
    if (k == used) continue;
    if (c.lookups && pins < c.max_pins) {
      out->push_back({oLookup, k, 0, 0});
      if (c.opt) out->push_back({oLookup, k, 1, 0});
    }
    if (c.touches) {
      out->push_back({oTouch, k, 0, 0});
      if (c.opt) out->push_back({oTouch, k, 1, 0});
    }
    if (c.remove) out->push_back({oRemove, k, 0, 0});
    for (auto u : c.sizes) {
      out->push_back({oUpdate, k, -1, u});
      if (c.any_update) {
        for (auto& e : w.live)
          if (e.key == k) out->push_back({oUpdate, k, e.id, u});
        out->push_back({oUpdate, k, kMaxVals, u});
      }
    }
  }
  for (auto& e : w.live) {
    if (e.ord_pins) out->push_back({oRelease, 0, e.id, 0});
    if (e.opt_pins) out->push_back({oRelease, 0, e.id, 1});
  }
  if (c.bulk) {
    out->push_back({oRemoveAll, 0, 0, 0});
    out->push_back({oRemoveUnpinned, 0, 0, 0});
    if (r.can_clear()) out->push_back({oClear, 0, 0, 0});
  }
  for (auto m : c.caps)
    if (m != w.cap) out->push_back({oSetMax, 0, m, 0});
  for (size_t i = 0; i < c.idle.size(); i++)
    if (r.can_limit(true, c.idle[i])) out->push_back({oIdle, 0, int64_t(i), 0});
  for (size_t i = 0; i < c.age.size(); i++)
    if (r.can_limit(false, c.age[i])) out->push_back({oAge, 0, int64_t(i), 0});
  if (c.advance) {
    out->push_back({oExpire, 0, 0, 0});
    // until the oldest, or the youngest, entry is exactly as old as allowed at the next operation, or one past it
    int64_t lo = INT64_MAX, hi = 0, l = w.limit < 0 || w.limit > (int64_t(1) << 60) ? 1000000 : w.limit;
    for (auto& e : w.live)
      if (e.table) {
        lo = std::min(lo, e.ts);
        hi = std::max(hi, e.ts);
      }
    if (hi) {
      std::set<int64_t> t{lo + l - 1, lo + l, hi + l - 1, hi + l};
      for (auto x : t)
        if (x > g_now_us) out->push_back({oAdvance, 0, x, 0});
    }
  }
}
template <class Cache, class Key>
void explore(const Cfg& c) {
  Rig<Cache, Key> r(c.keys, c.cap);
  World& w = r.w;
  if constexpr (std::is_same_v<Cache, SubCache>) w.max_entries = r.c->max_entries = 2;
  if (!c.lru || c.limit >= 0) r.set_limit(c.lru, c.limit < 0 ? -1 : double(c.limit) / 1e6, true);
  int used = 0, last = 0;
  vector<Op> alts;
  for (int d = 0; d < c.depth && !w.dead; d++) {
    alts.clear();
    alternatives(r, c, used, &alts);
    const Op o = mc::pick("operation", alts);
    if (o.op == oInsert || o.op == oInsertPinned) used = std::max(used, o.k + 1);
    switch (o.op) {
      case oInsert: r.insert(o.k, o.a); break;
      case oInsertPinned: r.insert_pinned(o.k, o.a); break;
      case oLookup: r.lookup(o.k, o.a); break;
      case oRelease: r.release(int(o.a), o.b); break;
      case oTouch: r.touch(o.k, o.a); break;
      case oRemove: r.remove(o.k); break;
      case oRemoveAll: r.remove_all(); break;
      case oRemoveUnpinned: r.remove_unpinned(); break;
      case oClear: r.clear(); break;
      case oUpdate: r.update_size(o.k, int(o.a), o.b); break;
      case oSetMax: r.set_max(o.a); break;
      case oIdle: r.set_limit(true, c.idle[o.a]); break;
      case oAge: r.set_limit(false, c.age[o.a]); break;
      case oExpire: r.expire(); break;
      case oAdvance:
        g_now_us = o.a;
        MC_NOTE("clock moves");
        continue;
    }
    r.check();
    if (w.dead) break;
    r.remember();
    // the cache might remember more than the model: histories are only merged if they also end alike
    if (c.merge && (mc::visited(r.canonical((mc::thorough() ? last * 16 + o.op : kLess ? 0 : o.op) + 1), c.depth - d - 1) || mc::choose("stop here", 2))) break;
    last = o.op;
  }
  if (w.dead) mc::outcome(1);
  r.finish();
  mc::outcome(w.dead ? 2 : 0);
}
template <class F>
void both(F cfg) {
  switch (mc::choose("kind of cache", 3)) {
    case 1: {
      Cfg c = cfg();
      c.depth -= 1;
      explore<StrCache, string>(c);
      return;
    }
    case 2: {
      Cfg c = cfg();
      c.depth -= 1;
      explore<ViewCache, std::string_view>(c);
      return;
    }
    default: explore<IntCache, int>(cfg());
  }
}

void core() {
  both([] {
    Cfg c;
    c.keys = 2;
    c.cap = 2 + mc::choose("capacity", 2) * 98;
    c.lru = !mc::choose("age mode", 2);
    c.depth = mc::qt(5, 6) - kLess;
    c.units = {1, 2};
    c.sizes = {0, 3};
    return c;
  });
}
void deferred() {
  Cfg c;
  c.keys = 1 + mc::choose("keys", 2);
  c.cap = 3;
  c.depth = (c.keys == 1 ? mc::qt(8, 9) : mc::qt(6, 7)) - kLess;
  c.lru = !mc::choose("age mode", 2);
  c.units = {};
  c.bulk = false;
  c.max_pins = 5;
  c.sizes = {2};
  c.any_update = c.keys == 1;
  if (c.keys == 1) c.sizes = {};
  explore<IntCache, int>(c);
}
void evict() {
  both([] {
    Cfg c;
    c.keys = 4;
    c.cap = 3;
    c.depth = mc::qt(6, 7) - kLess;
    c.lru = !mc::choose("age mode", 2);
    c.units = {1, 2};
    c.pinned_units = {};
    c.touches = true;
    c.remove = false;
    c.bulk = false;
    c.max_pins = 2;
    c.caps = {1, 3};
    return c;
  });
}
void subclass() {
  Cfg c;
  c.keys = 4;
  c.cap = 4;
  c.merge = true;
  c.depth = mc::qt(8, 14);
  c.lru = !mc::choose("age mode", 2);
  c.units = {1, 2};
  c.sizes = {3};
  c.bulk = mc::thorough();
  c.max_pins = 3;
  explore<SubCache, int>(c);
}
void evict_sizes() {
  Cfg c;
  c.keys = 3;
  c.cap = 4;
  c.depth = mc::qt(6, 7) - kLess;
  c.lru = !mc::choose("age mode", 2);
  c.units = {2};
  c.pinned_units = {1};
  c.sizes = {0, 3, 9};
  c.any_update = false;
  c.bulk = false;
  explore<IntCache, int>(c);
}
void limits() {
  both([] {
    Cfg c;
    c.lru = !mc::choose("age mode", 2);
    c.cap = mc::choose("tight", 2) ? 2 : 100;
    static const vector<int64_t> ls = {1000000, 0, 2, 500000};
    c.limit = mc::pick("limit", ls);
    c.keys = 3;
    c.depth = mc::qt(6, 7) - kLess;
    c.advance = true;
    c.touches = true;
    c.bulk = false;
    c.remove = false;
    c.max_pins = 2;
    return c;
  });
}
void optout() {
  Cfg c;
  c.lru = !mc::choose("age mode", 2);
  int v = mc::choose("limit", 2);
  c.limit = v ? 1000000 : kNoLimit;
  c.advance = v;
  c.keys = 2 + mc::choose("keys", 2);
  c.cap = 2;
  c.depth = (c.keys == 2 ? mc::qt(7, 8) : mc::qt(6, 7)) - v - kLess;
  c.opt = true;
  c.bulk = false;
  c.remove = c.keys == 2;
  c.pinned_units = {};
  c.touches = c.keys == 3;
  c.max_pins = c.keys == 2 ? 3 : 2;
  explore<IntCache, int>(c);
}
void reconfig() {
  Cfg c;
  int v = mc::choose("variant", 3);
  c.keys = 2;
  c.cap = 3;
  c.depth = mc::qt(6, 7) - kLess;
  c.bulk = false;
  c.max_pins = 2;
  if (v == 0) {  // capacity
    c.caps = {0, 1, 2, 100};
    c.keys = 3;
    c.lru = !mc::choose("age mode", 2);
    c.units = {1, 2};
  } else if (v == 1) {  // modes, with order-preserving lookups
    c.idle = {-1};
    c.age = {-1};
    c.opt = true;
    c.caps = {1};
    c.keys = 3;
    c.remove = false;
  } else {  // limits
    c.idle = {1, -1, INFINITY};
    c.age = {1, -1};
    c.advance = true;
    c.caps = {};
    c.depth = mc::qt(6, 7) - kLess;
    if (mc::choose("odd limits", 2)) {
      c.idle = {0, 1e300, -0.5};
      c.age = {0, 1e300, INFINITY, -2};
      c.depth--;
    }
  }
  explore<IntCache, int>(c);
}

// All states of the model, reached by one history each, and every operation from each of them: after each, the cache is
// brought to its end in both ways. Histories are merged when the model is in the same state.
void any_length() {
  const string& p = mc::g_opts.prop;
  Cfg c;
  c.merge = true;
  bool t = mc::thorough(), slow = kLess;
  c.depth = t ? 20 : 14;
  c.bulk = p == "C30" || p == "C31" || p == "C32";
  c.keys = 3;
  c.cap = 3;
  c.max_pins = 2;
  c.lru = !mc::choose("age mode", 2);
  if (p == "C30" || p == "C31") {
    c.max_pins = 3;
    c.sizes = {2};
    if (slow) c.keys = 2;
    if (t && !slow) c.units = {1, 2};
  } else if (p == "C32") {
    c.keys = t && !slow ? 3 : 2;
    c.units = {1, 2};
    c.sizes = {0, 3};
  } else if (p == "C33") {
    c.keys = 4;
    c.cap = 4;
    c.units = {1, 2};
    c.pinned_units = {1};
    c.sizes = {3};
    c.any_update = false;
    c.caps = {2, 4};
    c.remove = t;
    c.touches = true;
  } else if (p == "C34") {
    static const vector<int64_t> ls = {1000000, 3};
    c.keys = 4;
    c.cap = t ? 100 : 3;
    c.limit = mc::pick("limit", ls);
    c.advance = true;
    c.touches = true;
  } else if (p == "C35") {
    c.opt = true;
    c.keys = 4;
    c.max_pins = t ? 4 : 3;
    c.touches = true;
  } else if (p == "C36") {
    c.opt = t;
    c.remove = false;
    c.caps = {1, 3};
    c.idle = {-1, 1};
    c.age = {-1, 1};
    c.advance = true;
  }
  if (p == "C31" || p == "C32" || p == "C35")
    explore<ViewCache, std::string_view>(c);
  else
    explore<IntCache, int>(c);
}

void reg() {
  auto& S = mc::suites();
  const std::set<string> base = {"C30", "C31", "C32"};
  S.push_back({"core", base, core, -1, -1,
               "every sequence of 5 (6) operations (under ASan and for string keys with one hash value and a deleter, and for keys that live in the values: one less) on 2 keys: insert of 1 or 2 units, insertPinned, lookup, release of any pin, remove, "
               "removeAll, removeUnpinned, clear, updateSize of any value, in LRU and age mode, tight and ample capacity", false});
  S.push_back({"deferred", base, deferred, -1, -1, "every sequence of 8 (9) operations on one key and 6 (7) on two: insertPinned, lookup, release of any of up to 5 pins, remove, updateSize", false});
  S.push_back({"evict", {"C30", "C31", "C32", "C33"}, evict, -1, -1,
               "every sequence of 6 (7) operations on 4 keys, capacity 3 or 1: insert of 1 or 2 units, scoped lookup, lookup, release, setMaxSize; then eviction unit by unit", false});
  S.push_back({"evict-sizes", {"C32", "C33"}, evict_sizes, -1, -1, "every sequence of 6 (7) operations on 3 keys with insertPinned and updateSize to 0, 3 or 9 units; then eviction unit by unit", false});
  S.push_back({"subclass", {"C32", "C33"}, subclass, -1, -1,
               "a subclass that also limits the number of entries to 2 and lists its values: sequences of 8 (14) operations on 4 keys, merged as in any-length: insert of 1 or 2 units, insertPinned, lookup, release, remove, updateSize", false});
  S.push_back({"limits", {"C30", "C31", "C34"}, limits, -1, -1,
               "every sequence of 6 (7) operations on 3 keys under idle and age limits of 0, 2 us, 0.5 s, 1 s: insert, insertPinned, lookup, release, removeExpiredEntries, and the clock moved to just "
               "before and just past the age of the oldest or youngest entry", false});
  S.push_back({"opt-out", {"C35"}, optout, -1, -1, "every sequence of 7 (8) operations on 2 keys and 6 (7) on 3 with overlapping ordinary and order-preserving lookups, with and without limit, in both modes; then eviction unit by unit or expiry", false});
  S.push_back({"reconfig", {"C36"}, reconfig, -1, -1,
               "every sequence of 6 (7) operations on 2 or 3 keys including setMaxSize to 0, 1, 2, 100, LRU/age switches without limit, limits of 1 s, 0, -1, -0.5, 1e300 and infinity, pins, order-preserving lookups, the clock", false});
  S.push_back({"any-length", {"C30", "C31", "C32", "C33", "C34", "C35", "C36"}, any_length, -1, -1,
               "histories of up to 14 (20) operations, merged where the model is in the same state (contents, order of use, pins, units, deferred "
               "entries, limits) and (not under ASan) the last operation (thorough: the last two) was of the same kind: every operation from every state "
               "so reached, then eviction unit by unit or expiry", false});
}
}  // namespace

int main(int argc, char** argv) {
  reg();
  return mc::main_(argc, argv);
}
