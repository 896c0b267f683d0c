// The cache and its reference model, side by side.
#pragma once
#include "mc.h"
#include <assert.h>
#include <math.h>
#include <algorithm>
#include <memory>

#include "simple_lru_cache/simple_lru_cache_inl.h"

using std::string;
using std::vector;

static int64_t g_now_us = 1000000000;
static bool g_fake_clock = false;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
  if (g_fake_clock) {
    ts->tv_sec = g_now_us / 1000000;
    ts->tv_nsec = g_now_us % 1000000 * 1000;
    return 0;
  }
  return int(syscall(SYS_clock_gettime, id, ts));
}

namespace {
#if __has_feature(address_sanitizer)
const int kLess = 1;
#else
const int kLess = 0;
#endif
const int64_t kNoLimit = -1;
// Larger for the suites of many entries.
#ifndef RIG_KEYS
#define RIG_KEYS 4
#define RIG_VALUES 64
#endif
const int kKeys = RIG_KEYS, kMaxVals = RIG_VALUES;

struct World;
World* g_w;
struct Val {
  int id;
  char* name;  // a key that lives in the value
  explicit Val(int i, int key = 0) : id(i), name(strdup("key0")) { name[3] += key; }
  ~Val();
};
struct Del {
  int tag = 0;
  void operator()(Val* v) const { delete v; }
};
struct StrHash {  // all keys collide
  size_t operator()(const string&) const { return 7; }
};
typedef google::simple_lru_cache::SimpleLRUCache<int, Val> IntCache;
typedef google::simple_lru_cache::SimpleLRUCacheWithDeleter<string, Val, Del, StrHash> StrCache;
typedef google::simple_lru_cache::SimpleLRUCache<std::string_view, Val> ViewCache;  // keys that live in their values
typedef google::simple_lru_cache::SimpleLRUCacheOptions Options;
// A cache that also limits the number of entries, and lists what it holds.
struct SubCache : IntCache {
  struct Line {
    const Val* v;
    int pins;
    int64_t ts;
    bool deferred;
  };
  int64_t max_entries = INT64_MAX;
  mutable vector<Line> lines;
  using IntCache::IntCache;
  bool isOverfull() const override { return size() > maxSize() || entries() > max_entries; }
  void debugIterator(const Val* v, int pins, int64_t ts, bool deferred, string* out) const override {
    lines.push_back({v, pins, ts, deferred});
    *out += "line\n";
  }
};

// Integer keys come in several styles.
int g_key_style = 0;
int key_of(int k, int*) { return g_key_style == 0 ? k : g_key_style == 1 ? -1 - k : g_key_style == 2 ? k * 65536 + 9 : INT32_MAX - k; }
string key_of(int k, string*) { return string("key") + char('0' + k); }
std::string_view key_of(int k, std::string_view*) {
  static const char* const names[] = {"key0", "key1", "key2", "key3"};
  return names[k];
}
int key_no(int k) { return g_key_style == 0 ? k : g_key_style == 1 ? -1 - k : g_key_style == 2 ? (k - 9) / 65536 : INT32_MAX - k; }
int key_no(std::string_view k) { return k.back() - '0'; }
int key_no(const string& k) { return k.back() - '0'; }

// What a discrepancy is about.
enum Kind { kContents, kDestroyed, kSizes, kEvicted, kExpired, kTimes };

struct Ent {
  int key, id;
  int ord_pins, opt_pins;
  int64_t units, ts;
  bool table;
  int pins() const { return ord_pins + opt_pins; }
};
// The model, and what the harness knows.
struct World {
  vector<Ent> live;  // in the order of insertion
  int next_id = 0;
  int destroyed[kMaxVals] = {};
  Val* ptr[kMaxVals] = {};
  int key_of_id[kMaxVals] = {};
  int64_t cap = 0, limit = kNoLimit, max_entries = INT64_MAX;
  bool lru = true;
  bool used_opt = false, used_reconf = false, this_reconf = false;
  bool dead = false;  // the branch is abandoned
  string step;

  Ent* table(int key) {
    for (auto& e : live)
      if (e.table && e.key == key) return &e;
    return nullptr;
  }
  Ent* by_id(int id) {
    for (auto& e : live)
      if (e.id == id) return &e;
    return nullptr;
  }
  int64_t units() const {
    int64_t s = 0;
    for (auto& e : live) s += e.units;
    return s;
  }
  bool over() const {
    int64_t n = 0;
    for (auto& e : live) n += e.table;
    return units() > cap || n > max_entries;
  }
  void drop(Ent* e) { live.erase(live.begin() + (e - &live[0])); }
  // Takes the entry out of the table.
  void take_out(Ent* e) {
    if (e->pins())
      e->table = false;
    else
      drop(e);
  }
  void evict() {
    while (over()) {
      Ent* v = nullptr;
      for (auto& e : live)
        if (e.table && !e.pins() && (!v || e.ts < v->ts)) v = &e;
      if (!v) return;
      drop(v);
    }
  }
  void expire() {
    if (limit < 0) return;
    for (size_t i = 0; i < live.size();) {
      Ent& e = live[i];
      if (e.table && (!lru || !e.pins()) && g_now_us - e.ts > limit) {
        if (e.pins()) {
          e.table = false;
          i++;
        } else {
          drop(&e);
        }
      } else {
        i++;
      }
    }
  }
};
Val::~Val() {
  memset(name, '?', 4);
  free(name);
  if (g_w && id < kMaxVals) g_w->destroyed[id]++;
}

// Whether the active property is concerned.
bool mine(Kind k) {
  const string& p = mc::g_opts.prop;
  if (p == "C35") return g_w->used_opt;
  if (p == "C36") return g_w->used_reconf;
  switch (k) {
    case kContents: return p == "C30";
    case kDestroyed: return p == "C31";
    case kSizes: return p == "C32";
    case kEvicted: return p == "C33";
    case kExpired: return p == "C34";
    case kTimes: return p == "C34";
  }
  return false;
}
string show() {
  string r;
  char b[200];
  for (auto& e : g_w->live) {
    snprintf(b, sizeof b, "[key %d#%d%s pins %d+%d units %lld last %+lld] ", e.key, e.id, e.table ? "" : " removed", e.ord_pins, e.opt_pins, (long long)e.units,
             (long long)(e.ts - g_now_us));
    r += b;
  }
  snprintf(b, sizeof b, "capacity %lld, %s mode, limit %lld", (long long)g_w->cap, g_w->lru ? "LRU" : "age", (long long)g_w->limit);
  return r + b;
}
#define BAD(kind, ...)                                                                \
  do {                                                                                \
    if (mine(kind)) {                                                                 \
      char b_[600];                                                                   \
      snprintf(b_, sizeof b_, __VA_ARGS__);                                           \
      mc::fail("after %s: %s; expected state: %s", g_w->step.c_str(), b_, show().c_str()); \
    }                                                                                 \
    g_w->dead = true;                                                                 \
    return;                                                                           \
  } while (0)

template <class Cache, class Key>
struct Rig {
  std::unique_ptr<Cache> c;
  World w;
  int nkeys;
  int64_t unit = 1;  // of sizes
  // lenient tracking for C30: the value that should be found unless evicted or expired
  int cand[kKeys];
  bool gone[kKeys] = {};
  // facts about the running operation
  bool may_evict = false, may_expire = false;
  bool was_pinned[kKeys] = {};
  int64_t was_ts[kKeys] = {}, was_units = 0;

  Rig(int keys, int64_t cap) : c(new Cache(cap)), nkeys(keys) {
    g_w = &w;
    std::fill(cand, cand + kKeys, -1);
    w.cap = cap;
    g_now_us = 1000000000;
    g_fake_clock = true;
  }
  ~Rig() {
    g_fake_clock = false;
    g_w = nullptr;
  }
  Key K(int k) { return key_of(k, (Key*)nullptr); }
  // The key to store a value under.
  Key stored_key(int k, int id) {
    if constexpr (std::is_same_v<Key, std::string_view>)
      return w.ptr[id]->name;
    else
      return K(k);
  }

  // ---- operations: on the cache and on the model ----
  int since_check = 0;  // operations
  void begin(const char* what, int k = -1, long long a = 0, long long b = 0) {
    since_check++;
    g_now_us++;
    w.this_reconf = false;
    may_evict = may_expire = false;
    was_units = w.units();
    for (int i = 0; i < nkeys; i++) {
      Ent* e = w.table(i);
      was_pinned[i] = e && e->pins();
      was_ts[i] = e ? e->ts : 0;
    }
    char buf[120];
    snprintf(buf, sizeof buf, k >= 0 ? "%s(key %d, %lld, %lld)" : "%s(%.0d%lld, %lld)", what, k >= 0 ? k : 0, a, b);
    w.step = buf;
    mc::step();
  }
  int fresh(int k, int64_t units, bool pinned) {
    int id = w.next_id++;
    if (id >= kMaxVals) abort();
    w.ptr[id] = new Val(id, k);
    w.key_of_id[id] = k;
    may_evict = true;
    was_units += units;
    if (Ent* e = w.table(k)) w.take_out(e);
    w.live.push_back({k, id, 1, 0, units, g_now_us, true});
    w.evict();
    cand[k] = id;
    gone[k] = false;
    was_pinned[k] = pinned;
    was_ts[k] = g_now_us;
    return id;
  }
  void insert(int k, int64_t units) {
    begin("insert", k, units);
    int id = fresh(k, units, false);
    c->insert(stored_key(k, id), w.ptr[id], units);
    model_release(id, false);
  }
  void insert_pinned(int k, int64_t units) {
    begin("insertPinned", k, units);
    int id = fresh(k, units, true);
    c->insertPinned(stored_key(k, id), w.ptr[id], units);
  }
  void model_release(int id, bool opt) {
    Ent* e = w.by_id(id);
    (opt ? e->opt_pins : e->ord_pins)--;
    if (!e->table) {
      if (!e->pins()) w.drop(e);
      return;
    }
    if (w.lru && !opt) e->ts = g_now_us;
    if (!e->pins() && w.over()) w.drop(e);
  }
  void model_lookup(int k, bool opt, int* id) {
    w.expire();
    Ent* e = w.table(k);
    *id = e ? e->id : -1;
    if (e) (opt ? e->opt_pins : e->ord_pins)++;
  }
  void judge_lookup(int k, Val* v, int id) {
    // The model agrees with the real contents, unless the entry should (not) have expired by now; that is for check().
    if (v && (cand[k] < 0 || gone[k] || v != w.ptr[cand[k]]))
      BAD(kContents, "lookup of key %d returns %s", k, cand[k] < 0 ? "a value that was removed" : "another value than the one stored");
    if (v && id < 0) BAD(kExpired, "lookup of key %d finds an entry that should have expired", k);
    if (!v && id >= 0) {
      if (w.limit >= 0) BAD(kExpired, "lookup of key %d finds nothing", k);
      BAD(kContents, "lookup of key %d finds nothing", k);
    }
  }
  void lookup(int k, bool opt) {
    begin(opt ? "lookup keeping order" : "lookup", k);
    may_expire = true;
    if (opt) w.used_opt = true;
    Options o;
    o.set_update_eviction_order(!opt);
    Val* v = opt ? c->lookupWithOptions(K(k), o) : c->lookup(K(k));
    int id;
    model_lookup(k, opt, &id);
    judge_lookup(k, v, id);
  }
  void release(int id, bool opt) {
    Ent* e = w.by_id(id);
    begin(opt ? "release keeping order" : "release", e->key, id);
    int k = e->key;
    if (e->table && e->pins() == 1) {
      may_evict = true;
      was_pinned[k] = false;
      if (w.lru && !opt) was_ts[k] = g_now_us;
    }
    Options o;
    o.set_update_eviction_order(!opt);
    Val* v = w.ptr[id];
    model_release(id, opt);
    if (opt)
      c->releaseWithOptions(K(k), v, o);
    else
      c->release(K(k), v);
  }
  // Lookup and release by the scoped helper.
  void touch(int k, bool opt) {
    begin(opt ? "touch keeping order" : "touch", k);
    may_expire = true;
    may_evict = true;  // at the release
    if (opt) w.used_opt = true;
    int id;
    {
      Options o;
      o.set_update_eviction_order(!opt);
      std::unique_ptr<typename Cache::ScopedLookup> l(opt ? new typename Cache::ScopedLookup(c.get(), K(k), o) : new typename Cache::ScopedLookup(c.get(), K(k)));
      model_lookup(k, opt, &id);
      judge_lookup(k, l->value(), id);
      if (l->found() != (l->value() != nullptr)) BAD(kContents, "ScopedLookup::found");
      if (l->value() && w.dead) return;
    }
    if (id >= 0) model_release(id, opt);
  }
  void remove(int k) {
    begin("remove", k);
    c->remove(K(k));
    if (Ent* e = w.table(k)) w.take_out(e);
    cand[k] = -1;
  }
  void remove_all() {
    begin("removeAll");
    c->removeAll();
    for (int k = 0; k < nkeys; k++) {
      if (Ent* e = w.table(k)) w.take_out(e);
      cand[k] = -1;
    }
  }
  void remove_unpinned() {
    begin("removeUnpinned");
    c->removeUnpinned();
    for (int k = 0; k < nkeys; k++) {
      Ent* e = w.table(k);
      if (e && !e->pins()) {
        w.take_out(e);
        cand[k] = -1;
      }
    }
  }
  bool can_clear() {
    for (auto& e : w.live)
      if (e.pins()) return false;
    return true;
  }
  void clear() {
    begin("clear");
    c->clear();
    w.live.clear();
    for (int k = 0; k < nkeys; k++) cand[k] = -1;
  }
  // id: -1: any value (null), else that value; kMaxVals: a value the cache does not hold
  void update_size(int k, int id, int64_t units) {
    begin("updateSize", k, id, units);
    may_evict = true;
    static Val other(kMaxVals);
    const Val* v = id < 0 ? nullptr : id == kMaxVals ? &other : w.ptr[id];
    c->updateSize(K(k), v, units);
    Ent* e = w.table(k);
    if (e && (id < 0 || id == e->id)) {
      e->units = units;
    } else {
      for (auto& d : w.live)
        if (!d.table && d.key == k && (id < 0 || id == d.id)) d.units = units;
    }
    was_units = std::max(was_units, w.units());
    w.evict();
  }
  void set_max(int64_t m) {
    begin("setMaxSize", -1, m);
    w.this_reconf = w.used_reconf = true;
    may_evict = true;
    c->setMaxSize(m);
    w.cap = m;
    w.evict();
  }
  bool can_limit(bool lru, double s) { return s < 0 || isinf(s) || w.limit < 0 || lru == w.lru; }
  void set_limit(bool lru, double s, bool initial = false) {
    begin(lru ? "setMaxIdleSeconds" : "setAgeBasedEviction", -1, s >= 0 && s < 1e9 ? (long long)(s * 1000) : -1);
    if (!initial) w.this_reconf = w.used_reconf = true;
    if (lru)
      c->setMaxIdleSeconds(s);
    else
      c->setAgeBasedEviction(s);
    w.lru = lru;
    w.limit = s < 0 || isinf(s) ? kNoLimit : s >= 9e12 ? INT64_MAX : int64_t(s * 1000000);
    may_expire = true;
    w.expire();
  }
  void expire() {
    begin("removeExpiredEntries");
    may_expire = true;
    c->removeExpiredEntries();
    w.expire();
  }

  // ---- observation ----
  void check() {
    if (w.dead) return;
    Val* real[kKeys] = {};
    int64_t real_ts[kKeys] = {};
    int n = 0;
    bool dup = false, alien = false;
    for (auto it = c->begin(); it != c->end(); ++it) {
      int k = key_no(it->first);
      n++;
      if (k < 0 || k >= nkeys) {
        alien = true;
        continue;
      }
      if (real[k]) dup = true;
      real[k] = it->second;
      real_ts[k] = it.last_use_time();
      if (n > 2 * kKeys) break;
    }
    if (dup || alien) BAD(kContents, "iteration yields a key twice or one never stored");
    // C31: from the pins the harness holds and what the cache shows as stored
    int pins_of[kMaxVals] = {};
    for (auto& e : w.live) pins_of[e.id] = e.pins();
    for (int id = 0; id < w.next_id; id++) {
      if (w.destroyed[id] > 1) BAD(kDestroyed, "value #%d was destroyed %d times", id, w.destroyed[id]);
      bool stored = false;
      int k = w.key_of_id[id];
      stored = real[k] == w.ptr[id] && cand[k] == id;
      bool pinned = pins_of[id] > 0;
      if (w.destroyed[id] && pinned) BAD(kDestroyed, "value #%d was destroyed although it is pinned", id);
      if (w.destroyed[id] && stored) BAD(kDestroyed, "value #%d was destroyed although it is stored", id);
      if (!w.destroyed[id] && !pinned && !stored) BAD(kDestroyed, "value #%d is neither stored nor pinned and was not destroyed", id);
    }
    // C30
    Ent* by_id[kMaxVals] = {};
    bool in_use[kKeys] = {};
    for (auto& e : w.live) {
      by_id[e.id] = &e;
      if (e.pins()) in_use[e.key] = true;
    }
    for (int k = 0; k < nkeys; k++) {
      if (real[k] && (cand[k] < 0 || real[k] != w.ptr[cand[k]])) BAD(kContents, "the cache holds a removed or replaced value under key %d", k);
      if (real[k] && gone[k]) BAD(kContents, "an evicted value is back under key %d", k);
      if (!real[k] && cand[k] >= 0 && !gone[k]) {
        bool excuse = (may_evict && !was_pinned[k] && (was_units > w.cap || w.max_entries < kKeys)) ||
                      (may_expire && w.limit >= 0 && g_now_us - was_ts[k] > w.limit && (!was_pinned[k] || !w.lru));
        if (!excuse && since_check <= 1) {
          if (may_expire && w.limit >= 0) BAD(kExpired, "the value under key %d has vanished before its time", k);
          if (may_evict && was_pinned[k] == false) BAD(w.this_reconf ? kEvicted : kContents, "the value under key %d has vanished although nothing had to be evicted", k);
          BAD(kContents, "the value under key %d has vanished", k);
        }
        gone[k] = true;
      }
      bool use = real[k] != nullptr || in_use[k];
      if (c->stillInUse(K(k)) != use) BAD(kContents, "stillInUse(key %d) is %d", k, !use);
      for (int id = 0; id < w.next_id; id++) {
        if (w.destroyed[id]) continue;
        Ent* e = by_id[id];
        if (!e || (kKeys > 8 && e->key != k && (e->key + id + k) % 97)) continue;
        bool u = e->key == k && (e->pins() || real[k] == w.ptr[id]);
        if (c->stillInUse(K(k), w.ptr[id]) != u) BAD(kContents, "stillInUse(key %d, #%d) is %d", k, id, !u);
      }
    }
    // C32: from the real contents and the pins
    int64_t total = 0, pinned = 0, deferred = 0, ndef = 0;
    for (auto& e : w.live) {
      bool stored = real[e.key] == w.ptr[e.id];
      if (!stored && !e.pins()) continue;  // evicted differently than in the model: see below
      total += e.units;
      if (stored && e.pins()) pinned += e.units;
      if (!stored) {
        deferred += e.units;
        ndef++;
      }
    }
    bool differs = false;  // the model dropped something that is still there
    for (int k = 0; k < nkeys; k++)
      if (real[k]) {
        Ent* e = w.table(k);
        if (!e || w.ptr[e->id] != real[k]) differs = true;
      }
    if (c->entries() != n) BAD(kSizes, "entries() is %lld, but there are %d", (long long)c->entries(), n);
    if (!differs) {
      if (c->size() != total) BAD(kSizes, "size() is %lld instead of %lld", (long long)c->size(), (long long)total);
      if (c->pinnedSize() != pinned) BAD(kSizes, "pinnedSize() is %lld instead of %lld", (long long)c->pinnedSize(), (long long)pinned);
      if (c->deferredSize() != deferred) BAD(kSizes, "deferredSize() is %lld instead of %lld", (long long)c->deferredSize(), (long long)deferred);
      if (c->deferredEntries() != ndef) BAD(kSizes, "deferredEntries() is %lld instead of %lld", (long long)c->deferredEntries(), (long long)ndef);
      char b[100];
      snprintf(b, sizeof b, "%lld/%lld/%lld p/d/a", (long long)pinned, (long long)deferred, (long long)total);
      if (c->summary() != b) BAD(kSizes, "summary() is \"%s\" instead of \"%s\"", c->summary().c_str(), b);
    }
    if constexpr (std::is_same_v<Cache, SubCache>) {
      string out;
      c->lines.clear();
      c->debugOutput(&out);
      for (auto& e : w.live) {
        bool stored = real[e.key] == w.ptr[e.id];
        if (!stored && !e.pins()) continue;
        int found = 0;
        for (auto& l : c->lines)
          if (l.v == w.ptr[e.id]) found += l.pins == e.pins() && l.deferred == !stored ? 1 : 100;
        if (found != 1) BAD(kSizes, "debugOutput lists #%d %s", e.id, found == 0 ? "not at all" : found < 100 ? "more than once" : "with the wrong number of pins or in the wrong state");
        if (!differs && out.find("deferred") == string::npos) BAD(kSizes, "debugOutput has no summary");
      }
      if (!differs && c->lines.size() != w.live.size()) BAD(kSizes, "debugOutput lists %zu values instead of %zu", c->lines.size(), w.live.size());
    }
    if (c->maxSize() != w.cap) BAD(kSizes, "maxSize() is %lld", (long long)c->maxSize());
    // C33, C34: the very contents
    for (int k = 0; k < nkeys; k++) {
      Ent* e = w.table(k);
      Val* want = e ? w.ptr[e->id] : nullptr;
      if (real[k] == want) continue;
      bool by_age = may_expire && w.limit >= 0;
      if (want && !real[k]) BAD(by_age ? kExpired : kEvicted, "key %d is gone%s", k, by_age ? " before its time" : ", but another entry had to go first, or none");
      if (!want && real[k]) BAD(by_age ? kExpired : kEvicted, "key %d should be gone", k);
      BAD(kContents, "key %d holds another value", k);
    }
    // times
    int64_t oldest = INT64_MAX;
    bool any = false, pins = false;
    for (int k = 0; k < nkeys; k++) {
      Ent* e = w.table(k);
      int64_t t = w.lru ? c->getLastUseTime(K(k)) : c->getInsertionTime(K(k));
      if (t != (e ? e->ts : -1)) BAD(kTimes, "%s of key %d is off by %lld us", w.lru ? "getLastUseTime" : "getInsertionTime", k, (long long)(t - (e ? e->ts : -1)));
      if (e && real_ts[k] != e->ts) BAD(kTimes, "the iterator's time of key %d is off", k);
      if (e) {
        any = true;
        pins |= e->pins() > 0;
        oldest = std::min(oldest, e->ts);
      }
    }
    if (!pins && c->ageOfLRUItemInMicroseconds() != (any ? g_now_us - oldest : 0)) BAD(kTimes, "ageOfLRUItemInMicroseconds() is %lld", (long long)c->ageOfLRUItemInMicroseconds());
    since_check = 0;
    MC_NOTE("%s: %s", w.step.c_str(), show().c_str());
  }
  void remember() {
    mc::Hash h;
    h.u(w.cap).u(w.limit).u(w.lru);
    vector<int64_t> ts;
    for (auto& e : w.live) ts.push_back(e.ts);
    std::sort(ts.begin(), ts.end());
    for (auto& e : w.live) {
      int64_t idle = g_now_us - e.ts, b = w.limit < 0 ? 0 : idle < w.limit ? 1 : idle == w.limit ? 2 : 3;
      h.u(e.key).u(e.ord_pins).u(e.opt_pins).u(e.units).u(e.table).u(std::lower_bound(ts.begin(), ts.end(), e.ts) - ts.begin()).u(b);
    }
    mc::state(h.h);
  }
  // A name of the model's state: entries in the order of their times, keys renamed in that order.
  uint64_t canonical(int extra) {
    vector<const Ent*> v;
    for (auto& e : w.live) v.push_back(&e);
    std::stable_sort(v.begin(), v.end(), [](const Ent* a, const Ent* b) { return a->table != b->table ? a->table : a->table && a->ts < b->ts; });
    int name[kKeys], n = 0;
    std::fill(name, name + kKeys, -1);
    mc::Hash h;
    h.u(w.cap).u(w.limit).u(w.lru).u(w.used_opt).u(w.used_reconf).u(extra);
    for (auto e : v) {
      if (name[e->key] < 0) name[e->key] = n++;
      int64_t idle = g_now_us - e->ts, b = w.limit < 0 || !e->table ? 0 : idle < w.limit ? 1 : idle == w.limit ? 2 : 3;
      h.u(name[e->key]).u(e->ord_pins).u(e->opt_pins).u(e->units).u(e->table).u(b);
    }
    return h.h;
  }
  // Brings the cache to its end: what is evictable, in which order, and is all destroyed?
  void finish() {
    if (!w.dead && mc::choose("ending", 2)) {
      // by expiry
      if (w.limit >= 0 && w.limit < (int64_t(1) << 60)) {
        g_now_us += w.limit;
        expire();
        check();
        g_now_us += w.limit;
        if (!w.dead) expire();
        check();
      } else if (w.lru || w.limit < 0) {
        bool lru = w.lru;
        g_now_us += 1000000;
        set_limit(lru, 0.5, true);
        check();
      }
    } else if (!w.dead) {
      // by shrinking, one unit at a time
      bool r = w.used_reconf;
      for (int64_t m = (std::min<int64_t>((w.units() + unit - 1) / unit, kKeys > 8 ? 600 : 12) - 1) * unit; m >= 0 && !w.dead; m -= unit) {
        set_max(m);
        w.used_reconf = r;
        check();
      }
    }
    // releases, oldest first
    while (!w.dead) {
      int id = -1;
      bool opt = false;
      for (auto& e : w.live)
        if (e.pins()) {
          id = e.id;
          opt = e.ord_pins == 0;
          break;
        }
      if (id < 0) break;
      release(id, opt);
      check();
    }
    if (!w.dead) {
      clear();
      check();
    }
    if (!w.dead) {
      if (c->size() || c->entries()) dead_end();
      for (int id = 0; id < w.next_id; id++)
        if (w.destroyed[id] != 1 && !w.dead) not_destroyed(id);
    }
    if (w.dead) {
      c.release();  // in an unknown state: leave it alone
      return;
    }
    c.reset();
  }
  void dead_end() { BAD(kSizes, "the cleared cache is not empty"); }
  void not_destroyed(int id) { BAD(kDestroyed, "value #%d was destroyed %d times in all", id, w.destroyed[id]); }
};
}  // namespace
