// C30..C36 at scale: many entries, many pins, many deferred values, large sizes, long limits.
#define RIG_KEYS 300
#define RIG_VALUES 620
#include <functional>
#include "../lib/lrurig.h"

namespace {
typedef Rig<IntCache, int> Big;
const int kCounts[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257};
bool concerned(bool opt, bool reconf) {
  const string& p = mc::g_opts.prop;
  return !(p == "C35" && !opt) && !(p == "C36" && !reconf);
}
void end(Big& r) {
  r.remember();
  r.finish();
  mc::outcome(r.w.dead ? 2 : 0);
}
// Many entries: touched, pinned and replaced in patterns, then evicted one by one.
void many() {
  g_key_style = mc::choose("key style", 4);
  int n = mc::pick("entries", kCounts);
  static const int64_t units[] = {1, (int64_t(1) << 31) + 1, int64_t(3) << 50};
  int64_t u = mc::pick("units", units);
  bool lru = !mc::choose("age mode", 2), tight = mc::choose("tight", 2);
  int touched = mc::choose("touched", 6), pinned = mc::choose("pinned", 4), then = mc::choose("then", 5);
  bool opt = concerned(true, false) && mc::g_opts.prop == "C35";
  if (mc::g_opts.prop == "C36" && then != 4) return;
  if (!mc::thorough() && n > 33 && (g_key_style || touched == 5 || u != units[0])) return;
  if (!mc::thorough() && n > 65 && (touched % 2 == 0 || pinned % 2)) return;
  if (!mc::thorough() && n > 8 && (g_key_style % 2 || u == units[2])) return;
  if (!mc::thorough() && kLess && n > 17) return;
  Big r(n, tight ? (n + 1) / 2 * u : n * u);
  World& w = r.w;
  r.unit = u;
  if (!lru) r.set_limit(false, -1, true);
  for (int i = 0; i < n && !w.dead; i++) {
    r.insert(i, u);
    if (n <= 33 || i % 16 == 0 || i == n - 1) r.check();
  }
  auto each = [&](std::function<bool(int)> f, std::function<void(int)> g) {
    for (int i = 0; i < n && !w.dead; i++)
      if (f(i)) {
        g(i);
        if (n <= 33 || i % 16 == 0) r.check();
      }
  };
  auto touch = [&](int i) { r.touch(i, opt && i % 2); };
  switch (touched) {
    case 1: each([&](int i) { return i == 0; }, touch); break;
    case 2: each([&](int i) { return i == n - 1 || i == n / 2; }, touch); break;
    case 3: each([&](int i) { return i % 3 == 1; }, touch); break;
    case 4: each([&](int i) { return true; }, [&](int i) { touch(n - 1 - i); }); break;
    case 5: each([&](int i) { return true; }, [&](int i) { touch(i * 7 % n); }); break;
  }
  auto pin = [&](int i) { r.lookup(i, opt && i % 3 == 0); };
  switch (pinned) {
    case 1: each([&](int i) { return i == n - 1; }, pin); break;
    case 2: each([&](int i) { return i % 4 == 3; }, pin); break;
    case 3: each([&](int i) { return i != n / 2; }, pin); break;
  }
  if (!w.dead) r.check();
  switch (then) {
    case 1: each([&](int i) { return i % 2; }, [&](int i) { r.remove(i); }); break;
    case 2: each([&](int i) { return i % 5 == 2; }, [&](int i) { r.insert(i, u); }); break;
    case 3:
      if (!w.dead) {
        if (touched % 2) r.remove_unpinned();
        else r.remove_all();
      }
      break;
    case 4:
      if (!w.dead) r.set_max(n * u / 3);
      break;
  }
  if (!w.dead) r.check();
  end(r);
}
// Many values of the same keys that are removed while pinned, released in every kind of order.
void versions() {
  static const int ns[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 64, 65, 100, 257};
  int n = mc::pick("versions", ns), keys = 1 + mc::choose("keys", 3);
  int order = mc::choose("release order", 6), act = mc::choose("then", 4), twice = mc::choose("pins", 3);
  bool opt = mc::g_opts.prop == "C35";
  if (kLess && !mc::thorough() && n > 33) return;
  Big r(keys, 2);
  World& w = r.w;
  for (int i = 0; i < n && !w.dead; i++) {
    int k = i % keys;
    r.insert_pinned(k, 1 + i % 3);
    for (int p = 0; p < twice && !w.dead; p++) r.lookup(k, opt && p % 2 == 0);
    if (n <= 33 || i % 16 == 0) r.check();
  }
  if (act == 1 && !w.dead) r.remove(0);
  if (act == 2 && !w.dead) r.remove_all();
  if (!w.dead) r.check();
  if (act == 3)  // sizes of values in the middle change
    for (int i = 0; i < n && !w.dead; i += 1 + n / 8) {
      r.update_size(i % keys, i, 7);
      r.check();
    }
  vector<int> ids;
  for (int i = 0; i < n; i++) ids.push_back(i);
  if (order == 1) std::reverse(ids.begin(), ids.end());
  if (order == 2) std::rotate(ids.begin(), ids.begin() + n / 2, ids.end());
  if (order == 3) std::stable_partition(ids.begin(), ids.end(), [](int i) { return i % 2; });
  if (order == 4) std::stable_partition(ids.begin(), ids.end(), [&](int i) { return i && i != n - 1; });
  if (order == 5) std::stable_partition(ids.begin(), ids.end(), [&](int i) { return i == n / 2; });
  int round = 0;
  for (int i : ids) {
    while (!w.dead) {
      Ent* e = w.by_id(i);
      if (!e || !e->pins() || !w.ptr[i] || w.destroyed[i]) break;
      bool o = e->opt_pins && (round % 2 || !e->ord_pins);
      int pins = e->pins();
      r.release(i, o);
      if (n <= 33 || round % 16 == 0) r.check();
      round++;
      if (pins == 1) break;
    }
    // a new value in between
    if (i == n / 3 && !w.dead) {
      r.insert(0, 1);
      r.check();
    }
  }
  if (!w.dead) r.check();
  end(r);
}
// Many pins on one entry.
void pins() {
  static const int ns[] = {2, 3, 4, 7, 8, 9, 15, 16, 17, 100, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 140000};
  int n = mc::pick("pins", ns);
  int what = mc::choose("meanwhile", 5);
  bool lru = !mc::choose("age mode", 2), opt = mc::g_opts.prop == "C35";
  Big r(3, 2);
  World& w = r.w;
  if (!lru) r.set_limit(false, -1, true);
  r.insert(0, 1);
  r.check();
  for (int i = 0; i < n && !w.dead; i++) {
    r.lookup(0, opt && i % 2);
    if (i < 40 || i > n - 3) r.check();
  }
  if (w.dead) return end(r);
  switch (what) {
    case 1: r.remove(0); break;
    case 2: r.insert(0, 2); break;
    case 3:
      r.insert(1, 1);
      r.check();
      if (!w.dead) r.insert(2, 1);
      break;
    case 4: r.remove_all(); break;
  }
  if (!w.dead) r.check();
  for (int i = 0; i < n && !w.dead; i++) {
    Ent* e = w.by_id(0);
    bool o = e->opt_pins && (i % 2 || !e->ord_pins);
    r.release(0, o);
    if (i < 5 || i > n - 40) r.check();
  }
  end(r);
}
// Long limits, on clocks of every size.
void long_limits() {
  static const double ls[] = {0.000001, 0.001, 0.25, 0.75, 1.5, 59, 60, 2147, 2147.5, 2148, 4294, 4295, 4296, 86400, 31536000, 1e9, 2e9};
  static const int64_t clocks[] = {1, 1000000, 2147483647, 4294967296, int64_t(1700000000) * 1000000, int64_t(4000000000) * 1000000};
  double l = mc::pick("limit", ls);
  int64_t us = int64_t(l * 1000000);
  int64_t clock = mc::pick("clock", clocks);
  bool lru = !mc::choose("age mode", 2), late = mc::choose("limit set late", 2), touched = mc::choose("touched", 2), opt = mc::g_opts.prop == "C35";
  int pinned = mc::choose("pinned", 3);
  static const int ns[] = {3, 9, 33};
  int n = mc::pick("entries", ns);
  if (mc::g_opts.prop == "C36" && !late) return;
  if (clock > int64_t(1) << 50 && l > 1e9) return;  // the clock counts nanoseconds in 64 bits
  Big r(n, 1000);
  World& w = r.w;
  g_now_us = clock;
  if (!lru) r.set_limit(false, late ? -1 : l, true);
  else if (!late) r.set_limit(true, l, true);
  int64_t gap = us / (n * 2) + 1;
  for (int i = 0; i < n && !w.dead; i++) {
    r.insert(i, 1);
    r.check();
    g_now_us += gap;
  }
  if (touched && !w.dead) {
    r.touch(0, opt);
    r.check();
  }
  if (pinned && !w.dead) {
    r.lookup(1, false);
    r.check();
    if (pinned == 2 && !w.dead) {
      r.lookup(n - 1, opt);
      r.check();
    }
  }
  if (late && !w.dead) {
    r.set_limit(lru, l);
    r.check();
  }
  // step to just before and just past the age of every entry, in turn
  for (int step = 0; step < 2 * n && !w.dead; step++) {
    int64_t next = INT64_MAX;
    for (auto& e : w.live)
      if (e.table && (!w.lru || !e.pins()) && e.ts + us >= g_now_us) next = std::min(next, e.ts + us);
    if (next == INT64_MAX || next < g_now_us) break;
    g_now_us = next - 1;  // the operation itself takes a microsecond
    if (step % 2) r.touch(step / 2 % n, opt);
    else r.expire();
    r.check();
    if (w.dead) break;
    if (step % 3 == 2) r.touch(n - 1 - step / 2 % n, true);
    else r.expire();
    r.check();
  }
  end(r);
}
void reg() {
  auto& S = mc::suites();
  const std::set<string> all = {"C30", "C31", "C32", "C33", "C34", "C35", "C36"};
  S.push_back({"many", {"C30", "C31", "C32", "C33", "C35", "C36"}, many, -1, -1,
               "30 numbers of entries up to 257 (under ASan 33) x 4 styles of keys x 3 scales of sizes up to 2^51 x both modes x tight and ample capacity x 6 patterns of use x 4 of pins x 5 further operations; then eviction one by one, or expiry", false});
  S.push_back({"versions", {"C30", "C31", "C32", "C35"}, versions, -1, -1, "21 numbers of values up to 257 (under ASan 33) stored and pinned under 1..3 keys, released in 6 orders, with removals, resizing and a new value in between", false});
  S.push_back({"pins", {"C30", "C31", "C32", "C33", "C35"}, pins, -1, -1, "24 numbers of pins up to 140000 on one entry, with 5 operations in between, both modes", false});
  S.push_back({"long-limits", {"C30", "C34", "C35", "C36"}, long_limits, -1, -1,
               "17 limits from 1 us to 2e9 s on clocks of 6 sizes, both modes, 3, 9 or 33 entries: the clock moved to just before and just past the end of every entry", false});
}
}  // namespace

int main(int argc, char** argv) {
  reg();
  return mc::main_(argc, argv);
}
