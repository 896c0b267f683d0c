// A stateless bounded model checker for sequential and controlled-concurrent harness bodies.
//
// A body is a function that builds its system from scratch, asks choose() for every decision of the environment
// (operation, operand, fault, clock value, thread to run, ...), drives the real code, and compares it with an oracle.
// The explorer enumerates the complete choice tree: explore(prefix) runs the body once, replaying the prefix and taking
// alternative 0 afterwards, then recurses into every other alternative of every later choice, within the deviation
// bound. Every execution is thus run exactly once. Work is spread over forked workers; the trace of the running
// execution lives in shared memory, so that a crash, an assertion or a sanitizer report is a violation with its trace.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace mc {

constexpr int kMaxTrace = 1 << 15;
constexpr int kMaxWorkers = 16;
constexpr size_t kStateSlots = size_t(1) << 24;
constexpr size_t kVisitSlots = size_t(1) << 26;

struct Opts {
  std::string prop;
  bool thorough = false;
  bool verbose = false;  // replaying: print notes
  unsigned seed = 1;
  int workers = 8;
};
inline Opts g_opts;
inline bool thorough() { return g_opts.thorough; }
inline bool active(const char* prop) { return g_opts.prop == prop; }
// Quick or thorough value.
template <class T>
inline T qt(T q, T t) {
  return g_opts.thorough ? t : q;
}

struct WorkerShm {
  volatile uint16_t n;  // choices made in the running execution
  volatile uint16_t choice[kMaxTrace];
  volatile uint16_t arity[kMaxTrace];
  volatile uint16_t cost[kMaxTrace];
  volatile uint64_t executions, transitions;
  volatile int failed;  // 1: violation, 2: finding listed in the known file
  char msg[4096];
  char key[256];
};

struct Shm {
  WorkerShm w[kMaxWorkers];
  std::atomic<uint64_t> next_task, n_tasks;
  std::atomic<uint64_t> n_states;
  std::atomic<int> stop;
  std::atomic<uint64_t> outcomes[64];  // histogram of observed outcomes, to see that the runs are not vacuous
  std::atomic<uint64_t> known_hits[32];
  std::atomic<int64_t> merged[256];  // merged states by the steps that were left when they were reached earliest
};

inline Shm* g_shm;
inline std::atomic<uint64_t>* g_states;
inline std::atomic<uint64_t>* g_visits;
inline int g_me = 0;  // worker index
inline std::vector<std::string> g_known;  // keys of listed findings of this property

struct Point {
  uint16_t choice, arity;
  uint16_t cost;  // of every alternative other than 0
};
inline std::vector<Point> g_trace;   // of the running execution
inline std::vector<Point> g_prefix;  // to replay
inline std::vector<std::string> g_notes;
inline bool g_want_notes = false;

inline WorkerShm& me() { return g_shm->w[g_me]; }
inline int64_t now_ms() {  // by a system call: harnesses interpose clock_gettime
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return int64_t(ts.tv_sec) * 1000 + ts.tv_nsec / 1000000;
}

inline uint64_t mix(uint64_t x) {
  x ^= x >> 33;
  x *= 0xff51afd7ed558ccdULL;
  x ^= x >> 33;
  x *= 0xc4ceb9fe1a85ec53ULL;
  x ^= x >> 33;
  return x;
}
struct Hash {
  uint64_t h = 0x9e3779b97f4a7c15ULL;
  Hash& u(uint64_t x) {
    h = mix(h ^ mix(x + 0x1234567)) + 0x51ed27;
    return *this;
  }
  Hash& s(const std::string& x) {
    u(x.size());
    for (unsigned char c : x) h = mix(h * 257 + c);
    return *this;
  }
};

// ---- failing ----
[[noreturn]] inline void fail_key(const std::string& key, const std::string& msg) {
  WorkerShm& w = me();
  snprintf(w.msg, sizeof w.msg, "%s", msg.c_str());
  snprintf(w.key, sizeof w.key, "%s", key.c_str());
  w.failed = 1;
  if (g_want_notes) {
    for (auto& n : g_notes) printf("  %s\n", n.c_str());
    printf("  FAILED: %s\n", msg.c_str());
    fflush(stdout);
  }
  _exit(3);
}
[[noreturn]] inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void fail(const char* fmt, ...) {
  char buf[3000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  fail_key("", buf);
}
// A failure that a listed finding may explain: returns (and counts the hit) if so.
inline void fail_unless_known(const std::string& key, const std::string& msg) {
  for (size_t i = 0; i < g_known.size(); i++)
    if (g_known[i] == key) {
      g_shm->known_hits[i]++;
      return;
    }
  fail_key(key, msg);
}
#define MC_CHECK(prop, cond, ...)                        \
  do {                                                   \
    if (::mc::active(prop) && !(cond)) ::mc::fail(__VA_ARGS__); \
  } while (0)

// Describes a step; only evaluated when a trace is replayed for display.
#define MC_NOTE(...)                                       \
  do {                                                     \
    if (::mc::g_want_notes) ::mc::note_(__VA_ARGS__);      \
  } while (0)
inline void note_(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note_(const char* fmt, ...) {
  char buf[3000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  g_notes.push_back(buf);
}
inline std::string esc(const std::string& s, size_t max = 400) {
  std::string r;
  char b[8];
  for (unsigned char c : s.substr(0, max)) {
    if (c < 32 || c > 126 || c == '\\') {
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else {
      r += char(c);
    }
  }
  if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
  return r;
}

// ---- choosing ----
inline int choose(const char* what, int n, int cost = 0) {
  (void)what;
  if (n <= 0) {
    fprintf(stderr, "choose(%s) with no alternative\n", what);
    abort();
  }
  if (n == 1) return 0;
  size_t i = g_trace.size();
  if (i >= kMaxTrace) {
    fprintf(stderr, "trace too long\n");
    abort();
  }
  int c = 0;
  if (i < g_prefix.size()) {
    c = g_prefix[i].choice;
    if (g_prefix[i].arity != n || c >= n)
      fail("not reproducible: replaying the same choices, '%s' (choice %zu) now has %d alternatives instead of %d: the "
           "code does not behave the same when the same operations are repeated",
           what, i, n, g_prefix[i].arity);
  }
  g_trace.push_back({uint16_t(c), uint16_t(n), uint16_t(cost)});
  WorkerShm& w = me();
  w.choice[i] = c;
  w.arity[i] = n;
  w.cost[i] = cost;
  w.n = i + 1;
  return c;
}
template <class C>
inline auto& pick(const char* what, C& c, int cost = 0) {
  return c[choose(what, int(std::size(c)), cost)];
}
inline bool past_prefix() { return g_trace.size() >= g_prefix.size(); }
inline void step(uint64_t n = 1) { me().transitions = me().transitions + n; }
inline void outcome(unsigned o) { g_shm->outcomes[o % 64]++; }

// Counts a distinct state.
inline void state(uint64_t h) {
  if (h == 0) h = 1;
  if (g_shm->n_states.load(std::memory_order_relaxed) > kStateSlots / 2) return;  // reported as "at least"
  size_t i = mix(h) & (kStateSlots - 1);
  for (;;) {
    uint64_t v = g_states[i].load(std::memory_order_relaxed);
    if (v == h) return;
    if (v == 0) {
      uint64_t z = 0;
      if (g_states[i].compare_exchange_strong(z, h)) {
        g_shm->n_states++;
        return;
      }
      if (z == h) return;
    }
    i = (i + 1) & (kStateSlots - 1);
  }
}
// Explicit-state merging: true if this state was already reached with at least `remaining` (< 255) steps left (and so is,
// or will be, explored from there). The answer becomes part of the trace, so that replays take the same way.
// `h` must determine all futures the property observes.
inline bool visit_(uint64_t h, int remaining) {
  uint64_t tag = (mix(h) | 0xff) ^ 0xff;
  if (tag == 0) tag = 0x100;
  size_t i = mix(h ^ 0xabcdef) & (kVisitSlots - 1);
  for (int probe = 0; probe < 4096; probe++, i = (i + 1) & (kVisitSlots - 1)) {
    uint64_t v = g_visits[i].load();
    for (;;) {
      if (v == 0) {
        if (!g_visits[i].compare_exchange_strong(v, tag | uint64_t(remaining + 1))) continue;
        g_shm->merged[remaining]++;
        return false;
      }
      if ((v & ~uint64_t(0xff)) != tag) break;
      int old = int(v & 0xff) - 1;
      if (old >= remaining) return true;
      if (!g_visits[i].compare_exchange_strong(v, tag | uint64_t(remaining + 1))) continue;
      g_shm->merged[old]--;
      g_shm->merged[remaining]++;
      return false;
    }
  }
  return false;  // table crowded here: explore again
}
inline bool visited(uint64_t h, int remaining) {
  size_t i = g_trace.size();
  if (i >= kMaxTrace) abort();
  bool seen = i < g_prefix.size() ? g_prefix[i].choice : visit_(h, remaining);
  g_trace.push_back({uint16_t(seen), 1, 0});
  WorkerShm& w = me();
  w.choice[i] = seen;
  w.arity[i] = 1;
  w.cost[i] = 0;
  w.n = i + 1;
  return seen;
}

// ---- suites ----
struct Suite {
  std::string name;
  std::set<std::string> props;  // checked by this suite
  std::function<void()> body;
  int bound_q = -1, bound_t = -1;  // deviation bound; -1: none
  std::string what;                // alphabet and bound, for the evidence
  bool tier_t_only = false;
  std::function<void()> init;  // once per worker and replay, before the first execution
  int timeout_s = 30;          // for one execution
  bool isolate = false;        // every execution in a process of its own
  int replays = 1;             // attempts at reproducing a failure (>1 only where the environment is not controlled)
};
inline std::vector<Suite>& suites() {
  static std::vector<Suite> s;
  return s;
}

struct Stats {
  uint64_t executions = 0, transitions = 0, states = 0, tasks = 0;
  int64_t merged = 0;
  int merged_left = -1;  // least number of steps left at a merged state; > 0: all reachable states were found
  double wall = 0;
  std::vector<uint64_t> outcomes;
  std::vector<std::string> samples;
};

inline int g_bound = -1;
inline uint64_t g_task_target = 2000;

inline int cost_of(const std::vector<Point>& t, size_t n) {
  int c = 0;
  for (size_t i = 0; i < n; i++)
    if (t[i].choice) c += t[i].cost;
  return c;
}

inline void run_once(const Suite& s, const std::vector<Point>& prefix) {
  g_prefix = prefix;
  g_trace.clear();
  g_notes.clear();
  WorkerShm& w = me();
  w.n = 0;
  if (s.isolate) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      s.body();
      if (g_want_notes) {
        for (auto& n : g_notes) printf("  %s\n", n.c_str());
        fflush(stdout);
      }
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (WIFSIGNALED(st)) {
      signal(WTERMSIG(st), SIG_DFL);
      raise(WTERMSIG(st));
    }
    if (st) _exit(WEXITSTATUS(st) ? WEXITSTATUS(st) : 3);
    for (int i = 0; i < w.n; i++) g_trace.push_back({w.choice[i], w.arity[i], w.cost[i]});
  } else {
    s.body();
  }
  w.executions = w.executions + 1;
  if (g_trace.size() < prefix.size())
    fail("not reproducible: replaying the same choices ended after %zu of %zu choices", g_trace.size(), prefix.size());
}
inline std::vector<std::vector<Point>> children(size_t from) {
  std::vector<std::vector<Point>> r;
  std::vector<Point> t = g_trace;
  int cost = cost_of(t, from);
  for (size_t i = from; i < t.size(); i++) {
    if (g_bound < 0 || cost + t[i].cost <= g_bound)
      for (int a = 1; a < t[i].arity; a++) {
        std::vector<Point> p(t.begin(), t.begin() + i);
        p.push_back({uint16_t(a), t[i].arity, t[i].cost});
        r.push_back(std::move(p));
      }
    if (t[i].choice) cost += t[i].cost;
  }
  return r;
}
inline void explore(const Suite& s, std::vector<Point> prefix) {
  // Depth-first with an explicit frame per level: children are generated lazily from the parent's trace.
  struct Frame {
    std::vector<Point> t;
    size_t i;
    int a, cost;
  };
  std::vector<Frame> st;
  auto enter = [&](const std::vector<Point>& p) {
    run_once(s, p);
    st.push_back({g_trace, p.size(), 1, cost_of(g_trace, p.size())});
  };
  enter(prefix);
  while (!st.empty()) {
    if (g_shm->stop.load(std::memory_order_relaxed)) _exit(4);
    Frame& f = st.back();
    if (f.i >= f.t.size()) {
      st.pop_back();
      continue;
    }
    const Point& pt = f.t[f.i];
    if (f.a >= pt.arity || !(g_bound < 0 || f.cost + pt.cost <= g_bound)) {
      if (pt.choice) f.cost += pt.cost;
      f.i++;
      f.a = 1;
      continue;
    }
    std::vector<Point> p(f.t.begin(), f.t.begin() + f.i);
    p.push_back({uint16_t(f.a), pt.arity, pt.cost});
    f.a++;
    enter(p);
  }
}

inline std::string trace_text(const WorkerShm& w) {
  std::string r;
  for (int i = 0; i < w.n; i++) r += std::to_string(w.choice[i]) + "/" + std::to_string(w.arity[i]) + " ";
  return r;
}
inline std::vector<Point> trace_of(const WorkerShm& w) {
  std::vector<Point> r;
  for (int i = 0; i < w.n; i++) r.push_back({w.choice[i], w.arity[i], 0});
  return r;
}

inline void* shared(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(2);
  }
  return p;
}

enum Result { kHeld = 0, kViolated = 1, kError = 2 };
struct Violation {
  std::string suite, msg, trace, notes, key;
  bool reproduced = false;
};

inline std::string g_err_path;  // stderr of workers

// Replays one trace in a fresh process. Returns true if it fails again; fills v.notes.
inline bool replay_once(const Suite& s, const std::vector<Point>& t, Violation* v, int timeout_s) {
  int fd[2];
  if (pipe(fd)) return false;
  memset((void*)&g_shm->w[0], 0, sizeof(WorkerShm));
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    dup2(fd[1], 1);
    dup2(fd[1], 2);
    g_me = 0;
    g_want_notes = true;
    if (s.init) s.init();
    alarm(timeout_s);
    run_once(s, t);
    for (auto& n : g_notes) printf("  %s\n", n.c_str());
    fflush(stdout);
    _exit(0);
  }
  close(fd[1]);
  std::string out;
  char buf[4096];
  ssize_t k;
  while ((k = read(fd[0], buf, sizeof buf)) > 0)
    if (out.size() < 200000) out.append(buf, k);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (v) v->notes = out;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  if (v) {
    if (g_shm->w[0].failed)
      v->msg = g_shm->w[0].msg;
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
      v->msg = "does not terminate (ran alone for " + std::to_string(timeout_s) + " s)";
    else
      v->msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) +
                                     " (crash or failed assertion)"
                               : "aborted by a sanitizer or exit(" + std::to_string(WEXITSTATUS(st)) + ")";
  }
  return true;
}

inline pid_t spawn_worker(const Suite& s, int idx, const std::vector<std::vector<Point>>& tasks) {
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid) return pid;
  g_me = idx;
  int fd = open(g_err_path.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
  if (s.init) s.init();
  // Static assignment of tasks, so that the whole history of a worker can be repeated.
  for (size_t i = idx; i < tasks.size(); i += g_opts.workers) explore(s, tasks[i]);
  _exit(0);
}

inline Result run_suite(const Suite& s, Stats* out, Violation* v) {
  int64_t t0 = now_ms();
  g_bound = g_opts.thorough ? s.bound_t : s.bound_q;
  if (getenv("MC_BOUND")) g_bound = atoi(getenv("MC_BOUND"));
  memset((void*)g_shm, 0, sizeof(Shm));
  madvise((void*)g_states, kStateSlots * 8, MADV_REMOVE);
  madvise((void*)g_visits, kVisitSlots * 8, MADV_REMOVE);

  // 1. Expand breadth-first into tasks, in a child (it may crash). Completed nodes are counted there.
  size_t cap = size_t(1) << 30;
  uint16_t* buf = (uint16_t*)shared(cap);
  volatile uint64_t* len = (volatile uint64_t*)shared(4096);
  auto watch = [&](std::vector<pid_t>& pids, std::vector<int>& idx) -> int {  // -1 ok, else failed worker index
    std::vector<bool> done(pids.size(), false);
    std::vector<uint64_t> beat(pids.size(), 0);
    std::vector<int64_t> since(pids.size(), now_ms());
    size_t left = pids.size();
    int bad = -1;
    while (left) {
      bool any = false;
      for (size_t i = 0; i < pids.size(); i++) {
        if (done[i]) continue;
        int st;
        pid_t r = waitpid(pids[i], &st, WNOHANG);
        if (r == pids[i]) {
          any = true;
          done[i] = true;
          left--;
          bool ok = WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 4);
          if (!ok && bad < 0) {
            bad = idx[i];
            g_shm->stop = 1;
            if (!g_shm->w[idx[i]].failed) {
              snprintf(g_shm->w[idx[i]].msg, 200, "%s %d", WIFSIGNALED(st) ? "killed by signal" : "exit",
                       WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
            }
          }
        } else {
          // A worker that makes no progress hangs in one execution.
          uint64_t b = g_shm->w[idx[i]].executions + g_shm->w[idx[i]].transitions;
          int64_t t = now_ms();
          if (b != beat[i]) {
            beat[i] = b;
            since[i] = t;
          } else if (t - since[i] > (bad >= 0 ? 2000 : int64_t(s.timeout_s) * 1000)) {
            kill(pids[i], SIGKILL);
          }
        }
      }
      if (!any) usleep(2000);
    }
    return bad;
  };

  int bad = -1;
  bool bad_in_expander = false;
  {
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      g_me = 0;
      int fd = open(g_err_path.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
      if (fd >= 0) {
        dup2(fd, 2);
        close(fd);
      }
      if (s.init) s.init();
      std::vector<std::vector<Point>> q{{}}, next;
      size_t head = 0;
      while (head < q.size() && q.size() - head < (s.isolate ? 400 : g_task_target)) {
        std::vector<Point> p = q[head++];
        run_once(s, p);
        for (auto& c : children(p.size())) q.push_back(std::move(c));
      }
      uint64_t o = 0;
      for (; head < q.size(); head++) {
        if ((o + 1 + q[head].size() * 3) * 2 > cap) {
          fprintf(stderr, "too many tasks\n");
          _exit(5);
        }
        buf[o++] = q[head].size();
        for (auto& pt : q[head]) {
          buf[o++] = pt.choice;
          buf[o++] = pt.arity;
          buf[o++] = pt.cost;
        }
      }
      *len = o;
      _exit(0);
    }
    std::vector<pid_t> pids{pid};
    std::vector<int> idx{0};
    bad = watch(pids, idx);
    bad_in_expander = bad >= 0;
  }
  std::vector<std::vector<Point>> tasks;
  if (bad < 0) {
    for (uint64_t o = 0; o < *len;) {
      size_t n = buf[o++];
      std::vector<Point> p(n);
      for (auto& pt : p) {
        pt.choice = buf[o++];
        pt.arity = buf[o++];
        pt.cost = buf[o++];
      }
      tasks.push_back(std::move(p));
    }
    // Neighbouring tasks are alike: spread them by a fixed permutation.
    for (size_t i = tasks.size(); i > 1; i--) std::swap(tasks[i - 1], tasks[mix(i * 77 + 5) % i]);
    std::vector<pid_t> pids;
    std::vector<int> idx;
    for (int i = 0; i < g_opts.workers; i++) {
      pids.push_back(spawn_worker(s, i, tasks));
      idx.push_back(i);
    }
    bad = watch(pids, idx);
  }
  munmap(buf, cap);
  out->tasks = tasks.size();
  for (int i = 0; i < kMaxWorkers; i++) {
    out->executions += g_shm->w[i].executions;
    out->transitions += g_shm->w[i].transitions;
  }
  out->states = g_shm->n_states;
  for (auto& o : g_shm->outcomes) out->outcomes.push_back(o);
  for (int i = 255; i >= 0; i--)
    if (g_shm->merged[i] > 0) {
      out->merged += g_shm->merged[i];
      out->merged_left = i;
    }
  Result res = kHeld;
  if (bad >= 0) {
    res = kViolated;
    WorkerShm w;
    memcpy(&w, (void*)&g_shm->w[bad], sizeof w);
    v->suite = s.name;
    v->msg = w.msg;
    v->key = w.key;
    v->trace = trace_text(w);
    std::vector<Point> t = trace_of(w);
    for (int a = 0; a < s.replays && !v->reproduced; a++)
      v->reproduced = replay_once(s, t, v, s.timeout_s * 3 + 60);
    if (!v->reproduced) {
      // Perhaps it needs what this process did before: repeat the worker's (or the expander's) whole history.
      v->notes = "The trace alone does not fail in a fresh process; repeating the whole history of the worker.\n";
      for (int i = 0; i < kMaxWorkers; i++) memset((void*)&g_shm->w[i], 0, sizeof(WorkerShm));
      g_shm->stop = 0;
      madvise((void*)g_visits, kVisitSlots * 8, MADV_REMOVE);
      pid_t pid;
      if (bad_in_expander) {
        fflush(stdout);
        pid = fork();
        if (pid == 0) {
          g_me = 0;
          if (s.init) s.init();
          std::vector<std::vector<Point>> q{{}};
          size_t head = 0;
          while (head < q.size() && q.size() - head < (s.isolate ? 400 : g_task_target)) {
            std::vector<Point> p = q[head++];
            run_once(s, p);
            for (auto& c : children(p.size())) q.push_back(std::move(c));
          }
          _exit(0);
        }
      } else {
        pid = spawn_worker(s, bad, tasks);
      }
      std::vector<pid_t> pids{pid};
      std::vector<int> idx{bad_in_expander ? 0 : bad};
      int again = watch(pids, idx);
      if (again >= 0) {
        v->reproduced = true;
        v->notes += std::string("Reproduced after ") + std::to_string(g_shm->w[again].executions) +
                    " executions: " + g_shm->w[again].msg + "\n";
        v->trace = trace_text(g_shm->w[again]);
      }
    }
    if (!v->reproduced) res = kError;
  } else {
    // Samples: three executions, replayed with their notes (first, middle, last task).
    std::vector<std::vector<Point>> sm{{}};
    if (tasks.size() > 2) {
      sm.push_back(tasks[tasks.size() / 2]);
      sm.push_back(tasks.back());
    }
    for (auto& t : sm) {
      int fd[2];
      if (pipe(fd)) break;
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        dup2(fd[1], 1);
        g_me = kMaxWorkers - 1;
        g_want_notes = true;
        if (s.init) s.init();
        alarm(60);
        run_once(s, t);
        for (auto& n : g_notes) printf("%s\n", n.c_str());
        fflush(stdout);
        _exit(0);
      }
      close(fd[1]);
      std::string o;
      char b[4096];
      ssize_t k;
      while ((k = read(fd[0], b, sizeof b)) > 0)
        if (o.size() < 1500) o.append(b, std::min<size_t>(k, 1500 - o.size()));
      close(fd[0]);
      int st;
      waitpid(pid, &st, 0);
      out->samples.push_back(s.name + ": " + o);
    }
  }
  out->wall = (now_ms() - t0) / 1000.0;
  return res;
}

inline std::string json_str(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += char(c);
    } else if (c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += char(c);
    }
  }
  return r + "\"";
}

inline int main_(int argc, char** argv) {
  std::string json, replay_suite, replay_trace, only, replay_dir = ".";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") g_opts.prop = val();
    else if (a == "--tier") g_opts.thorough = val() == "thorough";
    else if (a == "--seed") g_opts.seed = atoi(val().c_str());
    else if (a == "--json") json = val();
    else if (a == "--suite") only = val();
    else if (a == "--workers") g_opts.workers = atoi(val().c_str());
    else if (a == "--known") g_known.push_back(val());
    else if (a == "--replay-dir") replay_dir = val();
    else if (a == "--replay") { replay_suite = val(); replay_trace = val(); }
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (g_opts.workers > kMaxWorkers - 1) g_opts.workers = kMaxWorkers - 1;
  g_shm = (Shm*)shared(sizeof(Shm));
  g_states = (std::atomic<uint64_t>*)shared(kStateSlots * 8);
  g_visits = (std::atomic<uint64_t>*)shared(kVisitSlots * 8);
  g_err_path = (json.empty() ? std::string("/tmp/mc") : json) + ".stderr";
  if (!replay_suite.empty()) {
    for (auto& s : suites())
      if (s.name == replay_suite) {
        std::vector<Point> t;
        const char* p = replay_trace.c_str();
        int c, n, k;
        while (sscanf(p, " %d/%d%n", &c, &n, &k) == 2) {
          t.push_back({uint16_t(c), uint16_t(n), 0});
          p += k;
        }
        Violation v;
        bool bad = false;
        for (int a = 0; a < s.replays && !bad; a++) bad = replay_once(s, t, &v, s.timeout_s * 3 + 60);
        printf("%s\n%s\n", v.notes.c_str(), bad ? v.msg.c_str() : "does not fail");
        return bad;
      }
    fprintf(stderr, "no suite %s\n", replay_suite.c_str());
    return 2;
  }
  std::string js = "{\"suites\":[";
  int rc = 0;
  bool first = true, ran = false;
  std::vector<uint64_t> hits(g_known.size(), 0);
  unlink(g_err_path.c_str());
  Violation v;
  for (auto& s : suites()) {
    if (!s.props.count(g_opts.prop)) continue;
    if (!only.empty() && s.name != only) continue;
    if (s.tier_t_only && !g_opts.thorough) continue;
    Stats st;
    ran = true;
    Result r = run_suite(s, &st, &v);
    for (size_t i = 0; i < hits.size(); i++) hits[i] += g_shm->known_hits[i];
    if (!first) js += ",";
    first = false;
    js += "\n{\"suite\":" + json_str(s.name) + ",\"what\":" + json_str(s.what) +
          ",\"deviation_bound\":" + std::to_string(g_bound) + ",\"executions\":" + std::to_string(st.executions) +
          ",\"transitions\":" + std::to_string(st.transitions) + ",\"states\":" + std::to_string(st.states) +
          ",\"states_table_full\":" + (st.states > kStateSlots / 2 ? "true" : "false") +
          ",\"merged_states\":" + std::to_string(st.merged) + ",\"merged_states_complete\":" + (st.merged_left > 0 ? "true" : "false") +
          ",\"wall_s\":" + std::to_string(st.wall) + ",\"outcomes\":{";
    bool f2 = true;
    for (size_t i = 0; i < st.outcomes.size(); i++)
      if (st.outcomes[i]) {
        js += std::string(f2 ? "" : ",") + "\"" + std::to_string(i) + "\":" + std::to_string(st.outcomes[i]);
        f2 = false;
      }
    js += "},\"samples\":[";
    for (size_t i = 0; i < st.samples.size(); i++) js += (i ? "," : "") + json_str(st.samples[i]);
    js += "]}";
    fprintf(stderr, "[%s] %s: %llu executions, %llu transitions, %llu states%s, %.1f s%s\n", g_opts.prop.c_str(),
            s.name.c_str(), (unsigned long long)st.executions, (unsigned long long)st.transitions,
            (unsigned long long)st.states,
            st.merged ? (", " + std::to_string(st.merged) + " merged states, least steps left " + std::to_string(st.merged_left)).c_str() : "", st.wall,
            r == kViolated ? " VIOLATION" : r == kError ? " IRREPRODUCIBLE FAILURE" : "");
    if (r != kHeld) {
      rc = r == kViolated ? 1 : 2;
      break;
    }
  }
  js += "],\"known_hits\":{";
  for (size_t i = 0; i < hits.size(); i++)
    js += std::string(i ? "," : "") + json_str(g_known[i]) + ":" + std::to_string(hits[i]);
  js += "}";
  if (rc) {
    js += ",\"violation\":{\"suite\":" + json_str(v.suite) + ",\"msg\":" + json_str(v.msg) + ",\"key\":" +
          json_str(v.key) + ",\"trace\":" + json_str(v.trace) + ",\"reproduced\":" +
          (v.reproduced ? "true" : "false") + ",\"notes\":" + json_str(v.notes.substr(0, 60000)) + "}";
  }
  js += "}\n";
  if (!ran) {
    fprintf(stderr, "no suite for %s\n", g_opts.prop.c_str());
    return 2;
  }
  if (!json.empty()) {
    FILE* f = fopen(json.c_str(), "w");
    fputs(js.c_str(), f);
    fclose(f);
  }
  return rc;
}
}  // namespace mc
