// C16: all schedules, up to a preemption bound, of two or three threads that use the library at the same time.
//
// /repo's sources are compiled with clang's thread instrumentation, but not linked with its run-time library: this file
// is the run-time library. It runs one thread at a time, lets the explorer choose who runs at every synchronisation
// operation (atomics, one-time initialisation, mutexes, rwlocks, once) - in the fine suites also at every function entry
// and crypto allocation - and checks every memory access of instrumented code for conflicting unordered accesses with
// vector clocks. Every execution happens in a forked process, so that one-time initialisation happens anew each time.
#include "../lib/jwtmc.h"
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <memory>

#include "absl/synchronization/mutex.h"

using namespace jm;
using google::jwt_verify::CheckAudience;
using google::jwt_verify::StructUtils;
using google::jwt_verify::verifyJwt;
using google::jwt_verify::verifyJwtWithoutTimeChecking;

// ---------------------------------------------------------------- the controlled scheduler
namespace {
constexpr int kMaxT = 3;
typedef uint32_t Clk;
struct VC {
  Clk c[kMaxT];
};
enum TState { kRunnable, kBlocked, kFinished };
struct Thread {
  TState state;
  const void* on;  // blocked on
  int turn;        // futex
  VC vc, acq, rel;  // own clock; pending acquire (relaxed loads), release snapshot (fences)
  char *stack_lo, *stack_hi;
  const void* spin;
  int spins;
};
Thread g_t[kMaxT];
int g_nt = 0, g_left = 0, g_level = 0, g_main_turn = 0;
uint64_t g_points = 0;
bool g_on = false;
__thread int t_self __attribute__((tls_model("initial-exec"))) = -1;
__thread int t_in __attribute__((tls_model("initial-exec"))) = 0;  // inside this runtime
struct In {
  In() { t_in++; }
  ~In() { t_in--; }
};
inline bool controlled() { return g_on && t_self >= 0 && !t_in; }

void fwait(int* p) {
  while (__atomic_load_n(p, __ATOMIC_SEQ_CST) == 0) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(p, 0, __ATOMIC_SEQ_CST);
}
void fwake(int* p) {
  __atomic_store_n(p, 1, __ATOMIC_SEQ_CST);
  syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
void hand_to(int t) {
  int self = t_self;
  if (t == self) return;
  fwake(&g_t[t].turn);
  fwait(&g_t[self].turn);
}
int others(int* v) {
  int n = 0;
  for (int i = 1; i < g_nt; i++) {
    int t = (t_self + i) % g_nt;
    if (g_t[t].state == kRunnable) v[n++] = t;
  }
  return n;
}
// A point at which another thread may go on. `what` is for the trace.
void point(const char* what, bool free_switch = false) {
  if (getenv("CONC_TRACE")) MC_NOTE("  t%d: %s from %s", t_self, what, "");
  int v[kMaxT], n = others(v);
  g_points++;
  if (!n) return;
  if (free_switch) {
    hand_to(v[mc::choose("thread that runs next", n)]);
    return;
  }
  int c = mc::choose(what, n + 1, 1);
  if (c) {
    MC_NOTE("  preempted at %s: thread %d runs instead of %d", what, v[c - 1], t_self);
    hand_to(v[c - 1]);
  }
}
void block(const void* on, const char* what) {
  g_t[t_self].state = kBlocked;
  g_t[t_self].on = on;
  int v[kMaxT], n = others(v);
  if (!n) mc::fail("deadlock: every thread waits (thread %d for %s)", t_self, what);
  MC_NOTE("  thread %d waits for %s", t_self, what);
  hand_to(v[mc::choose("thread that runs next", n)]);
}
void unblock(const void* on) {
  for (int i = 0; i < g_nt; i++)
    if (g_t[i].state == kBlocked && g_t[i].on == on) g_t[i].state = kRunnable;
}
void join(VC* a, const VC& b) {
  for (int i = 0; i < kMaxT; i++)
    if (b.c[i] > a->c[i]) a->c[i] = b.c[i];
}

// ---------------------------------------------------------------- clocks of synchronisation objects
struct SyncCell {
  const void* p;
  VC vc;
  int flag;  // one-time initialisation in progress
};
constexpr size_t kSync = 1 << 12;
SyncCell g_sync[kSync];
SyncCell* sync_of(const void* p) {
  size_t i = mc::mix(uint64_t(p)) & (kSync - 1);
  for (;; i = (i + 1) & (kSync - 1)) {
    if (g_sync[i].p == p) return &g_sync[i];
    if (!g_sync[i].p) {
      g_sync[i].p = p;
      return &g_sync[i];
    }
  }
}
void acquire(const void* p) { join(&g_t[t_self].vc, sync_of(p)->vc); }
void release(const void* p) {
  join(&sync_of(p)->vc, g_t[t_self].vc);
  g_t[t_self].vc.c[t_self]++;
}

// ---------------------------------------------------------------- races
// What is remembered of a byte. A cell stands for eight bytes; as long as they were always accessed together, one record
// does for all of them, otherwise each has its own.
struct Rec {
  Clk wclk, rclk[kMaxT];
  int8_t wtid;  // -1: none
  uint8_t watomic, ratomic, freed;
  uint32_t wpc, rpc;  // relative to this program
};
struct Cell {
  uint64_t addr;  // 0: unused
  uint32_t split;  // index into the pool; 0: not split
  Rec rec;
};
constexpr size_t kCells = 1 << 19, kPool = 1 << 16;
Cell* g_cells;  // mapped before the fork, never touched there: zero in every execution
Rec (*g_pool)[8];
uint32_t g_pool_used = 0;
Cell* cell(uint64_t a, bool make) {
  a &= ~uint64_t(7);
  size_t i = (a >> 3) & (kCells - 1);
  for (;; i = (i + 4099) & (kCells - 1)) {
    Cell* s = &g_cells[i];
    if (s->addr == a) return s;
    if (!s->addr) {
      if (!make) return nullptr;
      s->addr = a;
      s->rec.wtid = -1;
      return s;
    }
  }
}
void split(Cell* c) {
  if (c->split) return;
  if (++g_pool_used >= kPool) {
    fprintf(stderr, "shadow pool exhausted\n");
    abort();
  }
  c->split = g_pool_used;
  for (auto& r : g_pool[c->split]) r = c->rec;
}
// Applies f to the records of the bytes [p, p+n).
template <class F>
void each(uint64_t p, size_t n, bool make, F f) {
  uint64_t e = p + n;
  while (p < e) {
    uint64_t base = p & ~uint64_t(7), end = base + 8 < e ? base + 8 : e;
    Cell* c = cell(p, make);
    if (c) {
      if (p == base && end == base + 8 && !c->split) {
        f(&c->rec, p);
      } else {
        split(c);
        for (uint64_t q = p; q < end; q++) f(&g_pool[c->split][q - base], q);
      }
    }
    p = end;
  }
}
extern "C" char __executable_start;
uint32_t rel(const void* pc) { return uint32_t((const char*)pc - &__executable_start); }
string where(uint32_t pc) {
  Dl_info d;
  if (pc && dladdr(&__executable_start + pc, &d) && d.dli_sname) return d.dli_sname;
  return "?";
}
[[noreturn]] void race(const char* a, uint32_t pc, const char* b, uint32_t other, int t, uint64_t addr) {
  Dl_info d;
  string what = dladdr((void*)addr, &d) && d.dli_sname ? string(" on ") + d.dli_sname : string(" on the heap");
  mc::fail("data race%s: %s by thread %d in %s, unordered with %s by thread %d in %s", what.c_str(), a, t_self, where(pc).c_str(), b, t, where(other).c_str());
}
void access(const void* p, size_t n, bool write, bool atomic, const void* pc_) {
  if (!controlled()) return;
  In in;
  int me = t_self;
  Thread& T = g_t[me];
  if ((char*)p >= T.stack_lo && (char*)p < T.stack_hi) return;
  uint32_t pc = rel(pc_);
  each(uint64_t(p), n, true, [&](Rec* s, uint64_t a) {
    if (s->freed) mc::fail("%s by thread %d in %s of memory freed by thread %d", write ? "write" : "read", me, where(pc).c_str(), s->wtid);
    if (s->wtid >= 0 && s->wtid != me && s->wclk > T.vc.c[s->wtid] && !(atomic && s->watomic))
      race(write ? "write" : "read", pc, "a write", s->wpc, s->wtid, a);
    if (write) {
      for (int t = 0; t < g_nt; t++)
        if (t != me && s->rclk[t] > T.vc.c[t] && !(atomic && s->ratomic)) race("write", pc, "a read", s->rpc, t, a);
      s->wtid = me;
      s->wclk = T.vc.c[me];
      s->watomic = atomic;
      s->wpc = pc;
      for (auto& r : s->rclk) r = 0;
    } else {
      bool any = false;
      for (auto& r : s->rclk) any |= r != 0;
      s->ratomic = atomic && (!any || s->ratomic);
      s->rclk[me] = T.vc.c[me];
      s->rpc = pc;
    }
  });
}
void forget(const void* p, size_t n, bool freed) {
  int me = t_self;
  each(uint64_t(p), n, freed && n <= 8192, [&](Rec* s, uint64_t) {
    memset(s, 0, sizeof *s);
    s->wtid = freed ? me : -1;
    s->freed = freed;
  });
}
void freeing(const void* p, size_t n, const void* pc_) {
  int me = t_self;
  uint32_t pc = rel(pc_);
  each(uint64_t(p), n, false, [&](Rec* s, uint64_t a) {
    if (s->freed) mc::fail("thread %d frees memory again that thread %d freed", me, s->wtid);
    if (s->wtid >= 0 && s->wtid != me && s->wclk > g_t[me].vc.c[s->wtid]) race("free", pc, "a write", s->wpc, s->wtid, a);
    for (int t = 0; t < g_nt; t++)
      if (t != me && s->rclk[t] > g_t[me].vc.c[t]) race("free", pc, "a read", s->rpc, t, a);
  });
  forget(p, n, true);
}
}  // namespace

// ---------------------------------------------------------------- memory
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
static void* fresh(void* p) {
  if (p && controlled()) {
    In in;
    forget(p, malloc_usable_size(p), false);
  }
  return p;
}
void* malloc(size_t n) { return fresh(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return fresh(__libc_calloc(a, b)); }
void* memalign(size_t a, size_t n) { return fresh(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) {
  *p = memalign(a, n);
  return *p ? 0 : ENOMEM;
}
void free(void* p) {
  if (p && controlled()) {
    In in;
    freeing(p, malloc_usable_size(p), __builtin_return_address(0));
  }
  __libc_free(p);
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!controlled()) return __libc_realloc(p, n);
  size_t old = malloc_usable_size(p);
  void* q = malloc(n);
  if (!q) return q;
  __builtin_memcpy(q, p, old < n ? old : n);
  free(p);
  return q;
}
void* OPENSSL_memory_alloc(size_t n) {
  if (g_level >= 1 && controlled()) {
    In in;
    point("a crypto allocation");
  }
  char* p = (char*)malloc(n + 16);
  if (!p) return nullptr;
  *(size_t*)p = n;
  return p + 16;
}
void OPENSSL_memory_free(void* p) {
  if (p) free((char*)p - 16);
}
size_t OPENSSL_memory_get_size(void* p) { return p ? *(size_t*)((char*)p - 16) : 0; }

// ---------------------------------------------------------------- instrumentation
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {
  if (g_level >= 1 && controlled()) {
    In in;
    point("a function entry");
  }
}
void __tsan_func_exit() {}
#define RW(n)                                                                        \
  void __tsan_read##n(void* p) { access(p, n, false, false, PC); }                   \
  void __tsan_write##n(void* p) { access(p, n, true, false, PC); }                   \
  void __tsan_read_write##n(void* p) { access(p, n, true, false, PC); }              \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, false, PC); }         \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, false, PC); }         \
  void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, false, PC); }    \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, false, PC); }          \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, false, PC); }
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) access(p, 8, true, false, PC);
}
void __tsan_vptr_read(void** p) { access(p, 8, false, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  access(s, n, false, false, PC);
  access(d, n, true, false, PC);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  access(s, n, false, false, PC);
  access(d, n, true, false, PC);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  access(d, n, true, false, PC);
  return memset(d, c, n);
}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
}

namespace {
inline bool acq_mo(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool rel_mo(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
enum AKind { kLoad, kStore, kRmw };
void atomic_before(const void* p, AKind k) {
  Thread& T = g_t[t_self];
  if (k == kLoad || k == kRmw) {  // a thread that spins lets the others go on
    if (T.spin == p) {
      if (++T.spins > 64) {
        T.spins = 0;
        point("a spinning loop", true);
        return;
      }
    } else {
      T.spin = p;
      T.spins = 0;
    }
  }
  point("an atomic operation");
}
void atomic_after(const void* p, size_t n, AKind k, int mo, const void* pc) {
  Thread& T = g_t[t_self];
  t_in--;
  access(p, n, k != kLoad, true, pc);
  t_in++;
  SyncCell* s = sync_of(p);
  if (k != kStore) {
    if (acq_mo(mo)) join(&T.vc, s->vc);
    else join(&T.acq, s->vc);
  }
  if (k != kLoad) {
    if (rel_mo(mo)) {
      if (k == kStore) s->vc = T.vc;
      else join(&s->vc, T.vc);
      T.vc.c[t_self]++;
    } else if (k == kStore) {
      s->vc = T.rel;
    } else {
      join(&s->vc, T.rel);
    }
  }
}
}  // namespace

typedef __int128 a128;
extern "C" {
#define ATOMICS(N, T)                                                                                   \
  T __tsan_atomic##N##_load(const volatile T* p, int mo) {                                              \
    if (!controlled()) return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                     \
    In in;                                                                                              \
    atomic_before((void*)p, kLoad);                                                                     \
    T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                         \
    atomic_after((void*)p, sizeof(T), kLoad, mo, PC);                                                   \
    return v;                                                                                           \
  }                                                                                                     \
  void __tsan_atomic##N##_store(volatile T* p, T v, int mo) {                                           \
    if (!controlled()) {                                                                                \
      __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                         \
      return;                                                                                           \
    }                                                                                                   \
    In in;                                                                                              \
    atomic_before((void*)p, kStore);                                                                    \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                           \
    atomic_after((void*)p, sizeof(T), kStore, mo, PC);                                                  \
  }                                                                                                     \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) {           \
    if (!controlled()) return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    In in;                                                                                              \
    atomic_before((void*)p, kRmw);                                                                      \
    int r = __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                \
    atomic_after((void*)p, sizeof(T), r ? kRmw : kLoad, r ? mo : fmo, PC);                              \
    return r;                                                                                           \
  }                                                                                                     \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) {             \
    return __tsan_atomic##N##_compare_exchange_strong(p, e, v, mo, fmo);                                \
  }                                                                                                     \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) {                 \
    __tsan_atomic##N##_compare_exchange_strong(p, &e, v, mo, fmo);                                      \
    return e;                                                                                           \
  }
#define RMW(N, T, name, builtin)                                \
  T __tsan_atomic##N##_##name(volatile T* p, T v, int mo) {     \
    if (!controlled()) return builtin(p, v, __ATOMIC_SEQ_CST);  \
    In in;                                                      \
    atomic_before((void*)p, kRmw);                              \
    T r = builtin(p, v, __ATOMIC_SEQ_CST);                      \
    atomic_after((void*)p, sizeof(T), kRmw, mo, PC);            \
    return r;                                                   \
  }
#define ALL(N, T)                               \
  ATOMICS(N, T)                                 \
  RMW(N, T, exchange, __atomic_exchange_n)      \
  RMW(N, T, fetch_add, __atomic_fetch_add)      \
  RMW(N, T, fetch_sub, __atomic_fetch_sub)      \
  RMW(N, T, fetch_and, __atomic_fetch_and)      \
  RMW(N, T, fetch_or, __atomic_fetch_or)        \
  RMW(N, T, fetch_xor, __atomic_fetch_xor)      \
  RMW(N, T, fetch_nand, __atomic_fetch_nand)
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
  if (!controlled()) return;
  Thread& T = g_t[t_self];
  if (acq_mo(mo)) join(&T.vc, T.acq);
  if (rel_mo(mo)) {
    T.rel = T.vc;
    T.vc.c[t_self]++;
  }
}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- one-time initialisation
int __cxa_guard_acquire(uint64_t* g) {
  uint8_t* done = (uint8_t*)g;
  uint8_t* busy = done + 1;
  if (!controlled()) {
    if (__atomic_load_n(done, __ATOMIC_ACQUIRE)) return 0;
    *busy = 1;
    return 1;
  }
  In in;
  point("a one-time initialisation");
  while (!*done && *busy) block(g, "a one-time initialisation");
  acquire(g);
  if (*done) return 0;
  *busy = 1;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  uint8_t* done = (uint8_t*)g;
  __atomic_store_n(done, 1, __ATOMIC_RELEASE);
  done[1] = 0;
  if (!controlled()) return;
  In in;
  release(g);
  unblock(g);
}
void __cxa_guard_abort(uint64_t* g) {
  ((uint8_t*)g)[1] = 0;
  if (!controlled()) return;
  In in;
  release(g);
  unblock(g);
}
#define REAL(name) (*(decltype(&name))real(#name))
static void* real(const char* n) {
  void* p = dlsym(RTLD_NEXT, n);
  if (!p) abort();
  return p;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  static auto r = &REAL(pthread_once);
  if (!controlled()) return r(o, f);
  {
    In in;
    if (*(int*)o == 2) {  // done: nothing that others do matters to it any more
      acquire(o);
      t_in--;
      int x = r(o, f);
      t_in++;
      return x;
    }
    point("a once");
    while (sync_of(o)->flag) block(o, "a once");
    sync_of(o)->flag = 1;
  }
  int x = r(o, f);
  In in;
  acquire(o);
  release(o);
  sync_of(o)->flag = 0;
  unblock(o);
  return x;
}

// ---------------------------------------------------------------- locks
static int lock_with(void* m, int (*try_)(void*), const char* what) {
  In in;
  point(what);
  int r;
  while ((r = try_(m)) == EBUSY) block(m, what);
  acquire(m);
  return r;
}
static void unlocked(void* m, const char* what) {
  In in;
  unblock(m);
  (void)what;  // no need to preempt here: what follows up to the next acquisition is independent, or a race
}
static void unlocking(void* m) {
  In in;
  release(m);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto r = &REAL(pthread_mutex_lock);
  if (!controlled()) return r(m);
  return lock_with(m, [](void* x) { return pthread_mutex_trylock((pthread_mutex_t*)x); }, "a mutex");
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto r = &REAL(pthread_mutex_unlock);
  if (!controlled()) return r(m);
  unlocking(m);
  int x = r(m);
  unlocked(m, "a mutex released");
  return x;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  static auto r = &REAL(pthread_rwlock_rdlock);
  if (!controlled()) return r(m);
  return lock_with(m, [](void* x) { return pthread_rwlock_tryrdlock((pthread_rwlock_t*)x); }, "a read lock");
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  static auto r = &REAL(pthread_rwlock_wrlock);
  if (!controlled()) return r(m);
  return lock_with(m, [](void* x) { return pthread_rwlock_trywrlock((pthread_rwlock_t*)x); }, "a write lock");
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  static auto r = &REAL(pthread_rwlock_unlock);
  if (!controlled()) return r(m);
  unlocking(m);
  int x = r(m);
  unlocked(m, "a read-write lock released");
  return x;
}
int sched_yield() {
  if (controlled()) {
    In in;
    point("a yield", true);
  }
  return 0;
}
}
// ---------------------------------------------------------------- what crypto calls do to the caller's memory
// The prebuilt library is not instrumented: its calls are made to count as accesses to the buffers they are given, and to
// the object that they change (contexts, BIOs) or only read (keys).
namespace {
inline void crypto_point() {
  if (g_level >= 1 && controlled()) {
    In in;
    point("a crypto call");
  }
}
struct Rd {
  const void* p;
  size_t n;
};
struct Wr {
  const void* p;
  size_t n;
};
inline void touch(const void* pc) {}
template <class... R>
void touch(const void* pc, Rd r, R... rest) {
  if (r.p) access(r.p, r.n, false, false, pc);
  touch(pc, rest...);
}
template <class... R>
void touch(const void* pc, Wr r, R... rest) {
  if (r.p) access(r.p, r.n, true, false, pc);
  touch(pc, rest...);
}
}  // namespace
// While the real call runs, nothing else is recorded for its buffers: libcrypto is not instrumented.
#define CRYPTO(R, name, params, args, ...)  \
  R name params {                           \
    static auto r = &REAL(name);            \
    if (!controlled()) return r args;       \
    crypto_point();                         \
    touch(PC, __VA_ARGS__);                 \
    return r args;                          \
  }
extern "C" {
CRYPTO(uint8_t*, HMAC, (const EVP_MD* md, const void* k, size_t kl, const uint8_t* d, size_t dl, uint8_t* o, unsigned* ol), (md, k, kl, d, dl, o, ol), Rd{k, kl}, Rd{d, dl}, Wr{o, EVP_MD_size(md)}, Wr{ol, 4})
CRYPTO(int, CRYPTO_memcmp, (const void* a, const void* b, size_t n), (a, b, n), Rd{a, n}, Rd{b, n})
CRYPTO(int, EVP_DigestInit, (EVP_MD_CTX * c, const EVP_MD* md), (c, md), Wr{c, 1})
CRYPTO(int, EVP_DigestInit_ex, (EVP_MD_CTX * c, const EVP_MD* md, ENGINE* e), (c, md, e), Wr{c, 1})
CRYPTO(int, EVP_DigestUpdate, (EVP_MD_CTX * c, const void* d, size_t n), (c, d, n), Wr{c, 1}, Rd{d, n})
CRYPTO(int, EVP_DigestFinal, (EVP_MD_CTX * c, uint8_t* o, unsigned* n), (c, o, n), Wr{c, 1}, Wr{o, EVP_MD_CTX_size(c)}, Wr{n, n ? sizeof *n : 0})
CRYPTO(int, EVP_DigestFinal_ex, (EVP_MD_CTX * c, uint8_t* o, unsigned* n), (c, o, n), Wr{c, 1}, Wr{o, EVP_MD_CTX_size(c)}, Wr{n, n ? sizeof *n : 0})
CRYPTO(int, EVP_DigestVerifyInit, (EVP_MD_CTX * c, EVP_PKEY_CTX** p, const EVP_MD* md, ENGINE* e, EVP_PKEY* k), (c, p, md, e, k), Wr{c, 1}, Wr{p, p ? sizeof *p : 0}, Rd{k, 1})
CRYPTO(int, EVP_DigestVerifyUpdate, (EVP_MD_CTX * c, const void* d, size_t n), (c, d, n), Wr{c, 1}, Rd{d, n})
CRYPTO(int, EVP_DigestVerifyFinal, (EVP_MD_CTX * c, const uint8_t* s, size_t n), (c, s, n), Wr{c, 1}, Rd{s, n})
CRYPTO(int, EVP_DigestVerify, (EVP_MD_CTX * c, const uint8_t* s, size_t n, const uint8_t* d, size_t m), (c, s, n, d, m), Wr{c, 1}, Rd{s, n}, Rd{d, m})
CRYPTO(int, EVP_PKEY_set1_RSA, (EVP_PKEY * p, RSA* k), (p, k), Wr{p, 1}, Rd{k, 1})
CRYPTO(BIGNUM*, BN_bin2bn, (const uint8_t* d, size_t n, BIGNUM* b), (d, n, b), Rd{d, n}, Wr{b, b ? sizeof *b : 0})
CRYPTO(int, ECDSA_do_verify, (const uint8_t* d, size_t n, const ECDSA_SIG* s, const EC_KEY* k), (d, n, s, k), Rd{d, n}, Rd{s, 1}, Rd{k, 1})
CRYPTO(int, ED25519_verify, (const uint8_t* d, size_t n, const uint8_t* s, const uint8_t* k), (d, n, s, k), Rd{d, n}, Rd{s, 64}, Rd{k, 32})
CRYPTO(int, BIO_write, (BIO * b, const void* d, int n), (b, d, n), Wr{b, 1}, Rd{d, size_t(n > 0 ? n : 0)})
CRYPTO(X509*, PEM_read_bio_X509, (BIO * b, X509** x, pem_password_cb* cb, void* u), (b, x, cb, u), Wr{b, 1})
CRYPTO(EVP_PKEY*, PEM_read_bio_PUBKEY, (BIO * b, EVP_PKEY** x, pem_password_cb* cb, void* u), (b, x, cb, u), Wr{b, 1})
CRYPTO(int, EVP_PKEY_get_raw_public_key, (const EVP_PKEY* k, uint8_t* o, size_t* n), (k, o, n), Rd{k, 1}, Wr{o, o ? *n : 0}, Wr{n, sizeof *n})
}
namespace absl {
ABSL_NAMESPACE_BEGIN
void Mutex::Lock() {
  static auto r = (void (*)(Mutex*))real("_ZN4absl7debian35Mutex4LockEv");
  if (!controlled()) return r(this);
  lock_with(this, [](void* x) { return ((Mutex*)x)->TryLock() ? 0 : EBUSY; }, "an absl mutex");
}
void Mutex::Unlock() {
  static auto r = (void (*)(Mutex*))real("_ZN4absl7debian35Mutex6UnlockEv");
  if (!controlled()) return r(this);
  unlocking(this);
  {
    In in;
    r(this);
  }
  unlocked(this, "an absl mutex released");
}
void Mutex::ReaderLock() {
  static auto r = (void (*)(Mutex*))real("_ZN4absl7debian35Mutex10ReaderLockEv");
  if (!controlled()) return r(this);
  lock_with(this, [](void* x) { return ((Mutex*)x)->ReaderTryLock() ? 0 : EBUSY; }, "an absl read lock");
}
void Mutex::ReaderUnlock() {
  static auto r = (void (*)(Mutex*))real("_ZN4absl7debian35Mutex12ReaderUnlockEv");
  if (!controlled()) return r(this);
  unlocking(this);
  {
    In in;
    r(this);
  }
  unlocked(this, "an absl read lock released");
}
ABSL_NAMESPACE_END
}  // namespace absl

// ---------------------------------------------------------------- the scenarios
namespace {
void on_segv(int, siginfo_t*, void* c) {  // the time stamp counter seeds protobuf's maps
  auto* u = static_cast<ucontext_t*>(c);
  auto* ip = reinterpret_cast<const uint8_t*>(u->uc_mcontext.gregs[REG_RIP]);
  if (ip && ip[0] == 0x0f && (ip[1] == 0x31)) {
    u->uc_mcontext.gregs[REG_RAX] = 12345;
    u->uc_mcontext.gregs[REG_RDX] = 7;
    u->uc_mcontext.gregs[REG_RIP] += 2;
    return;
  }
  signal(SIGSEGV, SIG_DFL);
}

// What the threads share.
struct Shared {
  std::unique_ptr<Jwt> es, rs, forged, hs, ed, ps, es512;
  JwksPtr set, pem, x509;
  std::unique_ptr<CheckAudience> aud;
};
Shared* g_s;
struct Texts {
  string es, rs, forged, hs, ed, ps, es512, bad_alg, bad_json, jwks, jwks2, x509, bad_jwks;
} * g_x;

void make_shared() {
  g_s = new Shared;
  // The token objects are built without the parser: its one-time initialisation belongs to the threads.
  auto mk = [](const string& t, const string& alg, const string& kid) {
    std::unique_ptr<Jwt> j(new Jwt);
    size_t a = t.find('.'), b = t.rfind('.');
    j->jwt_ = t;
    j->header_str_base64url_ = t.substr(0, a);
    j->payload_str_base64url_ = t.substr(a + 1, b - a - 1);
    fx::unb64u_strict(t.substr(b + 1), &j->signature_);
    j->alg_ = alg;
    j->kid_ = kid;
    j->audiences_ = {"https://a.example/"};
    j->exp_ = 100;
    auto& f = *j->payload_pb_.mutable_fields();
    f["iss"].set_string_value("me");
    f["exp"].set_number_value(100);
    (*f["n"].mutable_struct_value()->mutable_fields())["x"].set_string_value("deep");
    return j;
  };
  g_s->es = mk(g_x->es, "ES256", "");
  g_s->rs = mk(g_x->rs, "RS256", "r");
  g_s->forged = mk(g_x->forged, "ES256", "");
  g_s->hs = mk(g_x->hs, "HS256", "");
  g_s->ed = mk(g_x->ed, "EdDSA", "");
  g_s->ps = mk(g_x->ps, "PS256", "");
  g_s->es512 = mk(g_x->es512, "ES512", "");
  g_s->set = Jwks::createFrom(g_x->jwks, Jwks::JWKS);
  g_s->pem = Jwks::createFromPem(fx::key(fx::R0).pem, "", "");
  g_s->x509 = Jwks::createFrom(g_x->x509, Jwks::JWKS);
  g_s->aud.reset(new CheckAudience({"http://a.example", "b"}));
}
string S(Status s) { return std::to_string(si(s)) + google::jwt_verify::getStatusString(s); }
string parse(const string& t) {
  Jwt j;
  Status s = j.parseFromString(t);
  return S(s) + dump_all(j);
}
struct Op {
  const char* name;
  std::function<string()> fn;
};
vector<Op>* g_ops;
void init_ops() {
  g_x = new Texts;
  auto tok = [](const char* a, int k, const string& kid = "") {
    return fx::token(fx::header(a, kid), "{\"iss\":\"me\",\"aud\":[\"https://a.example/\",\"c\"],\"exp\":100,\"sub\":\"a subject that is not short\"}", fx::key(k), a);
  };
  g_x->es = tok("ES256", fx::E0);
  g_x->rs = tok("RS256", fx::R0, "r");
  g_x->forged = tok("ES256", fx::E1);
  g_x->hs = tok("HS256", fx::H0);
  g_x->ed = tok("EdDSA", fx::O0);
  g_x->ps = tok("PS256", fx::R0);
  g_x->es512 = tok("ES512", fx::G0);
  g_x->bad_alg = fx::b64u("{\"alg\":\"none\"}") + "." + fx::b64u("{}") + ".AAAA";
  g_x->bad_json = fx::b64u("{\"alg\":\"RS256\"}") + "." + fx::b64u("{\"exp\":\"x\"}") + ".AAAA";
  g_x->jwks = jwks_of({jwk(fx::key(fx::F0).jwk), jwk(fx::key(fx::E0).jwk, "ES256"), jwk(fx::key(fx::R0).jwk, "", "r"), jwk(fx::key(fx::H0).jwk), jwk(fx::key(fx::O0).jwk), jwk(fx::key(fx::G0).jwk)});
  g_x->jwks2 = jwks_of({jwk(fx::key(fx::R1).jwk, "RS256", "kid one"), "{\"kty\":\"EC\",\"x\":\"AA\",\"y\":\"AA\"}", jwk(fx::key(fx::E1).jwk), jwk(fx::key(fx::O1).jwk), jwk(fx::key(fx::H1).jwk)});
  g_x->bad_jwks = jwks_of({"{\"kty\":\"RSA\",\"n\":\"AQ\",\"e\":\"AQAB\"}"});
  string c;
  for (char ch : string(fx::kR0_crt)) c += ch == '\n' ? string("\\n") : string(1, ch);
  while (c.size() > 4 && c.substr(c.size() - 4) == "\\n\\n") c.erase(c.size() - 2);
  g_x->x509 = "{\"r\":\"" + c + "\"}";
  g_ops = new vector<Op>;
  auto add = [](const char* n, std::function<string()> f) { g_ops->push_back({n, f}); };
  add("verify ES256", [] { return S(verifyJwtWithoutTimeChecking(*g_s->es, *g_s->set)); });
  add("verify forged ES256", [] { return S(verifyJwtWithoutTimeChecking(*g_s->forged, *g_s->set)); });
  add("verify RS256 with audience and time", [] { return S(verifyJwt(*g_s->rs, *g_s->set, {"a.example", "http://a.example"}, 150)) + S(verifyJwt(*g_s->rs, *g_s->set, 161)); });
  add("verify HS256 and EdDSA", [] { return S(verifyJwtWithoutTimeChecking(*g_s->hs, *g_s->set)) + S(verifyJwtWithoutTimeChecking(*g_s->ed, *g_s->set)); });
  add("parse RS256", [] { return parse(g_x->rs); });
  add("parse other", [] { return parse(g_x->ed) + parse(g_x->bad_alg) + parse(g_x->bad_json); });
  add("load JWKS", [] { return dump(*Jwks::createFrom(g_x->jwks2, Jwks::JWKS)) + dump(*Jwks::createFrom(g_x->bad_jwks, Jwks::JWKS)); });
  add("load PEM and add", [] {
    JwksPtr s = Jwks::createFromPem(fx::key(fx::E0).pem, "a", "ES256");
    Status a = s->addKeyFromPem(fx::key(fx::O0).pem, "b", "EdDSA"), b = s->addKeyFromPem("junk", "c", "");
    return dump(*s) + S(a) + S(b) + S(verifyJwtWithoutTimeChecking(*g_s->es, *s));
  });
  add("verify PS256 and ES512", [] { return S(verifyJwtWithoutTimeChecking(*g_s->ps, *g_s->set)) + S(verifyJwtWithoutTimeChecking(*g_s->es512, *g_s->set)); });
  add("verify RS256 by PEM and certificate", [] { return S(verifyJwtWithoutTimeChecking(*g_s->rs, *g_s->pem)) + S(verifyJwtWithoutTimeChecking(*g_s->rs, *g_s->x509)); });
  add("parse ES256 and verify", [] {
    Jwt j;
    Status a = j.parseFromString(g_x->es);
    return S(a) + S(verifyJwt(j, *g_s->set, {"c"}, 5)) + S(verifyJwt(j, *g_s->set, vector<string>{"d"}, 5));
  });
  add("audiences", [] { return std::to_string(g_s->aud->areAudiencesAllowed({"https://a.example/"})) + std::to_string(g_s->aud->areAudiencesAllowed({"c", "d"})) + std::to_string(g_s->aud->areAudiencesAllowed(g_s->es->audiences_)); });
  add("claims", [] {
    StructUtils u(g_s->es->payload_pb_);
    string a, b;
    uint64_t n = 0;
    vector<string> v;
    int r = u.GetString("iss", &a) * 1000 + u.GetUInt64("exp", &n) * 100 + u.GetString("n.x", &b) * 10 + u.GetStringList("n", &v);
    return std::to_string(r) + a + b + std::to_string(n);
  });
  add("copy a token", [] {
    Jwt j(*g_s->es);
    Jwt k;
    k = *g_s->rs;
    k = j;
    return dump_all(j) + dump_all(k) + S(g_s->es->verifyTimeConstraint(161)) + S(g_s->es->verifyTimeConstraint(160));
  });
  add("load certificate", [] { return dump(*Jwks::createFrom(g_x->x509, Jwks::JWKS)); });
  add("statuses", [] {
    string r;
    for (int i = 0; i < 80; i += 3) r += google::jwt_verify::getStatusString(Status(i));
    return r;
  });
}

vector<string>* g_ref;  // what each operation gives alone
string g_out[kMaxT];
std::function<string()> g_fn[kMaxT];
int g_op[kMaxT];

void* thread_main(void* arg) {
  int me = int(intptr_t(arg));
  prctl(PR_SET_TSC, PR_TSC_SIGSEGV);
  pthread_attr_t at;
  void* lo;
  size_t n;
  pthread_getattr_np(pthread_self(), &at);
  pthread_attr_getstack(&at, &lo, &n);
  pthread_attr_destroy(&at);
  g_t[me].stack_lo = (char*)lo;
  g_t[me].stack_hi = (char*)lo + n;
  // Report as ready, then wait for the turn.
  __atomic_fetch_add(&g_left, 1, __ATOMIC_SEQ_CST);
  fwait(&g_t[me].turn);
  t_self = me;
  string r = g_fn[me]();
  t_in++;
  g_out[me] = r;
  MC_NOTE("  thread %d ends", me);
  g_t[me].state = kFinished;
  int v[kMaxT], k = others(v);
  if (k) {
    int next = v[mc::choose("thread that runs next", k)];
    fwake(&g_t[next].turn);
  } else {
    for (int i = 0; i < g_nt; i++)
      if (g_t[i].state == kBlocked) mc::fail("deadlock: thread %d waits for ever", i);
    fwake(&g_main_turn);
  }
  fwait(&g_t[me].turn);  // until the process ends
  return nullptr;
}
void run_threads(const vector<int>& ops) {
  g_nt = ops.size();
  make_shared();
  g_left = 0;
  for (int i = 0; i < g_nt; i++) {
    memset(&g_t[i], 0, sizeof(Thread));
    g_t[i].vc.c[i] = 1;
    g_op[i] = ops[i];
    g_fn[i] = (*g_ops)[ops[i]].fn;
    MC_NOTE("thread %d: %s", i, (*g_ops)[ops[i]].name);
    pthread_t th;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    if (pthread_create(&th, &at, thread_main, (void*)intptr_t(i))) abort();
    while (__atomic_load_n(&g_left, __ATOMIC_SEQ_CST) != i + 1) usleep(0), REAL(sched_yield)();
  }
  g_on = true;
  int first = mc::choose("thread that starts", g_nt);
  fwake(&g_t[first].turn);
  fwait(&g_main_turn);
  g_on = false;
  mc::step(g_points);
  mc::Hash h;
  for (int i = 0; i < g_nt; i++) {
    h.s((*g_ops)[ops[i]].name).s(g_out[i]);
    if (g_out[i] != (*g_ref)[ops[i]])
      mc::fail("'%s' at the same time as '%s' gives '%s', alone it gives '%s'", (*g_ops)[ops[i]].name, (*g_ops)[ops[(i + 1) % g_nt]].name, mc::esc(g_out[i]).c_str(), mc::esc((*g_ref)[ops[i]]).c_str());
  }
  for (auto& p : mc::g_trace) h.u(p.choice);
  mc::state(h.h);
  mc::outcome(g_nt);
  MC_NOTE("all as alone, %llu scheduling points", (unsigned long long)g_points);
}
void pairs_body() {
  g_level = 0;
  int n = g_ops->size(), a = mc::choose("first thread", n), b = mc::choose("second thread", n - a);
  run_threads({a, a + b});
}
void triples_body() {
  g_level = 0;
  int n = mc::qt(8, 12), a = mc::choose("first thread", n), b = a + mc::choose("second thread", n - a), c = b + mc::choose("third thread", n - b);
  run_threads({a, b, c});
}
void fine_body() {
  g_level = 1;
  int n = g_ops->size(), a = mc::choose("first thread", n), b = mc::choose("second thread", n - a);
  run_threads({a, a + b});
}

void fine2_body() {
  g_level = 1;
  static const int ops[] = {0, 2, 3, 7, 9};
  int n = std::size(ops), a = mc::choose("first thread", n), b = mc::choose("second thread", n - a);
  run_threads({ops[a], ops[a + b]});
}

void warm() {  // everything but /repo's own one-time initialisation
  make_shared();
  google::protobuf::Struct pb;
  for (auto* j : {g_s->es.get(), g_s->rs.get(), g_s->forged.get(), g_s->hs.get(), g_s->ed.get(), g_s->ps.get(), g_s->es512.get()}) {
    verifyJwtWithoutTimeChecking(*j, *g_s->set);
    verifyJwtWithoutTimeChecking(*j, *g_s->pem);
    verifyJwtWithoutTimeChecking(*j, *g_s->x509);
  }
  dump(*Jwks::createFrom(g_x->jwks2, Jwks::JWKS));
  dump(*Jwks::createFrom(g_x->bad_jwks, Jwks::JWKS));
  for (auto* p : {fx::key(fx::E0).pem.c_str(), fx::key(fx::O0).pem.c_str(), fx::kR0_pub, "junk"}) Jwks::createFromPem(p, "", "");
  ERR_clear_error();
}
void init() {
  if (g_ops) return;
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_segv;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSEGV, &sa, nullptr);
  prctl(PR_SET_TSC, PR_TSC_SIGSEGV);
  auto zero = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
  g_cells = (Cell*)zero(kCells * sizeof(Cell));
  g_pool = (Rec(*)[8])zero(kPool * sizeof(Rec[8]));
  init_ops();
  g_ref = new vector<string>;
  for (auto& op : *g_ops) {
    int fd[2];
    if (pipe(fd)) abort();
    pid_t pid = fork();
    if (pid == 0) {
      make_shared();
      string r = op.fn();
      size_t o = 0;
      while (o < r.size()) {
        ssize_t k = write(fd[1], r.data() + o, r.size() - o);
        if (k <= 0) _exit(1);
        o += k;
      }
      _exit(0);
    }
    close(fd[1]);
    string r;
    char buf[4096];
    ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0) r.append(buf, k);
    close(fd[0]);
    int st;
    waitpid(pid, &st, 0);
    if (st) mc::fail("operation '%s' does not work alone", op.name);
    g_ref->push_back(r);
  }
  warm();
}
}  // namespace

int main(int argc, char** argv) {
  auto& S = mc::suites();
  auto suite = [&](const char* name, void (*body)(), int bq, int bt, const char* what) {
    mc::Suite s;
    s.name = name;
    s.props = {"C16"};
    s.body = body;
    s.init = init;
    s.bound_q = bq;
    s.bound_t = bt;
    s.isolate = true;
    s.what = what;
    S.push_back(s);
  };
  suite("pairs", pairs_body, 2, 4, "all pairs of 16 operations in two threads, every schedule with at most 2 (thorough 4) preemptions at synchronisation operations");
  suite("triples", triples_body, 1, 2, "all triples of 8 (thorough 12) operations in three threads, every schedule with at most 1 (thorough 2) preemptions at synchronisation operations");
  suite("fine", fine_body, 1, 1, "all pairs of 16 operations, every schedule with at most 1 preemption at function entries, crypto allocations and synchronisation operations");
  suite("fine2", fine2_body, 2, 2, "all pairs of 5 operations, every schedule with at most 2 preemptions at function entries, crypto allocations and synchronisation operations");
  S.back().tier_t_only = true;
  return mc::main_(argc, argv);
}
