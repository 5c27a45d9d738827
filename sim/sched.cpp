#include "sched.h"
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <locale>
#include <unordered_map>

// This file is compiled without instrumentation.
namespace sim {
void record_fatal(const char *cls, const char *msg);
}
extern "C" {
extern char __data_start, _end;
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}
namespace sched {
typedef sim::u64 u64;
typedef uint32_t u32;
typedef uintptr_t up;

namespace {
enum { MAIN = 100, NOBODY = -1 };
enum { SHADOW = 1 << 19 };

struct Cell {
  up key;
  u32 epoch;
  u32 w[MAXT], r[MAXT];
  unsigned char wm[MAXT], rm[MAXT];
};
struct Caller {
  pthread_t th;
  const std::function<void()> *body;
  std::atomic<int> turn, gate;
  bool finished, blocked;
  up lo, hi;
  u32 vc[MAXT];
  u64 count;
};
Cell *g_shadow = nullptr;
u32 g_epoch = 0;
size_t g_cells = 0;
bool g_active = false;
int g_n = 0, g_cur = NOBODY;
Caller g_t[MAXT];
std::atomic<int> g_main_turn;
u64 g_budget = 0;
const std::vector<Slice> *g_slices = nullptr;
size_t g_next = 0;
Options g_opt;
u64 g_rng = 0;
Report *g_rep = nullptr;
char g_what[600];
typedef std::unordered_map<up, std::array<u32, MAXT>> SyncMap;
SyncMap *g_sync = nullptr;
__thread int tls_me __attribute__((tls_model("initial-exec"))) = NOBODY;
__thread bool tls_inside __attribute__((tls_model("initial-exec"))) = false;

struct Inside {  // hooks are off while the simulator itself works
  bool s;
  Inside() : s(tls_inside) { tls_inside = true; }
  ~Inside() { tls_inside = s; }
};

void fwait(std::atomic<int> &a) {
  while (a.load() == 0) syscall(SYS_futex, (int *)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  a.store(0);
}
void fwake(std::atomic<int> &a) {
  a.store(1);
  syscall(SYS_futex, (int *)&a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
double rnd() { return (double)(sim::splitmix(g_rng) >> 11) * (1.0 / 9007199254740992.0); }

int unfinished(int not_this) {  // a caller able to run, other than this one, chosen by the seed
  int c[MAXT], n = 0;
  for (int i = 0; i < g_n; ++i)
    if (i != not_this && !g_t[i].finished && !g_t[i].blocked) c[n++] = i;
  return n ? c[sim::splitmix(g_rng) % n] : NOBODY;
}
// next caller and its budget according to the plan
int next_planned() {
  while (g_slices && g_next < g_slices->size()) {
    const Slice &s = (*g_slices)[g_next++];
    int w = s.who % g_n;
    if (g_t[w].finished || g_t[w].blocked) continue;
    g_budget = s.len ? s.len : 1;
    return w;
  }
  if (g_opt.quantum > 0) {
    g_budget = 1 + (u64)(-g_opt.quantum * std::log(1 - rnd()));
    return unfinished(NOBODY);
  }
  g_budget = ~(u64)0;
  for (int i = 0; i < g_n; ++i)
    if (!g_t[i].finished && !g_t[i].blocked) return i;
  return NOBODY;
}
void hand_over(int to) {  // baton passing; returns when it comes back
  int me = tls_me;
  if (to == me) return;
  g_cur = to;
  g_rep->switches++;
  fwake(g_t[to].turn);
  fwait(g_t[me].turn);
}
void preempt_planned() {
  int to = next_planned();
  if (to == NOBODY) to = tls_me;
  hand_over(to);
}
void preempt_forced() {
  int to = unfinished(tls_me);
  if (to == NOBODY) return;
  g_rep->conflict_switches++;
  u64 b = 1;
  while (b < 65536 && rnd() < 0.7) b *= 2;
  g_budget = b;
  hand_over(to);
}
void blocked_wait() {  // the resource is held by another caller
  g_rep->lock_waits++;
  g_t[tls_me].blocked = true;
  int to = unfinished(tls_me);
  if (to == NOBODY) {
    g_t[tls_me].blocked = false;
    sim::record_fatal("deadlock", "every unfinished caller waits for a lock held by another one");
  }
  hand_over(to);
}
void unblock_all() {
  for (int i = 0; i < g_n; ++i) g_t[i].blocked = false;
}

inline bool on() { return g_active && tls_me >= 0 && !tls_inside; }

Cell *cell(up key) {
  size_t i = (key * 0x9e3779b97f4a7c15ull) >> (64 - 19);
  for (;;) {
    Cell &c = g_shadow[i];
    if (c.epoch != g_epoch) {
      if (g_cells > SHADOW / 4 * 3) {
        g_rep->shadow_full = true;
        return nullptr;
      }
      ++g_cells;
      memset(&c, 0, sizeof c);
      c.key = key;
      c.epoch = g_epoch;
      return &c;
    }
    if (c.key == key) return &c;
    i = (i + 1) & (SHADOW - 1);
  }
}
void forget(const void *p, size_t n) {
  if (!g_active || !n) return;
  up a = (up)p >> 3, b = ((up)p + n - 1) >> 3;
  if (b - a > 1 << 16) b = a + (1 << 16);
  for (up k = a; k <= b; ++k) {
    size_t i = (k * 0x9e3779b97f4a7c15ull) >> (64 - 19);
    while (g_shadow[i].epoch == g_epoch) {
      if (g_shadow[i].key == k) {
        memset(g_shadow[i].w, 0, sizeof(Cell) - offsetof(Cell, w));
        break;
      }
      i = (i + 1) & (SHADOW - 1);
    }
  }
}
// Static storage of shared objects (C++ library, C library) is theirs: e.g. the
// character tables of std::ctype are filled lazily by inline code.
std::vector<std::pair<up, up>> *g_foreign = nullptr;
int note_module(struct dl_phdr_info *i, size_t, void *) {
  if (!i->dlpi_name || !*i->dlpi_name) return 0;  // this program
  for (int k = 0; k < i->dlpi_phnum; ++k)
    if (i->dlpi_phdr[k].p_type == PT_LOAD) {
      up a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      g_foreign->push_back(std::make_pair(a, a + i->dlpi_phdr[k].p_memsz));
    }
  return 0;
}
bool ignored(up a) {  // the standard streams synchronise by themselves
  for (auto &f : *g_foreign)
    if (a >= f.first && a < f.second) return true;
  auto in = [a](const void *o, size_t n) { return a >= (up)o && a < (up)o + n; };
  return in(&std::cout, sizeof std::cout) || in(&std::cerr, sizeof std::cerr) || in(&std::clog, sizeof std::clog);
}
void race(up a, bool wr, int me, int other, bool other_wr, void *pc) {
  if (g_rep->race) return;
  g_rep->race = true;
  Dl_info d, v;
  memset(&d, 0, sizeof d);
  memset(&v, 0, sizeof v);
  dladdr(pc, &d);
  bool glob = a >= (up)&__data_start && a < (up)&_end;
  if (glob) dladdr((void *)a, &v);
  snprintf(g_what, sizeof g_what, "caller %d %s memory that caller %d %s, without synchronisation; in %s; memory: %s", me,
           wr ? "writes" : "reads", other, other_wr ? "writes" : "reads", d.dli_sname ? d.dli_sname : "?",
           glob ? (v.dli_sname ? v.dli_sname : "static storage") : "heap");
}
void touch(up a, size_t n, bool wr, void *pc) {
  const int me = tls_me;
  Caller &t = g_t[me];
  if (a >= t.lo && a < t.hi) return;
  ++t.count;
  bool glob = a >= (up)&__data_start && a < (up)&_end;
  bool shared = false;
  for (up k = a >> 3, e = (a + n - 1) >> 3; k <= e; ++k) {
    up s = k << 3;
    unsigned from = a > s ? (unsigned)(a - s) : 0, to = a + n < s + 8 ? (unsigned)(a + n - s) : 8;
    unsigned char m = (unsigned char)(((1u << to) - 1) & ~((1u << from) - 1));
    Cell *c = cell(k);
    if (!c) break;
    for (int u = 0; u < g_n; ++u) {
      if (u == me) continue;
      if (c->wm[u] | c->rm[u]) shared = true;
      if ((c->wm[u] & m) && c->w[u] > t.vc[u] && !ignored(a)) race(a, wr, me, u, true, pc);
      else if (wr && (c->rm[u] & m) && c->r[u] > t.vc[u] && !ignored(a)) race(a, wr, me, u, false, pc);
    }
    u32 now = t.vc[me];
    if (wr) {
      c->wm[me] = c->w[me] == now ? c->wm[me] | m : m;
      c->w[me] = now;
    } else {
      c->rm[me] = c->r[me] == now ? c->rm[me] | m : m;
      c->r[me] = now;
    }
  }
  if (shared) g_rep->shared_granules++;
  if (--g_budget == 0) preempt_planned();
  else if (glob && g_opt.global_p > 0 && rnd() < g_opt.global_p) preempt_forced();
  else if (shared && g_opt.conflict_p > 0 && rnd() < g_opt.conflict_p) preempt_forced();
}
void point() {
  ++g_t[tls_me].count;
  if (--g_budget == 0) preempt_planned();
}
void acquire(const void *a) {
  sim::HarnessScope h;
  g_rep->syncs++;
  auto it = g_sync->find((up)a);
  if (it == g_sync->end()) return;
  Caller &t = g_t[tls_me];
  for (int i = 0; i < MAXT; ++i) t.vc[i] = std::max(t.vc[i], it->second[i]);
}
void release(const void *a) {
  sim::HarnessScope h;
  g_rep->syncs++;
  Caller &t = g_t[tls_me];
  auto &v = (*g_sync)[(up)a];
  for (int i = 0; i < MAXT; ++i) v[i] = std::max(v[i], t.vc[i]);
  ++t.vc[tls_me];
}
void *thread_main(void *arg) {
  Caller &t = *(Caller *)arg;
  fwait(t.turn);
  tls_me = (int)(&t - g_t);
  (*t.body)();
  {
    Inside in;
    t.finished = true;
    unblock_all();
    int to = next_planned();
    tls_me = NOBODY;
    if (to == NOBODY) {
      g_cur = MAIN;
      fwake(g_main_turn);
    } else {
      g_cur = to;
      g_rep->switches++;
      fwake(g_t[to].turn);
    }
  }
  fwait(t.gate);
  return nullptr;
}
}  // namespace

bool in_caller() { return tls_me >= 0; }

Report run(const std::vector<std::function<void()>> &bodies, const std::vector<Slice> &slices, const Options &o) {
  Report rep;
  enum { STK = 16 << 20 };
  static char *stacks = nullptr;
  if (!g_shadow) {
    g_foreign = new std::vector<std::pair<up, up>>();
    dl_iterate_phdr(note_module, nullptr);
    g_shadow = (Cell *)mmap(nullptr, sizeof(Cell) * (size_t)SHADOW, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    stacks = (char *)mmap(nullptr, (size_t)STK * MAXT, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  ++g_epoch;
  g_cells = 0;
  g_n = (int)std::min<size_t>(bodies.size(), MAXT);
  if (!g_n) return rep;
  SyncMap sync;
  g_sync = &sync;
  g_rep = &rep;
  g_slices = &slices;
  g_next = 0;
  g_opt = o;
  g_rng = o.seed;
  g_what[0] = 0;
  g_main_turn = 0;
  for (int i = 0; i < g_n; ++i) {
    Caller &t = g_t[i];
    t.body = &bodies[i];
    t.turn = 0;
    t.gate = 0;
    t.finished = t.blocked = false;
    t.lo = (up)(stacks + (size_t)STK * i);
    t.hi = t.lo + STK;
    t.count = 0;
    for (int k = 0; k < MAXT; ++k) t.vc[k] = k == i ? 1 : 0;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void *)t.lo, STK);
    if (pthread_create(&t.th, &at, thread_main, &t)) sim::record_fatal("harness", "cannot create a thread");
    pthread_attr_destroy(&at);
  }
  int first = next_planned();
  g_active = true;
  g_cur = first;
  fwake(g_t[first].turn);
  fwait(g_main_turn);
  g_active = false;
  for (int i = 0; i < g_n; ++i) {
    fwake(g_t[i].gate);
    pthread_join(g_t[i].th, nullptr);
    rep.accesses[i] = g_t[i].count;
  }
  g_sync = nullptr;
  g_rep = nullptr;
  g_slices = nullptr;
  if (rep.race || rep.process_state) rep.what = g_what;
  return rep;
}

// a use of process-wide state that belongs to nobody
void process_state(const char *what) {
  if (!on() || g_rep->process_state) return;
  g_rep->process_state = true;
  snprintf(g_what, sizeof g_what, "a library call uses %s, which belongs to the whole process", what);
}
void *real(const char *name) {
  Inside in;
  return dlsym(RTLD_NEXT, name);
}
}  // namespace sched

using namespace sched;
#define PC __builtin_return_address(0)
#define RD(n)                                                            \
  void __tsan_read##n(void *a) { if (on()) { Inside in; touch((up)a, n, false, PC); } } \
  void __tsan_write##n(void *a) { if (on()) { Inside in; touch((up)a, n, true, PC); } } \
  void __tsan_unaligned_read##n(void *a) { if (on()) { Inside in; touch((up)a, n, false, PC); } } \
  void __tsan_unaligned_write##n(void *a) { if (on()) { Inside in; touch((up)a, n, true, PC); } } \
  void __tsan_volatile_read##n(void *a) { if (on()) { Inside in; touch((up)a, n, false, PC); } } \
  void __tsan_volatile_write##n(void *a) { if (on()) { Inside in; touch((up)a, n, true, PC); } }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { if (on()) { Inside in; point(); } }
void __tsan_func_exit() {}
RD(1) RD(2) RD(4) RD(8) RD(16)
void __tsan_read_range(void *a, size_t n) { if (n && on()) { Inside in; touch((up)a, n < 8192 ? n : 8192, false, PC); } }
void __tsan_write_range(void *a, size_t n) { if (n && on()) { Inside in; touch((up)a, n < 8192 ? n : 8192, true, PC); } }
void __tsan_vptr_update(void **a, void *v) { if (on() && *a != v) { Inside in; touch((up)a, 8, true, PC); } }
void __tsan_vptr_read(void **a) { if (on()) { Inside in; touch((up)a, 8, false, PC); } }

#define AT(bits, T)                                                                                   \
  static void at##bits(volatile void *a) { if (on()) { Inside in; point(); acquire((void *)a); release((void *)a); } } \
  T __tsan_atomic##bits##_load(const volatile T *a, int) { at##bits((volatile void *)a); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) { at##bits(a); __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { at##bits(a); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { at##bits(a); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { at##bits(a); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { at##bits(a); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { at##bits(a); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { at##bits(a); return __atomic_fetch_xor(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { at##bits(a); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { at##bits(a); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { at##bits(a); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int, int) { at##bits(a); __atomic_compare_exchange_n(a, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// memory functions called from instrumented code (linked with --wrap)
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
size_t __real_strlen(const char *);
static void range(const void *a, size_t n, bool w, void *pc) { if (n && on()) { Inside in; touch((up)a, n < 8192 ? n : 8192, w, pc); } }
void *__wrap_memcpy(void *d, const void *s, size_t n) { range(s, n, false, PC); range(d, n, true, PC); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { range(s, n, false, PC); range(d, n, true, PC); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { range(d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { range(a, n, false, PC); range(b, n, false, PC); return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); range(s, n + 1, false, PC); return n; }

// memory that changes hands carries no history
void *malloc(size_t n) { void *p = __libc_malloc(n); if (g_active && p) forget(p, n); return p; }
void free(void *p) { __libc_free(p); }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (g_active && p) forget(p, a * b); return p; }
void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if (g_active && p) forget(p, n); return p; }
void *memalign(size_t al, size_t n) { void *p = __libc_memalign(al, n); if (g_active && p) forget(p, n); return p; }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **o, size_t al, size_t n) { void *p = memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }

// locks: a busy lock lets the others run instead of blocking the process
#define REAL(name, ...) typedef int (*fn_##name)(__VA_ARGS__); static fn_##name p_##name; if (!p_##name) p_##name = (fn_##name)sched::real(#name)
int pthread_mutex_lock(pthread_mutex_t *m) {
  REAL(pthread_mutex_lock, pthread_mutex_t *);
  if (!on()) return p_pthread_mutex_lock(m);
  Inside in;
  point();
  int r;
  while ((r = pthread_mutex_trylock(m)) == EBUSY) blocked_wait();
  if (r == 0) acquire(m);
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  REAL(pthread_mutex_unlock, pthread_mutex_t *);
  if (!on()) return p_pthread_mutex_unlock(m);
  Inside in;
  release(m);
  int r = p_pthread_mutex_unlock(m);
  unblock_all();
  point();
  return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  REAL(pthread_rwlock_rdlock, pthread_rwlock_t *);
  if (!on()) return p_pthread_rwlock_rdlock(m);
  Inside in;
  point();
  int r;
  while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) blocked_wait();
  if (r == 0) acquire(m);
  return r;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  REAL(pthread_rwlock_wrlock, pthread_rwlock_t *);
  if (!on()) return p_pthread_rwlock_wrlock(m);
  Inside in;
  point();
  int r;
  while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) blocked_wait();
  if (r == 0) acquire(m);
  return r;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  REAL(pthread_rwlock_unlock, pthread_rwlock_t *);
  if (!on()) return p_pthread_rwlock_unlock(m);
  Inside in;
  release(m);
  int r = p_pthread_rwlock_unlock(m);
  unblock_all();
  point();
  return r;
}
// once and initialisation of function statics
static const pthread_once_t kDone = 2, kBusy = 1;
int pthread_once(pthread_once_t *o, void (*f)(void)) {
  REAL(pthread_once, pthread_once_t *, void (*)(void));
  if (!on()) return p_pthread_once(o, f);
  for (;;) {
    {
      Inside in;
      point();
      if (*o == kDone) {
        acquire(o);
        return 0;
      }
      if (*o == kBusy) {
        blocked_wait();
        continue;
      }
      *o = kBusy;
    }
    try {
      f();
    } catch (...) {
      Inside in;
      *o = 0;
      unblock_all();
      throw;
    }
    Inside in;
    release(o);
    *o = kDone;
    unblock_all();
    return 0;
  }
}
int __cxa_guard_acquire(uint64_t *g) {
  char *b = (char *)g;
  for (;;) {
    if (b[0]) {
      if (on()) {
        Inside in;
        acquire(g);
      }
      return 0;
    }
    if (b[1] && on()) {
      Inside in;
      blocked_wait();
      continue;
    }
    b[1] = 1;
    if (on()) {
      Inside in;
      point();
    }
    return 1;
  }
}
void __cxa_guard_release(uint64_t *g) {
  char *b = (char *)g;
  if (on()) {
    Inside in;
    release(g);
    b[1] = 0;
    b[0] = 1;
    unblock_all();
    point();
  } else {
    b[1] = 0;
    b[0] = 1;
  }
}
void __cxa_guard_abort(uint64_t *g) {
  ((char *)g)[1] = 0;
  if (on()) {
    Inside in;
    unblock_all();
    point();
  }
}
// process-wide state
#define PROC(ret, name, decl, args, what, cond)                              \
  ret name decl {                                                            \
    typedef ret(*fn) decl;                                                   \
    static fn p;                                                             \
    if (!p) p = (fn)sched::real(#name);                                      \
    if (cond) process_state(what);                                           \
    return p args;                                                           \
  }
std::locale sim_locale_global(const std::locale &l) asm("_ZNSt6locale6globalERKS_");
std::locale sim_locale_global(const std::locale &l) {
  typedef std::locale (*fn)(const std::locale &);
  static fn p;
  if (!p) p = (fn)sched::real("_ZNSt6locale6globalERKS_");
  process_state("std::locale::global");
  return p(l);
}
PROC(char *, setlocale, (int c, const char *l), (c, l), "setlocale", l != nullptr)
PROC(int, rand, (void), (), "rand", true)
PROC(long, random, (void), (), "random", true)
PROC(double, drand48, (void), (), "drand48", true)
PROC(char *, strtok, (char *__restrict s, const char *__restrict d), (s, d), "strtok", true)
PROC(int, setenv, (const char *n, const char *v, int o), (n, v, o), "setenv", true)
PROC(int, chdir, (const char *d), (d), "chdir", true)
}
