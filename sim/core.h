// Deterministic simulation core: plans, seeded generation, fault seams, verdicts.
//
// A run is a pure function of its Plan.  A Plan is generated from one 64-bit
// seed; it lists the operations of every simulated caller, the faults attached
// to each operation, and the scheduling decisions.  exec() must be robust to
// any subset of operations, so that the generic minimiser can drop them.
#ifndef VERIF_SIM_CORE_H
#define VERIF_SIM_CORE_H
#include <cmath>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <new>
#include <stdexcept>
#include <sstream>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64;

inline u64 splitmix(u64 &x) {
  u64 z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline u64 mix(u64 a, u64 b) {
  u64 x = a * 0x9e3779b97f4a7c15ull + b;
  return splitmix(x);
}
u64 hash_bytes(const void *p, size_t n, u64 h = 0xcbf29ce484222325ull);
inline u64 hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }

struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed) {}
  u64 next() { return splitmix(s); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }  // inclusive
  double u() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u(); }
  bool chance(double p) { return u() < p; }
  template <class T>
  const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template <class T, size_t N>
  const T &pick(const T (&v)[N]) { return v[below(N)]; }
  template <class T>
  void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
  }
};

struct Fault {
  std::string kind;
  long k;  // fires at the k-th (0-based) matching event of the operation
};

struct Op {
  int code = 0;
  std::vector<double> n;
  std::vector<std::string> s;
  std::vector<Fault> f;
  Op() {}
  Op(int c) : code(c) {}
  Op(int c, std::vector<double> nn) : code(c), n(std::move(nn)) {}
  Op(int c, std::vector<double> nn, std::vector<std::string> ss)
      : code(c), n(std::move(nn)), s(std::move(ss)) {}
  double num(size_t i, double d = 0) const { return i < n.size() ? n[i] : d; }
  float flt(size_t i, float d = 0) const { return i < n.size() ? (float)n[i] : d; }
  long i(size_t k, long d = 0) const {
    if (k >= n.size() || !(std::fabs(n[k]) < 1e15)) return d;
    return (long)n[k];
  }
  size_t idx(size_t k, size_t mod) const {  // robust index
    if (mod == 0) return 0;
    long v = i(k);
    return (size_t)(v < 0 ? -v : v) % mod;
  }
  std::string str(size_t k) const { return k < s.size() ? s[k] : std::string(); }
  long fault(const char *kind) const {  // -1 when absent
    for (const Fault &x : f)
      if (x.kind == kind) return x.k;
    return -1;
  }
};

struct Plan {
  u64 seed = 0;
  int cfg = 0;
  std::vector<std::pair<std::string, double>> knobs;
  std::vector<Op> ops;
  double knob(const char *name, double d = 0) const {
    for (auto &k : knobs)
      if (k.first == name) return k.second;
    return d;
  }
  void set(const char *name, double v) { knobs.push_back(std::make_pair(std::string(name), v)); }
};

struct Violation : std::exception {
  const char *what() const noexcept override { return "simulated property violation"; }
};

extern bool g_shared_process;  // the run is one of several callers: leave process-wide objects alone

class Ctx {
 public:
  u64 hash = 0xcbf29ce484222325ull;
  int op_index = -1;
  bool failed = false;
  bool muted = false;  // part of another run: verdicts and measures are the outer run's
  std::string cls, msg;
  bool nontrivial_flag = false;

  void trace(u64 v) { hash = mix(hash, v); }
  void trace(int v) { trace((u64)(int64_t)v); }
  void trace(double v) {
    u64 b;
    std::memcpy(&b, &v, 8);
    trace(b);
  }
  void trace(float v) {
    uint32_t b;
    std::memcpy(&b, &v, 4);
    trace((u64)b);
  }
  void trace(const std::string &s) { trace(hash_str(s)); }
  void trace(const char *s) { trace(std::string(s)); }
  void state(u64 h);                  // abstract state reached (distinct-state measure)
  void probe(const char *name);       // rare-condition probe
  void fired(const char *kind);       // an injected fault actually took effect
  void rejected(const char *what);    // an operation was refused by the code (counted)
  void simtime(double seconds);       // simulated time covered
  void nontrivial() { nontrivial_flag = true; }
  [[noreturn]] void fail(const std::string &cls, const std::string &msg);
  void check(bool ok, const char *cls, const std::string &msg) {
    if (!ok) fail(cls, msg);
  }
};

// ---- allocation seam (global operator new) -------------------------------
namespace alloc {
// Arms a failure of the k-th allocation from now on (k<0: count only).
void arm(long k);
// Disarms; returns true when the failure fired.
bool disarm();
long counted();
}  // namespace alloc

// Scope that injects the "alloc" fault of an operation, if it has one.
// Use: { AllocFault a(ctx, op); call(); }   -- fired() tells if it took effect.
class AllocFault {
 public:
  AllocFault(Ctx &c, const Op &op) : c_(c), k_(op.fault("alloc")), done_(false), fired_(false) {
    if (k_ >= 0) alloc::arm(k_);
  }
  ~AllocFault() { end(); }
  bool end() {
    if (!done_) {
      done_ = true;
      if (k_ >= 0) {
        fired_ = alloc::disarm();
        if (fired_) c_.fired("alloc-failure");
      }
    }
    return fired_;
  }

 private:
  Ctx &c_;
  long k_;
  bool done_, fired_;
};

// Suspends allocation faults while harness code (callbacks, models) runs
// inside a library call.
class HarnessScope {
 public:
  HarnessScope();
  ~HarnessScope();

 private:
  bool saved_;
};

template <class... A>
std::string cat(const A &... a) {
  std::ostringstream ss;
  ss.precision(9);
  int unused[] = {0, ((void)(ss << a), 0)...};
  (void)unused;
  return ss.str();
}

// Outcome of one library call.
enum Outcome { OK = 0, THROWN = 1, NOMEM = 2, INJECTED = 3, UNKNOWN = 4 };
struct InjectedMark {};  // all the failures thrown by the simulated user
struct InjectedError : std::exception, InjectedMark {
  const char *what() const noexcept override { return "injected failure"; }
};
template <class B>
struct InjectedAs : B, InjectedMark {
  using B::B;
};
// the user's code fails with an exception of some kind, which the library may itself throw or catch
[[noreturn]] inline void inject(long kind) {
  switch (kind % 6) {
    case 1: throw InjectedAs<std::out_of_range>("injected failure");
    case 2: throw InjectedAs<std::runtime_error>("injected failure");
    case 3: throw InjectedAs<std::invalid_argument>("injected failure");
    case 4: throw InjectedAs<std::bad_alloc>();
    case 5: throw InjectedMark();
    default: throw InjectedError();
  }
}
template <class F>
Outcome attempt(F f, std::string *what = nullptr) {
  try {
    f();
    return OK;
  } catch (const Violation &) {
    throw;
  } catch (const InjectedMark &) {
    return INJECTED;
  } catch (const std::bad_alloc &) {
    return NOMEM;
  } catch (const std::exception &e) {
    if (what) {
      HarnessScope h;
      *what = e.what();
    }
    return THROWN;
  } catch (...) {
    return UNKNOWN;
  }
}

struct Scenario {
  std::string id;
  std::string rule;                     // how cases are made / non-trivial means
  std::vector<std::string> real, stub;  // components
  std::vector<std::string> configs;     // names of configurations (cfg index)
  std::vector<std::string> fault_kinds;
  std::string state_measure;
  std::vector<std::string> assumptions;
  Plan (*gen)(Rng &, int cfg);
  void (*exec)(const Plan &, Ctx &);
  std::string (*describe)(const Plan &) = nullptr;
  int batch = 32;
  long quick_runs = 40000, thorough_runs = 2000000;
  double quick_secs = 40, thorough_secs = 600;
  double cpu_limit = 5;  // seconds of CPU per run before it counts as a hang
  int gen_workers = 8;
};
Scenario make_scenario();  // defined by the one scenario linked in

// ---- comparisons ----------------------------------------------------------
inline bool same_bits(float a, float b) { return std::memcmp(&a, &b, 4) == 0; }
inline bool same_value(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool close(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= tol;
}
std::string hexf(double v);

}  // namespace sim
#endif
