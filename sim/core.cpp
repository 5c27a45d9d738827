#include "core.h"
#include <fcntl.h>
#include <malloc.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <set>

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:"
         "handle_abort=0:symbolize=1:print_legend=0:malloc_context_size=6:quarantine_size_mb=16:"
         "detect_odr_violation=0";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:exitcode=77"; }

namespace sim {
bool g_shared_process = false;

u64 hash_bytes(const void *p, size_t n, u64 h) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i) {
    h ^= c[i];
    h *= 0x100000001b3ull;
  }
  return h ^ (h >> 29);
}
std::string hexf(double v) {
  char b[64];
  snprintf(b, sizeof b, "%a", v);
  return b;
}

// ---------------------------------------------------------------- allocation
namespace {
__thread bool g_armed = false;
__thread bool g_alloc_fired = false;
__thread long g_alloc_at = -1;
__thread long g_alloc_count = 0;
unsigned char g_fill = 0xA5;
size_t g_live = 0;
size_t g_live_limit = 0;  // 0: no limit
}  // namespace
void memory_blowup();
void *sim_alloc(size_t n, bool nothrow) {
  if (g_armed) {
    long c = g_alloc_count++;
    if (c == g_alloc_at) {
      g_alloc_fired = true;
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
  }
  if (g_live_limit && (n > g_live_limit || g_live + n > g_live_limit)) memory_blowup();
  void *p = malloc(n ? n : 1);
  if (!p) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  g_live += n;
  memset(p, g_fill, n < 8192 ? n : 8192);
  return p;
}
void sim_free(void *p) {
  if (!p) return;
  size_t n = malloc_usable_size(p);
  g_live = g_live > n ? g_live - n : 0;
  free(p);
}
namespace alloc {
void arm(long k) {
  g_alloc_at = k;
  g_alloc_count = 0;
  g_alloc_fired = false;
  g_armed = true;
}
bool disarm() {
  g_armed = false;
  return g_alloc_fired;
}
long counted() { return g_alloc_count; }
}  // namespace alloc
HarnessScope::HarnessScope() : saved_(g_armed) { g_armed = false; }
HarnessScope::~HarnessScope() { g_armed = saved_; }

// ------------------------------------------------------------------- shared
enum { MAXC = 160, STATES = 1 << 18, TRACES = 1 << 20 };
struct Counter {
  char name[56];
  u64 n;
};
struct Shm {
  volatile long cur_run;   // run being executed
  volatile int status;     // 0 idle/ok, 1 violation recorded, 2 in progress
  volatile u64 done;
  char cls[160];
  char msg[3072];
  int op_index;
  u64 vhash;
  Counter c[MAXC];
  int nc;
  double simtime;
  u64 runs, nontrivial, opsdone;
  u64 states_n, traces_n;
  u64 states[STATES];
  u64 traces[TRACES];
  u64 replayed;
};
static Shm *g_shm = nullptr;

static bool table_insert(u64 *t, size_t cap, u64 &n, u64 h) {
  if (h == 0) h = 1;
  if (n * 4 > cap * 3) return false;
  size_t i = h & (cap - 1);
  while (t[i]) {
    if (t[i] == h) return false;
    i = (i + 1) & (cap - 1);
  }
  t[i] = h;
  ++n;
  return true;
}
static void count(const char *prefix, const char *name, u64 by = 1) {
  if (!g_shm) return;
  char key[56];
  snprintf(key, sizeof key, "%s:%s", prefix, name);
  for (int i = 0; i < g_shm->nc; ++i)
    if (!strcmp(g_shm->c[i].name, key)) {
      g_shm->c[i].n += by;
      return;
    }
  if (g_shm->nc < MAXC) {
    strcpy(g_shm->c[g_shm->nc].name, key);
    g_shm->c[g_shm->nc++].n = by;
  }
}
static bool g_quiet = false;  // second execution of a run: do not count
void Ctx::state(u64 h) {
  if (g_shm && !g_quiet && !muted) table_insert(g_shm->states, STATES, g_shm->states_n, h);
}
void Ctx::probe(const char *name) {
  if (!g_quiet && !muted) count("probe", name);
}
void Ctx::fired(const char *kind) {
  if (!g_quiet) count("fault", kind);
  trace(kind);
}
void Ctx::rejected(const char *w) {
  if (!g_quiet && !muted) count("rejected", w);
}
void Ctx::simtime(double s) {
  if (g_shm && !g_quiet && !muted && s == s) g_shm->simtime += s;
}
static void record(const std::string &cls, const std::string &msg, int op, u64 h) {
  if (!g_shm) return;
  snprintf(g_shm->cls, sizeof g_shm->cls, "%s", cls.c_str());
  snprintf(g_shm->msg, sizeof g_shm->msg, "%s", msg.c_str());
  g_shm->op_index = op;
  g_shm->vhash = h;
  g_shm->status = 1;
}
void memory_blowup() {
  g_live_limit = 0;
  record("memory-blowup", "more than the per-run memory limit was allocated", -1, 0);
  _exit(79);
}
void record_fatal(const char *cls, const char *msg) {
  record(cls, msg, -1, 0);
  _exit(79);
}
void Ctx::fail(const std::string &c, const std::string &m) {
  HarnessScope h;
  if (!failed) {
    failed = true;
    cls = c;
    msg = m;
    if (!muted) record(cls, cat("op#", op_index, ": ", msg), op_index, hash);
  }
  throw Violation();
}

// --------------------------------------------------------------- plan text
static std::string enc(const std::string &s) {
  std::string o;
  char b[8];
  for (unsigned char c : s) {
    if (isalnum(c) || strchr("_-./<>=\"':;,()[]{}!?#&+*", c) == nullptr || c == 0) {
      if (isalnum(c)) o += (char)c;
      else {
        snprintf(b, sizeof b, "%%%02x", c);
        o += b;
      }
    } else
      o += (char)c;
  }
  return o;
}
static std::string dec(const std::string &s) {
  std::string o;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == '%' && i + 2 < s.size()) {
      o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    } else
      o += s[i];
  return o;
}
static void put_plan(std::ostream &os, const Plan &p) {
  os << "plan seed=" << p.seed << " cfg=" << p.cfg << "\n";
  for (auto &k : p.knobs) os << "knob " << k.first << " " << hexf(k.second) << "\n";
  for (const Op &o : p.ops) {
    os << "op " << o.code << " n " << o.n.size();
    for (double d : o.n) os << " " << hexf(d);
    os << " s " << o.s.size();
    for (auto &s : o.s) os << " \"" << enc(s);
    os << " f " << o.f.size();
    for (auto &f : o.f) os << " " << f.kind << " " << f.k;
    os << "\n";
  }
  os << "end\n";
}
static double tod(const std::string &t) { return strtod(t.c_str(), nullptr); }
static bool get_plan(std::istream &is, Plan &p) {
  std::string line;
  bool started = false;
  while (std::getline(is, line)) {
    std::istringstream l(line);
    std::string w;
    l >> w;
    if (w == "plan") {
      started = true;
      std::string a, b;
      l >> a >> b;
      p = Plan();
      p.seed = strtoull(a.substr(5).c_str(), nullptr, 10);
      p.cfg = atoi(b.substr(4).c_str());
    } else if (w == "knob" && started) {
      std::string n, v;
      l >> n >> v;
      p.knobs.push_back(std::make_pair(n, tod(v)));
    } else if (w == "op" && started) {
      Op o;
      size_t k = 0;
      std::string t;
      l >> o.code >> t >> k;
      for (size_t i = 0; i < k; ++i) {
        l >> t;
        o.n.push_back(tod(t));
      }
      l >> t >> k;
      for (size_t i = 0; i < k; ++i) {
        l >> t;
        o.s.push_back(dec(t.substr(1)));
      }
      l >> t >> k;
      for (size_t i = 0; i < k; ++i) {
        Fault f;
        l >> f.kind >> f.k;
        o.f.push_back(f);
      }
      p.ops.push_back(o);
    } else if (w == "end" && started)
      return true;
  }
  return false;
}

// -------------------------------------------------------------- execution
struct Verdict {
  bool bad = false;
  std::string cls, msg;
  u64 hash = 0;
  int op = -1;
};
static Scenario g_sc;

static void run_one(const Plan &p, Ctx &c) {
  g_armed = false;
  g_live_limit = (size_t)1500 << 20;
  g_live = 0;
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (long)g_sc.cpu_limit;
  it.it_value.tv_usec = 1000;
  setitimer(ITIMER_PROF, &it, nullptr);
  try {
    g_sc.exec(p, c);
    g_armed = false;
  } catch (const Violation &) {
    g_armed = false;
  } catch (const std::exception &e) {
    g_armed = false;
    if (!c.failed) {
      try {
        c.fail("unexpected-exception", e.what());
      } catch (const Violation &) {
      }
    }
  }
  memset(&it, 0, sizeof it);
  setitimer(ITIMER_PROF, &it, nullptr);
  g_live_limit = 0;
}
static u64 run_seed(u64 vseed, long run) { return mix(mix(vseed, hash_str(g_sc.id)), (u64)run); }
static Plan make_plan(u64 vseed, long run) {
  u64 s = run_seed(vseed, run);
  Rng r(s);
  int cfg = (int)((u64)run % g_sc.configs.size());
  Plan p = g_sc.gen(r, cfg);
  p.seed = s;
  p.cfg = cfg;
  return p;
}

// Execute one plan in this process, with the double-run determinism check.
// Returns false when a violation was recorded in g_shm.
static bool exec_checked(const Plan &p, bool twice, u64 *hash_out) {
  Ctx c;
  g_fill = 0xA5;
  run_one(p, c);
  if (hash_out) *hash_out = c.hash;
  if (c.failed) return false;
  if (g_shm && !g_quiet) {
    g_shm->runs++;
    g_shm->opsdone += p.ops.size();
    if (c.nontrivial_flag) {
      g_shm->nontrivial++;
      table_insert(g_shm->traces, TRACES, g_shm->traces_n, c.hash);
    }
  }
  if (twice) {
    Ctx d;
    g_fill = 0x3C;
    bool q = g_quiet;
    g_quiet = true;
    run_one(p, d);
    g_quiet = q;
    g_fill = 0xA5;
    if (g_shm && !g_quiet) g_shm->replayed++;
    if (d.failed) return false;
    if (d.hash != c.hash) {
      record("result-depends-on-history-or-uninitialised-memory",
             "the same plan executed twice in one process gave two different traces", -1, 0);
      return false;
    }
  }
  return true;
}

static Shm *new_shm() {
  void *m = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return (Shm *)m;
}

static std::string crash_class(int wstatus, const std::string &err) {
  auto line_with = [&](const char *k) -> std::string {
    size_t p = err.find(k);
    if (p == std::string::npos) return "";
    size_t e = err.find('\n', p);
    return err.substr(p, (e == std::string::npos ? err.size() : e) - p);
  };
  std::string l;
  if (!(l = line_with("AddressSanitizer: ")).empty()) {
    std::string k = l.substr(18);
    size_t sp = k.find(' ');
    return "sanitizer:" + k.substr(0, sp);
  }
  if (!(l = line_with("runtime error: ")).empty()) {
    std::string k = l.substr(15, 40);
    for (char &ch : k)
      if (!isalpha((unsigned char)ch)) ch = '-';
    // keep words only, digits vary
    return "ubsan:" + k;
  }
  if (!(l = line_with("Assertion `")).empty()) {
    return "assert:" + l.substr(11, 80);
  }
  if (!(l = line_with("Assertion '")).empty()) return "glibcxx-assert:" + l.substr(11, 60);
  if (WIFSIGNALED(wstatus)) {
    int s = WTERMSIG(wstatus);
    if (s == SIGPROF) return "hang";
    if (s == SIGKILL) return "killed";
    if (s == SIGABRT && err.find("terminate called") != std::string::npos) return "terminate";
    return cat("signal:", s);
  }
  return cat("exit:", WIFEXITED(wstatus) ? WEXITSTATUS(wstatus) : -1);
}

static std::string read_fd(int fd) {
  std::string s;
  lseek(fd, 0, SEEK_SET);
  char b[4096];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0 && s.size() < 65536) s.append(b, (size_t)n);
  return s;
}

// Run f in a forked child with stderr captured.
template <class F>
static int in_child(F f, std::string *err) {
  static int fd = -1;
  static pid_t owner = 0;
  if (fd < 0 || owner != getpid()) {
    fd = memfd_create("err", 0);
    owner = getpid();
  }
  if (ftruncate(fd, 0)) {
  }
  lseek(fd, 0, SEEK_SET);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(3);
  }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    dup2(fd, 2);
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    f();
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (err) *err = (st != 0) ? read_fd(fd) : std::string();
  return st;
}

// Verdict of a sequence of plans executed in one fresh forked process.
static Verdict judge(const std::vector<Plan> &ps, bool twice) {
  static Shm *mine = nullptr;
  static pid_t owner = 0;
  if (!mine || owner != getpid()) {
    mine = new_shm();
    owner = getpid();
  }
  Shm *keep = g_shm;
  bool kq = g_quiet;
  g_shm = mine;
  g_quiet = true;
  mine->status = 0;
  mine->vhash = 0;
  std::string err;
  int st = in_child(
      [&] {
        for (auto &p : ps)
          if (!exec_checked(p, twice, nullptr)) _exit(78);
      },
      &err);
  g_shm = keep;
  g_quiet = kq;
  Verdict v;
  if (mine->status == 1) {
    v.bad = true;
    v.cls = mine->cls;
    v.msg = mine->msg;
    v.hash = mine->vhash;
    v.op = mine->op_index;
  } else if (st != 0) {
    v.bad = true;
    v.cls = crash_class(st, err);
    v.msg = err.substr(0, 1500);
  }
  return v;
}

// --------------------------------------------------------------- minimiser
static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
struct Minimiser {
  std::vector<Plan> ps;
  std::string cls;
  bool twice;
  double deadline;
  long execs = 0;
  bool bad(const std::vector<Plan> &c) {
    if (now() > deadline) return false;
    ++execs;
    Verdict v = judge(c, twice);
    return v.bad && v.cls == cls;
  }
  void run() {
    // whole plans first
    if (ps.size() > 1) {
      std::vector<Plan> last(1, ps.back());
      if (bad(last)) ps = last;
      for (size_t i = 0; ps.size() > 1 && i + 1 < ps.size();) {
        std::vector<Plan> c = ps;
        c.erase(c.begin() + i);
        if (bad(c)) ps = c;
        else ++i;
      }
    }
    for (int round = 0; round < 3; ++round) {
      size_t before = size();
      for (size_t k = 0; k < ps.size(); ++k) {
        drop_ops(k);
        drop_faults(k);
        shrink_args(k);
      }
      if (size() == before) break;
    }
  }
  size_t size() const {
    size_t n = 0;
    for (auto &p : ps)
      for (auto &o : p.ops) n += 1 + o.f.size();
    return n;
  }
  void drop_ops(size_t k) {
    for (size_t chunk = std::max<size_t>(1, ps[k].ops.size() / 2); chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i < ps[k].ops.size();) {
        std::vector<Plan> c = ps;
        size_t e = std::min(i + chunk, c[k].ops.size());
        c[k].ops.erase(c[k].ops.begin() + i, c[k].ops.begin() + e);
        if (bad(c)) ps = c;
        else i += chunk;
      }
      if (chunk == 1) break;
    }
  }
  void drop_faults(size_t k) {
    for (size_t i = 0; i < ps[k].ops.size(); ++i)
      for (size_t j = 0; j < ps[k].ops[i].f.size();) {
        std::vector<Plan> c = ps;
        c[k].ops[i].f.erase(c[k].ops[i].f.begin() + j);
        if (bad(c)) ps = c;
        else ++j;
      }
  }
  void shrink_args(size_t k) {
    for (size_t i = 0; i < ps[k].ops.size(); ++i) {
      for (size_t j = 0; j < ps[k].ops[i].n.size(); ++j) {
        double v = ps[k].ops[i].n[j];
        double cand[] = {0, 1, std::floor(v), (double)(float)(std::round(v * 8) / 8)};
        for (double x : cand) {
          if (x == ps[k].ops[i].n[j]) break;
          std::vector<Plan> c = ps;
          c[k].ops[i].n[j] = x;
          if (bad(c)) {
            ps = c;
            break;
          }
        }
        if (now() > deadline) return;
      }
    }
  }
};

// -------------------------------------------------------------- replay file
static void write_replay(const std::string &path, const std::vector<Plan> &ps, bool twice,
                         const Verdict &v, u64 vseed, long run) {
  std::ofstream o(path.c_str());
  o << "simreplay 1\nproperty " << g_sc.id << "\nverif_seed " << vseed << "\nrun " << run
    << "\ntwice " << (twice ? 1 : 0) << "\nclass " << enc(v.cls) << "\nhash " << v.hash
    << "\nfailing_op " << v.op << "\n";
  std::istringstream m(v.msg);
  std::string line;
  for (int i = 0; i < 12 && std::getline(m, line); ++i) o << "# " << line << "\n";
  if (g_sc.describe)
    for (auto &p : ps) {
      std::istringstream d(g_sc.describe(p));
      while (std::getline(d, line)) o << "# " << line << "\n";
    }
  for (auto &p : ps) put_plan(o, p);
}
struct Replay {
  bool ok = false, twice = false;
  std::string property, cls;
  u64 hash = 0;
  std::vector<Plan> ps;
};
static Replay read_replay(const std::string &path) {
  Replay r;
  std::ifstream f(path.c_str());
  std::string line;
  if (!std::getline(f, line) || line != "simreplay 1") return r;
  std::streampos pos = f.tellg();
  while (std::getline(f, line)) {
    std::istringstream l(line);
    std::string w, x;
    l >> w >> x;
    if (w == "property") r.property = x;
    else if (w == "twice") r.twice = x == "1";
    else if (w == "class") r.cls = dec(x);
    else if (w == "hash") r.hash = strtoull(x.c_str(), nullptr, 10);
    else if (w == "plan") {
      f.seekg(pos);
      break;
    }
    pos = f.tellg();
  }
  Plan p;
  while (get_plan(f, p)) r.ps.push_back(p);
  r.ok = !r.ps.empty();
  return r;
}
static int do_replay(const std::string &path) {
  Replay r = read_replay(path);
  if (!r.ok || r.property != g_sc.id) {
    printf("REPLAY-ERROR cannot read %s\n", path.c_str());
    return 3;
  }
  Verdict v = judge(r.ps, r.twice);
  if (!v.bad) {
    printf("REPLAY ok no violation (expected class %s)\n", r.cls.c_str());
    return 0;
  }
  printf("REPLAY violation class=%s hash=%llu op=%d\n%s\n", enc(v.cls).c_str(),
         (unsigned long long)v.hash, v.op, v.msg.c_str());
  return 1;
}

// ------------------------------------------------------------------- search
struct Found {
  long run;
  long batch_first;
  char cls[160];
};
enum { MAXF = 64 };
struct Board {  // shared by all workers
  volatile int stop;
  volatile long next_batch;
  volatile int nfound;
  Found found[MAXF];
};
static Board *g_board;

static void worker(int, Shm *shm, u64 vseed, long runs, double deadline) {
  g_shm = shm;
  const long B = g_sc.batch;
  while (!g_board->stop && now() < deadline) {
    long b = __sync_fetch_and_add(&g_board->next_batch, 1);
    long first = b * B, last = std::min(runs, first + B);
    if (first >= runs) break;
    long at = first;
    while (at < last && !g_board->stop) {
      shm->status = 0;
      shm->cur_run = at;
      std::string err;
      int st = in_child(
          [&] {
            for (long i = at; i < last; ++i) {
              shm->cur_run = i;
              Plan p = make_plan(vseed, i);
              if (!exec_checked(p, (i & 15) == 5, nullptr)) _exit(78);
            }
          },
          &err);
      if (st == 0) break;
      long bad = shm->cur_run;
      std::string cls = shm->status == 1 ? std::string(shm->cls) : crash_class(st, err);
      int k = __sync_fetch_and_add(&g_board->nfound, 1);
      if (k < MAXF) {
        Found &f = g_board->found[k];
        f.run = bad;
        f.batch_first = at;
        snprintf(f.cls, sizeof f.cls, "%s", cls.c_str());
        __sync_synchronize();
      }
      if (k >= MAXF - 1) g_board->stop = 1;
      at = bad + 1;
    }
  }
  _exit(0);
}

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += (char)c;
  }
  return o + "\"";
}
static std::string jlist(const std::vector<std::string> &v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); ++i) o += (i ? ", " : "") + jstr(v[i]);
  return o + "]";
}
static std::string plan_sample(const Plan &p) {
  std::ostringstream o;
  o.precision(6);
  o << "seed=" << p.seed << " cfg=" << g_sc.configs[p.cfg];
  for (auto &k : p.knobs) o << " " << k.first << "=" << k.second;
  o << " ops:";
  size_t i = 0;
  for (const Op &op : p.ops) {
    if (++i > 12) {
      o << " ...(" << p.ops.size() << " ops)";
      break;
    }
    o << " [" << op.code;
    size_t j = 0;
    for (double d : op.n) {
      if (++j > 8) break;
      o << " " << d;
    }
    for (auto &s : op.s) o << " '" << s.substr(0, 60) << "'";
    for (auto &f : op.f) o << " !" << f.kind << "@" << f.k;
    o << "]";
  }
  return o.str();
}

}  // namespace sim

// global allocation functions -------------------------------------------------
void *operator new(size_t n) { return sim::sim_alloc(n, false); }
void *operator new[](size_t n) { return sim::sim_alloc(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::sim_alloc(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::sim_alloc(n, true); }
void operator delete(void *p) noexcept { sim::sim_free(p); }
void operator delete[](void *p) noexcept { sim::sim_free(p); }
void operator delete(void *p, size_t) noexcept { sim::sim_free(p); }
void operator delete[](void *p, size_t) noexcept { sim::sim_free(p); }

using namespace sim;

int main(int argc, char **argv) {
  g_sc = make_scenario();
  std::map<std::string, std::string> a;
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "replay" && argc > 2) return do_replay(argv[2]);
  for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  u64 vseed = strtoull(a["--seed"].c_str(), nullptr, 10);
  if (mode == "show") {  // show one plan
    Plan p = make_plan(vseed, atol(a["--run"].c_str()));
    put_plan(std::cout, p);
    if (g_sc.describe) std::cout << g_sc.describe(p) << "\n";
    std::vector<Plan> ps(1, p);
    Verdict v = judge(ps, false);
    std::cout << (v.bad ? "VIOLATION " + v.cls + "\n" + v.msg : std::string("ok")) << "\n";
    return 0;
  }
  if (mode != "run") {
    fprintf(stderr, "usage: sim run|replay|show ...\n");
    return 3;
  }
  const std::string tier = a["--tier"];
  const bool thorough = tier == "thorough";
  long runs = thorough ? g_sc.thorough_runs : g_sc.quick_runs;
  double secs = thorough ? g_sc.thorough_secs : g_sc.quick_secs;
  if (a.count("--runs")) runs = atol(a["--runs"].c_str());
  if (a.count("--secs")) secs = atof(a["--secs"].c_str());
  const std::string dir = a["--replaydir"], evidence = a["--evidence"];
  int W = a.count("--workers") ? atoi(a["--workers"].c_str()) : 8;

  double t0 = now(), deadline = t0 + secs;
  g_board = (Board *)mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE,
                          MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<Shm *> shms;
  std::vector<pid_t> pids;
  for (int w = 0; w < W; ++w) {
    Shm *s = new_shm();
    shms.push_back(s);
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      worker(w, s, vseed, runs, deadline);
    }
    pids.push_back(p);
  }
  bool worker_died = false;
  for (pid_t p : pids) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
    if (st != 0) worker_died = true;
  }
  double t1 = now();

  // aggregate
  u64 nruns = 0, nontrivial = 0, opsdone = 0, replayed = 0;
  double simtime = 0;
  std::map<std::string, u64> counters;
  std::vector<u64> st, tr;
  for (Shm *s : shms) {
    nruns += s->runs;
    nontrivial += s->nontrivial;
    opsdone += s->opsdone;
    replayed += s->replayed;
    simtime += s->simtime;
    for (int i = 0; i < s->nc; ++i) counters[s->c[i].name] += s->c[i].n;
    for (size_t i = 0; i < STATES; ++i)
      if (s->states[i]) st.push_back(s->states[i]);
    for (size_t i = 0; i < TRACES; ++i)
      if (s->traces[i]) tr.push_back(s->traces[i]);
  }
  std::sort(st.begin(), st.end());
  size_t nstates = (size_t)(std::unique(st.begin(), st.end()) - st.begin());
  std::sort(tr.begin(), tr.end());
  size_t ntraces = (size_t)(std::unique(tr.begin(), tr.end()) - tr.begin());

  // gate every distinct class
  int nfound = std::min<int>((int)g_board->nfound, (int)MAXF);
  std::vector<Found> fs(g_board->found, g_board->found + nfound);
  std::sort(fs.begin(), fs.end(), [](const Found &x, const Found &y) { return x.run < y.run; });
  std::set<std::string> seen;
  int violations = 0, harness_errors = 0;
  std::vector<std::string> vlines;
  for (const Found &f : fs) {
    if (seen.count(f.cls)) continue;
    if (seen.size() >= 4) break;
    seen.insert(f.cls);
    bool twice = (f.run & 15) == 5;
    std::vector<Plan> ps(1, make_plan(vseed, f.run));
    Verdict v1 = judge(ps, false);
    Verdict v2 = judge(ps, false);
    if (v1.bad && v1.cls == f.cls) twice = false;
    if (!(v1.bad && v1.cls == f.cls)) {
      v1 = judge(ps, twice);
      v2 = judge(ps, twice);
    }
    if (!(v1.bad && v1.cls == f.cls)) {  // needs the earlier runs of the same process
      ps.clear();
      for (long i = f.batch_first; i <= f.run; ++i) ps.push_back(make_plan(vseed, i));
      v1 = judge(ps, true);
      v2 = judge(ps, true);
      twice = true;
    }
    if (!v1.bad || !v2.bad || v1.cls != v2.cls || v1.hash != v2.hash) {
      printf("HARNESS-ERROR property=%s run %ld class '%s' did not reproduce (%s/%s)\n",
             g_sc.id.c_str(), f.run, f.cls, v1.cls.c_str(), v2.cls.c_str());
      ++harness_errors;
      continue;
    }
    Minimiser m;
    m.ps = ps;
    m.cls = v1.cls;
    m.twice = twice;
    m.deadline = now() + 20;
    m.run();
    Verdict v = judge(m.ps, twice);
    if (!v.bad || v.cls != v1.cls) {
      m.ps = ps;
      v = v1;
    }
    std::string path = cat(dir, "/", g_sc.id, "-", vseed, "-", f.run, ".replay");
    write_replay(path, m.ps, twice, v, vseed, f.run);
    // a fresh process must reproduce it from the file alone
    std::string cmd = std::string(argv[0]) + " replay " + path;
    std::string out;
    FILE *pp = popen(cmd.c_str(), "r");
    char buf[4096];
    size_t n;
    while (pp && (n = fread(buf, 1, sizeof buf, pp)) > 0) out.append(buf, n);
    if (pp) pclose(pp);
    std::string want = cat("REPLAY violation class=", enc(v.cls), " hash=", v.hash, " ");
    if (out.compare(0, want.size(), want) != 0) {
      printf("HARNESS-ERROR property=%s replay %s in a fresh process differs: %s\n",
             g_sc.id.c_str(), path.c_str(), out.substr(0, 200).c_str());
      ++harness_errors;
      continue;
    }
    ++violations;
    printf("violation class: %s (run %ld, minimised to %zu operations in %ld executions)\n%s\n",
           v.cls.c_str(), f.run, m.ps.back().ops.size(), m.execs, v.msg.substr(0, 1200).c_str());
    vlines.push_back(cat("VIOLATION property=", g_sc.id, " replay=", path));
  }
  double t2 = now();

  // evidence
  std::vector<std::string> samples;
  for (long i = 0; i < 4; ++i) samples.push_back(plan_sample(make_plan(vseed, i)));
  std::ostringstream e;
  e.precision(10);
  auto group = [&](const std::string &pre) {
    std::ostringstream o;
    o << "{";
    bool first = true;
    for (auto &c : counters)
      if (c.first.compare(0, pre.size() + 1, pre + ":") == 0) {
        o << (first ? "" : ", ") << jstr(c.first.substr(pre.size() + 1)) << ": " << c.second;
        first = false;
      }
    o << "}";
    return o.str();
  };
  e << "{\n \"property\": " << jstr(g_sc.id) << ",\n \"tier\": "
    << jstr(thorough ? "thorough" : "quick") << ",\n \"seed\": " << vseed
    << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
    << "  \"evaluations\": " << nruns << ",\n  \"distinct_nontrivial\": " << ntraces
    << ",\n  \"rule\": " << jstr(g_sc.rule) << ",\n  \"samples\": " << jlist(samples)
    << ",\n  \"exhaustive\": false"
    << ",\n  \"nontrivial_runs\": " << nontrivial << ",\n  \"operations\": " << opsdone
    << ",\n  \"runs_requested\": " << runs << ",\n  \"search_seconds\": " << (t1 - t0)
    << ",\n  \"runs_per_hour\": " << (t1 > t0 ? (u64)(nruns / (t1 - t0) * 3600) : 0)
    << ",\n  \"seeds_per_hour\": " << (t1 > t0 ? (u64)(nruns / (t1 - t0) * 3600) : 0)
    << ",\n  \"simulated_seconds\": " << simtime << ",\n  \"runs_executed_twice_and_compared\": "
    << replayed << ",\n  \"distinct_states\": " << nstates << ",\n  \"state_measure\": "
    << jstr(g_sc.state_measure) << ",\n  \"configurations\": " << jlist(g_sc.configs)
    << ",\n  \"fault_kinds\": " << jlist(g_sc.fault_kinds)
    << ",\n  \"faults_injected_and_fired\": " << group("fault")
    << ",\n  \"operations_rejected_by_the_code\": " << group("rejected")
    << ",\n  \"probes\": " << group("probe") << ",\n  \"real_components\": " << jlist(g_sc.real)
    << ",\n  \"stub_components\": " << jlist(g_sc.stub) << "\n },\n \"assumptions\": "
    << jlist(g_sc.assumptions) << ",\n \"wall_s\": " << (t2 - t0) << ",\n \"violations\": "
    << violations << "\n}\n";
  if (!evidence.empty()) {
    std::ofstream o(evidence.c_str());
    o << e.str();
  }
  printf("property %s: %llu runs (%llu distinct non-trivial), %llu operations, %zu states, %.1fs\n",
         g_sc.id.c_str(), (unsigned long long)nruns, (unsigned long long)ntraces,
         (unsigned long long)opsdone, nstates, t1 - t0);
  for (auto &c : counters) printf("  %s=%llu\n", c.first.c_str(), (unsigned long long)c.second);
  for (auto &l : vlines) printf("%s\n", l.c_str());
  if (violations) return 1;
  if (harness_errors || worker_died) {
    printf("HARNESS-ERROR\n");
    return 2;
  }
  if (nruns == 0) {
    printf("HARNESS-ERROR no run completed\n");
    return 2;
  }
  return 0;
}
