// C01: PID controllers driven by a simulated control loop with a faulty clock.
#include <almath/dsp/pidcontroller.h>
#include <memory>
#include "sim/core.h"
using namespace sim;
using AL::Math::DSP::PIDController;

namespace {
enum { TICK, TICK_ABS, GAINS, INIT, INIT6, COPY, RESTART, CONSTRUCT, NCODE };
const int NC = 3;
const double EPS = 1.2e-7;

struct Model {
  double kp = 0, kv = 0, ki = 0, per = 1, thr = 0, off = 0;
  double e = 0, integ = 0;
  double e_err = 0, i_err = 0;  // rounding bounds
  bool first = true;
  static double pos(float v) { return v; }
  bool valid(const float *p) const {
    for (int i = 0; i < 5; ++i)
      if (p[i] < 0) return false;
    return p[5] > 0;
  }
  void load(const float *p) {
    kp = p[0];
    kv = p[1];
    ki = p[2];
    thr = p[3];
    off = p[4];
    per = p[5];
  }
  void reset() {
    e = integ = e_err = i_err = 0;
    first = true;
  }
  double tick(double cmd, double sens, double dt, bool abs, double &tol) {
    double raw = abs ? cmd : cmd - sens;
    double err = raw > thr ? raw - thr : (!abs && raw < -thr ? raw + thr : 0.0);
    double eerr = 2 * EPS * (std::fabs(cmd) + std::fabs(sens) + thr);
    double d = 0, derr = 0;
    if (!first) {
      d = (err - e) / dt;
      if (abs) d = std::fabs(d);
      derr = (eerr + e_err + 2 * EPS * (std::fabs(err) + std::fabs(e))) / dt + 2 * EPS * std::fabs(d);
    }
    first = false;
    e = err;
    e_err = eerr;
    integ += err * dt;
    i_err += eerr * dt + EPS * (std::fabs(err * dt) + std::fabs(integ));
    double out = off + kp * e + kv * d + ki * integ;
    double mag = off + std::fabs(kp * e) + std::fabs(kv * d) + std::fabs(ki * integ);
    tol = 4 * (kp * e_err + kv * derr + ki * i_err + 4 * EPS * mag) + 1e-30;
    return out;
  }
};

Plan gen(Rng &r, int cfg) {
  Plan p;
  const bool faults = cfg == 1;
  const double jitter = faults ? r.uni(0, 1.5) : 0;
  const double bad_rate = faults ? r.uni(0, 0.3) : 0;
  const double tick_w = r.uni(0.6, 0.97);
  const double amp = std::pow(10, r.uni(-2, 3));
  const double base = r.chance(0.1) ? std::pow(10, r.uni(-8, 2)) : r.pick({0.001, 0.01, 0.02, 0.1, 1.0});
  auto params = [&](bool bad) {
    std::vector<double> v;
    for (int i = 0; i < 3; ++i) v.push_back(r.chance(0.25) ? 0 : (float)r.uni(0, 5));
    v.push_back(r.chance(0.4) ? 0 : (float)r.uni(0, amp * 0.5));
    v.push_back(r.chance(0.6) ? 0 : (float)r.uni(0, 2));
    v.push_back((float)(r.chance(0.7) ? base : r.uni(0.001, 2)));
    if (bad) {
      int k = r.range(0, 5);
      v[k] = k == 5 && r.chance(0.5) ? 0.0 : -(float)r.uni(1e-6, 3);
    }
    return v;
  };
  int n = r.range(4, 60);
  for (int c = 0; c < NC; ++c)
    if (r.chance(0.8)) {
      std::vector<double> v = params(r.chance(bad_rate));
      v.insert(v.begin(), c);
      p.ops.push_back(Op(r.chance(0.5) ? INIT6 : CONSTRUCT, v));
    }
  double sensor = r.uni(-amp, amp), cmd = r.uni(-amp, amp);
  for (int i = 0; i < n; ++i) {
    double c = r.range(0, NC - 1);
    if (r.chance(tick_w)) {
      // plant: sensor follows the command, with noise, spikes and stuck values
      if (!(faults && r.chance(0.1))) sensor += 0.2 * (cmd - sensor) + r.uni(-0.05, 0.05) * amp;
      if (r.chance(0.1)) cmd = r.uni(-amp, amp);
      double s = faults && r.chance(0.05) ? r.uni(-100, 100) * amp : sensor;
      if (r.chance(0.05)) s = cmd;  // on target
      double dt = -1;
      Op o(TICK);
      if (r.chance(0.6)) {
        dt = base;
        if (faults && r.chance(jitter / 2)) {
          int k = r.range(0, 4);
          const char *kinds[] = {"clock-jitter", "clock-late", "clock-zero", "clock-backwards",
                                 "clock-burst"};
          if (k == 0) dt = base * (1 + r.uni(-0.5, 0.5) * jitter);
          if (k == 1) dt = base * r.range(2, 50);
          if (k == 2) dt = 0;
          if (k == 3) dt = -base * r.uni(0.1, 3);
          if (k == 4) dt = base * (r.chance(0.5) ? 0.01 : std::pow(10, r.uni(-7, 0)));
          o.f.push_back(Fault{kinds[k], 0});
        }
      }
      if (r.chance(0.15)) {
        o.code = TICK_ABS;
        o.f.clear();
        o.n = {c, (double)(float)std::fabs(cmd - s)};
      } else
        o.n = {c, (double)(float)cmd, (double)(float)s, (double)(float)dt,
               (double)(dt == -1 && r.chance(0.5))};
      p.ops.push_back(o);
    } else {
      int k = r.range(0, 9);
      bool bad = r.chance(bad_rate);
      if (k <= 2) {
        std::vector<double> v = {c};
        for (int j = 0; j < 3; ++j) v.push_back(r.chance(0.3) ? (double)r.range(0, 1) : (float)r.uni(0, 5));
        if (bad) v[1 + r.below(3)] = -(float)r.uni(1e-6, 2);
        p.ops.push_back(Op(GAINS, v));
      } else if (k <= 4)
        p.ops.push_back(Op(INIT, {c}));
      else if (k <= 6) {
        std::vector<double> v = params(bad);
        v.insert(v.begin(), c);
        p.ops.push_back(Op(INIT6, v));
      } else if (k == 7)
        p.ops.push_back(Op(COPY, {c, (double)r.range(0, NC - 1)}));
      else if (k == 8) {
        Op o(RESTART, {c});
        if (faults) o.f.push_back(Fault{"process-restart", 0});
        p.ops.push_back(o);
      } else {
        std::vector<double> v = params(bad);
        v.insert(v.begin(), c);
        p.ops.push_back(Op(CONSTRUCT, v));
      }
    }
  }
  return p;
}

void exec(const Plan &p, Ctx &c) {
  std::unique_ptr<PIDController> pid[NC];
  Model m[NC];
  for (auto &x : pid) x.reset(new PIDController());
  int ticks = 0, events = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &o = p.ops[i];
    c.op_index = (int)i;
    size_t k = o.idx(0, NC);
    float a[6];
    for (int j = 0; j < 6; ++j) a[j] = o.flt(j + 1, j == 5 ? 1.f : 0.f);
    for (auto &f : o.f) c.fired(f.kind.c_str());
    switch (o.code) {
      case TICK: {
        float cmd = o.flt(1), sens = o.flt(2), dt = o.flt(3, -1.f);
        bool dflt = o.num(4) != 0;
        double tol, want = m[k].tick(cmd, sens, !dflt && dt > 0 ? dt : m[k].per, false, tol);
        float got = dflt ? pid[k]->computeFeedback(cmd, sens)
                         : pid[k]->computeFeedback(cmd, sens, dt);
        c.trace(got);
        c.simtime(dt > 0 ? dt : m[k].per);
        if (!close(got, want, tol))
          c.fail("pid-law", cat("controller ", k, " returned ", got, ", the law gives ", want,
                                " (tolerance ", tol, ")"));
        ++ticks;
        break;
      }
      case TICK_ABS: {
        float e = o.flt(1);
        double tol, want = m[k].tick(e, 0, m[k].per, true, tol);
        float got = pid[k]->computeFeedbackAbsolute(e);
        c.trace(got);
        c.simtime(m[k].per);
        if (!close(got, want, tol))
          c.fail("pid-absolute-law",
                 cat("controller ", k, " returned ", got, ", the law gives ", want));
        ++ticks;
        break;
      }
      case GAINS: {
        bool ok = a[0] >= 0 && a[1] >= 0 && a[2] >= 0;
        Outcome r = attempt([&] { pid[k]->setGains(a[0], a[1], a[2]); });
        c.trace((int)r);
        if ((r == OK) != ok)
          c.fail("pid-validation", cat("setGains(", a[0], ",", a[1], ",", a[2], ") outcome ", r));
        if (ok) {
          m[k].kp = a[0];
          m[k].kv = a[1];
          m[k].ki = a[2];
        } else
          c.rejected("gains");
        ++events;
        break;
      }
      case INIT:
        pid[k]->initialize();
        m[k].reset();
        ++events;
        break;
      case INIT6: {
        bool ok = m[k].valid(a);
        Outcome r = attempt([&] { pid[k]->initialize(a[0], a[1], a[2], a[3], a[4], a[5]); });
        c.trace((int)r);
        if ((r == OK) != ok) c.fail("pid-validation", cat("initialize: outcome ", r, " expected ok=", ok));
        if (ok) {
          m[k].load(a);
          m[k].reset();
        } else
          c.rejected("parameters");
        ++events;
        break;
      }
      case COPY: {
        size_t j = o.idx(1, NC);
        *pid[j] = *pid[k];
        m[j] = m[k];
        ++events;
        break;
      }
      case RESTART:
        pid[k].reset(new PIDController());
        m[k] = Model();
        ++events;
        break;
      case CONSTRUCT: {
        bool ok = m[k].valid(a);
        std::unique_ptr<PIDController> fresh;
        Outcome r =
            attempt([&] { fresh.reset(new PIDController(a[0], a[1], a[2], a[3], a[4], a[5])); });
        c.trace((int)r);
        if ((r == OK) != ok) c.fail("pid-validation", cat("constructor: outcome ", r, " expected ok=", ok));
        if (ok) {
          pid[k] = std::move(fresh);
          m[k] = Model();
          m[k].load(a);
        } else
          c.rejected("parameters");
        ++events;
        break;
      }
    }
    u64 h = 0;
    for (auto &x : m) h = mix(h, (x.first ? 1 : 0) + (x.e > 0 ? 2 : x.e < 0 ? 4 : 0) + (x.thr > 0 ? 8 : 0) + (x.integ > 0 ? 16 : 0) + (x.kv > 0 ? 32 : 0) + (u64)o.code * 64);
    c.state(h);
  }
  if (ticks >= 2 && events >= 1) c.nontrivial();
}
}  // namespace

namespace sim {
Scenario make_scenario() {
  Scenario s;
  s.id = "C01";
  s.rule =
      "One case is a simulated control loop: 3 controllers, up to 60 events (ticks, gain changes, "
      "re-initialisations, copies, restarts) drawn from the seed; non-trivial when at least two "
      "ticks and one reconfiguration happen; distinct by hash of every returned value and outcome.";
  s.real = {"AL::Math::DSP::PIDController"};
  s.stub = {"clock (simulated tick periods)", "plant and sensor (simulated)"};
  s.configs = {"fault-free", "clock-and-parameter-faults"};
  s.fault_kinds = {"clock-jitter", "clock-late", "clock-zero", "clock-backwards", "clock-burst",
                   "process-restart"};
  s.state_measure = "per controller (first tick pending, sign of error, threshold on, integral, derivative gain) x event";
  s.assumptions = {"parameters and signals are finite", "double-precision reference model with propagated rounding bounds"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 256;
  s.quick_runs = 1500000;
  s.thorough_runs = 60000000;
  s.quick_secs = 25;
  return s;
}
}  // namespace sim
