// C02: a bank of digital filters fed by a simulated sensor stream.
#include <almath/dsp/digitalfilter.h>
#include <deque>
#include <memory>
#include "sim/core.h"
using namespace sim;
using AL::Math::DSP::DigitalFilter;

namespace {
enum { SAMPLE, CONF, RESET, ASSIGN, CLONE, FRESH };
const int NC = 3;

struct Model {
  std::vector<float> win{1.f}, wout;
  float gain = 1.f;
  std::deque<double> in, out;
  std::vector<float> out_real;
  void trim() {
    while (in.size() > win.size()) in.pop_front();
    while (out.size() > wout.size()) out.pop_front();
  }
  void conf(const std::vector<float> &a, const std::vector<float> &b, float g) {
    win = a;
    wout = b;
    gain = g;
    trim();
  }
  double expect(float x, double &tol) {
    in.push_back((double)x / gain);
    trim();
    if (in.size() == win.size() && out.size() == wout.size()) {
      double y = 0, mag = 0;
      for (size_t i = 0; i < win.size(); ++i) {
        y += win[i] * in[i];
        mag += std::fabs(win[i] * in[i]);
      }
      for (size_t i = 0; i < wout.size(); ++i) {
        y += wout[i] * out[i];
        mag += std::fabs(wout[i] * out[i]);
      }
      tol = 2e-7 * (double)(win.size() + wout.size() + 3) * mag + 1e-36;
      return y;
    }
    tol = 0;
    return x;
  }
  void record(float y) {
    out.push_back(y);
    trim();
  }
};

Plan gen(Rng &r, int cfg) {
  Plan p;
  const bool faults = cfg == 1;
  const double conf_rate = r.uni(0, 0.15), reset_rate = r.uni(0, 0.1);
  const int max_in = r.range(0, 8), max_out = r.range(0, 8);
  const double amp = std::pow(10, r.uni(-3, 3));
  auto conf = [&](double c) {
    Op o(CONF);
    int a = r.range(0, max_in), b = r.range(0, max_out);
    if (r.chance(0.3)) b = a > 0 ? a - 1 : 0;
    o.n = {c, (double)a, (double)b, r.chance(0.5) ? 1.0 : (double)(float)r.uni(0.1, 10) * (r.chance(0.2) ? -1 : 1)};
    if (r.chance(0.15)) o.n[3] *= (double)(float)std::pow(10, r.uni(-5, 4));
    o.n[3] = (double)(float)o.n[3];
    const bool plain = r.chance(0.25);
    for (int i = 0; i < a + b; ++i)
      o.n.push_back(plain || r.chance(0.15) ? (double)r.range(-1, 1) : (float)r.uni(-1, 1));
    if (r.chance(0.15))  // the same set again, or with another gain
      for (const Op &x : p.ops)
        if (x.code == CONF && x.n[0] == c) o = Op(CONF, x.n);
    if (r.chance(0.1)) o.n[3] = r.pick({1.0, -1.0, 2.0});
    if (faults && r.chance(0.4)) o.f.push_back(Fault{"alloc", (long)r.below(5)});
    return o;
  };
  for (int c = 0; c < NC; ++c)
    if (r.chance(0.7)) p.ops.push_back(conf(c));
  int n = r.range(5, 70);
  double ph = r.uni(0, 6), w = r.uni(0.01, 1);
  double focus = r.chance(0.4) ? r.range(0, NC - 1) : -1;
  for (int i = 0; i < n; ++i) {
    double c = focus >= 0 && r.chance(0.8) ? focus : r.range(0, NC - 1);
    if (r.chance(conf_rate))
      p.ops.push_back(conf(c));
    else if (r.chance(reset_rate))
      p.ops.push_back(Op(RESET, {c}));
    else if (r.chance(0.03))
      p.ops.push_back(Op(r.chance(0.5) ? ASSIGN : CLONE, {c, (double)r.range(0, NC - 1)}));
    else if (r.chance(0.02))
      p.ops.push_back(Op(FRESH, {c}));
    else {
      Op o(SAMPLE, {c, (double)(float)(amp * (std::sin(ph += w) + r.uni(-0.3, 0.3)))});
      if (faults && r.chance(0.02)) {
        o.n[1] = std::nan("");
        o.f.push_back(Fault{"sensor-nan", 0});
      } else if (r.chance(0.1)) {  // silence, or a repeated sample
        o.n[1] = r.chance(0.5) ? 0. : (double)(float)amp;
      } else if (faults && r.chance(0.05)) {
        o.n[1] = (float)(amp * r.uni(-1e3, 1e3));
        o.f.push_back(Fault{"sensor-spike", 0});
      }
      p.ops.push_back(o);
    }
  }
  return p;
}

void exec(const Plan &p, Ctx &c) {
  std::unique_ptr<DigitalFilter> f[NC];
  Model m[NC];
  for (auto &x : f) x.reset(new DigitalFilter());
  int full = 0, events = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &o = p.ops[i];
    c.op_index = (int)i;
    size_t k = o.idx(0, NC);
    switch (o.code) {
      case SAMPLE: {
        for (auto &x : o.f) c.fired(x.kind.c_str());
        float x = o.flt(1);
        if (std::fabs(x) > 1e20f) x = 1e20f;
        double tol, want = m[k].expect(x, tol);
        float got = f[k]->processFilter(x);
        c.trace(got);
        c.simtime(0.01);
        if (!close(got, want, tol))
          c.fail("filter-recurrence", cat("filter ", k, " (orders ", m[k].win.size(), "/",
                                          m[k].wout.size(), ") returned ", got, ", expected ", want));
        m[k].record(got);
        if (tol > 0) ++full;
        if (std::fabs(got) > 1e25f) return;  // unstable weights: stop before overflow
        break;
      }
      case CONF: {
        size_t a = o.idx(1, 40), b = o.idx(2, 40);
        float g = o.flt(3, 1.f);
        if (g == 0) g = 1.f;
        std::vector<float> wi, wo;
        for (size_t j = 0; j < a; ++j) wi.push_back(o.flt(4 + j, 0.5f));
        for (size_t j = 0; j < b; ++j) wo.push_back(o.flt(4 + a + j, 0.25f));
        Outcome r;
        {
          AllocFault af(c, o);
          r = attempt([&] { f[k]->configureFilter(wi, wo, g); });
          if (af.end() ? false : r != OK) c.fail("filter-configure", cat("outcome ", r));
        }
        c.trace((int)r);
        if (r == OK) {
          m[k].conf(wi, wo, g);
          ++events;
        } else
          c.probe("configuration failed for lack of memory");
        break;
      }
      case RESET:
        f[k]->resetFilter();
        m[k].in.clear();
        m[k].out.clear();
        ++events;
        break;
      case ASSIGN: {
        size_t j = o.idx(1, NC);
        *f[j] = *f[k];
        m[j] = m[k];
        ++events;
        break;
      }
      case CLONE: {
        size_t j = o.idx(1, NC);
        std::unique_ptr<DigitalFilter> n(new DigitalFilter(*f[k]));
        Model mm = m[k];
        f[j] = std::move(n);
        m[j] = mm;
        ++events;
        break;
      }
      case FRESH:
        f[k].reset(new DigitalFilter());
        m[k] = Model();
        break;
    }
    u64 h = (u64)o.code;
    for (auto &x : m) {
      h = mix(h, x.win.size() * 10 + x.wout.size());
      h = mix(h, x.in.size() * 10 + x.out.size());
    }
    c.state(h);
  }
  if (full >= 1 && events >= 1) c.nontrivial();
}
}  // namespace

namespace sim {
Scenario make_scenario() {
  Scenario s;
  s.id = "C02";
  s.rule =
      "One case is a simulated sample stream through 3 filters, up to 70 events (samples, "
      "reconfigurations of any order up to 8/8, resets, copies, default filters); non-trivial when "
      "at least one filtered sample with full windows and one event happen; distinct by hash of outputs.";
  s.real = {"AL::Math::DSP::DigitalFilter"};
  s.stub = {"sensor stream (simulated)", "memory allocator (failures injected)"};
  s.configs = {"fault-free", "memory-and-sensor-faults"};
  s.fault_kinds = {"alloc-failure", "sensor-nan", "sensor-spike"};
  s.state_measure = "orders and fill levels of the three filters x event";
  s.assumptions = {"non-zero DC gain"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 256;
  s.quick_runs = 900000;
  s.thorough_runs = 40000000;
  s.quick_secs = 25;
  return s;
}
}  // namespace sim
