// C20: a robot drives to its goals on planned paths while localisation, goals, plans and memory fail.
#include <almath/tools/aldubinscurve.h>
#include <almath/types/alpose2d.h>
#include <algorithm>
#include "sim/core.h"
using namespace sim;
using namespace AL::Math;

namespace {
// RADIUS r
// GOAL x y th           absolute goal
// ASIDE k side th how   goal at k radii of the believed pose, on an axis or at an angle
// PLAN late             plan from the believed pose; the plan arrives after `late` metres
// DRIVE s ds            follow the plan for s metres in pieces of ds
// JUMP dx dy dth        localisation jumps (kidnapped robot, odometry reset)
// NEAR k dir th         ask for a goal too near to be joined
enum { RADIUS, GOAL, ASIDE, PLAN, DRIVE, JUMP, NEAR };
const double PI_ = 3.14159265358979323846;

struct P2 {
  double x = 0, y = 0, th = 0;
};
P2 of(const Pose2D &p) { return P2{p.x, p.y, p.theta}; }
P2 mul(const P2 &a, const P2 &b) {
  double s = std::sin(a.th), c = std::cos(a.th);
  return P2{a.x + c * b.x - s * b.y, a.y + s * b.x + c * b.y, a.th + b.th};
}
P2 rel(const P2 &a, const P2 &b) {  // b seen from a
  double s = std::sin(a.th), c = std::cos(a.th), dx = b.x - a.x, dy = b.y - a.y;
  return P2{c * dx + s * dy, -s * dx + c * dy, b.th - a.th};
}
double wrap(double a) { return std::remainder(a, 2 * PI_); }
P2 arc(double r, int dir, double s) {  // dir +1 left, -1 right, 0 straight
  if (dir == 0 || r <= 0) return P2{s, 0, 0};
  double a = s / r;
  return P2{r * std::sin(a), dir * r * (1 - std::cos(a)), dir * a};
}
double fwd(double a) {  // [0, 2 pi)
  a = std::fmod(a, 2 * PI_);
  return a < 0 ? a + 2 * PI_ : a;
}

struct Word {
  bool ok = false;
  int d0 = 0, d1 = 0;
  double cx0, cy0, cx1, cy1;  // circles
  double L = 0, h = 0;        // segment
  double x0, y0, x1, y1;      // its ends
};
Word word(const P2 &t, double r, int d0, int d1) {
  Word w;
  w.d0 = d0, w.d1 = d1;
  w.cx0 = 0, w.cy0 = d0 * r;
  w.cx1 = t.x - d1 * r * std::sin(t.th), w.cy1 = t.y + d1 * r * std::cos(t.th);
  double dx = w.cx1 - w.cx0, dy = w.cy1 - w.cy0, D = std::hypot(dx, dy), a = std::atan2(dy, dx);
  if (d0 == d1) {
    w.L = D;
    w.h = a;
  } else {
    double q = D * D - 4 * r * r;
    if (q < 0) {
      if (q < -1e-5 * D * D) return w;
      q = 0;
    }
    w.L = std::sqrt(q);
    w.h = a + d0 * std::atan2(2 * r, w.L);
  }
  w.x0 = w.cx0 + d0 * r * std::sin(w.h), w.y0 = w.cy0 - d0 * r * std::cos(w.h);
  w.x1 = w.cx1 + d1 * r * std::sin(w.h), w.y1 = w.cy1 - d1 * r * std::cos(w.h);
  w.ok = true;
  return w;
}

struct Piece {
  int dir;
  double s;
};
struct Route {
  double r = 0;
  std::vector<Piece> p;
  double length() const {
    double l = 0;
    for (auto &x : p) l += x.s;
    return l;
  }
  P2 at(double s) const {
    P2 q;
    for (auto &x : p) {
      double d = std::min(s, x.s);
      q = mul(q, arc(r, x.dir, d));
      s -= d;
      if (s <= 0) break;
    }
    return q;
  }
};
std::string show(const P2 &p) { return cat("(", p.x, " ", p.y, " ", p.th, ")"); }

// Checks one answer of the planner and returns the route it stands for.
Route judge(Ctx &c, const Pose2D &goal, float r, const std::vector<Pose2D> &got) {
  const P2 t = of(goal);
  const double S = std::hypot(t.x, t.y) + 2 * r;
  const std::string in = cat("target ", show(t), " radius ", r, ": ");
  if (got.size() != 3) c.fail("checkpoints", cat(in, got.size(), " checkpoints"));
  for (const Pose2D &g : got)
    if (!std::isfinite(g.x) || !std::isfinite(g.y) || !std::isfinite(g.theta)) c.fail("checkpoints", in + "not a number");
  if (!same_bits(got[2].x, goal.x) || !same_bits(got[2].y, goal.y) || !same_bits(got[2].theta, goal.theta))
    c.fail("last-checkpoint", cat(in, "the path ends at ", show(of(got[2]))));
  double best = 1e300, second = 1e300;
  const Word *match = nullptr;
  Word w[4];
  double worst = 1e300;
  std::string near_miss;
  for (int k = 0; k < 4; ++k) {
    w[k] = word(t, r, k & 1 ? -1 : 1, k & 2 ? -1 : 1);
    if (!w[k].ok) continue;
    if (w[k].L < best) second = best, best = w[k].L;
    else second = std::min(second, w[k].L);
  }
  for (int k = 0; k < 4; ++k) {
    if (!w[k].ok) continue;
    // the angle between segment and line of centres is ill-conditioned when the segment is short
    double sn = r > 0 && w[k].d0 != w[k].d1 ? w[k].L / std::hypot(w[k].L, 2 * r) : 1;
    double ta = w[k].d0 != w[k].d1 ? std::min(2e-3, 2e-6 / std::max(sn, 1e-9)) : 0;
    double tp = 3e-6 * S + 2 * r * ta, th = 1e-5 + ta + (w[k].L > 0 && w[k].d0 == w[k].d1 ? 1e-5 * S / w[k].L : 0);
    th += 2e-6 * S / std::max(std::hypot(w[k].L, 2 * r), 1e-9);
    double e0 = std::hypot(got[0].x - w[k].x0, got[0].y - w[k].y0), e1 = std::hypot(got[1].x - w[k].x1, got[1].y - w[k].y1);
    double h0 = std::fabs(wrap(got[0].theta - w[k].h)), h1 = std::fabs(wrap(got[1].theta - w[k].h));
    double q = std::max(std::max(e0, e1) / tp, std::max(h0, h1) / th);
    if (q < worst) {
      worst = q;
      match = &w[k];
      near_miss = cat("errors ", e0, " ", e1, " m (allowed ", tp, ") and ", h0, " ", h1, " rad (allowed ", th, ")");
    }
  }
  if (!match || worst > 1)
    c.fail("not-a-path", cat(in, "checkpoints ", show(of(got[0])), " ", show(of(got[1])), " are on no path of two arcs and a segment: ", near_miss));
  // lengths compared with the conditioning of the inner tangents in mind
  double tl = 1e-5 * S + std::min(4e-3 * r, 1e-5 * S * S / std::max(best, 1e-9));
  if (match->L > best + tl)
    c.fail("not-the-shortest", cat(in, "segment of ", match->L, " m although one of ", best, " m joins the same poses"));
  Route ro;
  ro.r = r;
  ro.p.push_back(Piece{match->d0, r * fwd(match->d0 * match->h)});
  ro.p.push_back(Piece{0, match->L});
  ro.p.push_back(Piece{match->d1, r * fwd(match->d1 * (t.th - match->h))});
  c.state(mix((u64)(match - w), mix((u64)(fwd(match->h) * 2), (u64)(fwd(t.th) * 2))));
  if (second - best < 1e-4 * S) c.probe("two words tie");
  if (match->L < 0.05 * r) c.probe("nearly no segment");
  return ro;
}

struct World {
  P2 truth;      // where the robot is
  P2 believed;   // where localisation says it is
  Pose2D goal = Pose2D(3, 0, 0);
  float r = 0.1f;
  bool has_plan = false;
  Route route;
  double done = 0;
};

Pose2D target(const World &w) {
  P2 t = rel(w.believed, of(w.goal));
  return Pose2D((float)t.x, (float)t.y, (float)wrap(t.th));
}
// 1 planned, 0 refused (too near), -1 not now (no memory)
int plan(Ctx &c, World &w, const Op &o, const Pose2D &t) {
  const double d = std::hypot((double)t.x, (double)t.y), lim = 4.0 * w.r;
  std::vector<Pose2D> got;
  std::string err;
  bool f;
  Outcome out;
  const Pose2D copy = t;
  {
    AllocFault a(c, o);
    out = attempt([&] { got = getDubinsSolutions(t, w.r); }, &err);
    f = a.end();
  }
  c.trace((int)out);
  c.check(same_bits(t.x, copy.x) && same_bits(t.y, copy.y) && same_bits(t.theta, copy.theta), "argument", "the target was changed");
  const bool edge = std::fabs(d - lim) <= 1e-6 * (d + lim);
  if (out == NOMEM && f) {
    c.rejected("no memory");
    return -1;
  }
  if (out == THROWN) {
    // on an axis the distance needs no rounding
    const bool exact = (t.x == 0 || t.y == 0) && d == lim;
    if (d >= lim && (!edge || exact)) c.fail("refused", cat("target ", show(of(t)), " radius ", w.r, " refused: ", err));
    if (err.find("pTargetPose.norm()") == std::string::npos) c.fail("refused", "refused because " + err);
    c.rejected("too near");
    return 0;
  }
  if (out != OK) c.fail("outcome", cat("outcome ", out));
  if (d < lim && !edge) c.fail("too-near", cat("target ", show(of(t)), " is ", d, " m away, radius ", w.r, ", and was accepted"));
  if (edge) c.probe("goal at exactly four radii");
  for (auto &g : got) c.trace(g.x), c.trace(g.y), c.trace(g.theta);
  w.route = judge(c, t, w.r, got);
  std::vector<Pose2D> again = getDubinsSolutions(t, w.r);
  bool same = again.size() == got.size();
  for (size_t i = 0; same && i < got.size(); ++i)
    same = same_bits(got[i].x, again[i].x) && same_bits(got[i].y, again[i].y) && same_bits(got[i].theta, again[i].theta);
  c.check(same, "repeat", "planning again gave another path");
  w.has_plan = true;
  w.done = 0;
  return 1;
}
void move(World &w, const P2 &d) {
  w.truth = mul(w.truth, d);
  w.believed = mul(w.believed, d);
}
void follow(Ctx &c, World &w, double s, double ds) {
  double end = std::min(w.done + s, w.route.length());
  while (w.done < end - 1e-12) {
    double n = std::min(w.done + ds, end);
    P2 step = rel(w.route.at(w.done), w.route.at(n));
    move(w, step);
    w.done = n;
  }
  c.simtime(s / 0.3);  // at 0.3 m/s
}

double coord(Rng &r) {
  if (r.chance(0.3)) return r.range(-4, 4) * 0.5;
  return r.uni(-1, 1) * std::pow(10, r.uni(-1, 1.3));
}
double angle(Rng &r) {
  switch (r.range(0, 3)) {
    case 0: return r.range(-4, 4) * PI_ / 4;
    case 1: return r.uni(-1e-3, 1e-3);
    default: return r.uni(-PI_, PI_);
  }
}
Plan gen(Rng &r, int cfg) {
  Plan p;
  p.ops.push_back(Op(RADIUS, {r.pick(std::vector<double>{0.05, 0.1, 0.25, 0.3, 0.5, 1})}));
  int n = r.range(4, 24);
  for (int i = 0; i < n; ++i) {
    Op o;
    double x = r.u();
    if (x < 0.08) o = Op(RADIUS, {r.chance(0.5) ? r.pick(std::vector<double>{0, 0.05, 0.1, 0.2, 0.25, 0.5, 1}) : std::pow(10, r.uni(-3, 0.7))});
    else if (x < 0.22) o = Op(GOAL, {coord(r), coord(r), angle(r)});
    else if (x < 0.36) o = Op(ASIDE, {r.chance(0.4) ? 4 : r.chance(0.5) ? 4 + std::pow(10, r.uni(-7, 0)) : r.uni(4, 12), angle(r), angle(r)});
    else if (x < 0.62) o = Op(PLAN, {cfg == 1 && r.chance(0.4) ? r.uni(0, 1) : 0});
    else if (x < 0.84) o = Op(DRIVE, {std::pow(10, r.uni(-2, 1)), std::pow(10, r.uni(-1.5, 0))});
    else if (x < 0.92 && cfg == 1) o = Op(JUMP, {r.uni(-1, 1), r.uni(-1, 1), angle(r)});
    else o = Op(NEAR, {r.u() * (r.chance(0.3) ? 1 : 0.999), angle(r), angle(r)});
    if (cfg == 1 && o.code == PLAN && r.chance(0.25)) o.f.push_back(Fault{"alloc", (long)r.below(24)});
    p.ops.push_back(o);
  }
  return p;
}

void exec(const Plan &p, Ctx &c) {
  World w;
  int plans = 0, drives = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &o = p.ops[i];
    c.op_index = (int)i;
    switch (o.code) {
      case RADIUS:
        w.r = std::min(std::fabs(o.flt(0, 0.1f)), 10.f);
        w.has_plan = false;
        break;
      case GOAL: w.goal = Pose2D(o.flt(0), o.flt(1), o.flt(2)); break;
      case ASIDE: {
        P2 d{o.num(0, 4) * w.r * std::cos(o.num(1)), o.num(0, 4) * w.r * std::sin(o.num(1)), o.num(2)};
        for (double *v : {&d.x, &d.y})
          if (std::fabs(*v) < 1e-9) *v = 0;
        w.has_plan = false;
        Pose2D t((float)d.x, (float)d.y, (float)d.th);
        if (w.r > 0 && plan(c, w, o, t) == 1) ++plans;
        P2 g = mul(w.believed, of(t));
        w.goal = Pose2D((float)g.x, (float)g.y, (float)wrap(g.th));
        w.has_plan = false;  // the absolute goal is rounded: plan for it again before driving
        break;
      }
      case PLAN: {
        const Pose2D t = target(w);
        if (w.r == 0 && std::hypot(t.x, t.y) < 1e-6) break;  // nothing to plan
        w.has_plan = false;
        if (plan(c, w, o, t) == 1) ++plans;
        if (o.num(0) > 0 && w.has_plan) {  // it went on straight meanwhile: the plan is out of date
          c.fired("late-plan");
          move(w, P2{std::min(o.num(0), 10.0), 0, 0});
          w.has_plan = false;
        }
        break;
      }
      case DRIVE:
        if (!w.has_plan || w.r == 0) break;
        ++drives;
        follow(c, w, std::max(0.0, std::min(o.num(0), 100.0)), std::max(1e-2, std::min(o.num(1, 0.1), 10.0)));
        break;
      case JUMP:
        w.believed = mul(w.believed, P2{o.num(0), o.num(1), o.num(2)});
        w.has_plan = false;
        c.fired("localisation-jump");
        break;
      case NEAR: {
        if (w.r <= 0) break;
        double d = 4 * w.r * std::min(std::fabs(o.num(0)), 1.0);
        Pose2D t((float)(d * std::cos(o.num(1))), (float)(d * std::sin(o.num(1))), o.flt(2));
        World other = w;
        plan(c, other, o, t);
        break;
      }
    }
  }
  // faults stop: localisation is right again, the robot must reach its goal
  c.op_index = (int)p.ops.size();
  w.believed = w.truth;
  if (w.r == 0) w.r = 0.05f;  // turning on the spot is not driving along a path
  if (!(std::hypot(w.goal.x, w.goal.y) < 1e4) || !(std::hypot(w.truth.x, w.truth.y) < 1e4)) return;
  Op none(PLAN);
  double driven = 0;
  while (true) {
    const Pose2D t = target(w);
    if (std::hypot(t.x, t.y) > 4.001 * w.r + 1e-3) break;
    move(w, P2{0.5 * w.r + 0.01, 0, 0});  // too near: drive away first
    driven += 0.5 * w.r + 0.01;
    c.check(driven < 10 * w.r + 1, "harness", "never far enough");
  }
  const Pose2D t = target(w);
  c.check(plan(c, w, none, t) == 1, "progress", "no plan once faults stopped");
  double len = w.route.length(), dist = std::hypot(t.x, t.y);
  if (len > dist + (2 + 4 * PI_) * w.r + 1e-3) c.fail("progress", cat("path of ", len, " m for a goal ", dist, " m away, radius ", w.r));
  follow(c, w, len, std::max(0.05, len / 50));
  P2 e = rel(w.truth, of(w.goal));
  double scale = 1 + dist + w.r + std::hypot(w.truth.x, w.truth.y);
  if (std::hypot(e.x, e.y) > 2e-5 * scale || std::fabs(wrap(e.th)) > 2e-5)
    c.fail("arrival", cat("the robot stops ", std::hypot(e.x, e.y), " m and ", wrap(e.th), " rad from its goal"));
  c.trace(w.truth.x), c.trace(w.truth.y);
  if (plans >= 2 && drives >= 1) c.nontrivial();
}
}  // namespace

namespace sim {
Scenario make_scenario() {
  Scenario s;
  s.id = "C20";
  s.rule =
      "One case is a robot driven through up to 24 goals, radii, plans, drives and faults, then left alone until it "
      "arrives. Every plan is compared with the four arc-segment-arc paths in double precision. Non-trivial when two "
      "plans were made and one was followed; distinct by hash of the checkpoints and the final pose.";
  s.real = {"AL::Math::getDubinsSolutions"};
  s.stub = {"robot kinematics", "localisation (jumps injected)", "plan delivery (delays injected)", "memory allocator (failures injected)"};
  s.configs = {"fault-free", "jumps, late plans and memory faults"};
  s.fault_kinds = {"alloc-failure", "localisation-jump", "late-plan"};
  s.state_measure = "word of the path x heading of the segment x heading of the goal (half-radian cells)";
  s.assumptions = {"headings of the checkpoints are compared modulo a full turn", "the radius is not negative"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 64;
  s.quick_runs = 100000;
  s.thorough_runs = 5000000;
  s.quick_secs = 30;
  return s;
}
}  // namespace sim
