// C22: a mapping robot: heading, filtered directions, saturated commands, map cells, task axes and
// collision shapes over histories of recentring, resizing, lost and repeated samples and failures.
#include <almath/geometrics/shapes3d.h>
#include <almath/tools/almath.h>
#include <almath/tools/altrigonometry.h>
#include <almath/types/alaxismask.h>
#include <almath/types/occupancymapparams.h>
#include <algorithm>
#include <memory>
#include "sim/core.h"
using namespace sim;
using namespace AL::Math;

namespace {
// MAP size mpp cx cy thr      a new map
// RECENTRE cx cy how          initOriginOffset; how 1: after the size and scale fields changed
// RESCALE size mpp            the fields change, the origin stays
// CELL px py th               a cell seen in metres, and back
// PLACE x y th                a place seen in cells, and back
// DELTA dx dy                 a displacement in cells
// TURN d n how                n heading ticks: 0 on time, 1 lost, 2 twice
// WRAP a                      one angle
// SEE a w how                 a direction is observed: 0 kept, 1 lost, 2 twice
// MEAN weighted               mean of the window of directions
// FORGET                      the window is emptied
// CLIP lo hi how v...         saturation of one, many, or nested commands
// MASK m
// SHAPE kind a b c throws     a shape is visited
enum { MAP, RECENTRE, RESCALE, CELL, PLACE, DELTA, TURN, WRAP, SEE, MEAN, FORGET, CLIP, MASK, SHAPE };
const double PI_ = 3.14159265358979323846;
double wrap(double a) { return std::remainder(a, 2 * PI_); }

struct Map {
  std::unique_ptr<OccupancyMapParams> m;
  int size;
  float mpp, thr;
  double ox, oy;   // metres of the cell (0, 0)
  double err;      // how far single precision may be from it
};
void check_map(Ctx &c, const Map &w, const char *after) {
  const OccupancyMapParams &m = *w.m;
  if (m.size != w.size || !same_bits(m.metersPerPixel, w.mpp) || !same_bits(m.getObstacleProbabilityThreshold(), w.thr) ||
      !same_bits(m.obstacleProbabilityThreshold, w.thr))
    c.fail("map-fields", cat(after, ": size ", m.size, " scale ", m.metersPerPixel, " threshold ", m.obstacleProbabilityThreshold,
                             " instead of ", w.size, " ", w.mpp, " ", w.thr));
  if (!(std::fabs(m.originOffset.x - w.ox) <= w.err) || !(std::fabs(m.originOffset.y - w.oy) <= w.err))
    c.fail("map-origin", cat(after, ": origin at (", m.originOffset.x, " ", m.originOffset.y, ") instead of (", w.ox, " ", w.oy, ")"));
}
void centre(Map &w, double cx, double cy) {
  const double h = 0.5 * w.size * (double)w.mpp;
  w.ox = cx - h, w.oy = cy + h;
  w.err = 4e-7 * (std::fabs(cx) + std::fabs(cy) + h) + 1e-12;
}
// the cell a coordinate falls in; lo and hi differ when single precision may give either
void cells(double v, double e, long &lo, long &hi) {
  lo = (long)std::floor(v - e + 0.5), hi = (long)std::floor(v + e + 0.5);
  if (v - e < 0) lo = std::min(lo, (long)std::ceil(v - e - 0.5));
  if (v + e < 0) hi = std::max(hi, (long)std::ceil(v + e - 0.5));
}
bool representable(const Map &w, double x, double y) {
  const double span = (std::fabs(x) + std::fabs(y) + std::fabs(w.ox) + std::fabs(w.oy)) / w.mpp;
  return span < 1e5;
}

void place(Ctx &c, Map &w, float x, float y, float th, bool delta) {
  if (!representable(w, x, y)) return;
  const double ox = delta ? 0 : w.m->originOffset.x, oy = delta ? 0 : w.m->originOffset.y;
  const double u = (x - ox) / w.mpp, v = -(y - oy) / w.mpp;
  const double e = 6e-7 * ((std::fabs(x) + std::fabs(y) + std::fabs(ox) + std::fabs(oy)) / w.mpp) + 1e-6;
  long xl, xh, yl, yh;
  cells(u, e, xl, xh), cells(v, e, yl, yh);
  Point2Di a, b;
  if (delta) {
    a = b = w.m->getDeltaPixelFromDeltaPosition(Position2D(x, y));
  } else {
    a = w.m->getPixelFromPose(Pose2D(x, y, th));
    b = w.m->getPixelFromPosition(Position2D(x, y));
  }
  const std::string in = cat(delta ? "displacement (" : "place (", x, " ", y, "), origin (", ox, " ", oy, "), scale ", w.mpp, ": ");
  if (!(a == b)) c.fail("cell-pose", cat(in, "cell (", a.x, " ", a.y, ") of the pose, (", b.x, " ", b.y, ") of the position"));
  if (a.x < xl || a.x > xh || a.y < yl || a.y > yh)
    c.fail("cell", cat(in, "cell (", a.x, " ", a.y, ") instead of (", u, " ", v, ") rounded"));
  c.trace(a.x), c.trace(a.y);
  if (delta) return;
  const Position2D back = w.m->getPositionFromPixel(a);
  const double tol = w.mpp * (0.5 + 2 * e);
  if (!(std::fabs(back.x - x) <= tol) || !(std::fabs(back.y - y) <= tol))
    c.fail("cell-place", cat(in, "cell (", a.x, " ", a.y, ") is at (", back.x, " ", back.y, "), more than half a cell away"));
  c.state(mix((u64)(a.x & 7), mix((u64)(a.y & 7), (u64)w.size)));
}
void cell(Ctx &c, Map &w, int px, int py, float th) {
  const double x = px * (double)w.mpp + w.m->originOffset.x, y = -py * (double)w.mpp + w.m->originOffset.y;
  if (!representable(w, x, y) || std::abs(px) > 50000 || std::abs(py) > 50000) return;
  const Pose2D p = w.m->getPoseFromPixel(Pose2Di(px, py, th));
  const Position2D q = w.m->getPositionFromPixel(Point2Di(px, py));
  const std::string in = cat("cell (", px, " ", py, "), scale ", w.mpp, ": ");
  const double tol = 4e-7 * (std::fabs(x) + std::fabs(y) + std::fabs(w.ox) + std::fabs(w.oy)) + 1e-9;
  if (!(std::fabs(q.x - x) <= tol) || !(std::fabs(q.y - y) <= tol)) c.fail("place", cat(in, "at (", q.x, " ", q.y, ") instead of (", x, " ", y, ")"));
  if (!(std::fabs(p.x - x) <= tol) || !(std::fabs(p.y - y) <= tol) || !same_bits(p.theta, th))
    c.fail("place-pose", cat(in, "pose (", p.x, " ", p.y, " ", p.theta, ") instead of (", x, " ", y, " ", th, ")"));
  const Point2Di a = w.m->getPixelFromPosition(q), b = w.m->getPixelFromPose(p);
  if (a.x != px || a.y != py || !(a == b)) c.fail("round-trip", cat(in, "comes back as (", a.x, " ", a.y, ")"));
  if (!(a == Point2Di(px, py)) || a == Point2Di(px + 1, py) || a == Point2Di(px, py - 1)) c.fail("cell-equality", in);
  if (!(Pose2Di(a, th) == Pose2Di(px, py, th)) || Pose2Di(a, th) == Pose2Di(px, py, th + 0.25f) || Pose2Di(a, th) == Pose2Di(px, py + 1, th))
    c.fail("cell-equality", in + "pose");
  c.trace(p.x), c.trace(p.y);
}

double check_wrap(Ctx &c, float a) {
  float in_place = a;
  modulo2PIInPlace(in_place);
  const float r = modulo2PI(a);
  if (!same_bits(r, in_place)) c.fail("wrap-forms", cat("angle ", a, ": ", r, " and ", in_place, " in place"));
  if (!(r > -PI && r <= PI)) c.fail("wrap-range", cat("angle ", a, " (", hexf(a), ") became ", r, ", out of ]-PI, PI]"));
  const double e = wrap((double)r - a), tol = 2e-7 * std::fabs(a) + 4e-7;  // 2 PI itself is rounded
  if (!(std::fabs(e) <= tol)) c.fail("wrap", cat("angle ", a, " became ", r, ", another direction"));
  return r;
}

struct Window {
  std::vector<float> a, w;
};
void mean(Ctx &c, const Window &win, const Op &o) {
  const bool weighted = o.idx(0, 3) != 0, mismatch = o.idx(0, 3) == 2;
  std::vector<float> w = win.w;
  if (mismatch) w.push_back(1);
  const std::vector<float> a0 = win.a, w0 = w;
  double sx = 0, sy = 0, sw = 0;
  bool bad = false;
  for (size_t i = 0; i < win.a.size(); ++i) {
    double k = weighted ? w[i] : 1;
    if (!(k > 0)) bad = true;
    sx += k * std::cos((double)win.a[i]), sy += k * std::sin((double)win.a[i]), sw += k;
  }
  const double len = sw > 0 ? std::hypot(sx, sy) / sw : 0;
  float r = 77;
  std::string err;
  bool f;
  Outcome out;
  {
    AllocFault al(c, o);
    out = attempt([&] { r = weighted ? weightedMeanAngle(win.a, w) : meanAngle(win.a); }, &err);
    f = al.end();
  }
  std::string in = "directions";
  for (size_t i = 0; i < win.a.size(); ++i) in += cat(" ", win.a[i], weighted ? cat("*", w[i]) : "");
  c.check(win.a.size() == a0.size() && std::equal(win.a.begin(), win.a.end(), a0.begin(), same_bits) &&
          std::equal(w.begin(), w.end(), w0.begin(), same_bits), "mean-arguments", in);
  c.trace((int)out);
  if (f && out == NOMEM) {
    c.rejected("no memory");
    return;
  }
  if (out == THROWN) {
    c.rejected("no mean");
    if (!mismatch && !bad && len > 2e-3) c.fail("mean-refused", cat(in, ": refused (", err, ") although the mean vector is ", len, " long"));
    return;
  }
  if (out != OK) c.fail("outcome", cat("outcome ", out));
  if (mismatch || bad) c.fail("mean-accepted", in + ": accepted although a weight is missing or not positive");
  if (len < 1e-5) c.fail("mean-undefined", cat(in, ": gave ", r, " although the mean vector is ", len, " long"));
  if (!(r > -PI && r <= PI)) c.fail("mean-range", cat(in, ": gave ", r, ", out of ]-PI, PI]"));
  const double e = wrap(r - std::atan2(sy, sx)), tol = 1e-6 + 2e-7 * (win.a.size() + 2) / std::max(len, 1e-9);
  if (!(std::fabs(e) <= tol)) c.fail("mean", cat(in, ": gave ", r, " instead of ", std::atan2(sy, sx)));
  c.trace(r);
  if (len < 0.1) c.probe("mean of nearly opposite directions");
}

void clip(Ctx &c, const Op &o) {
  float lo = o.flt(0), hi = o.flt(1);
  if (lo > hi) std::swap(lo, hi);
  const int how = (int)o.idx(2, 3);
  std::vector<float> v;
  for (size_t i = 3; i < o.n.size(); ++i) v.push_back(o.flt(i));
  std::vector<float> want = v;
  bool any = false;
  for (float &x : want) {
    float y = x < lo ? lo : x > hi ? hi : x;
    any = any || y != x;
    x = y;
  }
  const float l0 = lo, h0 = hi;
  const std::string in = cat("clip to [", lo, ", ", hi, "]: ");
  auto same = [&](const std::vector<float> &g, const std::vector<float> &e) {
    if (g.size() != e.size()) return false;
    for (size_t i = 0; i < g.size(); ++i)
      if (!(g[i] == e[i])) return false;
    return true;
  };
  if (how == 0) {
    for (size_t i = 0; i < v.size(); ++i) {
      float x = v[i];
      bool r = clipData(lo, hi, x);
      if (!(x == want[i])) c.fail("clip", cat(in, v[i], " became ", x));
      if (r != (want[i] != v[i])) c.fail("clip-report", cat(in, v[i], " reported ", r));
      float self = v[i];
      if (i == 0 && clipData(self, self, self)) c.fail("clip-report", "a value clipped to itself");
    }
  } else if (how == 1) {
    std::vector<float> g = v;
    bool r = clipData(lo, hi, g);
    if (!same(g, want)) c.fail("clip", in + "wrong values in a vector");
    if (r != any) c.fail("clip-report", cat(in, "a vector reported ", r));
  } else {
    std::vector<std::vector<float>> g, e;
    size_t k = 0, row = 0;
    while (k < v.size()) {
      size_t n = (row++ * 2 + (size_t)v.size()) % 4;
      std::vector<float> a, b;
      for (size_t i = 0; i < n && k < v.size(); ++i, ++k) a.push_back(v[k]), b.push_back(want[k]);
      g.push_back(a), e.push_back(b);
      if (row > 50) break;
    }
    bool some = false;
    for (size_t i = 0; i < g.size(); ++i)
      for (size_t j = 0; j < g[i].size(); ++j) some = some || g[i][j] != e[i][j];
    bool r = clipData(lo, hi, g);
    if (g.size() != e.size()) c.fail("clip", in + "rows changed");
    for (size_t i = 0; i < g.size(); ++i)
      if (!same(g[i], e[i])) c.fail("clip", in + "wrong values in a matrix");
    if (r != some) c.fail("clip-report", cat(in, "a matrix reported ", r));
  }
  c.check(same_bits(lo, l0) && same_bits(hi, h0), "clip-limits", in + "a limit changed");
  c.trace(any ? 1 : 0);
}

struct Seen : Shape3DVisitor {
  mutable int kind = -1, n = 0;
  mutable const void *who = nullptr;
  mutable std::vector<float> f;
  bool throws = false;
  void saw(int k, const void *p, std::vector<float> v) const {
    HarnessScope h;
    kind = k, who = p, f = v, ++n;
    if (throws) inject(k);
  }
  void visit(const Pill &s) const override { saw(0, &s, {s.getHalfExtent(), s.getRadius()}); }
  void visit(const Sphere &s) const override { saw(1, &s, {s.getRadius()}); }
  void visit(const RoundedRectangle &s) const override { saw(2, &s, {s.getHalfExtentX(), s.getHalfExtentY(), s.getRadius()}); }
  void visit(const Plane &s) const override { saw(3, &s, {}); }
  void visit(const HalfSpace &s) const override { saw(4, &s, {}); }
  void visit(const Rectangle &s) const override { saw(5, &s, {s.getHalfExtentX(), s.getHalfExtentY()}); }
  void visit(const HalfLine &s) const override { saw(6, &s, {}); }
};
struct SphereOnly : NotImplementedShape3DVisitor {
  mutable int n = 0;
  SphereOnly(const std::string &m) : NotImplementedShape3DVisitor(m) {}
  using NotImplementedShape3DVisitor::visit;
  void visit(const Sphere &) const override { ++n; }
};
void shape(Ctx &c, const Op &o) {
  const int kind = (int)o.idx(0, 7);
  const float a = o.flt(1), b = o.flt(2), d = o.flt(3);
  std::unique_ptr<Shape3D> s;
  std::vector<float> want;
  switch (kind) {
    case 0: s.reset(new Pill(a, b)); want = {a, b}; break;
    case 1: s.reset(new Sphere(a)); want = {a}; break;
    case 2: s.reset(new RoundedRectangle(a, b, d)); want = {a, b, d}; break;
    case 3: s.reset(new Plane()); break;
    case 4: s.reset(new HalfSpace()); break;
    case 5: s.reset(new Rectangle(a, b)); want = {a, b}; break;
    default: s.reset(new HalfLine());
  }
  Seen v;
  v.throws = o.idx(4, 2);
  Outcome out = attempt([&] { s->accept(v); });
  if (v.throws && out == INJECTED) c.fired("visitor-throws");
  if (out != (v.throws ? INJECTED : OK)) c.fail("visit-outcome", cat("shape ", kind, ": outcome ", out));
  bool same = v.f.size() == want.size();
  for (size_t i = 0; same && i < want.size(); ++i) same = same_bits(v.f[i], want[i]);
  if (v.n != 1 || v.kind != kind || v.who != s.get()) c.fail("visit", cat("shape ", kind, " visited as ", v.kind, ", ", v.n, " times"));
  if (!same) c.fail("shape", cat("shape ", kind, " does not have the sizes it was given"));
  const std::string msg = cat("no way ", o.i(5));
  SphereOnly only(msg);
  std::string err;
  out = attempt([&] { s->accept(only); }, &err);
  if (kind == 1 ? out != OK || only.n != 1 : out != THROWN || err != msg || only.n) c.fail("visit-default", cat("shape ", kind, ": outcome ", out, " ", err));
  c.trace(kind);
}

double angle(Rng &r) {
  switch (r.range(0, 6)) {
    case 0: return (float)PI * r.range(-9, 9);
    case 1: return (float)(PI_ / 2) * r.range(-9, 9);
    case 2: {
      float f = (float)PI * r.range(-3, 3);
      return r.chance(0.5) ? std::nextafter(f, 10.f) : std::nextafter(f, -10.f);
    }
    case 3: return r.uni(-1, 1) * std::pow(10, r.uni(-6, 4));
    default: return r.uni(-7, 7);
  }
}
double metres(Rng &r) { return r.chance(0.4) ? r.range(-40, 40) * 0.05 : r.uni(-1, 1) * std::pow(10, r.uni(-1, 2)); }
Op gen_map(Rng &r) {
  return Op(MAP, {(double)(r.chance(0.3) ? 100 : r.range(1, 2000)), r.chance(0.5) ? r.pick(std::vector<double>{0.01, 0.05, 0.1, 0.25, 1}) : std::pow(10, r.uni(-2, 0.3)),
                  metres(r), metres(r), r.u()});
}
Plan gen(Rng &r, int cfg) {
  Plan p;
  p.ops.push_back(gen_map(r));
  int n = r.range(6, 50);
  for (int i = 0; i < n; ++i) {
    double x = r.u();
    Op o;
    if (x < 0.04) o = gen_map(r);
    else if (x < 0.10) o = Op(RECENTRE, {metres(r), metres(r)});
    else if (x < 0.14) o = Op(RESCALE, {(double)r.range(1, 1000), std::pow(10, r.uni(-2, 0.3))});
    else if (x < 0.24) o = Op(CELL, {(double)(r.chance(0.7) ? r.range(-10, 300) : r.range(-20000, 20000)), (double)(r.chance(0.7) ? r.range(-10, 300) : r.range(-20000, 20000)), angle(r)});
    else if (x < 0.36) o = Op(PLACE, {metres(r), metres(r), angle(r)});
    else if (x < 0.42) o = Op(DELTA, {metres(r), metres(r)});
    else if (x < 0.52) o = Op(TURN, {r.chance(0.3) ? angle(r) : r.uni(-3, 3), (double)r.range(1, r.chance(0.1) ? 400 : 12), cfg == 1 ? (double)r.range(0, 4) : 0});
    else if (x < 0.6) o = Op(WRAP, {angle(r)});
    else if (x < 0.74) o = Op(SEE, {r.chance(0.3) ? r.range(-4, 4) * PI_ / 4 : angle(r), r.chance(0.4) ? 1 : r.chance(0.06) ? r.range(-1, 0) : std::pow(10, r.uni(-5, 5)), cfg == 1 ? (double)r.range(0, 4) : 0});
    else if (x < 0.82) {
      o = Op(MEAN, {(double)(r.chance(0.05) ? 2 : r.range(0, 1))});
      if (cfg == 1 && r.chance(0.15)) o.f.push_back(Fault{"alloc", (long)r.below(3)});
    } else if (x < 0.86) o = Op(FORGET);
    else if (x < 0.92) {
      double a = r.chance(0.3) ? r.range(-2, 2) : r.uni(-2, 2), b = r.chance(0.2) ? a : r.uni(-2, 2);
      o = Op(CLIP, {a, b, (double)r.range(0, 2)});
      int k = r.range(0, 9);
      for (int j = 0; j < k; ++j) o.n.push_back(r.chance(0.2) ? a : r.chance(0.2) ? b : r.uni(-4, 4));
      if (r.chance(0.3)) for (size_t j = 3; j < o.n.size(); ++j) if (j != 3 + (size_t)k / 2) o.n[j] = 0.5 * (a + b);
    } else if (x < 0.95) o = Op(MASK, {(double)(r.chance(0.8) ? r.range(-2, 70) : r.range(-100000, 100000))});
    else o = Op(SHAPE, {(double)r.range(0, 6), r.uni(0, 2), r.uni(0, 2), r.uni(0, 2), cfg == 1 ? (double)r.range(0, 1) : 0, (double)r.range(0, 99)});
    p.ops.push_back(o);
  }
  return p;
}

void exec(const Plan &p, Ctx &c) {
  Map w;
  w.size = 100, w.mpp = 0.1f, w.thr = 0.25f;
  w.m.reset(new OccupancyMapParams(100, 0.1f, Position2D(1, -1)));
  centre(w, 1, -1);
  check_map(c, w, "construction");
  Window win;
  float heading = 0;
  double turned = 0;
  double herr = 0;
  int mapped = 0, other = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &o = p.ops[i];
    c.op_index = (int)i;
    switch (o.code) {
      case MAP: case RESCALE: {
        w.size = (int)std::max(1L, std::min(o.i(0, 100), 100000L));
        w.mpp = o.flt(1, 0.1f);
        if (!(w.mpp > 1e-4f) || w.mpp > 1e3f) w.mpp = 0.1f;
        if (o.code == MAP) {
          w.thr = o.flt(4, 0.25f);
          const Position2D at(o.flt(2), o.flt(3));
          w.m.reset(new OccupancyMapParams(w.size, w.mpp, at, w.thr));
          centre(w, at.x, at.y);
        } else {
          w.m->size = w.size, w.m->metersPerPixel = w.mpp;
        }
        break;
      }
      case RECENTRE: {
        const Position2D at(o.flt(0), o.flt(1));
        w.m->initOriginOffset(at);
        centre(w, at.x, at.y);
        break;
      }
      case CELL: cell(c, w, (int)o.i(0), (int)o.i(1), o.flt(2)); ++mapped; break;
      case PLACE: place(c, w, o.flt(0), o.flt(1), o.flt(2), false); ++mapped; break;
      case DELTA: place(c, w, o.flt(0), o.flt(1), 0, true); ++mapped; break;
      case TURN: {
        const float d = o.flt(0);
        if (!(std::fabs(d) < 100)) break;
        int n = (int)std::max(0L, std::min(o.i(1, 1), 1000L)), how = (int)o.idx(2, 5);
        if (how == 1) c.fired("lost-tick");
        if (how == 2) c.fired("repeated-tick");
        for (int k = 0; k < n; ++k) {
          if (how == 1 && k % 3 == 0) continue;
          for (int t = 0; t < (how == 2 && k % 3 == 0 ? 2 : 1); ++t) {
            const float sum = heading + d;
            heading = (float)check_wrap(c, sum);
            turned += d;
            herr += 2e-7 * (std::fabs(d) + 4) + 4e-7;
          }
          c.simtime(0.01);
        }
        if (!(std::fabs(wrap(heading - turned)) <= herr)) c.fail("heading", cat("after ", turned, " rad the heading is ", heading));
        c.trace(heading);
        ++other;
        break;
      }
      case WRAP:
        if (std::fabs(o.flt(0)) < 1e5f) c.trace(check_wrap(c, o.flt(0)));
        break;
      case SEE: {
        float a = o.flt(0), k = o.flt(1, 1);
        if (!(std::fabs(a) < 1e4f)) break;
        int how = (int)o.idx(2, 5);
        if (how == 1) { c.fired("lost-sample"); break; }
        win.a.push_back(a), win.w.push_back(k);
        if (how == 2) { c.fired("repeated-sample"); win.a.push_back(a), win.w.push_back(k); }
        break;
      }
      case MEAN: mean(c, win, o); ++other; break;
      case FORGET: win = Window(); break;
      case CLIP: clip(c, o); break;
      case MASK: {
        const int m = (int)o.i(0);
        const bool r = isAxisMask(m);
        if (r != (m >= 1 && m <= 63)) c.fail("mask", cat("mask ", m, " reported ", r));
        if (r && AXIS_MASK((unsigned long)m).to_ulong() != (unsigned long)m) c.fail("mask", cat("mask ", m, " loses axes"));
        if (AXIS_MASK_VEL != (AXIS_MASK_X | AXIS_MASK_Y | AXIS_MASK_Z) || AXIS_MASK_ROT != (AXIS_MASK_WX | AXIS_MASK_WY | AXIS_MASK_WZ) ||
            AXIS_MASK_ALL != (AXIS_MASK_VEL | AXIS_MASK_ROT) || AXIS_MASK_PLANEZ != (AXIS_MASK_Z | AXIS_MASK_WX | AXIS_MASK_WY) ||
            AXIS_MASK_XY != (AXIS_MASK_X | AXIS_MASK_Y) || AXIS_MASK_WYWZ != (AXIS_MASK_WY | AXIS_MASK_WZ) || AXIS_MASK_NONE != 0)
          c.fail("mask", "named masks");
        break;
      }
      case SHAPE: shape(c, o); break;
    }
    check_map(c, w, cat("operation ", o.code).c_str());
  }
  if (mapped >= 2 && other >= 1) c.nontrivial();
}
}  // namespace

namespace sim {
Scenario make_scenario() {
  Scenario s;
  s.id = "C22";
  s.rule =
      "One case is a mapping robot: up to 50 operations on its map (recentred, rescaled), heading, window of observed "
      "directions, saturated commands, task axes and shapes, with lost and repeated samples, throwing visitors and failing "
      "allocations. Non-trivial when the map was used twice and a heading or mean was computed; distinct by hash of results.";
  s.real = {"AL::Math::OccupancyMapParams, Point2Di, Pose2Di", "modulo2PI, meanAngle, weightedMeanAngle, clipData", "isAxisMask", "Shape3D, Shape3DVisitor and shapes"};
  s.stub = {"sample delivery (losses and repetitions injected)", "visitor (failures injected)", "memory allocator (failures injected)"};
  s.configs = {"fault-free", "sample, visitor and memory faults"};
  s.fault_kinds = {"alloc-failure", "lost-tick", "repeated-tick", "lost-sample", "repeated-sample", "visitor-throws"};
  s.state_measure = "map cell modulo 8 x map size";
  s.assumptions = {"coordinates stay within 1e5 cells of the origin", "limits are ordered, values are numbers"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 64;
  s.quick_runs = 100000;
  s.thorough_runs = 5000000;
  s.quick_secs = 30;
  return s;
}
}  // namespace sim
