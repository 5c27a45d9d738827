// C21: a biped walks under late, lost and repeated step commands; its feet must never collide.
#include <almath/tools/almath.h>
#include <almath/tools/avoidfootcollision.h>
#include <algorithm>
#include "sim/core.h"
using namespace sim;
using namespace AL::Math;

namespace {
// SHOES lf.. (4 half sizes x 2 feet, taper, shapes)   other foot boxes
// LIMITS a b                                  largest step
// CMD x y th how                              a step command: 0 on time, 1 late, 2 twice, 3 lost
// STEP                                        the walk engine takes its next command
// RAW x y th side how                         a move asked from the library directly
// CROSS 8 numbers                             two segments
// OVERLAP side x y th                         boxes one on the other, in both orders
enum { SHOES, LIMITS, CMD, STEP, RAW, CROSS, OVERLAP };
typedef std::vector<Position2D> Box;
const double EPS = 5e-6;  // contact band, m

struct V {
  double x, y;
};
typedef std::vector<V> DBox;
struct P2 {
  double x = 0, y = 0, th = 0;
};
V apply(const P2 &p, const V &v) {
  double s = std::sin(p.th), c = std::cos(p.th);
  return V{p.x + c * v.x - s * v.y, p.y + s * v.x + c * v.y};
}
P2 mul(const P2 &a, const P2 &b) {
  V v = apply(a, V{b.x, b.y});
  return P2{v.x, v.y, a.th + b.th};
}
P2 of(const Pose2D &p) { return P2{p.x, p.y, p.theta}; }
DBox of(const Box &b) {
  DBox d;
  for (auto &p : b) d.push_back(V{p.x, p.y});
  return d;
}
DBox moved(const P2 &p, const DBox &b) {
  DBox d;
  for (auto &v : b) d.push_back(apply(p, v));
  return d;
}
// gap between two convex boxes: positive when apart, minus the penetration when they overlap
double gap(const DBox &a, const DBox &b) {
  double best = -1e300;
  for (int w = 0; w < 2; ++w) {
    const DBox &p = w ? b : a;
    for (size_t i = 0; i < p.size(); ++i) {
      const V &u = p[i], &v = p[(i + 1) % p.size()];
      double l = std::hypot(v.x - u.x, v.y - u.y);
      if (l <= 0) continue;
      double nx = (v.y - u.y) / l, ny = -(v.x - u.x) / l;
      double a0 = 1e300, a1 = -1e300, b0 = 1e300, b1 = -1e300;
      for (auto &q : a) a0 = std::min(a0, nx * q.x + ny * q.y), a1 = std::max(a1, nx * q.x + ny * q.y);
      for (auto &q : b) b0 = std::min(b0, nx * q.x + ny * q.y), b1 = std::max(b1, nx * q.x + ny * q.y);
      best = std::max(best, std::max(b0 - a1, a0 - b1));
    }
  }
  return best;
}
bool same(const Pose2D &a, const Pose2D &b) { return same_bits(a.x, b.x) && same_bits(a.y, b.y) && same_bits(a.theta, b.theta); }
bool same(const Box &a, const Box &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!same_bits(a[i].x, b[i].x) || !same_bits(a[i].y, b[i].y)) return false;
  return true;
}
std::string show(const Pose2D &p) { return cat("(", p.x, " ", p.y, " ", p.theta, ")"); }
std::string show(const Box &b) {
  std::string s;
  for (auto &p : b) s += cat("(", p.x, " ", p.y, ")");
  return s;
}

struct World {
  Box left, right;
  float a = 0.08f, b = 0.16f;
  bool left_support = true;
  P2 support;              // pose of the support foot in the world
  Pose2D swing;            // pose of the other foot, seen from it
  std::vector<P2> pending;
  std::vector<P2> late;
  bool apart = false;      // the present stance is collision-free
};
const Box &fixed_box(const World &w, bool ls) { return ls ? w.left : w.right; }
const Box &moving_box(const World &w, bool ls) { return ls ? w.right : w.left; }
float nominal(const World &w, bool ls) {
  // just enough room between the inner sides of straight feet
  float in_l = 1e9f, in_r = -1e9f;
  for (auto &p : w.left) in_l = std::min(in_l, p.y);
  for (auto &p : w.right) in_r = std::max(in_r, p.y);
  float d = in_r - in_l + 0.01f;
  return ls ? -d : d;
}

void clip(Ctx &c, float a, float b, Pose2D &m) {
  const Pose2D was = m;
  const float ka = a, kb = b;
  const bool r = clipFootWithEllipse(a, b, m);
  c.trace(r ? 1 : 0), c.trace(m.x), c.trace(m.y);
  const double A = std::fabs((double)a), B = std::fabs((double)b);
  const double n = was.x / A * (was.x / A) + was.y / B * (was.y / B), lim = 1.00001, band = 2e-6;
  const std::string in = cat("move ", show(was), " limits ", a, " ", b, ": ");
  c.check(same_bits(a, ka) && same_bits(b, kb), "limits-changed", in);
  c.check(same_bits(was.theta, m.theta), "clip-theta", cat(in, "the rotation became ", m.theta));
  if (n < lim - band && r) c.fail("clip-allowed", cat(in, "is allowed (", n, ") but was clipped"));
  if (n > lim + band && !r) c.fail("clip-missed", cat(in, "is out of bounds (", n, ") but was not clipped"));
  if (!r) {
    if (!same(m, was)) c.fail("clip-changed", cat(in, "not clipped but changed to ", show(m)));
    return;
  }
  c.probe("step clipped");
  const double k = m.x / A * (m.x / A) + m.y / B * (m.y / B);
  if (!(std::fabs(k - 1) < 1e-5)) c.fail("clip-bounds", cat(in, "clipped to ", show(m), " (", k, "), not on the boundary"));
  const double h = std::hypot(was.x, was.y), g = std::hypot(m.x, m.y);
  const double cross = ((double)was.x * m.y - (double)was.y * m.x) / (h * g), dot = (double)was.x * m.x + (double)was.y * m.y;
  if (!(std::fabs(cross) < 1e-5) || !(dot > 0)) c.fail("clip-direction", cat(in, "clipped to ", show(m), ", another direction"));
}

// returns false when memory failed
bool avoid(Ctx &c, const World &w, const Op &o, bool ls, Pose2D &m) {
  const Pose2D was = m;
  const Box l0 = w.left, r0 = w.right;
  const DBox F = of(fixed_box(w, ls)), M = of(moving_box(w, ls));
  bool r = false, f;
  Outcome out;
  {
    AllocFault a(c, o);
    out = attempt([&] { r = avoidFootCollision(w.left, w.right, ls, m); });
    f = a.end();
  }
  c.check(same(w.left, l0) && same(w.right, r0), "boxes-changed", "the foot boxes changed");
  if (f && out == NOMEM) {
    c.rejected("no memory");
    m = was;
    return false;
  }
  if (out != OK) c.fail("outcome", cat("outcome ", out));
  c.trace(r ? 1 : 0), c.trace(m.theta);
  const double g = gap(F, moved(of(was), M)), big = 1 + std::hypot(was.x, was.y);
  const double eps = EPS * big;
  const std::string in = cat("move ", show(was), ls ? " of the right foot " : " of the left foot ", show(moving_box(w, ls)), " beside ", show(fixed_box(w, ls)), ": ");
  if (!same_bits(m.x, was.x) || !same_bits(m.y, was.y)) c.fail("avoid-position", cat(in, "became ", show(m)));
  if (g > eps && r) c.fail("avoid-allowed", cat(in, "does not collide (gap ", g, ") but was changed to ", show(m)));
  if (g < -eps && !r) c.fail("avoid-missed", cat(in, "collides by ", -g, " and was let through"));
  if (!r) {
    if (!same(m, was)) c.fail("avoid-changed", cat(in, "reported as allowed but changed to ", show(m)));
    return true;
  }
  c.probe("rotation reduced");
  if (!(m.theta * (double)was.theta >= 0) || std::fabs(m.theta) > std::fabs(was.theta))
    c.fail("avoid-range", cat(in, "rotation became ", m.theta));
  P2 q = of(was);
  q.th = m.theta;
  const double at = gap(F, moved(q, M));
  if (m.theta != 0 && at < -eps) c.fail("avoid-collides", cat(in, "changed to ", show(m), " which collides by ", -at));
  q.th = 0;
  const double zero = gap(F, moved(q, M));
  if (m.theta == 0 && zero < -eps) c.probe("no rotation avoids the collision");
  // the rotation cannot be larger: there is a collision within 1/32 of the asked rotation
  if (was.theta != 0) {
    bool hit = false;
    for (int k = 5; k < 16 && !hit; ++k) {
      q.th = m.theta + (double)was.theta / (1 << k);
      hit = gap(F, moved(q, M)) <= eps;
    }
    if (!hit) c.fail("avoid-best", cat(in, "changed to ", show(m), " although it can turn further"));
  }
  c.state(mix((u64)ls, mix((u64)(m.theta / (was.theta != 0 ? was.theta : 1) * 32 + 0.5), (u64)(int64_t)(std::atan2(was.y, was.x) * 4 + 16))));
  return true;
}

Box box(const Op &o, size_t k, bool left) {
  double f = std::max(0.02, std::min(o.num(k, 0.08), 0.3)), re = std::max(0.01, std::min(o.num(k + 1, 0.05), 0.3));
  double out = std::max(0.015, std::min(o.num(k + 2, 0.05), 0.15)), in = std::max(0.01, std::min(o.num(k + 3, 0.04), 0.15));
  double tf = std::max(0.5, std::min(o.num(k + 4, 1), 1.0)), tr = std::max(0.5, std::min(o.num(k + 5, 1), 1.0));
  double y0 = left ? out : in, y1 = left ? -in : -out;
  Box b;  // clockwise from the front left corner
  b.push_back(Position2D((float)f, (float)(y0 * tf)));
  b.push_back(Position2D((float)f, (float)(y1 * tf)));
  b.push_back(Position2D((float)-re, (float)(y1 * tr)));
  b.push_back(Position2D((float)-re, (float)(y0 * tr)));
  switch (o.idx(14 + k / 7, 5)) {  // other convex shapes
    case 1:  // a cut front right corner
      if (tf < tr) break;
      b[1].y = b[0].y + 0.5f * (b[1].y - b[0].y);
      b.insert(b.begin() + 2, Position2D((float)(f - 0.5 * (f + re)), (float)(y1 * tr)));
      break;
    case 2: b.erase(b.begin() + 2); break;  // triangles
    case 3: b[0].y = 0.5f * (b[0].y + b[1].y), b.erase(b.begin() + 1); break;
    case 4:  // a point in the middle of a side
      b.insert(b.begin() + 3, Position2D(-(float)re, 0.5f * (b[2].y + b[3].y)));
      break;
  }
  size_t turn = o.idx(k + 6, b.size());
  std::rotate(b.begin(), b.begin() + turn, b.end());
  return b;
}

void cross(Ctx &c, const Op &o) {
  Position2D p[4], copy[4];
  for (int i = 0; i < 4; ++i) copy[i] = p[i] = Position2D(o.flt(2 * i), o.flt(2 * i + 1));
  Position2D at(77.f, 77.f);
  const bool r = intersectionSegment2D(p[0], p[1], p[2], p[3], at);
  for (int i = 0; i < 4; ++i)
    c.check(same_bits(p[i].x, copy[i].x) && same_bits(p[i].y, copy[i].y), "cross-argument", "an end point changed");
  c.trace(r ? 1 : 0);
  const double ax = (double)p[1].x - p[0].x, ay = (double)p[1].y - p[0].y, bx = (double)p[3].x - p[2].x, by = (double)p[3].y - p[2].y;
  const double dx = (double)p[2].x - p[0].x, dy = (double)p[2].y - p[0].y;
  const double den = ax * by - ay * bx, la = std::hypot(ax, ay), lb = std::hypot(bx, by);
  double scale = 0;
  for (auto &q : p) scale = std::max(scale, std::max(std::fabs((double)q.x), std::fabs((double)q.y)));
  const std::string in = cat("segments ", show(Box(p, p + 2)), " and ", show(Box(p + 2, p + 4)), ": ");
  const double noise = 1e-6 * (scale * (la + lb) + la * lb);
  if (std::fabs(den) < 1e-5 + noise) {  // parallel within the documented tolerance, or nearly
    if (r && std::fabs(den) < 1e-5 - noise) c.fail("cross-parallel", in + "parallel but intersecting");
    if (r) return;
    return;
  }
  const double ta = (dx * by - dy * bx) / den, tb = (dx * ay - dy * ax) / den;
  const double e = noise / std::fabs(den) + 1e-5 * (1 + scale / std::min(la, lb));
  const bool inside = ta > e && ta < 1 - e && tb > e && tb < 1 - e, outside = ta < -e || ta > 1 + e || tb < -e || tb > 1 + e;
  if (inside && !r) c.fail("cross-missed", cat(in, "they cross at ", ta, " ", tb));
  if (outside && r) c.fail("cross-wrong", cat(in, "they do not cross: ", ta, " ", tb));
  if (r) {
    double x = p[0].x + ta * ax, y = p[0].y + ta * ay;
    if (std::hypot(at.x - x, at.y - y) > 1e-5 * scale + e * std::max(la, lb))
      c.fail("cross-point", cat(in, "they cross at (", x, " ", y, "), not (", at.x, " ", at.y, ")"));
    c.probe("segments cross");
  }
}

void overlap(Ctx &c, const World &w, bool ls, const Pose2D &m) {
  const Box &F = fixed_box(w, ls);
  Box got(3, Position2D(9, 9));  // holds an older box
  const Pose2D was = m;
  computeBox(moving_box(w, ls), m, got);
  c.check(same(was, m), "box-argument", "the move changed");
  const DBox want = moved(of(m), of(moving_box(w, ls)));
  const double big = 1 + std::hypot(m.x, m.y);
  if (got.size() != want.size()) c.fail("box", cat("box of ", got.size(), " points"));
  for (size_t i = 0; i < want.size(); ++i)
    if (!(std::hypot(got[i].x - want[i].x, got[i].y - want[i].y) < 1e-6 * big))
      c.fail("box", cat("move ", show(m), ": point ", i, " at (", got[i].x, " ", got[i].y, ") instead of (", want[i].x, " ", want[i].y, ")"));
  const double g = gap(of(F), of(got)), eps = EPS * big;
  const bool ab = areTwoBoxesInCollision(F, got), ba = areTwoBoxesInCollision(got, F);
  c.trace(ab ? 1 : 0);
  const std::string in = cat("boxes ", show(F), " and ", show(got), " (gap ", g, "): ");
  if (std::fabs(g) > eps && ab != ba) c.fail("overlap-order", in + "the answer depends on the order");
  if (g > eps && ab) c.fail("overlap-wrong", in + "reported in collision");
  if (g < -eps && !ab) c.fail("overlap-missed", in + "not reported in collision");
  if (ab) c.probe("boxes overlap");
}

// one step of the engine; true when the foot was moved
bool step(Ctx &c, World &w, const Op &o, P2 d) {
  const bool ls = w.left_support;
  Pose2D m((float)d.x, (float)d.y, (float)d.th);
  clip(c, w.a, w.b, m);
  m.y += nominal(w, ls);
  if (!avoid(c, w, o, ls, m)) return false;
  const DBox F = of(fixed_box(w, ls)), M = of(moving_box(w, ls));
  if (gap(F, moved(of(m), M)) < -EPS * 2) {  // no rotation helps: the engine steps without going inwards
    c.rejected("step refused");
    m.y = nominal(w, ls);
    if (!avoid(c, w, o, ls, m)) return false;
    if (gap(F, moved(of(m), M)) < -EPS * 2) c.fail("stuck", cat("straight foot at its nominal place collides: ", show(m)));
  }
  // in the world, the feet are apart
  P2 sw = mul(w.support, of(m));
  if (gap(moved(w.support, F), moved(sw, M)) < -EPS * 4) c.fail("feet-collide", cat("after the step ", show(m), " the feet collide"));
  w.support = sw;
  w.left_support = !ls;
  c.simtime(0.5);
  return true;
}

double small(Rng &r) {
  switch (r.range(0, 5)) {
    case 0: return 0;
    case 1: return r.uni(-1, 1);
    case 2: return r.range(-8, 8) * 0.02;
    default: return r.uni(-0.25, 0.25);
  }
}
double turn(Rng &r) {
  switch (r.range(0, 5)) {
    case 0: return 0;
    case 1: return r.range(-4, 4) * 0.78539816339744831;
    case 2: return r.uni(-1e-3, 1e-3);
    case 3: return r.uni(-3.1, 3.1);
    default: return r.uni(-1, 1);
  }
}
Op shoes(Rng &r) {
  Op o(SHOES);
  bool plain = r.chance(0.3);
  for (int k = 0; k < 2; ++k) {
    if (plain) o.n.insert(o.n.end(), {0.08, 0.047, 0.05, 0.038, 1, 1, 0});
    else if (k && r.chance(0.5)) o.n.insert(o.n.end(), o.n.begin(), o.n.begin() + 7);
    else {
      bool rect = r.chance(0.6);
      o.n.insert(o.n.end(), {r.uni(0.02, 0.2), r.uni(0.01, 0.15), r.uni(0.015, 0.1), r.uni(0.01, 0.08), rect ? 1 : r.uni(0.5, 1), rect ? 1 : r.uni(0.5, 1), (double)r.range(0, 3)});
    }
  }
  for (int k = 0; k < 2; ++k) o.n.push_back(r.chance(0.75) ? 0 : (double)r.range(1, 4));
  return o;
}
// a move which brings corners of one box exactly, or nearly, on corners or sides of the other
void align(Rng &r, const Op &sh, bool ls, Op &o, size_t k) {
  const Box l = box(sh, 0, true), rt = box(sh, 7, false);
  const DBox F = of(ls ? l : rt), M = of(ls ? rt : l);
  P2 m;
  m.th = r.range(-2, 2) * 1.5707963267948966;
  if (r.chance(0.3)) m.th += r.uni(-1, 1) * std::pow(10, r.uni(-7, -3));
  if (r.chance(0.7)) {
    const V f = F[r.below(F.size())], q = apply(m, M[r.below(M.size())]);
    if (r.chance(0.8)) m.x = f.x - q.x;
    if (r.chance(0.8)) m.y = f.y - q.y;
    if (r.chance(0.2)) m.x += r.uni(-0.05, 0.05);
    if (r.chance(0.2)) m.x += r.uni(-1, 1) * std::pow(10, r.uni(-8, -4)), m.y += r.uni(-1, 1) * std::pow(10, r.uni(-8, -4));
  }
  o.n[k] = m.x, o.n[k + 1] = m.y, o.n[k + 2] = m.th;
}
Plan gen(Rng &r, int cfg) {
  Plan p;
  p.ops.push_back(shoes(r));
  Op last = p.ops.back();
  int n = r.range(6, 40);
  for (int i = 0; i < n; ++i) {
    double x = r.u();
    Op o;
    if (x < 0.04) o = last = shoes(r);
    else if (x < 0.09) o = Op(LIMITS, {(r.chance(0.1) ? -1 : 1) * r.uni(0.01, 0.2), (r.chance(0.1) ? -1 : 1) * (r.chance(0.3) ? 0.08 : r.uni(0.01, 0.2))});
    else if (x < 0.35) o = Op(CMD, {small(r), small(r), turn(r), cfg == 1 ? (double)r.range(0, 5) : 0});
    else if (x < 0.6) o = Op(STEP);
    else if (x < 0.8) {
      o = Op(RAW, {small(r), small(r), turn(r), (double)r.range(0, 1), (double)r.range(0, 1)});
      if (r.chance(0.2)) o.n[4] = 0, align(r, last, o.n[3] != 0, o, 0);
    } else if (x < 0.9) {
      o = Op(CROSS);
      bool grid = r.chance(0.3);
      double s = r.chance(0.5) ? 1 : std::pow(10, r.uni(-1.5, 1));
      for (int k = 0; k < 8; ++k) o.n.push_back(grid ? r.range(-2, 2) * s : r.uni(-s, s));
      if (r.chance(0.2)) o.n[2] = o.n[0];   // upright
      if (r.chance(0.2)) o.n[3] = o.n[1];   // level
      if (r.chance(0.15)) o.n[2] = o.n[0] + r.uni(-1, 1) * s * std::pow(10, r.uni(-6, -2));  // nearly upright
      if (r.chance(0.1)) o.n[3] = o.n[1] + r.uni(-1, 1) * s * std::pow(10, r.uni(-6, -2));
      if (r.chance(0.1)) o.n[6] = o.n[4];
      if (r.chance(0.1)) o.n[6] = o.n[4] + (o.n[2] - o.n[0]), o.n[7] = o.n[5] + (o.n[3] - o.n[1]);  // parallel
    } else {
      o = Op(OVERLAP, {(double)r.range(0, 1), small(r), small(r), turn(r)});
      if (r.chance(0.3)) align(r, last, o.n[0] != 0, o, 1);
    }
    if (cfg == 1 && (o.code == STEP || o.code == RAW) && r.chance(0.15)) o.f.push_back(Fault{"alloc", (long)r.below(6)});
    p.ops.push_back(o);
  }
  return p;
}

void exec(const Plan &p, Ctx &c) {
  World w;
  {
    Op d(SHOES);
    w.left = box(d, 0, true), w.right = box(d, 7, false);
  }
  int steps = 0, raws = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &o = p.ops[i];
    c.op_index = (int)i;
    switch (o.code) {
      case SHOES: w.left = box(o, 0, true), w.right = box(o, 7, false); break;
      case LIMITS:
        w.a = o.flt(0, 0.08f), w.b = o.flt(1, 0.16f);
        if (!(std::fabs(w.a) > 1e-3)) w.a = 1e-3f;
        if (!(std::fabs(w.b) > 1e-3)) w.b = 1e-3f;
        break;
      case CMD: {
        P2 d{o.num(0), o.num(1), o.num(2)};
        for (const P2 &l : w.late) w.pending.push_back(l);
        w.late.clear();
        switch (o.idx(3, 6)) {
          case 1: c.fired("late-command"); w.late.push_back(d); break;
          case 2: c.fired("repeated-command"); w.pending.push_back(d); w.pending.push_back(d); break;
          case 3: c.fired("lost-command"); break;
          case 4: c.fired("reordered-command"); w.pending.insert(w.pending.begin(), d); break;
          default: w.pending.push_back(d);
        }
        break;
      }
      case STEP:
        if (w.pending.empty()) {
          step(c, w, o, P2());
        } else if (step(c, w, o, w.pending.front())) {
          w.pending.erase(w.pending.begin());
          ++steps;
        }
        break;
      case RAW: {
        Pose2D m(o.flt(0), o.flt(1), o.flt(2));
        const bool ls = o.idx(3, 2);
        if (o.idx(4, 2)) m.y += nominal(w, ls);
        avoid(c, w, o, ls, m);
        clip(c, w.a, w.b, m);
        ++raws;
        break;
      }
      case CROSS: cross(c, o); break;
      case OVERLAP: {
        Pose2D m(o.flt(1), o.flt(2), o.flt(3));
        overlap(c, w, o.idx(0, 2), m);
        break;
      }
    }
  }
  // faults stop: the robot walks to its goal, two metres ahead and one aside
  c.op_index = (int)p.ops.size();
  const Op none(STEP);
  const double A = std::fabs(w.a), B = std::fabs(w.b), reach = std::min(A, B);
  const double far = std::min(1.0, 6 * reach);
  P2 centre{0, w.left_support ? 0.5 * nominal(w, true) : 0.5 * nominal(w, false), 0};
  P2 at = mul(w.support, centre);
  P2 goal = mul(at, P2{far * 0.9, far * 0.4, 0});
  int used = 0, limit = (int)(4 * far / reach) + 12;
  while (true) {
    centre.y = 0.5 * nominal(w, w.left_support);
    at = mul(w.support, centre);
    double dx = goal.x - at.x, dy = goal.y - at.y, s = std::sin(at.th), k = std::cos(at.th);
    if (std::hypot(dx, dy) < 1e-3) break;
    if (++used > limit) c.fail("progress", cat("after ", used - 1, " steps the robot is still ", std::hypot(dx, dy), " m from its goal"));
    step(c, w, none, P2{k * dx + s * dy, -s * dx + k * dy, 0});
  }
  c.trace(used);
  if (steps >= 1 && raws >= 1) c.nontrivial();
}
}  // namespace

namespace sim {
Scenario make_scenario() {
  Scenario s;
  s.id = "C21";
  s.rule =
      "One case is a biped with its own foot boxes and step limits, up to 40 step commands (late, lost, repeated, "
      "reordered), direct requests and failing allocations, then a walk to a goal. Every answer is compared with exact "
      "convex geometry in double precision. Non-trivial when a commanded step and a direct request were made; distinct by "
      "hash of the answers.";
  s.real = {"AL::Math::avoidFootCollision", "clipFootWithEllipse", "areTwoBoxesInCollision", "computeBox", "dichotomie", "intersectionSegment2D"};
  s.stub = {"walk engine", "command channel (losses, repetitions, delays injected)", "memory allocator (failures injected)"};
  s.configs = {"fault-free", "command and memory faults"};
  s.fault_kinds = {"alloc-failure", "late-command", "repeated-command", "lost-command", "reordered-command"};
  s.state_measure = "support foot x share of the rotation kept x direction of the move";
  s.assumptions = {"foot boxes are convex, given clockwise, two centimetres or more", "limits are not null"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 64;
  s.quick_runs = 100000;
  s.thorough_runs = 5000000;
  s.quick_secs = 30;
  return s;
}
}  // namespace sim
