// C16: odometry of simulated robots integrating velocities under a faulty clock.
#include <almath/tools/almath.h>
#include <almath/tools/altransformhelpers.h>
#include <limits>
#include "sim/core.h"
#include "sim/se3.h"
using namespace sim;
using namespace AL::Math;

namespace {
// SETVEL k vx vy vz wx wy wz
// TICK k dt how            integrate the velocity over the measured period
// BURST k dt n every       n ticks, normalising every `every` ticks (0: never)
// SPLIT k dt n seed        n irregular ticks against one tick
// BACK k                   undo the last tick with a negative period
// NORM k how               normalise
// MEASURE k                velocity over the last tick from the two poses
// LOGEXP v6                logarithm of an exponential
// HALF k short p3          logarithm of a half turn about a coordinate axis
// MEAN k j d alias         pose at a fraction between two robots
// TICK2D k dt              planar odometry
// RESTART k how            the robot saves its pose as text-free numbers and restarts
enum { SETVEL, TICK, BURST, SPLIT, BACK, NORM, MEASURE, LOGEXP, MEAN, TICK2D, RESTART, HALF };
const int NR = 3;
const double K = 2;  // margin on every single-precision bound
const double PI_ = 3.14159265358979323846;

struct Robot {
  Transform T, prev;
  se3::Tf hist;                    // double-precision integration of the whole history
  double rerr = 2e-7, perr = 2e-7;  // bounds on the distance to it
  Velocity6D v, last_v;
  float last_dt = 0;
  bool ticked = false;
  Pose2D P;
  double x = 0, y = 0, th = 0, p2err = 1e-7, th_err = 1e-7;
};
bool finite(const Transform &t) {
  for (float f : t.toVector())
    if (!std::isfinite(f)) return false;
  return true;
}
std::string show(const Transform &t) {
  std::string s;
  for (float f : t.toVector()) s += cat(f, " ");
  return s;
}
std::string show(const Velocity6D &t) {
  std::string s;
  for (float f : t.toVector()) s += cat(f, " ");
  return s;
}
double rot_tol(double th) { return 6e-7 + 1e-6 * th; }
double pos_tol(double d, double th, double p) { return 1e-9 + 2e-6 * d + 1e-6 * th * d + 6e-7 * p; }

void near(Ctx &c, const char *cls, const Transform &got, const se3::Tf &want, double rt, double pt, const std::string &what) {
  se3::Tf g = se3::of(got);
  double dr = se3::rdist(g.r, want.r), dp = (g.p - want.p).norm();
  if (!(dr <= K * rt) || !(dp <= K * pt))
    c.fail(cls, cat(what, ": rotation off by ", dr, " (tolerance ", rt, "), position off by ", dp, " (tolerance ", pt, "), got ", show(got)));
}
Transform tick(const Transform &T, const Velocity6D &v, float dt, int how, Transform &scratch) {
  switch (how) {
    case 1: return T * velocityExponential(dt * v);
    case 2: {
      Transform x = velocityExponential(v * dt);
      transformPreMultiply(T, x);
      return x;
    }
    case 3:
      velocityExponentialInPlace(v * dt, scratch);  // scratch holds an older result
      return T * scratch;
    default: {
      Transform x = T;
      x *= velocityExponential(v * dt);
      return x;
    }
  }
}
// advance the library pose and the reference by one tick
void advance(Ctx &c, Robot &r, float dt, int how, Transform &scratch) {
  se3::Tw tw = (double)dt * se3::of(r.v);
  double th = tw.w.norm(), d = tw.v.norm();
  se3::Tf e = se3::texp(tw), old = se3::of(r.T);
  Transform n = tick(r.T, r.v, dt, how, scratch);
  near(c, "tick", n, old * e, rot_tol(th), pos_tol(d, th, old.p.norm() + d), cat("tick of ", dt, " s at ", show(r.v)));
  r.prev = r.T;
  r.T = n;
  r.last_dt = dt;
  r.last_v = r.v;
  r.ticked = true;
  r.hist = r.hist * e;
  r.perr += r.rerr * d + pos_tol(d, th, old.p.norm() + d);
  r.rerr += rot_tol(th);
  if (!(r.rerr < 0.5)) {  // the reference has nothing left to say: start again from the pose
    r.hist = se3::of(r.T);
    r.rerr = r.perr = 2e-7;
  }
  near(c, "history", r.T, r.hist, r.rerr, r.perr, "pose after the whole history");
  c.simtime(std::fabs(dt));
}

Plan gen(Rng &r, int cfg) {
  Plan p;
  const bool faults = cfg == 1;
  const double base = r.pick({0.001, 0.01, 0.02, 0.1});
  const double speed = std::pow(10, r.uni(-4, 1)), spin = r.chance(0.15) ? 0 : std::pow(10, r.uni(-5, 1.5));
  const double far = r.chance(0.2) ? 1000 : 1;
  const bool planar = r.chance(0.3);
  auto vel = [&](double k) {
    std::vector<double> v = {k};
    for (int i = 0; i < 6; ++i) v.push_back(r.chance(0.15) || (planar && i >= 2 && i <= 4) ? 0 : (double)(float)((i < 3 ? speed * far : spin) * r.uni(-1, 1)));
    return v;
  };
  for (int k = 0; k < NR; ++k) p.ops.push_back(Op(SETVEL, vel(k)));
  int n = r.range(5, 50);
  for (int i = 0; i < n; ++i) {
    double k = r.range(0, NR - 1);
    double dt = base;
    std::vector<Fault> f;
    if (faults && r.chance(0.4)) {
      static const char *kinds[] = {"clock-jitter", "clock-late", "clock-zero", "clock-backwards", "clock-burst", "clock-jump"};
      int q = r.range(0, 5);
      if (q == 0) dt *= r.uni(0.5, 1.5);
      if (q == 1) dt *= r.range(2, 50);
      if (q == 2) dt = 0;
      if (q == 3) dt *= -r.uni(0.1, 3);
      if (q == 4) dt *= std::pow(10, r.uni(-6, -1));
      if (q == 5) dt = r.uni(1, 1000);
      f.push_back(Fault{kinds[q], 0});
    }
    dt = (float)dt;
    Op o;
    switch (r.range(0, 15)) {
      case 0: case 1: o = Op(SETVEL, vel(k)); break;
      case 2: case 3: case 4: case 5: o = Op(TICK, {k, dt, (double)r.range(0, 3)}); o.f = f; break;
      case 6: o = Op(BURST, {k, base, (double)r.range(1, 300), r.chance(0.5) ? 0.0 : (double)r.range(1, 50)}); break;
      case 7: o = Op(SPLIT, {k, std::fabs(dt), (double)r.range(2, 30), (double)r.below(1 << 30)}); o.f = f; break;
      case 8: o = Op(BACK, {k}); if (faults) o.f.push_back(Fault{"clock-backwards", 0}); break;
      case 9: o = Op(NORM, {k, (double)r.range(0, 1)}); break;
      case 10: case 11: o = Op(MEASURE, {k}); break;
      case 12: {
        std::vector<double> v;
        double a = std::pow(10, r.uni(-7, 0.497));
        if (r.chance(0.2)) a = PI_ - std::pow(10, r.uni(-2.95, 0));
        double w[3] = {r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)};
        if (r.chance(0.3)) { int q = r.range(0, 2); for (int z = 0; z < 3; ++z) w[z] = z == q ? (r.chance(0.5) ? 1 : -1) : 0; }
        double nn = std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);
        if (nn < 1e-3) w[0] = nn = 1, w[1] = w[2] = 0;
        for (int z = 0; z < 3; ++z) v.push_back(speed * r.uni(-1, 1));
        for (int z = 0; z < 3; ++z) v.push_back(a * w[z] / nn);
        o = Op(LOGEXP, v);
        if (r.chance(0.15)) o = Op(HALF, {(double)r.below(6), r.chance(0.3) ? 0 : r.uni(0, 9e-4), r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)});
        break;
      }
      case 13: o = Op(MEAN, {k, (double)r.range(0, NR - 1), r.chance(0.2) ? r.pick({0.0, 1.0, -0.01, 1.01, 2.0}) : r.u(), (double)r.range(0, 3)}); break;
      case 14: o = Op(TICK2D, {k, dt}); o.f = f; break;
      default: o = Op(RESTART, {k, (double)r.range(0, 2)}); if (faults) o.f.push_back(Fault{"process-restart", 0}); break;
    }
    p.ops.push_back(o);
  }
  return p;
}

void exec(const Plan &p, Ctx &c) {
  Robot rb[NR];
  Transform scratch(5.f, 6.f, 7.f);
  int ticks = 0, kinds = 0;
  u64 seen = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &o = p.ops[i];
    c.op_index = (int)i;
    for (auto &f : o.f) c.fired(f.kind.c_str());
    Robot &r = rb[o.idx(0, NR)];
    switch (o.code) {
      case SETVEL: r.v = Velocity6D(o.flt(1), o.flt(2), o.flt(3), o.flt(4), o.flt(5), o.flt(6)); break;
      case TICK:
        advance(c, r, o.flt(1), (int)o.i(2), scratch);
        ++ticks;
        break;
      case BURST: {
        long n = o.i(2), every = o.i(3);
        if (n > 2000) n = 2000;
        for (long j = 0; j < n; ++j) {
          advance(c, r, o.flt(1), (int)(j & 3), scratch);
          if (every && j % every == every - 1) {
            double u = se3::unrigid(se3::of(r.T).r);
            r.T.normalizeTransform();
            r.rerr += 4 * u + 5e-7;
            double left = se3::unrigid(se3::of(r.T).r);
            if (!(left <= K * 1e-6)) c.fail("rigid", cat("normalised transform is off by ", left));
            r.ticked = false;
          }
        }
        ticks += (int)n;
        if (every) c.probe("normalised burst");
        break;
      }
      case SPLIT: {
        const float dt = o.flt(1);
        long n = o.i(2, 2);
        if (n < 1 || n > 200) n = 2;
        Rng q((u64)o.i(3));
        std::vector<double> w;
        double sum = 0;
        for (long j = 0; j < n; ++j) w.push_back(q.uni(0.01, 1)), sum += w.back();
        Transform A = r.T, B = r.T * velocityExponential(r.v * dt);
        se3::Tw tw = (double)dt * se3::of(r.v);
        const double th = tw.w.norm(), d = tw.v.norm(), pn = se3::of(r.T).p.norm() + d;
        for (long j = 0; j < n; ++j) A *= velocityExponential(r.v * (float)(dt * w[j] / sum));
        // the periods of the parts are rounded, so the lengths differ by their rounding
        double rt = (n + 1) * 6e-7 + 3e-6 * th, pt = (n + 1) * (6e-7 * pn + 1e-9) + d * (rt + 3e-6);
        near(c, "split", A, se3::of(B), rt, pt, cat(n, " ticks instead of one of ", dt, " s at ", show(r.v)));
        c.trace(A.r1_c4);
        if (n > 10) c.probe("many-tick split");
        c.simtime(dt);
        break;
      }
      case BACK: {
        if (!r.ticked) break;
        Transform before = r.prev;
        float dt = r.last_dt;
        se3::Tw tw = (double)dt * se3::of(r.v);
        double th = tw.w.norm(), d = tw.v.norm(), pn = se3::of(before).p.norm() + d;
        Transform mid = before * velocityExponential(r.v * dt);
        Transform after = mid * velocityExponential(r.v * -dt);
        double u = se3::unrigid(se3::of(before).r);
        near(c, "backwards", after, se3::of(before), 2 * rot_tol(th) + u * 1e-3, 2 * pos_tol(d, th, pn) + d * 2 * rot_tol(th) + u * 1e-3 * d, cat("tick of ", dt, " s and back at ", show(r.v)));
        c.probe("backwards tick");
        break;
      }
      case NORM: {
        se3::Rot b = se3::of(r.T).r;
        double u = se3::unrigid(b);
        se3::V3 pos = se3::of(r.T).p;
        if (o.i(1)) r.T.normalizeTransform();
        else normalizeTransform(r.T);
        se3::Tf a = se3::of(r.T);
        double left = se3::unrigid(a.r);
        if (!(left <= K * 1e-6)) c.fail("rigid", cat("normalised transform is off by ", left));
        if (!(se3::rdist(a.r, b) <= K * (4 * u + 5e-7))) c.fail("rigid", cat("normalising moved the rotation by ", se3::rdist(a.r, b), ", it was off by ", u));
        if ((a.p - pos).norm() != 0) c.fail("rigid", "normalising moved the position");
        r.rerr += 4 * u + 5e-7;
        r.ticked = false;
        break;
      }
      case MEASURE: {
        if (!r.ticked || r.last_dt == 0) break;
        se3::Tw tw = (double)r.last_dt * se3::of(r.last_v);
        double th = tw.w.norm();
        if (th > PI_ - 0.0011) { c.probe("turn too large to be measured"); break; }
        Velocity6D got = transformLogarithm(transformInverse(r.prev) * r.T);
        // poses are rounded, and rotations only orthonormal to `u`
        double u = se3::unrigid(se3::of(r.prev).r) + 5e-7, pn = se3::of(r.prev).p.norm() + se3::of(r.T).p.norm();
        double amp = th < 1 ? 1.5 : th / std::sin(th);
        double wt = (2 * u + 4e-7) * amp * amp + 2e-6 * th, vt = (u + 1e-6) * pn * amp + tw.v.norm() * ((1 + th) * wt * 2 + 4e-6) * amp;
        se3::Tw g = se3::of(got);
        double dw = (g.w - tw.w).norm(), dv = (g.v - tw.v).norm();
        if (!(dw <= K * wt) || !(dv <= K * vt))
          c.fail("measured-velocity", cat("displacement measured over one tick is ", show(got), ", integrated was ", show(r.last_v * r.last_dt), ": rotation off by ", dw, " (tolerance ", wt, "), translation off by ", dv, " (tolerance ", vt, ")"));
        c.trace(got.wzd);
        if (th < 1e-3 && th > 0) c.probe("tiny rotation measured");
        if (th > 3) c.probe("nearly half turn measured");
        break;
      }
      case LOGEXP: {
        Velocity6D v(o.flt(0), o.flt(1), o.flt(2), o.flt(3), o.flt(4), o.flt(5));
        se3::Tw tw = se3::of(v);
        double th = tw.w.norm();
        if (th > PI_ - 0.00105) break;
        Transform e = velocityExponential(v);
        near(c, "exponential", e, se3::texp(tw), 2.5e-7 + 1e-6 * th, 2e-6 * tw.v.norm(), "exponential of " + show(v));
        double left = se3::unrigid(se3::of(e).r);
        if (!(left <= K * 1.2e-6)) c.fail("rigid", cat("exponential of ", show(v), " is not rigid: off by ", left));
        Velocity6D back(9.f, 9.f, 9.f, 9.f, 9.f, 9.f);  // the output holds other values before
        transformLogarithmInPlace(e, back);
        se3::Tw g = se3::of(back);
        double amp = th < 1 ? 1.2 : th / std::sin(th);
        double wt = 1e-6 * th * amp, vt = tw.v.norm() * (3e-6 * amp * (1 + th));
        double dw = (g.w - tw.w).norm(), dv = (g.v - tw.v).norm();
        if (!(dw <= K * wt) || !(dv <= K * vt))
          c.fail("logarithm", cat("logarithm of the exponential of ", show(v), " is ", show(back), ": rotation off by ", dw, " (tolerance ", wt, "), translation off by ", dv, " (tolerance ", vt, ")"));
        c.trace(back.wxd);
        if (th < 1e-3) c.probe("tiny rotation inverted");
        if (th > 3) c.probe("nearly half turn inverted");
        break;
      }
      case HALF: {  // beyond the documented limit only these are handled
        const size_t ax = o.idx(0, 3);
        const double ang = (o.idx(0, 6) < 3 ? 1 : -1) * (PI_ - std::min(9e-4, std::fabs(o.num(1))));
        se3::Tw tw;
        (ax == 0 ? tw.w.x : ax == 1 ? tw.w.y : tw.w.z) = ang;
        se3::Tf want = se3::texp(tw);
        want.p = se3::V3(o.flt(2), o.flt(3), o.flt(4));
        Transform T;
        float *f = &T.r1_c1;
        for (int i = 0; i < 3; ++i)
          for (int j = 0; j < 3; ++j) f[4 * i + j] = (float)want.r.m[i][j];
        T.r1_c4 = o.flt(2), T.r2_c4 = o.flt(3), T.r3_c4 = o.flt(4);
        Velocity6D v(9.f, 9.f, 9.f, 9.f, 9.f, 9.f);  // the output holds other values before
        transformLogarithmInPlace(T, v);
        se3::Tf g = se3::texp(se3::of(v));
        double dr = se3::rdist(g.r, want.r), dp = (g.p - want.p).norm();
        if (!(dr <= 4e-3) || !(dp <= 4e-3 * (1 + want.p.norm())))
          c.fail("half-turn", cat("logarithm of a turn of ", ang, " about axis ", ax, " is ", show(v), ": rotation off by ", dr, ", position off by ", dp));
        Velocity6D v2 = transformLogarithm(T);
        for (int i = 0; i < 6; ++i)
          if (!same_bits((&v.xd)[i], (&v2.xd)[i])) c.fail("half-turn", "transformLogarithm and transformLogarithmInPlace differ");
        c.probe("half turn about a coordinate axis");
        break;
      }
      case MEAN: {
        Robot &s = rb[o.idx(1, NR)];
        float d = o.flt(2);
        Transform A = r.T, B = s.T;
        normalizeTransform(A);
        normalizeTransform(B);
        Transform out(1.f, 2.f, 3.f), keep = out;
        if (!(d >= 0 && d <= 1)) {
          Outcome oc = attempt([&] { transformMeanInPlace(A, B, d, out); });
          if (oc != THROWN) c.fail("interpolation", cat("fraction ", d, " was accepted"));
          if (!(out == keep)) c.fail("interpolation", "a rejected interpolation changed its output");
          c.rejected("fraction");
          break;
        }
        se3::Tf a = se3::of(A), b = se3::of(B);
        se3::Tw l = se3::tlog(se3::tinv(a) * b);
        double th = l.w.norm();
        if (th > PI_ - 0.0011) { c.probe("interpolation over a half turn"); break; }
        int how = (int)o.i(3);
        if (how == 0) out = transformMean(A, B, d);
        else if (how == 1) transformMeanInPlace(A, B, d, out);
        else if (how == 2) { out = A; transformMeanInPlace(out, B, d, out); }
        else { out = B; transformMeanInPlace(A, out, d, out); }
        double amp = th < 1 ? 1.5 : th / std::sin(th), pn = a.p.norm() + b.p.norm() + l.v.norm();
        double wt = 5e-6 * amp * amp + 1e-6;
        near(c, "interpolation", out, a * se3::texp((double)d * l), wt, 1e-9 + pn * amp * (4 * wt + 4e-6), cat("pose at ", d, " between two poses (output ", how < 2 ? "separate" : how == 2 ? "first" : "second", ")"));
        c.trace(out.r1_c4);
        break;
      }
      case TICK2D: {
        float dt = o.flt(1);
        Velocity6D pl(r.v.xd, r.v.yd, 0.f, 0.f, 0.f, r.v.wzd);
        double w = (double)r.v.wzd * dt;
        if (std::fabs(w) > 3) break;
        se3::Tw tw = (double)dt * se3::of(pl);
        se3::Tf e = se3::texp(tw);
        Pose2D step = pose2DFromTransform(velocityExponential(pl * dt)), old = r.P;
        double d = tw.v.norm();
        if (!(std::fabs(step.theta - w) <= 1e-6 * std::fabs(w) + 1e-12)) c.fail("planar", cat("turn of ", w, " read back as ", step.theta));
        if (o.i(1) & 1) r.P *= step;
        else r.P = r.P * step;
        double wx = old.x + std::cos((double)old.theta) * e.p.x - std::sin((double)old.theta) * e.p.y;
        double wy = old.y + std::sin((double)old.theta) * e.p.x + std::cos((double)old.theta) * e.p.y;
        double tol = 1e-9 + 4e-6 * d + 2e-7 * (std::fabs(old.x) + std::fabs(old.y));
        double tt = 1e-6 * std::fabs(w) + 2e-7 * (std::fabs(old.theta) + std::fabs(w)) + 1e-12;
        if (!(std::fabs(r.P.x - wx) <= K * tol) || !(std::fabs(r.P.y - wy) <= K * tol) || !(std::fabs(r.P.theta - (old.theta + w)) <= K * tt))
          c.fail("planar", cat("planar tick of ", dt, " gives ", r.P.x, " ", r.P.y, " ", r.P.theta, ", expected ", wx, " ", wy, " ", old.theta + w));
        // the whole history
        r.p2err += tol + d * r.th_err;
        r.x += std::cos(r.th) * e.p.x - std::sin(r.th) * e.p.y;
        r.y += std::sin(r.th) * e.p.x + std::cos(r.th) * e.p.y;
        r.th += w;
        r.th_err += tt;
        if (!(std::fabs(r.P.x - r.x) <= K * r.p2err) || !(std::fabs(r.P.y - r.y) <= K * r.p2err) || !(std::fabs(r.P.theta - r.th) <= K * r.th_err))
          c.fail("planar-history", cat("planar pose ", r.P.x, " ", r.P.y, " ", r.P.theta, ", the history gives ", r.x, " ", r.y, " ", r.th));
        c.trace(r.P.x);
        c.simtime(std::fabs(dt));
        ++ticks;
        break;
      }
      case RESTART: {
        Transform n;
        if (o.i(1) == 0) {
          n = Transform(r.T.toVector());  // a pose that drifted too far is normalised
          if (!r.T.isTransform()) r.rerr += 4 * se3::unrigid(se3::of(r.T).r) + 5e-7;
          if (!(n == r.T) && r.T.isTransform()) c.fail("restart", "pose changed by saving it as a vector: " + show(r.T) + "became " + show(n));
        } else if (o.i(1) == 1) {
          n = transformFromPosition6D(position6DFromTransform(r.T));
          double u = se3::unrigid(se3::of(r.T).r);
          near(c, "restart", n, se3::of(r.T), 3 * u + 1.5e-6, 0, "pose saved as a position and three angles");
          r.rerr += 3 * u + 1.5e-6;
        } else {
          n = transformFromDisplacement(displacementFromTransform(r.T));
          break;  // accuracy of quaternions is C17's subject
        }
        r.T = n;
        r.ticked = false;
        break;
      }
    }
    if (!finite(r.T)) c.fail("finite", "pose is not finite: " + show(r.T));
    c.trace(r.T.r1_c4);
    c.trace(r.T.r2_c1);
    if (!(seen >> o.code & 1)) { seen |= 1ull << o.code; ++kinds; }
    se3::Tw tw = (double)r.last_dt * se3::of(r.v);
    double th = tw.w.norm();
    int lt = th == 0 ? 0 : (int)std::floor(std::log10(th)) + 12;
    c.state(mix((u64)o.code * 64 + (u64)(lt < 0 ? 0 : lt), (u64)(r.last_dt > 0) + 2 * (u64)(r.last_dt < 0) + 4 * (u64)(se3::of(r.T).p.norm() > 10)));
  }
  if (ticks >= 2 && kinds >= 3) c.nontrivial();
}
}  // namespace

namespace sim {
Scenario make_scenario() {
  Scenario s;
  s.id = "C16";
  s.rule =
      "One case is a simulated run of 3 robots integrating velocities over clock ticks (single ticks, bursts of up to 300, split intervals, undone ticks, normalisations, "
      "velocity measurements, interpolations, planar ticks, restarts) drawn from the seed; non-trivial when at least two ticks and three kinds of operations happen; distinct by hash of every pose.";
  s.real = {"velocityExponential, transformLogarithm, transformMean, transform product and inverse, normalizeTransform, Pose2D composition, pose conversions"};
  s.stub = {"clock (simulated periods)", "robot velocities (simulated)"};
  s.configs = {"fault-free", "clock-faults"};
  s.fault_kinds = {"clock-jitter", "clock-late", "clock-zero", "clock-backwards", "clock-burst", "clock-jump", "process-restart"};
  s.state_measure = "operation x decade of the rotation per tick x direction of time x distance class";
  s.assumptions = {"velocities and periods are finite", "double-precision screw-motion reference with propagated single-precision bounds", "logarithms are asked below a half turn minus 0.0011 rad, the documented range"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 128;
  s.quick_runs = 400000;
  s.thorough_runs = 20000000;
  s.quick_secs = 25;
  return s;
}
}  // namespace sim
