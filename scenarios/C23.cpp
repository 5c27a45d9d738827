// C23: robots exchange poses as messages over a faulty network, with faulty clocks and a recorder.
#include <qi/clock.hpp>
#include <qi/geometry/geometry.hpp>
#include <qi/anymodule.hpp>
#include <almath/scenegraph/almathqigeometry.hpp>
#include <almath/scenegraph/qirostime.h>
#include <geometry_module/src/registration.cpp>
#include <algorithm>
#include <cstdio>
#include <limits>
#include "sim/core.h"
#include "sim/se3.h"
using namespace sim;
namespace qg = qi::geometry;
namespace am = AL::Math;

namespace {
// MOVE k x y th                  robot k moves on the floor
// TURN k angle u3 scale x y z    robot k moves in space, turning about scale*u
// SEND k j fate                  robot k sends its pose: 0 normal, 1 lost, 2 twice, 3 held, 4 ahead
// DELIVER n                      the network hands over up to n messages
// CLOCK k how v                  clock of robot k: 0 runs, 1 jumps, 2 far past, 3 far future, 4 edges
// RELATIVE k j                   pose of j seen from k
// ALM k                          through the single-precision types and back
// SCALE k s                      quaternion of robot k, scaled, then normalised
// NEAR k size dir eps            is a moved pose near
// PRINT k
// CRASH k                        robot k forgets everything but its recording
enum { MOVE, TURN, SEND, DELIVER, CLOCK, RELATIVE, ALM, SCALE, NEAR, PRINT, CRASH };
const int NR = 3;
typedef long long i64;
typedef __int128 i128;

se3::Tf of(const qg::Transform &t) {
  se3::Tf r;
  r.r = se3::rot_of_quat(t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z);
  r.p = se3::V3(t.translation.x, t.translation.y, t.translation.z);
  return r;
}
double len(const qg::Quaternion &q) { return std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w); }
std::string show(const qg::Transform &t) {
  return cat("[", t.rotation.x, " ", t.rotation.y, " ", t.rotation.z, " ", t.rotation.w, " | ", t.translation.x, " ", t.translation.y, " ", t.translation.z, "]");
}
bool same(const qg::Transform &a, const qg::Transform &b) {
  const double x[7] = {a.rotation.x, a.rotation.y, a.rotation.z, a.rotation.w, a.translation.x, a.translation.y, a.translation.z};
  const double y[7] = {b.rotation.x, b.rotation.y, b.rotation.z, b.rotation.w, b.translation.x, b.translation.y, b.translation.z};
  for (int i = 0; i < 7; ++i)
    if (!(x[i] == y[i])) return false;
  return true;
}
const i64 ROS_MAX = 4294967295ll * 1000000000ll + 999999999ll;
i64 clipped(i64 ns) { return ns < 1 ? 1 : ns > ROS_MAX ? ROS_MAX : ns; }

struct Message {
  int from = 0;
  qg::Transform pose;
  i64 ns = 0;
};
struct Entry {  // what the recorder keeps
  int from;
  ros::Time t;
  qg::Transform pose;
  i64 ns;  // the model's
};
struct Robot {
  qg::Transform pose{{0, 0, 0, 1}, {0, 0, 0}};
  i64 ns = 1500000000ll * 1000000000ll;
  std::vector<Entry> bag;
  bool known[NR] = {false, false, false};
  qg::Transform seen[NR];
  i64 seen_ns[NR] = {0, 0, 0};
};
const qi::ModuleBuilder &module(Ctx &c) {
  static const qi::ModuleBuilder m = [] {
    qi::ModuleBuilder b;
    auto it = qi::registered_modules().find("geometry_module");
    if (it != qi::registered_modules().end()) it->second(&b);
    return b;
  }();
  static const char *const names[] = {"makeVector3", "makeQuaternion", "makeQuaternionFromAngleAxis", "makeTransform", "inverse", "multiply", "norm", "normalized"};
  for (const char *n : names)
    if (!m.methods.count(n)) c.fail("module", cat("the module does not offer ", n));
  return m;
}

void near(Ctx &c, const char *cls, const qg::Transform &got, const se3::Tf &want, double rt, double pt, const std::string &what) {
  se3::Tf g = of(got);
  double dr = se3::rdist(g.r, want.r), dp = (g.p - want.p).norm(), n = std::fabs(len(got.rotation) - 1);
  if (!(dr <= rt) || !(dp <= pt)) c.fail(cls, cat(what, " gave ", show(got), ": rotation off by ", dr, " (", rt, "), position off by ", dp, " (", pt, ")"));
  if (!(n <= 1e-5)) c.fail("not-unit", cat(what, " gave a quaternion of norm ", len(got.rotation)));
}

// product of two poses, as a remote caller and as a local one
qg::Transform times(Ctx &c, const qg::Transform &a, const qg::Transform &b) {
  const qg::Transform a0 = a, b0 = b;
  qg::Transform r = module(c).call<qg::Transform>("multiply", a, b), l = a * b;
  c.check(same(r, l), "module", "multiply is not the product");
  c.check(same(a, a0) && same(b, b0), "argument-changed", "product");
  const double slack = 4 * std::fabs(len(a.rotation) - 1) + 1e-14, size = 1 + of(a).p.norm() + of(b).p.norm();
  near(c, "product", r, of(a) * of(b), 1e-13, (slack + 1e-14) * 4 * size, cat("product of ", show(a), " and ", show(b)));
  // as matrices
  Eigen::Matrix4d m = qg::toEigenAffine3d(b).matrix();
  se3::Tf t = of(b);
  const double e = 8 * std::fabs(len(b.rotation) - 1) + 1e-13;
  const double p[3] = {t.p.x, t.p.y, t.p.z};
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) c.check(std::fabs(m(i, j) - t.r.m[i][j]) <= e, "matrix", "rotation of the matrix of " + show(b));
    c.check(m(i, 3) == p[i], "matrix", "position of the matrix of " + show(b));
    c.check(m(3, i) == 0 && m(3, 3) == 1, "matrix", "last row");
  }
  return r;
}
qg::Transform invert(Ctx &c, const qg::Transform &a) {
  const qg::Transform a0 = a;
  qg::Transform r = module(c).call<qg::Transform>("inverse", a), l = qg::inverse(a);
  c.check(same(r, l), "module", "inverse is another function");
  c.check(same(a, a0), "argument-changed", "inverse");
  const double slack = 8 * std::fabs(len(a.rotation) - 1) + 1e-13, size = 1 + of(a).p.norm();
  near(c, "inverse", r, se3::tinv(of(a)), slack, slack * 4 * size, "inverse of " + show(a));
  return r;
}
qg::Transform planar(Ctx &c, double x, double y, double th) {
  const am::Pose2D p((float)x, (float)y, (float)th), p0 = p;
  qg::Transform t = am::qiTransformFromPose2D(p);
  c.check(same_bits(p.x, p0.x) && same_bits(p.y, p0.y) && same_bits(p.theta, p0.theta), "argument-changed", "pose");
  se3::Tf want;
  want.r = se3::axis_angle(p.theta, se3::V3(0, 0, 1));
  want.p = se3::V3(p.x, p.y, 0);
  near(c, "from-pose2d", t, want, 1e-6, 0, cat("planar pose (", p.x, " ", p.y, " ", p.theta, ")"));
  am::Pose2D back = am::pose2DFromQiTransform(t);
  double d = std::remainder((double)back.theta - p.theta, 2 * 3.14159265358979323846);
  if (!same_bits(back.x, p.x) || !same_bits(back.y, p.y) || !(std::fabs(d) < 2e-6))
    c.fail("pose2d-round-trip", cat("planar pose (", p.x, " ", p.y, " ", p.theta, ") came back as (", back.x, " ", back.y, " ", back.theta, ")"));
  return t;
}
ros::Time stamp(Ctx &c, i64 ns) {
  ros::Time t;
  Outcome o = attempt([&] { t = am::toValidRosTime(qi::Duration(ns)); });
  if (o != OK) c.fail("time", cat("duration ", ns, " ns: outcome ", o));
  const i64 want = clipped(ns);
  if (t.sec != (uint64_t)(want / 1000000000) || t.nsec != (uint64_t)(want % 1000000000))
    c.fail("time", cat("duration ", ns, " ns became ", t.sec, " s ", t.nsec, " ns"));
  if (t.isZero()) c.fail("time", "not a time");
  const i64 back = am::toQiDuration(t).count();
  if (back != want) c.fail("time-round-trip", cat("duration ", ns, " ns came back as ", back));
  if (want != ns) c.probe(ns < 1 ? "time before ROS's epoch" : "time after ROS's end");
  c.trace((u64)t.sec), c.trace((u64)t.nsec);
  return t;
}
void through_almath(Ctx &c, const qg::Transform &q) {
  const qg::Transform q0 = q;
  am::Transform t = am::transformFromQiTransform(q);
  c.check(same(q, q0), "argument-changed", "message");
  se3::Tf w = of(q), g = se3::of(t);
  const std::string in = "message " + show(q);
  if (!(se3::rdist(g.r, w.r) <= 1.5e-6 + 8 * std::fabs(len(q.rotation) - 1))) c.fail("to-almath", cat(in, ": rotation off by ", se3::rdist(g.r, w.r)));
  c.check(same_bits(t.r1_c4, (float)q.translation.x) && same_bits(t.r2_c4, (float)q.translation.y) && same_bits(t.r3_c4, (float)q.translation.z), "to-almath", in + ": position changed");
  const am::Transform t0 = t;
  qg::Transform back = am::qiTransformFromALMath(t);
  c.check(std::memcmp(&t, &t0, sizeof t) == 0, "argument-changed", "transform");
  near(c, "from-almath", back, g, 4e-6, 0, "transform of " + in);
  am::Pose2D p = am::pose2DFromQiTransform(q);
  c.check(same_bits(p.x, (float)q.translation.x) && same_bits(p.y, (float)q.translation.y), "to-pose2d", in + ": position changed");
  double pl = std::hypot(w.r.m[0][0], w.r.m[1][0]);
  if (pl > 1e-2) {
    double d = std::remainder((double)p.theta - std::atan2(w.r.m[1][0], w.r.m[0][0]), 2 * 3.14159265358979323846);
    if (!(std::fabs(d) < (3e-6 + 8 * std::fabs(len(q.rotation) - 1)) / pl)) c.fail("to-pose2d", cat(in, ": heading ", p.theta, " off by ", d));
  }
  c.trace(p.theta);
}

void send(Ctx &c, Robot *rb, std::vector<Message> &net, std::vector<std::pair<int, Message>> &held, int k, int j, int fate, std::vector<int> &to) {
  Message m;
  m.from = k, m.pose = rb[k].pose, m.ns = rb[k].ns;
  switch (fate) {
    case 1: c.fired("message-lost"); return;
    case 2: c.fired("message-repeated"); net.push_back(m), to.push_back(j); net.push_back(m), to.push_back(j); return;
    case 3: c.fired("message-held"); held.push_back({j, m}); return;
    case 4: c.fired("message-reordered"); net.insert(net.begin(), m), to.insert(to.begin(), j); return;
    default: net.push_back(m), to.push_back(j);
  }
}
void take(Ctx &c, Robot &r, const Entry &e) {
  const i64 t = clipped(e.ns);
  if (!r.known[e.from] || t >= r.seen_ns[e.from]) r.known[e.from] = true, r.seen[e.from] = e.pose, r.seen_ns[e.from] = t;
}
void deliver(Ctx &c, Robot &r, const Message &m) {
  Entry e{m.from, stamp(c, m.ns), m.pose, m.ns};
  for (const Entry &o : r.bag) {  // the recording is ordered as the clocks were
    const i64 a = clipped(o.ns), b = clipped(e.ns);
    if ((o.t < e.t) != (a < b) || (o.t == e.t) != (a == b)) c.fail("time-order", cat("times ", o.ns, " and ", e.ns, " ns are recorded in another order"));
  }
  r.bag.push_back(e);
  take(c, r, e);
}

Plan gen(Rng &r, int cfg) {
  Plan p;
  const bool faults = cfg == 1;
  const double amp = std::pow(10, r.uni(-2, 3));
  auto angle = [&]() -> double {
    switch (r.range(0, 5)) {
      case 0: return 0;
      case 1: return r.range(-4, 4) * 0.78539816339744831;
      case 2: return r.uni(-1, 1) * std::pow(10, r.uni(-7, 0));
      case 3: return (r.chance(0.5) ? 1 : -1) * (3.14159265358979323846 - std::pow(10, r.uni(-7, -1)));
      default: return r.uni(-7, 7);
    }
  };
  int n = r.range(5, 45);
  for (int i = 0; i < n; ++i) {
    const double k = r.range(0, NR - 1), j = r.range(0, NR - 1), x = r.u();
    Op o;
    if (x < 0.14) o = Op(MOVE, {k, amp * r.uni(-1, 1), amp * r.uni(-1, 1), angle()});
    else if (x < 0.30) {
      double u[3] = {r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)};
      if (r.chance(0.4)) { int q = r.range(0, 2); for (int z = 0; z < 3; ++z) u[z] = z == q ? (r.chance(0.5) ? 1 : -1) : 0; }
      o = Op(TURN, {k, angle(), u[0], u[1], u[2], r.chance(0.5) ? 1 : std::pow(10, r.uni(-3, 3)), amp * r.uni(-1, 1), amp * r.uni(-1, 1), amp * r.uni(-1, 1)});
    } else if (x < 0.5) o = Op(SEND, {k, j, faults ? (double)r.range(0, 6) : 0});
    else if (x < 0.62) o = Op(DELIVER, {(double)r.range(1, 4)});
    else if (x < 0.72) o = Op(CLOCK, {k, faults ? (double)r.range(0, 4) : 0, std::floor(std::pow(10, r.uni(0, 15))) * (faults && r.chance(0.5) ? -1 : 1)});
    else if (x < 0.78) o = Op(RELATIVE, {k, j});
    else if (x < 0.85) o = Op(ALM, {k});
    else if (x < 0.9) o = Op(SCALE, {k, (r.chance(0.5) ? 1 : -1) * std::pow(10, r.chance(0.3) ? r.uni(-1e-4, 1e-4) : r.uni(-3, 3)), std::pow(10, r.uni(-7, -1))});
    else if (x < 0.95) o = Op(NEAR, {k, std::pow(10, r.uni(-6, 1)), (double)r.range(0, 3), std::pow(10, r.uni(-6, 0.5))});
    else if (x < 0.98 || !faults) o = Op(PRINT, {k});
    else o = Op(CRASH, {k});
    p.ops.push_back(o);
  }
  return p;
}

std::string g6(double v) {
  char b[40];
  std::snprintf(b, sizeof b, "%g", v);
  return b;
}
std::string text(const qg::Vector3 &v) { return "Vector3(" + g6(v.x) + ", " + g6(v.y) + ", " + g6(v.z) + ")"; }
std::string text(const qg::Quaternion &q) { return "Quaternion(" + g6(q.x) + ", " + g6(q.y) + ", " + g6(q.z) + ", " + g6(q.w) + ")"; }

void exec(const Plan &p, Ctx &c) {
  Robot rb[NR];
  std::vector<Message> net;
  std::vector<int> to;
  std::vector<std::pair<int, Message>> held;
  int sent = 0, moved = 0;
  auto hand_over = [&](int n) {
    for (int q = 0; q < n && !net.empty(); ++q) {
      Message m = net.front();
      int j = to.front();
      net.erase(net.begin()), to.erase(to.begin());
      deliver(c, rb[j], m);
    }
  };
  const qi::ModuleBuilder &mod = module(c);
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &o = p.ops[i];
    c.op_index = (int)i;
    const int k = (int)o.idx(0, NR);
    Robot &r = rb[k];
    switch (o.code) {
      case MOVE:
        r.pose = times(c, r.pose, planar(c, o.flt(1), o.flt(2), o.flt(3)));
        ++moved;
        break;
      case TURN: {
        double s = std::fabs(o.num(5, 1));
        if (!(s > 1e-4 && s < 1e4)) s = 1;
        se3::V3 u(o.num(2) * s, o.num(3) * s, o.num(4) * s);
        const double a = o.num(1), n = u.norm();
        if (!(n > 1e-6)) break;
        qg::Vector3 ax = mod.call<qg::Vector3>("makeVector3", u.x, u.y, u.z), tr = qg::makeVector3(o.num(6), o.num(7), o.num(8));
        c.check(ax.x == u.x && ax.y == u.y && ax.z == u.z && tr.x == o.num(6) && tr.y == o.num(7) && tr.z == o.num(8), "fields", "makeVector3");
        qg::Quaternion q = mod.call<qg::Quaternion>("makeQuaternionFromAngleAxis", a, ax), l = qg::makeQuaternionFromAngleAxis(a, ax);
        c.check(q.x == l.x && q.y == l.y && q.z == l.z && q.w == l.w, "module", "makeQuaternionFromAngleAxis");
        const double sn = std::sin(a / 2) / n, e = 1e-13;
        if (!(std::fabs(q.w - std::cos(a / 2)) < e && std::fabs(q.x - sn * u.x) < e && std::fabs(q.y - sn * u.y) < e && std::fabs(q.z - sn * u.z) < e))
          c.fail("angle-axis", cat("angle ", a, " about (", u.x, " ", u.y, " ", u.z, ") gave ", text(q)));
        qg::Quaternion q2 = mod.call<qg::Quaternion>("makeQuaternion", q.x, q.y, q.z, q.w);
        c.check(q2.x == q.x && q2.y == q.y && q2.z == q.z && q2.w == q.w, "fields", "makeQuaternion");
        qg::Transform t = mod.call<qg::Transform>("makeTransform", q2, tr);
        c.check(same(t, qg::Transform{q, tr}), "fields", "makeTransform");
        r.pose = times(c, r.pose, t);
        ++moved;
        break;
      }
      case SEND:
        send(c, rb, net, held, k, (int)o.idx(1, NR), (int)o.idx(2, 7), to);
        ++sent;
        break;
      case DELIVER: hand_over((int)std::max<i64>(1, std::min<i64>(8, o.i(0)))); break;
      case CLOCK: {
        const i64 v = o.i(2);
        const i128 lo = std::numeric_limits<i64>::min(), hi = std::numeric_limits<i64>::max();
        i128 t = (i128)r.ns + v;
        switch (o.idx(1, 5)) {
          case 1: c.fired("clock-jump"); t = (i128)r.ns + (i128)v * 1000; break;
          case 2: c.fired("clock-far-past"); t = lo + (v < 0 ? -(i128)v : (i128)v) % 1000; break;
          case 3: c.fired("clock-far-future"); t = hi - (v < 0 ? -(i128)v : (i128)v) % 1000; break;
          case 4: c.fired("clock-at-an-edge"); t = (v % 2 ? (i128)ROS_MAX : (i128)0) + (v / 2) % 4; break;
          default: c.simtime(std::fabs((double)v) * 1e-9); break;
        }
        r.ns = (i64)(t < lo ? lo : t > hi ? hi : t);
        c.state(mix((u64)o.idx(1, 5), mix(r.ns < 1, r.ns > ROS_MAX)));
        break;
      }
      case RELATIVE: {
        Robot &s = rb[o.idx(1, NR)];
        qg::Transform d = times(c, invert(c, r.pose), s.pose), b = times(c, r.pose, d);
        se3::Tf g = of(b), w = of(s.pose);
        const double e = 1e-12 + 40 * (std::fabs(len(r.pose.rotation) - 1) + std::fabs(len(s.pose.rotation) - 1));
        if (!(se3::rdist(g.r, w.r) < e) || !((g.p - w.p).norm() < e * (1 + w.p.norm() + of(r.pose).p.norm()))) c.fail("relative", "the relative pose does not lead back");
        break;
      }
      case ALM: through_almath(c, r.pose); break;
      case SCALE: {
        double s = o.num(1, 1), eps = std::fabs(o.num(2, 1e-5));
        if (!(std::fabs(s) > 1e-4 && std::fabs(s) < 1e4)) s = 2;
        const double n0 = len(r.pose.rotation);
        qg::Quaternion q = {r.pose.rotation.x * s, r.pose.rotation.y * s, r.pose.rotation.z * s, r.pose.rotation.w * s}, q0 = q;
        const double n = len(q), m = mod.call<double>("norm", q);
        if (!(std::fabs(m - n) < 1e-13 * n) || m != qg::norm(q)) c.fail("norm", cat("norm of ", text(q), " is ", m));
        const double off = std::fabs(n - 1);
        bool is = qg::isNormalized(q, eps);
        if (is != (off < eps) && std::fabs(off - eps) > 1e-12) c.fail("is-normalized", cat("norm ", n, " with tolerance ", eps, ": ", is));
        qg::Quaternion u = mod.call<qg::Quaternion>("normalized", q), v = q;
        qg::normalize(v);
        c.check(q.x == q0.x && q.y == q0.y && q.z == q0.z && q.w == q0.w, "argument-changed", "normalized");
        c.check(u.x == v.x && u.y == v.y && u.z == v.z && u.w == v.w, "normalized", "normalize and normalized differ");
        const double e = 1e-13;
        if (!(std::fabs(u.x - q.x / n) < e && std::fabs(u.y - q.y / n) < e && std::fabs(u.z - q.z / n) < e && std::fabs(u.w - q.w / n) < e))
          c.fail("normalized", cat(text(q), " normalised is ", text(u)));
        (void)n0;
        r.pose.rotation = u;  // the opposite quaternion when scaled by a negative number: the same pose
        break;
      }
      case NEAR: {
        const double size = std::fabs(o.num(1)), eps = std::max(1e-9, std::fabs(o.num(3, 1e-3)));
        qg::Transform b = r.pose;
        (o.idx(2, 3) == 0 ? b.translation.x : o.idx(2, 3) == 1 ? b.translation.y : b.translation.z) += size;
        if (o.idx(2, 4) == 3) {
          b.rotation = qg::Quaternion{-b.rotation.x, -b.rotation.y, -b.rotation.z, -b.rotation.w};
          b.translation = r.pose.translation;
        }
        // relative distance between the two matrices
        const se3::Tf A = of(r.pose), B = of(b);
        const double d = (A.p - B.p).norm(), na = std::sqrt(4 + A.p.norm() * A.p.norm()), nb = std::sqrt(4 + B.p.norm() * B.p.norm());
        const double rel = d / std::min(na, nb), slack = 1e-6 * rel + 1e-12;
        const bool ab = qg::isNear(r.pose, b, eps), ba = qg::isNear(b, r.pose, eps);
        if (std::fabs(rel - eps) > slack + 1e-3 * eps) {
          if (ab != (rel < eps)) c.fail("near", cat(show(r.pose), " and ", show(b), " differ by ", rel, ", tolerance ", eps, ": near is ", ab));
          if (ab != ba) c.fail("near", "nearness depends on the order");
        }
        c.probe(ab ? "near poses" : "distant poses");
        break;
      }
      case PRINT: {
        std::ostringstream os;
        os << r.pose << ' ' << 7;
        const std::string want = "Transform(" + text(r.pose.rotation) + ", " + text(r.pose.translation) + ") 7";
        if (os.str() != want) c.fail("text", cat("printed ", os.str(), " expected ", want));
        break;
      }
      case CRASH: {
        c.fired("process-restart");
        std::vector<Entry> bag = r.bag;
        bool known[NR];
        qg::Transform seen[NR];
        i64 seen_ns[NR];
        for (int q = 0; q < NR; ++q) known[q] = r.known[q], seen[q] = r.seen[q], seen_ns[q] = r.seen_ns[q], r.known[q] = false;
        // the recording is read back in its own order
        std::stable_sort(bag.begin(), bag.end(), [](const Entry &a, const Entry &b) { return a.t < b.t; });
        for (Entry &e : bag) {
          e.ns = am::toQiDuration(e.t).count();
          take(c, r, e);
        }
        for (int q = 0; q < NR; ++q) {
          if (known[q] != r.known[q]) c.fail("recording", "a robot was forgotten");
          if (known[q] && (seen_ns[q] != r.seen_ns[q] || !same(seen[q], r.seen[q]))) c.fail("recording", cat("the last pose of robot ", q, " is at ", r.seen_ns[q], " instead of ", seen_ns[q]));
        }
        break;
      }
    }
    c.trace(r.pose.translation.x), c.trace(r.pose.rotation.w);
  }
  // faults stop: everybody sends, and the robots agree on where they are
  c.op_index = (int)p.ops.size();
  for (auto &h : held) net.push_back(h.second), to.push_back(h.first);
  for (int k = 0; k < NR; ++k) rb[k].ns = ROS_MAX;  // nobody has sent anything later
  for (int k = 0; k < NR; ++k)
    for (int j = 0; j < NR; ++j) send(c, rb, net, held, k, j, 0, to);
  hand_over((int)net.size());
  for (int k = 0; k < NR; ++k)
    for (int j = 0; j < NR; ++j) c.check(rb[k].known[j] && same(rb[k].seen[j], rb[j].pose), "progress", cat("robot ", k, " does not know where robot ", j, " is"));
  qg::Transform loop{{0, 0, 0, 1}, {0, 0, 0}};
  double size = 1, off = 0;
  for (int k = 0; k < NR; ++k) {
    const qg::Transform &a = rb[0].seen[k], &b = rb[0].seen[(k + 1) % NR];
    loop = times(c, loop, times(c, invert(c, a), b));
    size += of(a).p.norm(), off += std::fabs(len(a.rotation) - 1);
  }
  se3::Tf g = of(loop);
  if (!(se3::rdist(g.r, se3::Rot()) < 1e-12 + 100 * off) || !(g.p.norm() < (1e-12 + 100 * off) * size)) c.fail("loop", cat("going round all the robots ends at ", show(loop)));
  if (sent >= 1 && moved >= 1) c.nontrivial();
}
}  // namespace

namespace sim {
Scenario make_scenario() {
  Scenario s;
  s.id = "C23";
  s.rule =
      "One case is three robots moving, sending their poses (lost, repeated, held back, reordered messages) with clocks that "
      "jump over the whole 64-bit range, a recorder in ROS time and restarts from the recording; non-trivial when a robot "
      "moved and a message was sent; distinct by hash of poses and times.";
  s.real = {"qi::geometry helpers (qigeometry.h)", "almathqigeometry.hpp", "qirostime.h", "geometry_module/src/registration.cpp"};
  s.stub = {"libqi's duration type, module registry and generated structures", "ros::Time", "network", "clocks"};
  s.configs = {"fault-free", "network, clock and restart faults"};
  s.fault_kinds = {"message-lost", "message-repeated", "message-held", "message-reordered", "clock-jump", "clock-far-past", "clock-far-future", "clock-at-an-edge", "process-restart"};
  s.state_measure = "kind of clock step x side of the ROS range";
  s.assumptions = {"the stand-ins of libqi and roscpp types behave as documented (64-bit signed nanoseconds; two 32-bit counters)"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 64;
  s.quick_runs = 60000;
  s.thorough_runs = 3000000;
  s.quick_secs = 30;
  return s;
}
}  // namespace sim
