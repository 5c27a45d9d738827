// C17: a register file of geometric values driven by chained, in-place and
// aliased operations.  Before each operation the whole file is snapshotted;
// the expected result is computed in double precision from the snapshot, and
// everything that is not a declared result must keep its exact bits.
#include <almath/tools/almath.h>
#include <almath/tools/altransformhelpers.h>
#include <almath/geometrics/shapes3d_utils.h>
#include <almath/scenegraph/almatheigen.h>
#include <almath/types/alaxismask.h>
#include <almath/types/aldisplacement.h>
#include <almath/types/alpositionandvelocity.h>
#include <almath/types/altransformandvelocity6d.h>
#include <almath/types/alvelocity3d.h>
#include <type_traits>
#include "sim/core.h"
#include "sim/se3.h"
using namespace sim;
using namespace AL::Math;

namespace {
// LOAD ty d values...          LIN ty how d a b k       CMP ty a k comp factor
// COMPOSE ty how d a b         INVERT ty how d a b      FRAME how d a b
// APPLY how d a b              CONVERT how d a          AXIS how d a angle scale
// NORMALISE ty how d           METRIC ty a b            VECTOR ty d a
// PREDICATE ty a noise eps     PROJECT how d axis angle strict
// OTHER how d a b number option registers...
enum { LOAD, LIN, CMP, COMPOSE, INVERT, FRAME, APPLY, CONVERT, AXIS, NORMALISE, METRIC, VECTOR, PREDICATE, PROJECT, OTHER };
enum { tP2, tP3, tP6, tPO, tV3, tV6, tR3, tQ, tR, tT, tD, NTY };
const char *const NAMES[] = {"Position2D", "Position3D", "Position6D", "Pose2D", "Velocity3D", "Velocity6D", "Rotation3D", "Quaternion", "Rotation", "Transform", "Displacement"};
const int N = 3;
const double EPS = 1.2e-7, PI_ = 3.14159265358979323846;

struct Regs {
  Position2D p2[N];
  Position3D p3[N];
  Position6D p6[N];
  Pose2D po[N];
  Velocity3D v3[N];
  Velocity6D v6[N];
  Rotation3D r3[N];
  Quaternion q[N];
  Rotation r[N];
  Transform t[N];
  Displacement d[N];
  Regs() {}
};
template <class T>
constexpr size_t dim() {
  return sizeof(T) / sizeof(float);
}
template <class T>
float *fl(T &t) {
  return reinterpret_cast<float *>(&t);
}
template <class T>
const float *fl(const T &t) {
  return reinterpret_cast<const float *>(&t);
}
template <class T>
std::vector<double> dv(const T &t) {
  return std::vector<double>(fl(t), fl(t) + dim<T>());
}
template <class T>
std::string show(const T &t) {
  std::string s = "(";
  for (size_t i = 0; i < dim<T>(); ++i) s += cat(i ? " " : "", fl(t)[i]);
  return s + ")";
}
template <class F>
void with_vec(Regs &g, int ty, F f) {
  switch (ty) {
    case tP2: return f(g.p2);
    case tP3: return f(g.p3);
    case tP6: return f(g.p6);
    case tPO: return f(g.po);
    case tV3: return f(g.v3);
    case tV6: return f(g.v6);
    case tR3: return f(g.r3);
    default: return f(g.q);
  }
}
template <class F>
void with_any(Regs &g, int ty, F f) {
  switch (ty) {
    case tR: return f(g.r);
    case tT: return f(g.t);
    case tD: return f(g.d);
    default: return with_vec(g, ty, f);
  }
}
// detection of the operations a type offers
template <class...>
using void_tt = void;
#define HAS(name, expr)                                                        \
  template <class T, class = void>                                             \
  struct name : std::false_type {};                                            \
  template <class T>                                                           \
  struct name<T, void_tt<decltype(expr)>> : std::true_type {};
HAS(has_add, std::declval<T>() + std::declval<T>())
HAS(has_adda, std::declval<T &>() += std::declval<T>())
HAS(has_neg, -std::declval<T>())
HAS(has_norm, std::declval<T>().norm())
HAS(has_normalize, std::declval<T>().normalize())
HAS(has_dist, std::declval<T>().distance(std::declval<T>()))
HAS(has_dot, std::declval<T>().dotProduct(std::declval<T>()))
template <class T, class = void>
struct has_lmul : std::false_type {};
template <class T>
struct has_lmul<T, typename std::enable_if<std::is_same<decltype(2.0f * std::declval<T>()), T>::value>::type> : std::true_type {};

struct W {
  Ctx &c;
  Regs g, snap;
  std::vector<std::pair<const void *, size_t>> dst;  // what this operation may change
  std::string what;
  explicit W(Ctx &x) : c(x) {}
  template <class T>
  void target(T &t) {
    dst.push_back(std::make_pair((const void *)&t, sizeof(T)));
  }
  void sync() { std::memcpy(static_cast<void *>(&snap), static_cast<void *>(&g), sizeof g); }
  void untouched() {
    const char *a = (const char *)&g, *b = (const char *)&snap;
    for (size_t i = 0; i < sizeof g; i += 4) {
      bool ok = false;
      for (auto &d : dst) ok = ok || (a + i >= (const char *)d.first && a + i < (const char *)d.first + d.second);
      if (!ok && std::memcmp(a + i, b + i, 4)) {
        float x, y;
        std::memcpy(&x, a + i, 4), std::memcpy(&y, b + i, 4);
        c.fail("operand-changed", cat(what, " changed a value that is not its result, from ", y, " to ", x));
      }
    }
  }
  void eq(double got, double want, double mag, const char *cls = "wrong-value") {
    double tol = 24 * EPS * mag + 1e-37;
    if (!close(got, want, tol)) c.fail(cls, cat(what, " gave ", got, " instead of ", want));
  }
  template <class T>
  void vec(const T &got, const std::vector<double> &want, const std::vector<double> &mag, const char *cls = "wrong-value") {
    for (size_t i = 0; i < dim<T>(); ++i)
      if (!close(fl(got)[i], want[i], 24 * EPS * mag[i] + 1e-37))
        c.fail(cls, cat(what, " gave ", show(got), ": component ", i, " should be ", want[i]));
  }
  void rot(const se3::Rot &got, const se3::Rot &want, double tol, const char *cls = "wrong-rotation") {
    double d = se3::rdist(got, want);
    if (!(d <= tol)) c.fail(cls, cat(what, ": rotation off by ", d, " (tolerance ", tol, ")"));
  }
  void pos(se3::V3 got, se3::V3 want, double mag) {
    eq(got.x, want.x, mag);
    eq(got.y, want.y, mag);
    eq(got.z, want.z, mag);
  }
  // An operation that has to be refused: it throws and changes nothing.
  template <class F>
  void refuse(const char *kind, F f) {
    dst.clear();
    std::string e;
    Outcome o = attempt(f, &e);
    c.fired(kind);
    if (o != THROWN) c.fail("not-refused", cat(what, " was not refused"));
    untouched();
    c.rejected(kind);
  }
};
std::vector<double> absv(std::vector<double> v) {
  for (double &x : v) x = std::fabs(x);
  return v;
}
double sumabs(const se3::V3 &v) { return std::fabs(v.x) + std::fabs(v.y) + std::fabs(v.z); }
double qn2(const Quaternion &q) { return (double)q.w * q.w + (double)q.x * q.x + (double)q.y * q.y + (double)q.z * q.z; }
bool unitq(const Quaternion &q) { return std::fabs(std::sqrt(qn2(q)) - 1) < 1e-4; }
std::vector<double> qmul(const Quaternion &a, const Quaternion &b) {
  double w = a.w, x = a.x, y = a.y, z = a.z, W = b.w, X = b.x, Y = b.y, Z = b.z;
  return {w * W - x * X - y * Y - z * Z, w * X + x * W + y * Z - z * Y, w * Y - x * Z + y * W + z * X, w * Z + x * Y - y * X + z * W};
}
se3::V3 qrot(const Quaternion &q, se3::V3 v) {  // q v q*, scaled by |q|^2
  double n = qn2(q);
  if (n == 0) return se3::V3();
  return n * (se3::rot_of(q) * v);
}
se3::V3 v3of(const Velocity3D &v) { return se3::V3(v.xd, v.yd, v.zd); }
se3::Rot rpy(double x, double y, double z) { return se3::rot_rpy(x, y, z); }
void from_rot(Rotation &o, const se3::Rot &r) {
  float *f = fl(o);
  for (int i = 0; i < 9; ++i) f[i] = (float)r.m[i / 3][i % 3];
}
void from_tf(Transform &o, const se3::Tf &t) {
  float *f = fl(o);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) f[4 * i + j] = (float)t.r.m[i][j];
  o.r1_c4 = (float)t.p.x, o.r2_c4 = (float)t.p.y, o.r3_c4 = (float)t.p.z;
}
double wildness(const Regs &g) {  // largest magnitude in the file
  double m = 0;
  const float *f = (const float *)&g;
  for (size_t i = 0; i < sizeof g / 4; ++i) {
    double a = std::fabs(f[i]);
    if (!(a <= m)) m = a;
  }
  return m;
}

// ---- operations -----------------------------------------------------------
// n: ty d, then: rotation vector (3), position (3), scale
void load(W &w, const Op &o) {
  int ty = o.idx(0, NTY);
  size_t d = o.idx(1, N);
  se3::V3 rv(o.num(2), o.num(3), o.num(4));
  se3::V3 p(o.num(5), o.num(6), o.num(7));
  double k = o.num(8, 1);
  w.what = cat("loading a ", NAMES[ty]);
  switch (ty) {
    case tR:
      w.target(w.g.r[d]);
      from_rot(w.g.r[d], se3::rexp(rv));
      break;
    case tT: {
      w.target(w.g.t[d]);
      se3::Tf t;
      t.r = se3::rexp(rv), t.p = p;
      from_tf(w.g.t[d], t);
      break;
    }
    case tQ:
    case tD: {
      double th = rv.norm(), s = th > 0 ? std::sin(th / 2) / th : 0.5;
      Quaternion q((float)(k * std::cos(th / 2)), (float)(k * s * rv.x), (float)(k * s * rv.y), (float)(k * s * rv.z));
      if (ty == tQ) {
        w.target(w.g.q[d]);
        w.g.q[d] = q;
      } else {
        w.target(w.g.d[d]);
        w.g.d[d] = Displacement(Position3D((float)p.x, (float)p.y, (float)p.z), q);
      }
      break;
    }
    default: {
      const double v[6] = {p.x, p.y, p.z, rv.x, rv.y, rv.z};
      with_vec(w.g, ty, [&](auto &a) {
        w.target(a[d]);
        for (size_t i = 0; i < dim<decltype(a[0])>() && i < 6; ++i) fl(a[d])[i] = (float)v[i];
      });
      if (ty == tR3) fl(w.g.r3[d])[0] = (float)rv.x, fl(w.g.r3[d])[1] = (float)rv.y, fl(w.g.r3[d])[2] = (float)rv.z;
      if (ty == tPO) w.g.po[d].theta = (float)rv.z;
    }
  }
}

void lin(W &w, const Op &o) {
  int ty = o.idx(0, tQ + 1), how = (int)o.idx(1, 12);
  size_t d = o.idx(2, N), a = o.idx(3, N), b = o.idx(4, N);
  float k = o.flt(5);
  with_vec(w.g, ty, [&](auto &R) {
    typedef typename std::remove_reference<decltype(R[0])>::type T;
    const size_t n = dim<T>();
    auto A = dv(R[a]), B = dv(R[b]), D = dv(R[d]);
    std::vector<double> want(n), mag(n);
    auto sum = [&](const std::vector<double> &x, const std::vector<double> &y, double s) {
      for (size_t i = 0; i < n; ++i) want[i] = x[i] + s * y[i], mag[i] = std::fabs(x[i]) + std::fabs(y[i]);
    };
    auto scale = [&](const std::vector<double> &x, double s) {
      for (size_t i = 0; i < n; ++i) want[i] = x[i] * s, mag[i] = std::fabs(x[i] * s);
    };
    w.target(R[d]);
    // scaling by one of the value's own components exercises operand order
    float own = fl(R[d])[o.idx(6, n)];
    switch (how) {
      case 0:
        if constexpr (has_add<T>::value) {
          w.what = cat(NAMES[ty], " +");
          sum(A, B, 1);
          R[d] = R[a] + R[b];
          w.vec(R[d], want, mag);
        }
        break;
      case 1:
        if constexpr (has_add<T>::value) {
          w.what = cat(NAMES[ty], " -");
          sum(A, B, -1);
          R[d] = R[a] - R[b];
          w.vec(R[d], want, mag);
        }
        break;
      case 2:
        if constexpr (has_adda<T>::value) {
          w.what = cat(NAMES[ty], " += ", d == a ? "itself" : "");
          sum(D, A, 1);
          T &ret = (R[d] += R[a]);
          if (&ret != &R[d]) w.c.fail("chaining", w.what + " does not return its left operand");
          w.vec(R[d], want, mag);
        }
        break;
      case 3:
        if constexpr (has_adda<T>::value) {
          w.what = cat(NAMES[ty], " -= ", d == a ? "itself" : "");
          sum(D, A, -1);
          T &ret = (R[d] -= R[a]);
          if (&ret != &R[d]) w.c.fail("chaining", w.what + " does not return its left operand");
          w.vec(R[d], want, mag);
        }
        break;
      case 4:
        if constexpr (has_neg<T>::value) {
          w.what = cat("unary - of ", NAMES[ty]);
          scale(A, -1);
          R[d] = -R[a];
          w.vec(R[d], want, std::vector<double>(n, 0));
          w.what = cat("unary + of ", NAMES[ty]);
          R[d] = +R[d];
          w.vec(R[d], want, std::vector<double>(n, 0));
        }
        break;
      case 5:
        w.what = cat(NAMES[ty], " * scalar");
        scale(A, k);
        R[d] = R[a] * k;
        w.vec(R[d], want, mag);
        break;
      case 6:
        if constexpr (has_lmul<T>::value) {
          w.what = cat("scalar * ", NAMES[ty]);
          scale(A, k);
          R[d] = k * R[a];
          w.vec(R[d], want, mag);
        }
        break;
      case 7: {
        w.what = cat(NAMES[ty], " *= scalar");
        scale(D, k);
        T &ret = (R[d] *= k);
        if (&ret != &R[d]) w.c.fail("chaining", w.what + " does not return its left operand");
        w.vec(R[d], want, mag);
        break;
      }
      case 8: {
        if (std::fabs(own) > 100) break;
        w.what = cat(NAMES[ty], " *= its own component");
        scale(D, own);
        R[d] *= fl(R[d])[o.idx(6, n)];
        w.vec(R[d], want, mag);
        break;
      }
      case 9:
        w.what = cat(NAMES[ty], " / scalar");
        if (k == 0) return w.refuse("division-by-zero", [&] { R[d] = R[a] / k; });
        scale(A, 1.0 / k);
        R[d] = R[a] / k;
        w.vec(R[d], want, mag);
        break;
      case 10: {
        w.what = cat(NAMES[ty], " /= scalar");
        if (k == 0) return w.refuse("division-by-zero", [&] { R[d] /= k; });
        scale(D, 1.0 / k);
        T &ret = (R[d] /= k);
        if (&ret != &R[d]) w.c.fail("chaining", w.what + " does not return its left operand");
        w.vec(R[d], want, mag);
        break;
      }
      default: {
        if (std::fabs(own) < 1e-2) break;
        w.what = cat(NAMES[ty], " /= its own component");
        scale(D, 1.0 / own);
        R[d] /= fl(R[d])[o.idx(6, n)];
        w.vec(R[d], want, mag);
      }
    }
  });
}

// comparison: a copy of a value with one component moved by factor*eps
void cmp(W &w, const Op &o) {
  int ty = o.idx(0, NTY);
  size_t a = o.idx(1, N), b = o.idx(2, N);
  float eps = o.flt(4, 1e-3f);
  double f = o.num(5);
  with_any(w.g, ty, [&](auto &R) {
    typedef typename std::remove_reference<decltype(R[0])>::type T;
    const size_t n = dim<T>();
    size_t k = o.idx(3, n);
    w.what = cat("comparison of ", NAMES[ty]);
    const float none = std::numeric_limits<float>::quiet_NaN();
    T x = R[a], y = R[a];
    (void)none;
    if (!x.isNear(y, eps) || !R[a].isNear(R[a], eps)) w.c.fail("comparison", cat(w.what, ": a copy is not near the original ", show(x)));
    if constexpr (!std::is_same<T, Displacement>::value) {
      if (!(x == y) || x != y) w.c.fail("comparison", cat(w.what, ": a copy differs from the original ", show(x)));
      bool same = true;
      for (size_t i = 0; i < n; ++i) same = same && fl(R[a])[i] == fl(R[b])[i];
      if ((R[a] == R[b]) != same || (R[a] != R[b]) == same || (R[b] == R[a]) != same)
        w.c.fail("comparison", cat(w.what, ": ", show(R[a]), " and ", show(R[b])));
    }
    fl(y)[k] += (float)(f * eps);
    double diff = std::fabs((double)fl(y)[k] - fl(x)[k]);
    if constexpr (!std::is_same<T, Displacement>::value) {
      bool differs = fl(y)[k] != fl(x)[k];
      if ((x == y) == differs || (x != y) != differs)
        w.c.fail("comparison", cat(w.what, ": ", show(x), (x == y) ? " == " : " != ", show(y)));
    }
    double slop = EPS * (std::fabs(fl(x)[k]) + eps) * 2;
    bool opposite = false;  // a quaternion may be near the opposite of the other
    if (ty == tQ) {
      opposite = true;
      for (size_t i = 0; i < n; ++i) opposite = opposite && std::fabs((double)fl(x)[i] + fl(y)[i]) <= eps * 1.01;
    }
    if (ty == tD) {
      opposite = true;
      for (size_t i = 3; i < n; ++i) opposite = opposite && std::fabs((double)fl(x)[i] + fl(y)[i]) <= eps * 1.01;
    }
    bool ab = x.isNear(y, eps), ba = y.isNear(x, eps);
    if (diff < eps - slop && (!ab || !ba)) w.c.fail("comparison", cat(w.what, ": ", show(x), " is not near ", show(y), " by ", eps));
    if (diff > eps + slop && !opposite && (ab || ba)) w.c.fail("comparison", cat(w.what, ": ", show(x), " is near ", show(y), " by ", eps));
    if (ty == tQ) {
      Quaternion m = w.g.q[a] * -1.0f;
      if (!m.isNear(w.g.q[a], eps)) w.c.fail("comparison", "opposite quaternions are the same rotation");
    }
    w.c.probe(diff > eps ? "far values compared" : "near values compared");
  });
}

void compose(W &w, const Op &o) {
  static const int tys[] = {tPO, tQ, tR, tT, tD};
  int ty = tys[o.idx(0, 5)];
  int how = (int)o.idx(1, 3);  // 0: d = a*b, 1: d *= a, 2: transformPreMultiply(a, d)
  size_t d = o.idx(2, N), a = o.idx(3, N), b = o.idx(4, N);
  Regs &g = w.g;
  const Regs S = g;
  size_t l = how == 0 ? a : how == 1 ? d : a, r = how == 0 ? b : how == 1 ? a : d;
  if (l == r || (how != 0 && d == a)) w.c.fired("aliased-operand");
  w.what = cat(NAMES[ty], how == 0 ? " * " : how == 1 ? " *= " : " pre-multiplied", d == a || d == b || a == b ? " (aliased)" : "");
  switch (ty) {
    case tPO: {
      w.target(g.po[d]);
      if (how == 2) how = 1, l = d, r = a;
      if (how == 0) g.po[d] = g.po[a] * g.po[b];
      else if (&(g.po[d] *= g.po[a]) != &g.po[d]) w.c.fail("chaining", w.what + " does not return its left operand");
      const Pose2D &x = S.po[l], &y = S.po[r];
      double c = std::cos((double)x.theta), s = std::sin((double)x.theta), m = std::fabs(x.x) + std::fabs(x.y) + std::fabs(y.x) + std::fabs(y.y);
      w.eq(g.po[d].x, x.x + c * y.x - s * y.y, m);
      w.eq(g.po[d].y, x.y + s * y.x + c * y.y, m);
      w.eq(g.po[d].theta, (double)x.theta + y.theta, std::fabs(x.theta) + std::fabs(y.theta));
      break;
    }
    case tQ: {
      w.target(g.q[d]);
      if (how == 2) how = 1, l = d, r = a;
      if (how == 0) g.q[d] = g.q[a] * g.q[b];
      else if (&(g.q[d] *= g.q[a]) != &g.q[d]) w.c.fail("chaining", w.what + " does not return its left operand");
      double m = std::sqrt(qn2(S.q[l]) * qn2(S.q[r]));
      w.vec(g.q[d], qmul(S.q[l], S.q[r]), std::vector<double>(4, m));
      break;
    }
    case tR: {
      w.target(g.r[d]);
      if (how == 2) how = 1, l = d, r = a;
      if (how == 0) g.r[d] = g.r[a] * g.r[b];
      else if (&(g.r[d] *= g.r[a]) != &g.r[d]) w.c.fail("chaining", w.what + " does not return its left operand");
      w.rot(se3::of(g.r[d]), se3::of(S.r[l]) * se3::of(S.r[r]), 24 * EPS, "wrong-value");
      break;
    }
    case tT: {
      w.target(g.t[d]);
      if (how == 0) g.t[d] = g.t[a] * g.t[b];
      else if (how == 2) transformPreMultiply(g.t[a], g.t[d]);
      else if (&(g.t[d] *= g.t[a]) != &g.t[d]) w.c.fail("chaining", w.what + " does not return its left operand");
      se3::Tf x = se3::of(S.t[l]), y = se3::of(S.t[r]), z = x * y;
      w.rot(se3::of(g.t[d]).r, z.r, 24 * EPS, "wrong-value");
      w.pos(se3::of(g.t[d]).p, z.p, sumabs(x.p) + sumabs(y.p));
      break;
    }
    default: {
      w.target(g.d[d]);
      if (how == 2) how = 1, l = d, r = a;
      if (how == 0) g.d[d] = g.d[a] * g.d[b];
      else if (&(g.d[d] *= g.d[a]) != &g.d[d]) w.c.fail("chaining", w.what + " does not return its left operand");
      const Displacement &x = S.d[l], &y = S.d[r];
      double n = qn2(x.Q);
      w.pos(se3::of(g.d[d].P), se3::of(x.P) + qrot(x.Q, se3::of(y.P)), sumabs(se3::of(x.P)) + n * sumabs(se3::of(y.P)));
      w.vec(g.d[d].Q, qmul(x.Q, y.Q), std::vector<double>(4, std::sqrt(n * qn2(y.Q))));
    }
  }
}

void invert(W &w, const Op &o) {
  int kind = (int)o.idx(0, 4), how = (int)o.idx(1, 6);
  size_t d = o.idx(2, N), a = o.idx(3, N), b = o.idx(4, N);
  Regs &g = w.g;
  const Regs S = g;
  bool diff = false;
  if (d == a || d == b) w.c.fired("aliased-operand");
  switch (kind) {
    case 0: {
      w.what = cat("Pose2D inverse/difference ", how);
      w.target(g.po[d]);
      size_t s = a;
      switch (how) {
        case 0: g.po[d] = g.po[a].inverse(); break;
        case 1: g.po[d] = pinv(g.po[a]); break;
        case 2: pose2DInverse(g.po[a], g.po[d]); break;
        case 3: pose2dInvertInPlace(g.po[d]); s = d; break;
        case 4: g.po[d] = g.po[a].diff(g.po[b]); diff = true; break;
        default: g.po[d] = o.idx(5, 2) ? pose2dDiff(g.po[a], g.po[b]) : pose2DInverse(g.po[a]); diff = o.idx(5, 2);
      }
      const Pose2D &x = S.po[s], &y = S.po[b];
      double c = std::cos((double)x.theta), sn = std::sin((double)x.theta), tx = diff ? (double)y.x - x.x : -(double)x.x, ty = diff ? (double)y.y - x.y : -(double)x.y;
      double m = std::fabs(x.x) + std::fabs(x.y) + (diff ? std::fabs(y.x) + std::fabs(y.y) : 0);
      w.eq(g.po[d].x, c * tx + sn * ty, m);
      w.eq(g.po[d].y, -sn * tx + c * ty, m);
      w.eq(g.po[d].theta, (diff ? (double)y.theta : 0) - x.theta, std::fabs(x.theta) + std::fabs(y.theta));
      break;
    }
    case 1: {
      w.what = cat("Transform inverse/difference ", how);
      w.target(g.t[d]);
      size_t s = a;
      switch (how) {
        case 0: g.t[d] = g.t[a].inverse(); break;
        case 1: g.t[d] = pinv(g.t[a]); break;
        case 2: transformInverse(g.t[a], g.t[d]); break;
        case 3: transformInvertInPlace(g.t[d]); s = d; break;
        case 4: g.t[d] = g.t[a].diff(g.t[b]); diff = true; break;
        default: g.t[d] = o.idx(5, 2) ? transformDiff(g.t[a], g.t[b]) : transformInverse(g.t[a]); diff = o.idx(5, 2);
      }
      se3::Tf x = se3::tinv(se3::of(S.t[s])), y = se3::of(S.t[b]), z = diff ? x * y : x;
      w.rot(se3::of(g.t[d]).r, z.r, 24 * EPS, "wrong-value");
      w.pos(se3::of(g.t[d]).p, z.p, sumabs(x.p) + (diff ? sumabs(y.p) : 0));
      break;
    }
    case 2: {
      w.what = cat("Quaternion inverse ", how);
      w.target(g.q[d]);
      if (how & 1) g.q[d] = g.q[a].inverse();
      else if (how & 2) g.q[d] = quaternionInverse(g.q[a]);
      else quaternionInverse(g.q[a], g.q[d]);
      const Quaternion &q = S.q[a];
      w.vec(g.q[d], {q.w, -q.x, -q.y, -q.z}, {0, 0, 0, 0});
      break;
    }
    default: {
      w.what = cat("Rotation transpose ", how);
      w.target(g.r[d]);
      g.r[d] = how & 1 ? g.r[a].transpose() : transpose(g.r[a]);
      w.rot(se3::of(g.r[d]), se3::of(S.r[a]).t(), 0, "wrong-value");
    }
  }
}

void frame(W &w, const Op &o) {
  int how = (int)o.idx(0, 12);
  size_t d = o.idx(1, N), a = o.idx(2, N), b = o.idx(3, N);
  Regs &g = w.g;
  const Regs S = g;
  static const char *const names[] = {"changeReferencePosition3D", "changeReferenceTransposePosition3D", "changeReferencePosition3DInPlace", "changeReferenceTransposePosition3DInPlace",
                                      "changeReferencePosition6D", "changeReferenceTransposePosition6D", "changeReferenceVelocity6D", "changeReferenceTransposeVelocity6D",
                                      "changeReferenceTransform", "changeReferenceTransposeTransform", "changeReferencePose2D", "changeReferencePose2DInPlace"};
  w.what = cat(names[how], d == b || (how >= 8 && how < 10 && d == a) ? " (aliased)" : "");
  if (d == b) w.c.fired("aliased-operand");
  se3::Rot R = se3::of(S.t[a]).r;
  if (how & 1) R = R.t();
  if (how < 4) {
    w.target(g.p3[d]);
    size_t s = how < 2 ? b : d;
    if (how == 0) changeReferencePosition3D(g.t[a], g.p3[b], g.p3[d]);
    if (how == 1) changeReferenceTransposePosition3D(g.t[a], g.p3[b], g.p3[d]);
    if (how == 2) changeReferencePosition3DInPlace(g.t[a], g.p3[d]);
    if (how == 3) changeReferenceTransposePosition3DInPlace(g.t[a], g.p3[d]);
    w.pos(se3::of(g.p3[d]), R * se3::of(S.p3[s]), sumabs(se3::of(S.p3[s])));
  } else if (how < 6) {
    w.target(g.p6[d]);
    if (how == 4) changeReferencePosition6D(g.t[a], g.p6[b], g.p6[d]);
    else changeReferenceTransposePosition6D(g.t[a], g.p6[b], g.p6[d]);
    const Position6D &x = S.p6[b], &y = g.p6[d];
    w.pos(se3::V3(y.x, y.y, y.z), R * se3::V3(x.x, x.y, x.z), std::fabs(x.x) + std::fabs(x.y) + std::fabs(x.z));
    w.pos(se3::V3(y.wx, y.wy, y.wz), R * se3::V3(x.wx, x.wy, x.wz), std::fabs(x.wx) + std::fabs(x.wy) + std::fabs(x.wz));
  } else if (how < 8) {
    w.target(g.v6[d]);
    if (how == 6) changeReferenceVelocity6D(g.t[a], g.v6[b], g.v6[d]);
    else changeReferenceTransposeVelocity6D(g.t[a], g.v6[b], g.v6[d]);
    se3::Tw x = se3::of(S.v6[b]), y = se3::of(g.v6[d]);
    w.pos(y.v, R * x.v, sumabs(x.v));
    w.pos(y.w, R * x.w, sumabs(x.w));
  } else if (how < 10) {
    w.target(g.t[d]);
    if (how == 8) changeReferenceTransform(g.t[a], g.t[b], g.t[d]);
    else changeReferenceTransposeTransform(g.t[a], g.t[b], g.t[d]);
    se3::Tf x = se3::of(S.t[b]), y = se3::of(g.t[d]);
    w.rot(y.r, R * x.r, 24 * EPS, "wrong-value");
    w.pos(y.p, R * x.p, sumabs(x.p));
  } else {
    w.target(g.po[d]);
    size_t s = how == 10 ? b : d;
    float th = o.flt(4);
    bool own = o.idx(5, 4) == 0;  // the angle is the pose's own
    if (own) th = S.po[s].theta;
    if (how == 10) changeReferencePose2D(own ? g.po[s].theta : th, g.po[b], g.po[d]);
    else changeReferencePose2DInPlace(own ? g.po[s].theta : th, g.po[d]);
    const Pose2D &x = S.po[s];
    double c = std::cos((double)th), sn = std::sin((double)th), m = std::fabs(x.x) + std::fabs(x.y);
    w.eq(g.po[d].x, c * x.x - sn * x.y, m);
    w.eq(g.po[d].y, sn * x.x + c * x.y, m);
    w.eq(g.po[d].theta, x.theta, 0);
  }
}

void apply(W &w, const Op &o) {
  int how = (int)o.idx(0, 9);
  size_t d = o.idx(1, N), a = o.idx(2, N), b = o.idx(3, N);
  Regs &g = w.g;
  const Regs S = g;
  w.what = cat("application ", how);
  se3::V3 p = se3::of(S.p3[b]);
  double m = sumabs(p);
  switch (how) {
    case 0:
      w.what = "Rotation * Position3D", w.target(g.p3[d]);
      g.p3[d] = g.r[a] * g.p3[b];
      w.pos(se3::of(g.p3[d]), se3::of(S.r[a]) * p, m);
      break;
    case 1:
      w.what = "Quaternion * Position3D", w.target(g.p3[d]);
      g.p3[d] = g.q[a] * g.p3[b];
      w.pos(se3::of(g.p3[d]), qrot(S.q[a], p), m * qn2(S.q[a]));
      break;
    case 2:
      w.what = "Transform * Position3D", w.target(g.p3[d]);
      g.p3[d] = g.t[a] * g.p3[b];
      w.pos(se3::of(g.p3[d]), se3::of(S.t[a]).r * p + se3::of(S.t[a]).p, m + sumabs(se3::of(S.t[a]).p));
      break;
    case 3: {
      w.what = "Transform * Position2D", w.target(g.p3[d]);
      g.p3[d] = g.t[a] * g.p2[b];
      se3::V3 q(S.p2[b].x, S.p2[b].y, 0);
      w.pos(se3::of(g.p3[d]), se3::of(S.t[a]).r * q + se3::of(S.t[a]).p, sumabs(q) + sumabs(se3::of(S.t[a]).p));
      break;
    }
    case 4: {
      w.what = "Rotation * Velocity3D", w.target(g.v3[d]);
      g.v3[d] = g.r[a] * g.v3[b];
      w.pos(v3of(g.v3[d]), se3::of(S.r[a]) * v3of(S.v3[b]), sumabs(v3of(S.v3[b])));
      break;
    }
    case 5: {
      w.what = "Pose2D * Position2D", w.target(g.p2[d]);
      g.p2[d] = g.po[a] * g.p2[b];
      const Pose2D &x = S.po[a];
      const Position2D &q = S.p2[b];
      double c = std::cos((double)x.theta), s = std::sin((double)x.theta), mm = std::fabs(x.x) + std::fabs(x.y) + std::fabs(q.x) + std::fabs(q.y);
      w.eq(g.p2[d].x, x.x + c * q.x - s * q.y, mm);
      w.eq(g.p2[d].y, x.y + s * q.x + c * q.y, mm);
      break;
    }
    case 6:
      w.what = "applyRotation in place", w.target(g.p3[d]);
      applyRotation(g.r[a], g.p3[d].x, g.p3[d].y, g.p3[d].z);
      w.pos(se3::of(g.p3[d]), se3::of(S.r[a]) * se3::of(S.p3[d]), sumabs(se3::of(S.p3[d])));
      break;
    case 7: {
      w.what = "scalar * Position6D (Velocity6D)", w.target(g.v6[d]);
      float k = o.flt(4);
      g.v6[d] = k * g.p6[b];
      std::vector<double> x = dv(S.p6[b]);
      for (double &v : x) v *= k;
      w.vec(g.v6[d], x, absv(x));
      w.what = "position6DFromVelocity6D", w.target(g.p6[a]);
      g.p6[a] = position6DFromVelocity6D(g.v6[d]);
      w.vec(g.p6[a], dv(g.v6[d]), std::vector<double>(6, 0));
      break;
    }
    default: {
      w.what = "scalar * Position3D (Velocity3D)", w.target(g.v3[d]);
      float k = o.flt(4);
      g.v3[d] = k * g.p3[b];
      std::vector<double> x = dv(S.p3[b]);
      for (double &v : x) v *= k;
      w.vec(g.v3[d], x, absv(x));
    }
  }
}

const double CT = 4e-6;  // tolerance of a conversion of an exactly rigid rotation
void rpy_range(W &w, float x, float y, float z) {
  const float p = 3.1415930f;
  if (!(std::fabs(x) <= p && std::fabs(y) <= p && std::fabs(z) <= p)) w.c.fail("angle-range", cat(w.what, " gave the angles ", x, " ", y, " ", z));
}
void convert(W &w, const Op &o) {
  int how = (int)o.idx(0, 33);
  size_t d = o.idx(1, N), a = o.idx(2, N);
  bool io = o.idx(3, 2);
  Regs &g = w.g;
  const Regs S = g;
  const se3::Tf T = se3::of(S.t[a]);
  const double ut = se3::unrigid(T.r), ur = se3::unrigid(se3::of(S.r[a]));
  const double tt = CT + 4 * ut, tr = CT + 4 * ur;
  const Position6D &p6 = S.p6[a];
  const Pose2D &po = S.po[a];
  const Quaternion &q = S.q[a];
  const double tq = CT + 4 * std::fabs(qn2(q) - 1);
  const Rotation3D &r3 = S.r3[a];
  se3::V3 zero;
  auto tpos = [&](const Transform &t, se3::V3 p) { w.pos(se3::of(t).p, p, 0); };
  switch (how) {
    case 0:
      if (ut > 1e-4) return w.c.rejected("not rigid");
      w.what = "quaternionFromTransform", w.target(g.q[d]);
      g.q[d] = quaternionFromTransform(g.t[a]);
      if (!(std::fabs(std::sqrt(qn2(g.q[d])) - 1) < 1e-6)) w.c.fail("not-unit", cat(w.what, " gave ", show(g.q[d])));
      w.rot(se3::rot_of(g.q[d]), T.r, tt);
      break;
    case 1:
      if (!unitq(q)) return w.c.rejected("not a unit quaternion");
      w.what = "transformFromQuaternion", w.target(g.t[d]);
      g.t[d] = transformFromQuaternion(g.q[a]);
      w.rot(se3::of(g.t[d]).r, se3::rot_of(q), tq);
      tpos(g.t[d], zero);
      break;
    case 2:
      if (!unitq(q)) return w.c.rejected("not a unit quaternion");
      w.what = "rotationFromQuaternion", w.target(g.r[d]);
      if (io) rotationFromQuaternion(g.q[a], g.r[d]);
      else if (o.idx(4, 3) == 0) g.r[d] = rotationFromQuaternion(g.q[a]);
      else if (o.idx(4, 3) == 1) g.r[d] = Rotation::fromQuaternion(q.w, q.x, q.y, q.z);
      else g.r[d] = rotationFromQuaternion(q.w, q.x, q.y, q.z);
      w.rot(se3::of(g.r[d]), se3::rot_of(q), tq);
      break;
    case 3: {
      if (!unitq(q)) return w.c.rejected("not a unit quaternion");
      w.what = "rotation3DFromQuaternion", w.target(g.r3[d]);
      if (io) rotation3DFromQuaternion(g.q[a], g.r3[d]);
      else g.r3[d] = rotation3DFromQuaternion(g.q[a]);
      w.rot(rpy(g.r3[d].wx, g.r3[d].wy, g.r3[d].wz), se3::rot_of(q), tq);
      rpy_range(w, g.r3[d].wx, g.r3[d].wy, g.r3[d].wz);
      break;
    }
    case 4:
      w.what = "quaternionFromRotation3D", w.target(g.q[d]);
      if (io) quaternionFromRotation3D(g.r3[a], g.q[d]);
      else g.q[d] = quaternionFromRotation3D(g.r3[a]);
      w.rot(se3::rot_of(g.q[d]), rpy(r3.wx, r3.wy, r3.wz), CT);
      w.eq(std::sqrt(qn2(g.q[d])), 1, 1);
      break;
    case 5: {
      w.what = "quaternionPosition3DFromPosition6D", w.target(g.q[d]), w.target(g.p3[d]);
      quaternionPosition3DFromPosition6D(g.p6[a], g.q[d], g.p3[d]);
      w.rot(se3::rot_of(g.q[d]), rpy(p6.wx, p6.wy, p6.wz), CT);
      w.pos(se3::of(g.p3[d]), se3::V3(p6.x, p6.y, p6.z), 0);
      break;
    }
    case 6:
      w.what = "transformFromPosition6D", w.target(g.t[d]);
      if (io) g.t[d] = transformFromPosition6D(g.p6[a]);
      else if (o.idx(4, 2)) g.t[d] = transformFromPosition(p6.x, p6.y, p6.z, p6.wx, p6.wy, p6.wz);
      else g.t[d] = Transform::fromPosition(g.p6[a].x, g.p6[a].y, g.p6[a].z, g.p6[a].wx, g.p6[a].wy, g.p6[a].wz);
      w.rot(se3::of(g.t[d]).r, rpy(p6.wx, p6.wy, p6.wz), CT);
      tpos(g.t[d], se3::V3(p6.x, p6.y, p6.z));
      break;
    case 7: {
      if (ut > 1e-4) return w.c.rejected("not rigid");
      w.what = "position6DFromTransform", w.target(g.p6[d]);
      if (io) position6DFromTransformInPlace(g.t[a], g.p6[d]);
      else g.p6[d] = position6DFromTransform(g.t[a]);
      const Position6D &r = g.p6[d];
      w.rot(rpy(r.wx, r.wy, r.wz), T.r, tt);
      rpy_range(w, r.wx, r.wy, r.wz);
      w.pos(se3::V3(r.x, r.y, r.z), T.p, 0);
      break;
    }
    case 8:
      w.what = "transformFromRotation3D", w.target(g.t[d]);
      if (io) g.t[d] = transformFromRotation3D(g.r3[a]);
      else if (o.idx(4, 2)) g.t[d] = transformFrom3DRotation(r3.wx, r3.wy, r3.wz);
      else g.t[d] = Transform::from3DRotation(r3.wx, r3.wy, r3.wz);
      w.rot(se3::of(g.t[d]).r, rpy(r3.wx, r3.wy, r3.wz), CT);
      tpos(g.t[d], zero);
      break;
    case 9: {
      if (ut > 1e-4) return w.c.rejected("not rigid");
      w.what = "rotation3DFromTransform", w.target(g.r3[d]);
      g.r3[d] = rotation3DFromTransform(g.t[a]);
      w.rot(rpy(g.r3[d].wx, g.r3[d].wy, g.r3[d].wz), T.r, tt);
      rpy_range(w, g.r3[d].wx, g.r3[d].wy, g.r3[d].wz);
      break;
    }
    case 10:
      if (ur > 1e-4) return w.c.rejected("not rigid");
      w.what = "rotation3DFromRotation", w.target(g.r3[d]);
      g.r3[d] = rotation3DFromRotation(g.r[a]);
      w.rot(rpy(g.r3[d].wx, g.r3[d].wy, g.r3[d].wz), se3::of(S.r[a]), tr);
      rpy_range(w, g.r3[d].wx, g.r3[d].wy, g.r3[d].wz);
      break;
    case 11:
      w.what = "rotationFrom3DRotation", w.target(g.r[d]);
      g.r[d] = io ? rotationFrom3DRotation(r3.wx, r3.wy, r3.wz) : Rotation::from3DRotation(g.r3[a].wx, g.r3[a].wy, g.r3[a].wz);
      w.rot(se3::of(g.r[d]), rpy(r3.wx, r3.wy, r3.wz), CT);
      break;
    case 12:
      w.what = "rotationFromTransform", w.target(g.r[d]);
      if (io) rotationFromTransformInPlace(g.t[a], g.r[d]);
      else g.r[d] = rotationFromTransform(g.t[a]);
      w.rot(se3::of(g.r[d]), T.r, 0);
      break;
    case 13:
      w.what = "transformFromRotation", w.target(g.t[d]);
      if (io) transformFromRotationInPlace(g.r[a], g.t[d]);
      else g.t[d] = transformFromRotation(g.r[a]);
      w.rot(se3::of(g.t[d]).r, se3::of(S.r[a]), 0);
      tpos(g.t[d], io ? se3::of(S.t[d]).p : zero);
      break;
    case 14:
      w.what = "transformFromPosition3D", w.target(g.t[d]);
      if (io) transformFromPosition3DInPlace(g.p3[a], g.t[d]);
      else if (o.idx(4, 3) == 0) g.t[d] = transformFromPosition3D(g.p3[a]);
      else if (o.idx(4, 3) == 1) g.t[d] = Transform::fromPosition(S.p3[a].x, S.p3[a].y, S.p3[a].z);
      else g.t[d] = Transform(S.p3[a].x, S.p3[a].y, S.p3[a].z);
      tpos(g.t[d], se3::of(S.p3[a]));
      w.rot(se3::of(g.t[d]).r, io ? se3::of(S.t[d]).r : se3::Rot(), 0);
      break;
    case 15:
      w.what = "position3DFromTransform", w.target(g.p3[d]);
      if (io) position3DFromTransformInPlace(g.t[a], g.p3[d]);
      else g.p3[d] = position3DFromTransform(g.t[a]);
      w.pos(se3::of(g.p3[d]), T.p, 0);
      break;
    case 16:
      w.what = "transformFromRotationPosition3D", w.target(g.t[d]);
      if (io) g.t[d] = transformFromRotationPosition3D(g.r[a], g.p3[a]);
      else g.t[d] = transformFromRotationPosition3D(g.r[a], g.p3[a].x, g.p3[a].y, g.p3[a].z);
      w.rot(se3::of(g.t[d]).r, se3::of(S.r[a]), 0);
      tpos(g.t[d], se3::of(S.p3[a]));
      break;
    case 17:
      w.what = "transformFromPose2D", w.target(g.t[d]);
      if (io) transformFromPose2DInPlace(g.po[a], g.t[d]);
      else g.t[d] = transformFromPose2D(g.po[a]);
      w.rot(se3::of(g.t[d]).r, rpy(0, 0, po.theta), CT);
      tpos(g.t[d], se3::V3(po.x, po.y, 0));
      break;
    case 18: {
      w.what = "pose2DFromTransform", w.target(g.po[d]);
      if (io) pose2DFromTransformInPlace(g.t[a], g.po[d]);
      else g.po[d] = pose2DFromTransform(g.t[a]);
      w.eq(g.po[d].x, T.p.x, 0);
      w.eq(g.po[d].y, T.p.y, 0);
      double h = std::hypot(T.r.m[0][0], T.r.m[1][0]);
      if (h > 1e-3) w.eq(std::remainder(g.po[d].theta - std::atan2(T.r.m[1][0], T.r.m[0][0]), 2 * PI_), 0, 4);
      break;
    }
    case 19:
      w.what = "position2DFromTransform", w.target(g.p2[d]);
      if (io) position2DFromTransformInPlace(g.t[a], g.p2[d]);
      else g.p2[d] = position2DFromTransform(g.t[a]);
      w.vec(g.p2[d], {T.p.x, T.p.y}, {0, 0});
      break;
    case 20: {
      w.what = "transformFromDisplacement", w.target(g.t[d]);
      const Displacement &x = S.d[a];
      if (!unitq(x.Q)) return w.c.rejected("not a unit quaternion");
      g.t[d] = transformFromDisplacement(g.d[a]);
      w.rot(se3::of(g.t[d]).r, se3::rot_of(x.Q), CT + 4 * std::fabs(qn2(x.Q) - 1));
      tpos(g.t[d], se3::of(x.P));
      break;
    }
    case 21:
      if (ut > 1e-4) return w.c.rejected("not rigid");
      w.what = "displacementFromTransform", w.target(g.d[d]);
      g.d[d] = displacementFromTransform(g.t[a]);
      w.rot(se3::rot_of(g.d[d].Q), T.r, tt);
      w.pos(se3::of(g.d[d].P), T.p, 0);
      break;
    case 22: {
      double n = std::sqrt(qn2(q));
      if (n < 1e-3) return w.c.rejected("not a unit quaternion");
      w.what = cat("angleAndAxisRotationFromQuaternion of ", show(q));
      float an, x, y, z;
      if (io) angleAndAxisRotationFromQuaternion(g.q[a], an, x, y, z);
      else {
        std::vector<float> v = angleAndAxisRotationFromQuaternion(g.q[a]);
        if (v.size() != 4) w.c.fail("wrong-value", w.what + " did not give four numbers");
        an = v[0], x = v[1], y = v[2], z = v[3];
      }
      w.eq(std::sqrt((double)x * x + (double)y * y + (double)z * z), 1, 1);
      if (!(an >= 0 && an <= 6.2831864f)) w.c.fail("angle-range", cat(w.what, " gave the angle ", an));
      w.rot(se3::axis_angle(an, se3::V3(x, y, z)), se3::rot_of(q), CT);
      w.target(g.p3[d]), w.target(g.r3[d]);
      g.p3[d] = Position3D(x, y, z);
      break;
    }
    case 23:
      w.what = "position2DFromPose2D", w.target(g.p2[d]);
      if (io) position2DFromPose2DInPlace(g.po[a], g.p2[d]);
      else g.p2[d] = position2DFromPose2D(g.po[a]);
      w.vec(g.p2[d], {po.x, po.y}, {0, 0});
      break;
    case 24:
      w.what = "position3DFromPosition6D", w.target(g.p3[d]);
      g.p3[d] = position3DFromPosition6D(g.p6[a]);
      w.vec(g.p3[d], {p6.x, p6.y, p6.z}, {0, 0, 0});
      break;
    case 25:
      w.what = "position6DFromPose2D", w.target(g.p6[d]);
      if (io) position6DFromPose2DInPlace(g.po[a], g.p6[d]);
      else g.p6[d] = position6DFromPose2D(g.po[a]);
      w.vec(g.p6[d], {po.x, po.y, 0, 0, 0, po.theta}, std::vector<double>(6, 0));
      break;
    case 26:
      w.what = "position6DFromPosition3D", w.target(g.p6[d]);
      if (io) position6DFromPosition3DInPlace(g.p3[a], g.p6[d]);
      else g.p6[d] = position6DFromPosition3D(g.p3[a]);
      w.vec(g.p6[d], {S.p3[a].x, S.p3[a].y, S.p3[a].z, 0, 0, 0}, std::vector<double>(6, 0));
      break;
    case 27:
      w.what = "pose2DFromPosition6D", w.target(g.po[d]);
      if (io) pose2DFromPosition6DInPlace(g.p6[a], g.po[d]);
      else g.po[d] = pose2DFromPosition6D(g.p6[a]);
      w.vec(g.po[d], {p6.x, p6.y, p6.wz}, {0, 0, 0});
      break;
    case 28: {
      w.what = "pose2DFromPosition2D", w.target(g.po[d]);
      float an = o.flt(5);
      if (io) pose2DFromPosition2DInPlace(g.p2[a], an, g.po[d]);
      else g.po[d] = pose2DFromPosition2D(g.p2[a], an);
      w.vec(g.po[d], {S.p2[a].x, S.p2[a].y, an}, {0, 0, 0});
      break;
    }
    case 29: {
      w.what = "position6DFromTransformDiff", w.target(g.p6[d]);
      size_t b = o.idx(4, N);
      if (ut > 1e-4 || se3::unrigid(se3::of(S.t[b]).r) > 1e-4) return w.c.rejected("not rigid");
      if (io) position6DFromTransformDiffInPlace(g.t[a], g.t[b], g.p6[d]);
      else g.p6[d] = position6DFromTransformDiff(g.t[a], g.t[b]);
      se3::Tf U = se3::of(S.t[b]);
      const Position6D &r = g.p6[d];
      w.pos(se3::V3(r.x, r.y, r.z), U.p - T.p, sumabs(U.p) + sumabs(T.p));
      se3::Rot D = U.r * T.r.t();
      w.pos(se3::V3(r.wx, r.wy, r.wz), 0.5 * se3::V3(D.m[2][1] - D.m[1][2], D.m[0][2] - D.m[2][0], D.m[1][0] - D.m[0][1]), 1);
      break;
    }
    case 30: {
      // round trip of one rotation through every representation
      if (ut > 1e-4) return w.c.rejected("not rigid");
      w.what = "round trip through all representations", w.target(g.t[d]);
      Rotation3D e = rotation3DFromTransform(g.t[a]);
      Quaternion u = quaternionFromRotation3D(e);
      std::vector<float> aa = angleAndAxisRotationFromQuaternion(u);
      Quaternion u2 = quaternionFromAngleAndAxisRotation(aa[0], aa[1], aa[2], aa[3]);
      Rotation m = rotationFromQuaternion(u2);
      Transform t = transformFromRotation(m);
      Displacement x = displacementFromTransform(t);
      g.t[d] = transformFromDisplacement(x);
      w.rot(se3::of(g.t[d]).r, T.r, 4 * tt);
      break;
    }
    case 31:
      w.what = "fromPolarCoordinates", w.target(g.p2[d]), w.target(g.po[d]);
      {
        float rad = S.p3[a].x, an = o.flt(5);
        g.p2[d] = Position2D::fromPolarCoordinates(rad, an);
        g.po[d] = Pose2D::fromPolarCoordinates(rad, an);
        double x = rad * std::cos((double)an), y = rad * std::sin((double)an), m = std::fabs(rad);
        w.vec(g.p2[d], {x, y}, {m, m});
        w.vec(g.po[d], {x, y, an}, {m, m, 0});
      }
      break;
    default:
      w.what = "transform of elementary rotations", w.target(g.t[d]), w.target(g.r[d]);
      {
        float an = o.flt(5);
        int ax = (int)o.idx(4, 3);
        se3::Rot want = se3::axis_angle(an, se3::V3(ax == 0, ax == 1, ax == 2));
        g.t[d] = ax == 0 ? (io ? transformFromRotX(an) : Transform::fromRotX(an)) : ax == 1 ? (io ? transformFromRotY(an) : Transform::fromRotY(an)) : (io ? transformFromRotZ(an) : Transform::fromRotZ(an));
        g.r[d] = ax == 0 ? (io ? rotationFromRotX(an) : Rotation::fromRotX(an)) : ax == 1 ? (io ? rotationFromRotY(an) : Rotation::fromRotY(an)) : (io ? rotationFromRotZ(an) : Rotation::fromRotZ(an));
        w.rot(se3::of(g.t[d]).r, want, CT);
        w.rot(se3::of(g.r[d]), want, CT);
        tpos(g.t[d], zero);
      }
  }
}

void axis(W &w, const Op &o) {
  int how = (int)o.idx(0, 5);
  size_t d = o.idx(1, N), a = o.idx(2, N);
  double an = o.flt(3);
  Regs &g = w.g;
  const Regs S = g;
  se3::V3 u = se3::of(S.p3[a]);
  double n = u.norm();
  switch (how) {
    case 0: {
      w.what = cat("rotationFromAngleDirection about ", show(S.p3[a]));
      bool ok = std::fabs(n * n - 1) < 5e-6, bad = std::fabs(n * n - 1) > 2e-5;
      int v = (int)o.idx(4, 3);
      auto call = [&] { g.r[d] = v == 0 ? rotationFromAngleDirection((float)an, g.p3[a]) : v == 1 ? rotationFromAngleDirection((float)an, S.p3[a].x, S.p3[a].y, S.p3[a].z) : Rotation::fromAngleDirection((float)an, S.p3[a].x, S.p3[a].y, S.p3[a].z); };
      if (bad) return w.refuse("non-unit-axis", call);
      if (!ok) return;
      w.target(g.r[d]);
      call();
      w.rot(se3::of(g.r[d]), se3::axis_angle(an, 1 / n * u), CT + 5e-5 * (std::fabs(n * n - 1) > 1e-6));
      break;
    }
    case 1: {
      if (n == 0) return;
      w.what = cat("quaternionFromAngleAndAxisRotation about ", show(S.p3[a]));
      if (std::fabs(n * n - 1) > 1e-5) return w.c.rejected("non-unit axis skipped");
      w.target(g.q[d]);
      const Position3D &p = S.p3[a];
      g.q[d] = o.idx(4, 2) ? quaternionFromAngleAndAxisRotation((float)an, p.x, p.y, p.z) : Quaternion::fromAngleAndAxisRotation((float)an, p.x, p.y, p.z);
      w.rot(se3::rot_of(g.q[d]), se3::axis_angle(an, 1 / n * u), CT + 4 * std::fabs(n * n - 1));
      break;
    }
    case 2: {
      w.what = cat("orthogonalSpace of ", show(S.p3[a]));
      bool io = o.idx(4, 2);
      if (n == 0) {
        if (io) return w.refuse("null-axis", [&] { orthogonalSpace(g.p3[a], g.t[d]); });
        return w.refuse("null-axis", [&] { g.t[d] = orthogonalSpace(g.p3[a]); });
      }
      if (n < 1e-6) return;
      w.target(g.t[d]);
      if (io) orthogonalSpace(g.p3[a], g.t[d]);
      else g.t[d] = orthogonalSpace(g.p3[a]);
      se3::Tf r = se3::of(g.t[d]);
      if (!(se3::unrigid(r.r) < 3e-4)) w.c.fail("not-rigid", cat(w.what, " is not orthonormal, by ", se3::unrigid(r.r)));
      w.pos(se3::V3(r.r.m[0][2], r.r.m[1][2], r.r.m[2][2]), 1 / n * u, 1);
      w.pos(r.p, io ? se3::of(S.t[d]).p : se3::V3(), 0);
      break;
    }
    case 3: {  // axes taken from the columns of a rotation
      size_t b = o.idx(4, N);
      se3::Rot R = se3::of(S.r[b]);
      if (se3::unrigid(R) > 2e-5) return w.c.rejected("not rigid");
      auto col = [&](int j) { return Position3D((float)R.m[0][j], (float)R.m[1][j], (float)R.m[2][j]); };
      w.target(g.r[d]);
      int v = (int)o.idx(5, 4);
      w.what = cat("rotation from axes ", v);
      g.r[d] = v == 0 ? rotationFromAxesXY(col(0), col(1)) : v == 1 ? rotationFromAxesXZ(col(0), col(2)) : v == 2 ? rotationFromAxesYZ(col(1), col(2)) : rotationFromAxesXYZ(col(0), col(1), col(2));
      w.rot(se3::of(g.r[d]), R, CT + 4e-4 * (se3::unrigid(R) > 1e-6));
      break;
    }
    default: {
      static const int masks[] = {AXIS_MASK_X, AXIS_MASK_Y, AXIS_MASK_Z, AXIS_MASK_WX, 0};
      int k = (int)o.idx(4, 5), v = (int)o.idx(5, 5);
      w.what = "transformFromRotVec", w.target(g.t[d]);
      if (v == 0) transformFromRotVecInPlace(masks[k], (float)an, g.p3[a], g.t[d]);
      else if (v == 1) g.t[d] = transformFromRotVec(masks[k], (float)an, g.p3[a]);
      else if (v == 2) g.t[d] = transformFromRotVec(masks[k], (float)an);
      else if (v == 3) g.t[d] = transformFromRotVec(g.p3[a]);
      else transformFromRotVecInPlace(g.p3[a], g.t[d]);
      se3::Rot want = v < 3 && k < 3 ? se3::axis_angle(an, se3::V3(k == 0, k == 1, k == 2)) : se3::Rot();
      w.rot(se3::of(g.t[d]).r, want, CT);
      w.pos(se3::of(g.t[d]).p, v == 2 ? se3::V3() : u, 0);
    }
  }
}

void normalise(W &w, const Op &o) {
  int ty = o.idx(0, NTY);
  size_t d = o.idx(1, N), a = o.idx(2, N);
  bool mem = o.idx(3, 2);
  Regs &g = w.g;
  const Regs S = g;
  w.what = cat("normalising a ", NAMES[ty]);
  if (ty == tR || ty == tT || ty == tD) {
    double noise = o.num(4);
    auto perturb = [&](float *f, int stride) {
      for (int i = 0; i < 9; ++i) f[(i / 3) * stride + i % 3] += (float)(noise * std::sin(12.9898 * i + 78.233 * o.num(5)));
    };
    if (o.idx(6, 5) == 1) {  // columns that define no rotation: the result is a rotation all the same
      int st = ty == tR ? 3 : 4, k = (int)o.idx(6, 12) / 3;
      float *f = ty == tR ? fl(g.r[d]) : fl(g.t[d]);
      if (ty == tR) w.target(g.r[d]);
      else w.target(g.t[d]);
      for (int i = 0; i < 3; ++i) {
        if (k == 0 || k == 3) f[i * st + 2] = 0;
        if (k == 1) f[i * st + 1] = 2 * f[i * st + 2];
        if (k == 2 || k == 3) f[i * st + 1] = 0;
      }
      w.what += " with a null or repeated column";
      if (ty == tR) mem ? g.r[d].normalizeRotation() : normalizeRotation(g.r[d]);
      else mem ? g.t[d].normalizeTransform() : normalizeTransform(g.t[d]);
      double v = se3::unrigid(ty == tR ? se3::of(g.r[d]) : se3::of(g.t[d]).r);
      if (!(v < 2e-6)) w.c.fail("not-rigid", cat(w.what, " left it off a rotation by ", v));
      if (ty != tR) w.pos(se3::of(g.t[d]).p, se3::of(S.t[d]).p, 0);
      w.c.fired("null-axis");
      return;
    }
    if (ty == tR) {
      w.target(g.r[d]);
      perturb(fl(g.r[d]), 3);
      se3::Rot before = se3::of(g.r[d]);
      double u = se3::unrigid(before);
      if (!(u < 0.5)) return;
      if (mem) g.r[d].normalizeRotation();
      else normalizeRotation(g.r[d]);
      double v = se3::unrigid(se3::of(g.r[d]));
      if (!(v < 2e-6)) w.c.fail("not-rigid", cat(w.what, " left it off a rotation by ", v));
      w.rot(se3::of(g.r[d]), before, 3 * u + 2e-6, "normalised-away");
    } else {
      w.target(g.t[d]);
      perturb(fl(g.t[d]), 4);
      se3::Tf before = se3::of(g.t[d]);
      double u = se3::unrigid(before.r);
      if (!(u < 0.5)) return;
      if (mem) g.t[d].normalizeTransform();
      else normalizeTransform(g.t[d]);
      double v = se3::unrigid(se3::of(g.t[d]).r);
      if (!(v < 2e-6)) w.c.fail("not-rigid", cat(w.what, " left it off a rotation by ", v));
      w.rot(se3::of(g.t[d]).r, before.r, 3 * u + 2e-6, "normalised-away");
      w.pos(se3::of(g.t[d]).p, before.p, 0);
    }
    return;
  }
  if (o.idx(6, 6) == 0) {  // a null value cannot be normalised
    with_vec(g, ty, [&](auto &R) {
      typedef typename std::remove_reference<decltype(R[0])>::type T;
      if constexpr (has_normalize<T>::value || std::is_same<T, Position6D>::value) {
        T z = R[a];
        for (size_t i = 0; i < dim<T>(); ++i) fl(z)[i] = 0;
        w.refuse("null-normalised", [&] {
          if constexpr (std::is_same<T, Position6D>::value || !has_normalize<T>::value) R[d] = normalize(z);
          else R[d] = z.normalize();
        });
      }
    });
    return;
  }
  with_vec(g, ty, [&](auto &R) {
    typedef typename std::remove_reference<decltype(R[0])>::type T;
    if constexpr (has_normalize<T>::value || std::is_same<T, Position6D>::value) {
      std::vector<double> v = dv(R[a]);
      double n = 0;
      size_t m = ty == tPO ? 2 : dim<T>();
      for (size_t i = 0; i < m; ++i) n += v[i] * v[i];
      n = std::sqrt(n);
      if (!(n > 1e-3 && n < 1e12)) return;
      w.target(R[d]);
      if constexpr (!has_normalize<T>::value) R[d] = normalize(R[a]);
      else if constexpr (std::is_same<T, Pose2D>::value) R[d] = R[a].normalize();
      else if (mem) R[d] = R[a].normalize();
      else R[d] = normalize(R[a]);
      for (size_t i = 0; i < m; ++i) v[i] /= n;
      w.vec(R[d], v, absv(v));
    }
  });
}

void metric(W &w, const Op &o) {
  int ty = o.idx(0, NTY);
  size_t a = o.idx(1, N), b = o.idx(2, N), d = o.idx(3, N);
  Regs &g = w.g;
  const Regs S = g;
  w.what = cat("metric of ", NAMES[ty]);
  if (ty == tT) {
    se3::Tf x = se3::of(S.t[a]), y = se3::of(S.t[b]);
    double m = sumabs(x.p) + sumabs(y.p), dd = (x.p - y.p).norm();
    w.eq(g.t[a].distance(g.t[b]), dd, m);
    w.eq(transformDistance(g.t[a], g.t[b]), dd, m);
    w.eq(g.t[a].distanceSquared(g.t[b]), dd * dd, m * m);
    w.eq(transformDistanceSquared(g.t[a], g.t[b]), dd * dd, m * m);
    w.eq(g.t[a].norm(), x.p.norm(), x.p.norm());
    w.eq(norm(g.t[a]), x.p.norm(), x.p.norm());
    w.eq(g.t[a].determinant(), se3::det(x.r), 6);
    w.eq(determinant(g.t[a]), se3::det(x.r), 6);
    w.eq(determinant(g.t[a].toVector()), se3::det(x.r), 6);
    return;
  }
  if (ty == tR) {
    w.eq(g.r[a].determinant(), se3::det(se3::of(S.r[a])), 6);
    w.eq(determinant(g.r[a]), se3::det(se3::of(S.r[a])), 6);
    return;
  }
  if (ty == tD) return;
  with_vec(g, ty, [&](auto &R) {
    typedef typename std::remove_reference<decltype(R[0])>::type T;
    std::vector<double> x = dv(R[a]), y = dv(R[b]);
    size_t m = ty == tPO ? 2 : dim<T>();  // the distance between poses is that of the positions
    double n = 0, dd = 0, dot = 0, mag = 0, dmag = 0;
    for (size_t i = 0; i < m; ++i) {
      // the distance between six-dimensional positions is that of their translations
      n += x[i] * x[i], dd += i < 3 ? (x[i] - y[i]) * (x[i] - y[i]) : 0, dot += x[i] * y[i];
      mag += std::fabs(x[i]) + std::fabs(y[i]), dmag += std::fabs(x[i] * y[i]);
    }
    if constexpr (has_norm<T>::value) {
      w.what = cat("norm of ", NAMES[ty]);
      w.eq(R[a].norm(), std::sqrt(n), std::sqrt(n));
      if constexpr (!std::is_same<T, Pose2D>::value) w.eq(norm(R[a]), std::sqrt(n), std::sqrt(n));
    }
    if constexpr (has_dist<T>::value) {
      w.what = cat("distance of ", NAMES[ty]);
      w.eq(R[a].distance(R[b]), std::sqrt(dd), mag);
      w.eq(distance(R[a], R[b]), std::sqrt(dd), mag);
      w.eq(R[a].distanceSquared(R[b]), dd, mag * mag);
      w.eq(distanceSquared(R[a], R[b]), dd, mag * mag);
    }
    if constexpr (has_dot<T>::value) {
      w.what = cat("dot product of ", NAMES[ty]);
      w.eq(R[a].dotProduct(R[b]), dot, dmag);
      w.eq(dotProduct(R[a], R[b]), dot, dmag);
    }
  });
  if (ty == tP2) {
    w.what = "Position2D crossProduct";
    double x = (double)S.p2[a].x * S.p2[b].y - (double)S.p2[a].y * S.p2[b].x, m = std::fabs((double)S.p2[a].x * S.p2[b].y) + std::fabs((double)S.p2[a].y * S.p2[b].x);
    w.eq(g.p2[a].crossProduct(g.p2[b]), x, m);
    w.eq(crossProduct(g.p2[a], g.p2[b]), x, m);
    float r;
    crossProduct(g.p2[a], g.p2[b], r);
    w.eq(r, x, m);
    w.what = "Position2D getAngle";
    if (std::hypot(S.p2[a].x, S.p2[a].y) > 1e-6) w.eq(std::remainder(g.p2[a].getAngle() - std::atan2((double)S.p2[a].y, (double)S.p2[a].x), 2 * PI_), 0, 4);
  }
  if (ty == tPO && std::hypot(S.po[a].x, S.po[a].y) > 1e-6) {
    w.what = "Pose2D getAngle";
    w.eq(std::remainder(g.po[a].getAngle() - std::atan2((double)S.po[a].y, (double)S.po[a].x), 2 * PI_), 0, 4);
  }
  if (ty == tP3) {
    w.what = cat("Position3D crossProduct", d == a || d == b ? " (aliased)" : "");
    if (d == a || d == b) w.c.fired("aliased-operand");
    w.target(g.p3[d]);
    int v = (int)o.idx(4, 3);
    if (v == 0) crossProduct(g.p3[a], g.p3[b], g.p3[d]);
    else if (v == 1) g.p3[d] = crossProduct(g.p3[a], g.p3[b]);
    else g.p3[d] = g.p3[a].crossProduct(g.p3[b]);
    w.pos(se3::of(g.p3[d]), se3::cross(se3::of(S.p3[a]), se3::of(S.p3[b])), se3::of(S.p3[a]).norm() * se3::of(S.p3[b]).norm());
    w.what = "Position3D predicates";
    double n = se3::of(S.p3[a]).norm(), e = 1e-3;
    se3::V3 x = se3::of(S.p3[a]), y = se3::of(S.p3[b]);
    bool unit = S.p3[a].isUnitVector((float)e), orth = S.p3[a].isOrthogonal(S.p3[b], (float)e);
    if (std::fabs(n * n - 1) < 1e-5 && !unit) w.c.fail("predicate", "a unit vector is not recognised");
    if (std::fabs(n - 1) > 1e-2 && unit) w.c.fail("predicate", cat("isUnitVector accepts ", show(S.p3[a])));
    double dt = std::fabs(se3::dot(x, y));
    if (dt < 1e-6 && x.norm() < 2 && y.norm() < 2 && !orth) w.c.fail("predicate", "orthogonal vectors are not recognised");
    if (dt > 1e-2 && dt > 1e-2 * x.norm() * y.norm() && orth) w.c.fail("predicate", "isOrthogonal accepts oblique vectors");
    if (isUnitVector(S.p3[a], (float)e) != unit || isOrthogonal(S.p3[a], S.p3[b], (float)e) != orth) w.c.fail("predicate", "member and free predicates differ");
  }
}

template <class T>
struct has_write {
  template <class U>
  static auto f(int) -> decltype(std::declval<U>().writeToVector(std::declval<std::vector<float>::iterator &>()), std::true_type());
  template <class U>
  static std::false_type f(...);
  static const bool value = decltype(f<T>(0))::value;
};
void vector_trip(W &w, const Op &o) {
  int ty = o.idx(0, tD);  // Displacement has no vector form
  size_t d = o.idx(1, N), a = o.idx(2, N);
  with_any(w.g, ty, [&](auto &R) {
    typedef typename std::remove_reference<decltype(R[0])>::type T;
    if constexpr (!std::is_same<T, Displacement>::value) {
      w.what = cat(NAMES[ty], " through a vector");
      std::vector<float> v = R[a].toVector(), v2(2, 7.0f);
      size_t n = dim<T>(), want = ty == tT ? 16 : n;
      if (v.size() != want) w.c.fail("vector-form", cat(w.what, " has ", v.size(), " numbers"));
      if (!std::equal(fl(R[a]), fl(R[a]) + n, v.begin(), same_bits)) w.c.fail("vector-form", cat(w.what, ": wrong numbers for ", show(R[a])));
      if (ty == tT && (v[12] != 0 || v[13] != 0 || v[14] != 0 || v[15] != 1)) w.c.fail("vector-form", "last row of a transform");
      R[a].toVector(v2);
      if (v2.size() != v.size() || !std::equal(v.begin(), v.end(), v2.begin(), same_bits)) w.c.fail("vector-form", cat(w.what, ": the two toVector differ"));
      if constexpr (has_write<T>::value) {
        std::vector<float> buf(v.size() + 3, -5.0f);
        std::vector<float>::iterator it = buf.begin() + 1;
        R[a].writeToVector(it);
        if (it != buf.begin() + 1 + v.size()) w.c.fail("vector-form", cat(w.what, ": the iterator was not advanced by ", v.size()));
        if (buf[0] != -5.0f || buf[v.size() + 1] != -5.0f || !std::equal(v.begin(), v.end(), buf.begin() + 1, same_bits)) w.c.fail("vector-form", cat(w.what, ": writeToVector wrote something else"));
      }
      if (ty == tT && se3::unrigid(se3::of(w.g.t[a]).r) > 1e-6) return;  // would be normalised
      w.target(R[d]);
      T x(v);
      if (!std::equal(fl(x), fl(x) + n, v.begin(), same_bits)) w.c.fail("vector-form", cat(w.what, " came back as ", show(x)));
      if (ty == tR) {
        std::vector<float> t = w.g.t[a].toVector();
        Rotation y(t);
        if (se3::rdist(se3::of(y), se3::of(w.g.t[a]).r) != 0) w.c.fail("vector-form", "rotation part of a transform vector");
      }
      R[d] = x;
      if (ty == tT) {  // without the last row
        T z(std::vector<float>(v.begin(), v.begin() + 12));
        if (!std::equal(fl(z), fl(z) + n, v.begin(), same_bits)) w.c.fail("vector-form", cat(w.what, " of 12 numbers came back as ", show(z)));
      }
      const size_t len = o.i(3, -1) < 0 ? n : o.idx(3, 20);
      if (len != n && !((ty == tT || ty == tR) && (len == 12 || len == 16))) {
        T z(std::vector<float>(len, 3.0f)), def;
        if (ty == tR || ty == tT || ty == tQ) {  // identity
          if (!std::equal(fl(z), fl(z) + n, fl(def), same_bits)) w.c.fail("vector-form", cat(NAMES[ty], " from ", len, " numbers is ", show(z)));
        } else
          for (size_t i = 0; i < n; ++i)
            if (fl(z)[i] != 0) w.c.fail("vector-form", cat(NAMES[ty], " from ", len, " numbers is ", show(z)));
        w.c.rejected("vector size");
      }
    }
  });
}

void predicate(W &w, const Op &o) {
  bool tf = o.idx(0, 2);
  size_t a = o.idx(1, N);
  int mode = (int)o.idx(2, 4);
  float eps = o.flt(3, 1e-4f);
  se3::Rot r = tf ? se3::of(w.g.t[a]).r : se3::of(w.g.r[a]);
  if (se3::unrigid(r) > 2e-5) return;
  int k = (int)o.idx(4, 9);
  if (mode == 1) r.m[k / 3][k % 3] += o.num(5);
  if (mode == 2)
    for (int j = 0; j < 3; ++j) r.m[k / 3][j] = -r.m[k / 3][j];  // a reflection
  if (mode == 3)
    for (int i = 0; i < 9; ++i) r.m[i / 3][i % 3] *= 1 + o.num(5);
  Rotation x;
  from_rot(x, r);
  r = se3::of(x);
  Transform t = transformFromRotation(x);
  t.r1_c4 = 5, t.r3_c4 = -2;
  bool got = tf ? t.isTransform(eps) : x.isRotation(eps);
  w.what = tf ? "isTransform" : "isRotation";
  double u = std::max(se3::unrigid(r), se3::unrigid(r.t()));
  // by how much the rows fail to be unit or the columns orthogonal
  double v = std::fabs(se3::det(r) - 1);
  for (int i = 0; i < 3; ++i) v = std::max(v, std::fabs(r.m[i][0] * r.m[i][0] + r.m[i][1] * r.m[i][1] + r.m[i][2] * r.m[i][2] - 1));
  if (u < eps / 3 - 1e-6 && !got) w.c.fail("predicate", cat(w.what, " rejects a rotation off by ", u, " with tolerance ", eps));
  if (v > 3 * eps + 2e-6 && got) w.c.fail("predicate", cat(w.what, " accepts a matrix off by ", v, " with tolerance ", eps));
  w.c.probe(got ? "rigid matrix recognised" : "non-rigid matrix recognised");
}

// PROJECT how d axis-index angle strict [axis]
void project(W &w, const Op &o) {
  int how = (int)o.idx(0, 4);
  size_t d = o.idx(1, N);
  double an = o.num(3);
  bool strict = o.idx(4, 2);
  Regs &g = w.g;
  const Regs S = g;
  int k = (int)o.idx(2, 3);
  Position3D ax(k == 0, k == 1, k == 2);
  bool principal = true;
  if (o.n.size() > 7) ax = Position3D(o.flt(5), o.flt(6), o.flt(7)), principal = false;
  ax *= 1.5f;
  w.what = cat("axisRotationProjection about ", show(ax));
  if (o.idx(1, 7) == 6 && principal) {
    Position3D zero;
    return w.refuse("null-axis", [&] {
      if (how == 0) g.r[d] = axisRotationProjection(zero, g.r[d]);
      else if (how == 1) axisRotationProjectionInPlace(zero, g.r[d]);
      else if (how == 2) g.t[d] = axisRotationProjection(zero, g.t[d]);
      else axisRotationProjectionInPlace(zero, g.t[d]);
    });
  }
  bool tf = how >= 2;
  double n = se3::of(ax).norm();
  if (n == 0) return;
  se3::Tf in;
  in.r = se3::axis_angle(an, 1 / n * se3::of(ax));
  in.p = se3::of(S.t[d]).p;
  if (strict || principal) {
    if (tf) w.target(g.t[d]), from_tf(g.t[d], in);
    else w.target(g.r[d]), from_rot(g.r[d], in.r);
  } else {
    if (tf) w.target(g.t[d]);
    else w.target(g.r[d]);
  }
  Rotation r0 = g.r[d];
  Transform t0 = g.t[d];
  Outcome out = attempt([&] {
    if (how == 0) g.r[d] = axisRotationProjection(ax, g.r[d]);
    else if (how == 1) axisRotationProjectionInPlace(ax, g.r[d]);
    else if (how == 2) g.t[d] = axisRotationProjection(ax, g.t[d]);
    else axisRotationProjectionInPlace(ax, g.t[d]);
  });
  if (out == THROWN) {
    if (std::memcmp(&r0, &g.r[d], sizeof r0) || std::memcmp(&t0, &g.t[d], sizeof t0)) w.c.fail("changed-by-failure", w.what + " threw after changing its operand");
    w.c.rejected("projection");
    if (principal || strict) w.c.fail("projection", cat(w.what, " refuses a rotation about that axis"));
    return;
  }
  if (out != OK) w.c.fail("unexpected-exception", w.what);
  if (principal || strict) {
    if (tf) w.rot(se3::of(g.t[d]).r, in.r, 2e-3, "projection"), w.pos(se3::of(g.t[d]).p, se3::of(t0).p, 0);
    else w.rot(se3::of(g.r[d]), in.r, 2e-3, "projection");
  } else {
    if (tf) w.pos(se3::of(g.t[d]).p, se3::of(t0).p, 0);
    // whichever angle it takes, the result turns about that axis (not judged when the angle is undefined)
    se3::Rot got = tf ? se3::of(g.t[d]).r : se3::of(g.r[d]);
    if (got.m[0][0] == got.m[0][0]) {
      if (!(se3::unrigid(got) < 1e-5)) w.c.fail("not-rigid", cat(w.what, " is off a rotation by ", se3::unrigid(got)));
      se3::V3 u = 1 / n * se3::of(ax);
      w.pos(got * u, u, 40);
      // about a coordinate axis it is at least nearer than the opposite turn
      const se3::Rot r = tf ? se3::of(t0).r : se3::of(r0);
      const int ai = ax.y == 0 && ax.z == 0 ? 0 : ax.x == 0 && ax.z == 0 ? 1 : ax.x == 0 && ax.y == 0 ? 2 : -1;
      if (ai >= 0 && se3::unrigid(r) < 1e-4) {
        double near = 0;
        for (int i = 0; i < 3; ++i)
          for (int j = 0; j < 3; ++j)
            if (i != ai && j != ai) near += got.m[i][j] * r.m[i][j];
        if (!(near > -1e-3)) w.c.fail("projection", cat(w.what, " took the turn opposite to the closest one (", near, ")"));
        w.c.probe("tilted rotation projected on a coordinate axis");
      }
    }
    // keep the register usable
    if (tf) g.t[d] = t0;
    else g.r[d] = r0;
  }
}

// The remaining helpers: averages, pills, bridges to Eigen, small aggregates.
void other(W &w, const Op &o) {
  int how = o.idx(0, 10);
  size_t d = o.idx(1, N), a = o.idx(2, N), b = o.idx(3, N);
  double x = o.num(4);
  Regs &g = w.g;
  const Regs S = g;
  switch (how) {
    case 0: {
      w.what = "averageTransforms";
      std::vector<Transform> in;
      size_t n = o.idx(5, 5);
      for (size_t i = 0; i < n; ++i) in.push_back(S.t[o.idx(6 + i, N)]);
      if (n == 0) return w.refuse("empty-range", [&] { g.t[d] = averageTransforms(in); });
      auto q0 = se3::quat_of(se3::of(in[0]).r);
      double qs[4] = {0, 0, 0, 0};
      se3::V3 ps;
      double mag = 0;
      bool vague = false;
      for (auto &t : in) {
        if (!(se3::unrigid(se3::of(t).r) < 1e-4)) return w.c.rejected("not rigid");
        auto q = se3::quat_of(se3::of(t).r);
        double dot = q[0] * q0[0] + q[1] * q0[1] + q[2] * q0[2] + q[3] * q0[3];
        if (std::fabs(dot) < 1e-3) vague = true;  // half a turn apart: either side
        double s = dot < 0 ? -1 : 1;
        for (int i = 0; i < 4; ++i) qs[i] += s * q[i];
        ps = ps + 1. / n * se3::of(t).p;
        mag += sumabs(se3::of(t).p);
      }
      w.target(g.t[d]);
      g.t[d] = averageTransforms(in);
      w.pos(se3::of(g.t[d]).p, ps, mag);
      double nn = std::sqrt(qs[0] * qs[0] + qs[1] * qs[1] + qs[2] * qs[2] + qs[3] * qs[3]);
      if (vague || nn < 0.1) break;
      double v = se3::unrigid(se3::of(g.t[d]).r);
      if (!(v < 3e-6)) w.c.fail("not-rigid", cat(w.what, " is off a rotation by ", v));
      w.rot(se3::of(g.t[d]).r, se3::rot_of_quat(qs[0] / nn, qs[1] / nn, qs[2] / nn, qs[3] / nn), 1e-5 + 5e-4 * (n > 0));
      break;
    }
    case 1: {
      w.what = "getSphereCentersFromPill";
      if (a == b) b = (a + 1) % N;
      w.target(g.p3[a]), w.target(g.p3[b]);
      getSphereCentersFromPill((float)x, g.t[d], g.p3[a], g.p3[b]);
      se3::Tf t = se3::of(S.t[d]);
      se3::V3 z(t.r.m[0][2], t.r.m[1][2], t.r.m[2][2]);
      double h = (float)x, m = sumabs(t.p) + std::fabs(h);
      w.pos(se3::V3(g.p3[a].x, g.p3[a].y, g.p3[a].z), t.p + h * z, m);
      w.pos(se3::V3(g.p3[b].x, g.p3[b].y, g.p3[b].z), t.p - h * z, m);
      break;
    }
    case 2: {
      w.what = "computePillParameters";
      se3::V3 A(S.p3[a].x, S.p3[a].y, S.p3[a].z), B(S.p3[b].x, S.p3[b].y, S.p3[b].z);
      double dist = std::sqrt(se3::dot(B - A, B - A)), m = sumabs(A) + sumabs(B);
      if (dist < 1e-3 * (1 + m)) return w.c.rejected("too short a pill");
      float half = -1;
      w.target(g.t[d]);
      computePillParameters(g.p3[a], g.p3[b], half, g.t[d]);
      w.eq(half, dist / 2, m);
      se3::Tf t = se3::of(g.t[d]);
      w.pos(t.p, 0.5 * (A + B), m);
      w.pos(se3::V3(t.r.m[0][2], t.r.m[1][2], t.r.m[2][2]), 1 / dist * (B - A), 1 + m / dist);
      if (!(se3::unrigid(t.r) < 3e-4)) w.c.fail("not-rigid", cat(w.what, " is not orthonormal"));
      break;
    }
    case 3: {
      w.what = "conversion to Eigen";
      Matrix34f m = toEigenMatrix34(g.t[a]);
      Eigen::Matrix3f m3 = toEigenMatrix3(g.t[a]);
      Eigen::AffineCompact3f ac = toEigenAffineCompact3(g.t[a]);
      Eigen::Vector3f v = toEigenVector3(g.p3[b]);
      bool ok = std::memcmp(&v[0], &S.p3[b], 12) == 0;
      const float *f = fl(S.t[a]);
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 4; ++j) ok = ok && same_bits(m(i, j), f[4 * i + j]) && same_bits(ac.matrix()(i, j), f[4 * i + j]) && (j == 3 || same_bits(m3(i, j), f[4 * i + j]));
      if (!ok) w.c.fail("wrong-value", w.what + " changes components");
      if (se3::unrigid(se3::of(S.t[a]).r) < 1e-4) {
        Eigen::Quaternion<float> q = toEigenQuaternion<float>(g.t[a]);
        w.rot(se3::rot_of_quat(q.w(), q.x(), q.y(), q.z()), se3::of(S.t[a]).r, 1e-3);
      }
      break;
    }
    case 4: {
      w.what = "conversion from Eigen";
      w.target(g.t[d]);
      Matrix34f m;
      const float *f = fl(S.t[a]);
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 4; ++j) m(i, j) = f[4 * i + j];
      int v = (int)o.idx(5, 4);
      Eigen::Affine3f af;
      af.matrix().setIdentity();
      af.matrix().topRows<3>() = m;
      if (v == 0) g.t[d] = toALMathTransform(m);
      else if (v == 1) toALMathTransform(m, g.t[d]);
      else if (v == 2) g.t[d] = toALMathTransform(af);
      else toALMathTransform(af, g.t[d]);
      bool ok = std::memcmp(&g.t[d], &S.t[a], sizeof(Transform)) == 0;
      w.target(g.p3[d]), w.target(g.v6[d]);
      g.p3[d] = toALMathPosition3D(Eigen::Vector3f(S.p3[b].x, S.p3[b].y, S.p3[b].z));
      Vector6f s6 = Eigen::Map<const Vector6f>(&S.v6[b].xd);
      if (v & 1) toALMathVelocity6D(s6, g.v6[d]);
      else g.v6[d] = toALMathVelocity6D(s6);
      if (!ok || std::memcmp(&g.p3[d], &S.p3[b], 12) || std::memcmp(&g.v6[d], &S.v6[b], 24)) w.c.fail("wrong-value", w.what + " changes components");
      break;
    }
    case 5: {
      w.what = "pointMassRotationalInertia";
      std::vector<float> I((size_t)o.idx(5, 20), 7.f);
      pointMassRotationalInertia((float)x, g.p3[a], I);
      double m = (float)x, p[3] = {S.p3[a].x, S.p3[a].y, S.p3[a].z}, n2 = p[0] * p[0] + p[1] * p[1] + p[2] * p[2];
      if (I.size() != 9) w.c.fail("wrong-value", cat(w.what, " gives ", I.size(), " values"));
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) w.eq(I[3 * i + j], m * ((i == j) * n2 - p[i] * p[j]), std::fabs(m) * n2);
      break;
    }
    case 6: {
      w.what = "determinant of a vector";
      std::vector<float> v;
      const float *f = fl(S.t[a]);
      size_t n = std::vector<size_t>{12, 16, 0, 9, 11, 13}[o.idx(5, 6)];
      for (size_t i = 0; i < n; ++i) v.push_back(i < 12 ? f[i] : i == 15);
      float got = determinant(v);
      if (n != 12 && n != 16) {
        if (got != 0) w.c.fail("wrong-value", w.what + " of a wrong size is not null");
      } else {
        double m[3][3], s = 0, mag = 0;
        for (int i = 0; i < 3; ++i)
          for (int j = 0; j < 3; ++j) m[i][j] = f[4 * i + j];
        for (int j = 0; j < 3; ++j) {
          int k = (j + 1) % 3, l = (j + 2) % 3;
          s += m[0][j] * (m[1][k] * m[2][l] - m[1][l] * m[2][k]);
          mag += std::fabs(m[0][j]) * (std::fabs(m[1][k] * m[2][l]) + std::fabs(m[1][l] * m[2][k]));
        }
        w.eq(got, s, mag);
      }
      break;
    }
    case 7: {
      w.what = "building from one value";
      float f = (float)x;
      auto all = [&](const auto &t) {
        for (size_t i = 0; i < dim<typename std::decay<decltype(t)>::type>(); ++i)
          if (!same_bits(fl(t)[i], f)) w.c.fail("wrong-value", cat(w.what, " ", f, " gave ", show(t)));
      };
      all(Position2D(f)), all(Position3D(f)), all(Position6D(f)), all(Pose2D(f)), all(Velocity3D(f)), all(Velocity6D(f)), all(Rotation3D(f));
      break;
    }
    case 8: {
      w.what = "PositionAndVelocity";
      PositionAndVelocity p((float)x, S.p3[a].x), q((float)x + S.p3[b].y, S.p3[b].x), z;
      std::vector<float> v = p.toVector(), u(5, 1.f);
      p.toVector(u);
      float want[2] = {(float)x, S.p3[a].x};
      if (v.size() != 2 || u != v || std::memcmp(v.data(), want, 8)) w.c.fail("wrong-value", w.what + "::toVector");
      if (z.q != 0 || z.dq != 0) w.c.fail("wrong-value", w.what + " is not null by default");
      float eps = (float)std::pow(10., (double)o.idx(5, 8) - 5);
      double d1 = std::fabs((double)p.q - q.q), d2 = std::fabs((double)p.dq - q.dq), md = std::max(d1, d2), tol = EPS * (std::fabs(p.q) + std::fabs(q.q) + std::fabs(p.dq) + std::fabs(q.dq));
      if (std::fabs(md - eps) > 2 * tol && p.isNear(q, eps) != (md < eps)) w.c.fail("wrong-value", cat(w.what, "::isNear at ", md, " with ", eps));
      if (!p.isNear(p, 0)) w.c.fail("wrong-value", w.what + " is not near itself");
      break;
    }
    default: {
      w.what = "TransformAndVelocity6D";
      TransformAndVelocity6D p(g.t[a], g.v6[a]), q(g.t[b], g.v6[b]), z;
      if (std::memcmp(&p.T, &S.t[a], sizeof(Transform)) || std::memcmp(&p.V, &S.v6[a], sizeof(Velocity6D))) w.c.fail("wrong-value", w.what + " changes its parts");
      Transform I;
      if (std::memcmp(&z.T, &I, sizeof I) || norm(z.V) != 0) w.c.fail("wrong-value", w.what + " is not identity at rest by default");
      float eps = (float)std::pow(10., (double)o.idx(5, 8) - 5);
      if (p.isNear(q, eps) != (g.t[a].isNear(g.t[b], eps) && g.v6[a].isNear(g.v6[b], eps))) w.c.fail("wrong-value", w.what + "::isNear");
    }
  }
}

// ---- generation -----------------------------------------------------------
double pick_angle(Rng &r) {
  switch (r.below(8)) {
    case 0: return 0;
    case 1: return r.pick({PI_, -PI_, PI_ / 2, -PI_ / 2, 2 * PI_, 3 * PI_ / 2, PI_ / 4});
    case 2: return r.uni(-1, 1) * std::pow(10, r.uni(-7, -2));
    case 3: return PI_ * (r.chance(.5) ? 1 : -1) + r.uni(-1, 1) * std::pow(10, r.uni(-7, -2));
    case 4: return PI_ / 2 * (r.chance(.5) ? 1 : -1) + r.uni(-1, 1) * std::pow(10, r.uni(-7, -2));
    default: return r.uni(-3 * PI_, 3 * PI_);
  }
}
double pick_num(Rng &r) {
  switch (r.below(8)) {
    case 0: return r.pick({0.0, -0.0, 1.0, -1.0, 0.5});
    case 1: return r.uni(-1, 1) * std::pow(10, r.uni(-4, 4));
    default: return r.uni(-3, 3);
  }
}
se3::V3 direction(Rng &r) {
  if (r.chance(.3)) {
    int k = (int)r.below(3);
    double s = r.chance(.5) ? 1 : -1;
    return se3::V3(s * (k == 0), s * (k == 1), s * (k == 2));
  }
  se3::V3 v(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
  if (r.chance(.1)) v.x *= 1e-5;
  if (r.chance(.1)) v.y *= 1e-5;
  return v.norm() > 1e-9 ? 1 / v.norm() * v : se3::V3(1, 0, 0);
}
Op gen_load(Rng &r, int ty, int d) {
  se3::V3 rv = direction(r), p(pick_num(r), pick_num(r), pick_num(r));
  double an = pick_angle(r);
  if (ty == tR || ty == tT || ty == tQ || ty == tD) {
    while (an > PI_) an -= 2 * PI_;
    while (an < -PI_) an += 2 * PI_;
    rv = an * rv;
  } else {
    rv = se3::V3(an, pick_angle(r), pick_angle(r));
  }
  if (ty == tP3 && r.chance(.35)) p = direction(r);
  if (ty == tP3 && r.chance(.05)) p = se3::V3();
  double k = r.chance(.8) ? 1 : r.uni(0.1, 3);
  if (r.chance(.1)) k = -k;
  if (ty == tD) k = k < 0 ? -1 : 1;
  return Op(LOAD, {(double)ty, (double)d, rv.x, rv.y, rv.z, p.x, p.y, p.z, k});
}
Plan gen(Rng &r, int cfg) {
  Plan p;
  for (int ty = 0; ty < NTY; ++ty)
    for (int d = 0; d < N; ++d)
      if (r.chance(.85)) p.ops.push_back(gen_load(r, ty, d));
  int n = r.range(4, cfg == 1 ? 120 : 40);
  double alias = cfg == 2 ? 0.6 : 0.2;
  for (int i = 0; i < n; ++i) {
    int d = (int)r.below(N), a = r.chance(alias) ? d : (int)r.below(N), b = r.chance(alias) ? d : (int)r.below(N);
    double D = d, A = a, B = b;
    switch (r.below(15)) {
      case 0: p.ops.push_back(gen_load(r, (int)r.below(NTY), d)); break;
      case 1:
      case 2: p.ops.push_back(Op(LIN, {(double)r.below(tQ + 1), (double)r.below(12), D, A, B, r.chance(.1) ? 0.0 : r.chance(.5) ? r.uni(-2, 2) : pick_num(r), (double)r.below(6)})); break;
      case 3: p.ops.push_back(Op(CMP, {(double)r.below(NTY), A, B, (double)r.below(12), std::pow(10, r.uni(-4, -1)), r.pick({0.0, 0.5, -0.5, 0.98, 1.02, -1.02, 2.0, 0.001})})); break;
      case 4:
      case 5: p.ops.push_back(Op(COMPOSE, {(double)r.below(5), (double)r.below(3), D, A, B})); break;
      case 6: p.ops.push_back(Op(INVERT, {(double)r.below(4), (double)r.below(6), D, A, B, (double)r.below(2)})); break;
      case 7: p.ops.push_back(Op(FRAME, {(double)r.below(12), D, A, B, pick_angle(r), (double)r.below(4)})); break;
      case 8: p.ops.push_back(Op(APPLY, {(double)r.below(9), D, A, B, pick_num(r)})); break;
      case 9:
      case 10: p.ops.push_back(Op(CONVERT, {(double)r.below(33), D, A, (double)r.below(2), (double)r.below(6), pick_angle(r)})); break;
      case 11: p.ops.push_back(Op(AXIS, {(double)r.below(5), D, A, pick_angle(r), (double)r.below(30), (double)r.below(20)})); break;
      case 12: {
        int k = (int)r.below(4);
        if (k == 0) p.ops.push_back(Op(NORMALISE, {(double)r.below(NTY), D, A, (double)r.below(2), r.chance(.5) ? 0.0 : std::pow(10, r.uni(-6, -1.3)), r.uni(0, 1), (double)r.below(12)}));
        else if (k == 1) p.ops.push_back(Op(METRIC, {(double)r.below(NTY), A, B, D, (double)r.below(3)}));
        else if (k == 2) p.ops.push_back(Op(VECTOR, {(double)r.below(tD), D, A, r.chance(0.7) ? -1. : (double)r.below(20)}));
        else p.ops.push_back(Op(PREDICATE, {(double)r.below(2), A, (double)r.below(4), std::pow(10, r.uni(-4, -2)), (double)r.below(9), r.uni(-1, 1) * std::pow(10, r.uni(-5, 0))}));
        break;
      }
      case 13: p.ops.push_back(Op(OTHER, {(double)r.below(10), D, A, B, pick_num(r), (double)r.below(40), (double)r.below(3), (double)r.below(3), (double)r.below(3), (double)r.below(3)})); break;
      default:
        if (r.chance(.6)) {
          p.ops.push_back(Op(METRIC, {(double)r.below(NTY), A, B, D, (double)r.below(3)}));
        } else {
          Op o(PROJECT, {(double)r.below(4), (double)r.below(7), (double)r.below(3), pick_angle(r), 0});
          if (r.chance(.3)) {
            se3::V3 u = direction(r);
            o.n.push_back(u.x), o.n.push_back(u.y), o.n.push_back(u.z);
          }
          p.ops.push_back(o);
        }
    }
  }
  return p;
}

void exec(const Plan &p, Ctx &c) {
  W w(c);
  w.sync();
  u64 st = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &o = p.ops[i];
    c.op_index = (int)i;
    w.dst.clear();
    w.what = "operation";
    switch (o.code) {
      case LOAD: load(w, o); break;
      case LIN: lin(w, o); break;
      case CMP: cmp(w, o); break;
      case COMPOSE: compose(w, o); break;
      case INVERT: invert(w, o); break;
      case FRAME: frame(w, o); break;
      case APPLY: apply(w, o); break;
      case CONVERT: convert(w, o); break;
      case AXIS: axis(w, o); break;
      case NORMALISE: normalise(w, o); break;
      case METRIC: metric(w, o); break;
      case VECTOR: vector_trip(w, o); break;
      case PREDICATE: predicate(w, o); break;
      case PROJECT: project(w, o); break;
      case OTHER: other(w, o); break;
      default: break;
    }
    w.untouched();
    c.trace(w.what);
    c.trace(hash_bytes(&w.g, sizeof w.g));
    if (o.code != LOAD) {
      st = mix(st & 0xff, hash_str(w.what));
      c.state(hash_str(w.what));
      c.nontrivial();
    }
    // values that drifted out of the range the bounds cover are replaced
    double big = wildness(w.g);
    if (!(big < 1e6)) {
      w.g = Regs();
      c.probe("register file restarted");
    }
    for (int k = 0; k < N; ++k) {
      if (!(se3::unrigid(se3::of(w.g.t[k]).r) < 1e-3)) w.g.t[k] = Transform();
      if (!(se3::unrigid(se3::of(w.g.r[k])) < 1e-3)) w.g.r[k] = Rotation();
      double n = std::sqrt(qn2(w.g.q[k])), m = std::sqrt(qn2(w.g.d[k].Q));
      if (!(n > 1e-4 && n < 1e4)) w.g.q[k] = Quaternion();
      if (!(m > 0.5 && m < 2)) w.g.d[k].Q = Quaternion();
      if (n == n && unitq(w.g.q[k])) c.probe("unit quaternion held");
    }
    w.sync();
  }
}
}  // namespace

Scenario sim::make_scenario() {
  Scenario s;
  s.id = "C17";
  s.rule = "a register file (three registers of each of eleven types) with random loads (tiny, quarter, half and full turns, null and unit vectors) and a random chain of operations whose operands are drawn with forced aliasing; "
           "before each operation the file is snapshotted, the expected result is computed in double precision, and every other register must keep its exact bits; a run is non-trivial when at least one operation was checked";
  s.real = {"Position2D/3D/6D, Pose2D, Velocity3D/6D, Rotation, Rotation3D, Quaternion, Transform, Displacement", "altransformhelpers conversions and frame changes", "almath conversions and products"};
  s.stub = {};
  s.configs = {"chains", "long chains", "mostly aliased operands"};
  s.fault_kinds = {"aliased-operand", "division-by-zero", "non-unit-axis", "null-axis", "null-normalised"};
  s.state_measure = "operation variants executed, with the aliasing of their operands";
  s.assumptions = {"values up to 1e6, rotations kept within 1e-3 of rigid, non-unit quaternions only where a norm is not required"};
  s.gen = gen;
  s.exec = exec;
  s.quick_runs = 60000;
  s.quick_secs = 30;
  return s;
}
