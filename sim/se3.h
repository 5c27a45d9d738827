// Double-precision reference model of rotations, rigid transforms and twists.
#ifndef VERIF_SIM_SE3_H
#define VERIF_SIM_SE3_H
#include <cmath>
#include <almath/types/alpose2d.h>
#include <almath/types/alposition3d.h>
#include <almath/types/alquaternion.h>
#include <array>
#include <almath/types/alrotation.h>
#include <almath/types/altransform.h>
#include <almath/types/alvelocity6d.h>

namespace se3 {
struct V3 {
  double x = 0, y = 0, z = 0;
  V3() {}
  V3(double a, double b, double c) : x(a), y(b), z(c) {}
  double norm() const { return std::sqrt(x * x + y * y + z * z); }
};
inline V3 operator+(V3 a, V3 b) { return V3(a.x + b.x, a.y + b.y, a.z + b.z); }
inline V3 operator-(V3 a, V3 b) { return V3(a.x - b.x, a.y - b.y, a.z - b.z); }
inline V3 operator*(double k, V3 a) { return V3(k * a.x, k * a.y, k * a.z); }
inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) { return V3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }

struct Rot {
  double m[3][3];
  Rot() {
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) m[i][j] = i == j;
  }
  Rot t() const {
    Rot r;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) r.m[i][j] = m[j][i];
    return r;
  }
};
inline Rot operator*(const Rot &a, const Rot &b) {
  Rot r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      r.m[i][j] = 0;
      for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j];
    }
  return r;
}
inline V3 operator*(const Rot &a, V3 v) {
  return V3(a.m[0][0] * v.x + a.m[0][1] * v.y + a.m[0][2] * v.z, a.m[1][0] * v.x + a.m[1][1] * v.y + a.m[1][2] * v.z,
            a.m[2][0] * v.x + a.m[2][1] * v.y + a.m[2][2] * v.z);
}
inline double det(const Rot &r) {
  return dot(V3(r.m[0][0], r.m[1][0], r.m[2][0]), cross(V3(r.m[0][1], r.m[1][1], r.m[2][1]), V3(r.m[0][2], r.m[1][2], r.m[2][2])));
}
inline double rdist(const Rot &a, const Rot &b) {  // largest entry difference
  double d = 0;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      double e = std::fabs(a.m[i][j] - b.m[i][j]);
      if (e != e) return e;
      if (e > d) d = e;
    }
  return d;
}
inline double unrigid(const Rot &r) {  // deviation from a proper rotation
  double d = rdist(r * r.t(), Rot()), e = std::fabs(det(r) - 1);
  return d != d || e != e ? NAN : d > e ? d : e;
}
// coefficients sin(t)/t, (1-cos t)/t^2, (t-sin t)/t^3
inline void coeffs(double t, double &s, double &c, double &d) {
  if (t < 1e-4) {
    s = 1 - t * t / 6;
    c = 0.5 - t * t / 24;
    d = 1.0 / 6 - t * t / 120;
  } else {
    double h = std::sin(t / 2);
    s = std::sin(t) / t;
    c = 2 * h * h / (t * t);
    d = t < 1e-2 ? 1.0 / 6 - t * t / 120 + t * t * t * t / 5040 : (t - std::sin(t)) / (t * t * t);
  }
}
inline Rot hat2(V3 w, double s, double c) {  // I + s*hat(w) + c*hat(w)^2
  Rot r;
  double n = dot(w, w);
  const double v[3] = {w.x, w.y, w.z};
  const double h[3][3] = {{0, -w.z, w.y}, {w.z, 0, -w.x}, {-w.y, w.x, 0}};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r.m[i][j] = (i == j) * (1 - c * n) + s * h[i][j] + c * v[i] * v[j];
  return r;
}
inline Rot rexp(V3 w) {
  double s, c, d;
  coeffs(w.norm(), s, c, d);
  return hat2(w, s, c);
}
inline Rot axis_angle(double a, V3 u) { return rexp(a * u); }
// Rotation vector, robust everywhere (|w| <= pi).
inline V3 rlog(const Rot &r) {
  V3 a(r.m[2][1] - r.m[1][2], r.m[0][2] - r.m[2][0], r.m[1][0] - r.m[0][1]);
  double si = a.norm() / 2, co = (r.m[0][0] + r.m[1][1] + r.m[2][2] - 1) / 2, th = std::atan2(si, co);
  if (si > 1e-4 || co > 0) return (si > 1e-9 ? th / (2 * si) : 0.5) * a;
  // near a half turn: axis from the symmetric part
  double q[3] = {(r.m[0][0] + 1) / 2, (r.m[1][1] + 1) / 2, (r.m[2][2] + 1) / 2};
  int k = q[0] >= q[1] && q[0] >= q[2] ? 0 : q[1] >= q[2] ? 1 : 2;
  double u[3], s = std::sqrt(q[k] > 0 ? q[k] : 0);
  for (int i = 0; i < 3; ++i) u[i] = i == k ? s : (r.m[i][k] + r.m[k][i]) / (4 * s);
  V3 v(u[0], u[1], u[2]);
  if (dot(v, a) < 0) v = -1 * v;
  return (th / v.norm()) * v;
}

struct Tf {
  Rot r;
  V3 p;
};
inline Tf operator*(const Tf &a, const Tf &b) {
  Tf t;
  t.r = a.r * b.r;
  t.p = a.r * b.p + a.p;
  return t;
}
inline Tf tinv(const Tf &a) {
  Tf t;
  t.r = a.r.t();
  t.p = -1 * (t.r * a.p);
  return t;
}
struct Tw {
  V3 v, w;
};
inline Tw operator*(double k, Tw a) {
  Tw t;
  t.v = k * a.v;
  t.w = k * a.w;
  return t;
}
inline Tf texp(Tw a) {
  double s, c, d;
  coeffs(a.w.norm(), s, c, d);
  Tf t;
  t.r = hat2(a.w, s, c);
  // V = I + c*hat + d*hat^2
  Rot V = hat2(a.w, c, d);
  t.p = V * a.v;
  return t;
}
inline Tw tlog(const Tf &a) {
  Tw t;
  t.w = rlog(a.r);
  double th = t.w.norm(), l;
  if (th < 1e-2) l = 1.0 / 12 + th * th / 720;
  else l = (1 - th * std::sin(th) / (2 * (1 - std::cos(th)))) / (th * th);
  V3 x = cross(t.w, a.p);
  t.v = a.p + -0.5 * x + l * cross(t.w, x);
  return t;
}
// library values
inline Tf of(const AL::Math::Transform &t) {
  Tf r;
  const float m[3][3] = {{t.r1_c1, t.r1_c2, t.r1_c3}, {t.r2_c1, t.r2_c2, t.r2_c3}, {t.r3_c1, t.r3_c2, t.r3_c3}};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r.r.m[i][j] = m[i][j];
  r.p = V3(t.r1_c4, t.r2_c4, t.r3_c4);
  return r;
}
inline Rot of(const AL::Math::Rotation &t) {
  Rot r;
  const float m[3][3] = {{t.r1_c1, t.r1_c2, t.r1_c3}, {t.r2_c1, t.r2_c2, t.r2_c3}, {t.r3_c1, t.r3_c2, t.r3_c3}};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r.m[i][j] = m[i][j];
  return r;
}
inline Tw of(const AL::Math::Velocity6D &v) {
  Tw t;
  t.v = V3(v.xd, v.yd, v.zd);
  t.w = V3(v.wxd, v.wyd, v.wzd);
  return t;
}
inline V3 of(const AL::Math::Position3D &p) { return V3(p.x, p.y, p.z); }
inline Rot rot_of_quat(double w, double x, double y, double z) {
  Rot r;
  double n = w * w + x * x + y * y + z * z;
  w /= std::sqrt(n), x /= std::sqrt(n), y /= std::sqrt(n), z /= std::sqrt(n);
  double m[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)},
                    {2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)},
                    {2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)}};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r.m[i][j] = m[i][j];
  return r;
}
inline std::array<double, 4> quat_of(const Rot &r) {  // w x y z, largest component positive
  double t[4] = {r.m[0][0] + r.m[1][1] + r.m[2][2], r.m[0][0] - r.m[1][1] - r.m[2][2], r.m[1][1] - r.m[0][0] - r.m[2][2], r.m[2][2] - r.m[0][0] - r.m[1][1]};
  double K[4][4] = {{0, r.m[2][1] - r.m[1][2], r.m[0][2] - r.m[2][0], r.m[1][0] - r.m[0][1]},
                    {0, 0, r.m[0][1] + r.m[1][0], r.m[0][2] + r.m[2][0]},
                    {0, 0, 0, r.m[1][2] + r.m[2][1]},
                    {0, 0, 0, 0}};
  int k = 0;
  for (int i = 1; i < 4; ++i)
    if (t[i] > t[k]) k = i;
  std::array<double, 4> q;
  double n = 0;
  for (int i = 0; i < 4; ++i) q[i] = i == k ? 1 + t[k] : i < k ? K[i][k] : K[k][i];
  for (double x : q) n += x * x;
  for (double &x : q) x /= std::sqrt(n);
  return q;
}
inline Rot rot_of(const AL::Math::Quaternion &q) { return rot_of_quat(q.w, q.x, q.y, q.z); }
inline Rot rot_rpy(double wx, double wy, double wz) { return axis_angle(wz, V3(0, 0, 1)) * axis_angle(wy, V3(0, 1, 0)) * axis_angle(wx, V3(1, 0, 0)); }
}  // namespace se3
#endif
