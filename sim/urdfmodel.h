// Independent model of URDF documents: generator, text writer, reader,
// validity rules, traversal, forward kinematics and mass properties.
// Double precision, own linear algebra; nothing here calls the library.
#ifndef VERIF_SIM_URDFMODEL_H
#define VERIF_SIM_URDFMODEL_H
#include <boost/property_tree/ptree.hpp>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "sim/core.h"

namespace um {
using sim::Op;
using sim::Rng;
using sim::cat;
typedef boost::property_tree::ptree ptree;
[[noreturn]] inline void inject_tree(long kind) {
  if (kind % 7 == 6) throw sim::InjectedAs<boost::property_tree::ptree_bad_path>("injected failure", ptree::path_type("a"));
  sim::inject(kind % 7);
}

// ---- linear algebra --------------------------------------------------------
struct V3 {
  double v[3];
  double operator[](int i) const { return v[i]; }
  double &operator[](int i) { return v[i]; }
};
inline V3 v3(double x, double y, double z) { return V3{{x, y, z}}; }
inline V3 operator+(V3 a, V3 b) { return v3(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
inline V3 operator-(V3 a, V3 b) { return v3(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
inline V3 operator*(double s, V3 b) { return v3(s * b[0], s * b[1], s * b[2]); }
inline double dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline double norm(V3 a) { return std::sqrt(dot(a, a)); }
struct M3 {
  double m[3][3];
};
inline M3 eye() { return M3{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; }
inline M3 zero3() { return M3{{{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}}; }
inline M3 operator*(const M3 &a, const M3 &b) {
  M3 r = zero3();
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j];
  return r;
}
inline V3 operator*(const M3 &a, V3 b) {
  V3 r = v3(0, 0, 0);
  for (int i = 0; i < 3; ++i)
    for (int k = 0; k < 3; ++k) r[i] += a.m[i][k] * b[k];
  return r;
}
inline M3 tr(const M3 &a) {
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[j][i];
  return r;
}
inline M3 operator+(const M3 &a, const M3 &b) {
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[i][j] + b.m[i][j];
  return r;
}
inline M3 rot_axis(V3 u, double q) {  // Rodrigues, u needs not be unit
  double n = norm(u);
  if (n == 0) return eye();
  u = (1 / n) * u;
  double c = std::cos(q), s = std::sin(q), t = 1 - c;
  return M3{{{t * u[0] * u[0] + c, t * u[0] * u[1] - s * u[2], t * u[0] * u[2] + s * u[1]},
             {t * u[0] * u[1] + s * u[2], t * u[1] * u[1] + c, t * u[1] * u[2] - s * u[0]},
             {t * u[0] * u[2] - s * u[1], t * u[1] * u[2] + s * u[0], t * u[2] * u[2] + c}}};
}
inline M3 rot_rpy(V3 a) {
  return rot_axis(v3(0, 0, 1), a[2]) * rot_axis(v3(0, 1, 0), a[1]) * rot_axis(v3(1, 0, 0), a[0]);
}
struct TF {
  M3 R;
  V3 t;
};
inline TF ident() { return TF{eye(), v3(0, 0, 0)}; }
inline TF operator*(const TF &a, const TF &b) { return TF{a.R * b.R, a.R * b.t + a.t}; }
inline TF inv(const TF &a) { return TF{tr(a.R), -1. * (tr(a.R) * a.t)}; }
inline double dist(const TF &a, const TF &b, double len) {  // rotation error and translation error / len
  double e = 0;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) e = std::max(e, std::fabs(a.R.m[i][j] - b.R.m[i][j]));
    e = std::max(e, std::fabs(a.t[i] - b.t[i]) / len);
    if (!(a.t[i] == a.t[i]) || !(b.t[i] == b.t[i])) return 1e300;
  }
  return e;
}

// ---- documents -------------------------------------------------------------
struct UPose {
  V3 xyz = {{0, 0, 0}}, rpy = {{0, 0, 0}};
  TF tf() const { return TF{rot_rpy(rpy), xyz}; }
};
struct UElem {  // visual or collision
  bool visual;
  UPose o;
  std::string otext, rest;
};
struct ULink {
  std::string name;
  bool has_inertial = false;
  UPose io;
  double mass = 0, I[6] = {0, 0, 0, 0, 0, 0};  // xx xy xz yy yz zz
  std::string itext, iotext;                   // <inertial> but its origin, origin of <inertial>
  std::vector<UElem> elems;
  std::string rest;
  M3 inertia() const { return M3{{{I[0], I[1], I[2]}, {I[1], I[3], I[4]}, {I[2], I[4], I[5]}}}; }
};
struct UJoint {
  std::string name, type, parent, child;
  UPose o;
  std::string otext;
  bool has_axis = false;
  V3 axis = {{1, 0, 0}};
  std::string atext;
  bool has_mimic = false;
  std::string mimic;
  double mult = 1, off = 0;
  std::string rest;
};
struct URobot {
  std::vector<ULink> links;    // document order
  std::vector<UJoint> joints;  // document order
  std::vector<std::string> others;
  std::string order;  // kinds of the robot children, in order
  int link(const std::string &n) const {
    for (size_t i = 0; i < links.size(); ++i)
      if (links[i].name == n) return (int)i;
    return -1;
  }
  int joint(const std::string &n) const {
    for (size_t i = 0; i < joints.size(); ++i)
      if (joints[i].name == n) return (int)i;
    return -1;
  }
  int joint_of_child(const std::string &l) const {
    for (size_t i = 0; i < joints.size(); ++i)
      if (joints[i].child == l) return (int)i;
    return -1;
  }
  std::vector<int> children(const std::string &l) const {
    std::vector<int> r;
    for (size_t i = 0; i < joints.size(); ++i)
      if (joints[i].parent == l) r.push_back((int)i);
    return r;
  }
  std::string root() const {
    for (auto &l : links)
      if (joint_of_child(l.name) < 0) return l.name;
    return std::string();
  }
  // depth first, siblings in document order
  void walk(const std::string &l, std::vector<int> &out) const {
    for (int j : children(l)) {
      out.push_back(j);
      walk(joints[j].child, out);
    }
  }
  std::vector<int> traversal() const {
    std::vector<int> r;
    walk(root(), r);
    return r;
  }
  bool mimicked(const std::string &j) const {
    for (auto &x : joints)
      if (x.has_mimic && x.mimic == j) return true;
    return false;
  }
  bool mimic_flat() const {
    for (auto &x : joints)
      if (x.has_mimic) {
        int s = joint(x.mimic);
        if (s >= 0 && joints[s].has_mimic) return false;
      }
    return true;
  }
};

inline void dump(const ptree &p, std::string &o) {
  o += '[';
  o += p.data();
  for (auto &c : p) {
    o += '{';
    o += c.first;
    dump(c.second, o);
    o += '}';
  }
  o += ']';
}
inline std::string dumped(const ptree &p) {
  std::string s;
  dump(p, s);
  return s;
}
// first child with that key
inline const ptree *first(const ptree &p, const char *key) {
  for (auto &c : p)
    if (c.first == key) return &c.second;
  return nullptr;
}
inline bool attr(const ptree &p, const char *name, std::string &out) {
  const ptree *a = first(p, "<xmlattr>");
  if (!a) return false;
  const ptree *x = first(*a, name);
  if (!x) return false;
  out = x->data();
  return true;
}
struct Malformed {
  std::string what;
};
inline double number(const std::string &s) {
  char *e = nullptr;
  double d = std::strtod(s.c_str(), &e);
  while (e && *e && std::strchr(" \t\n\r\v\f", *e)) ++e;
  if (e == s.c_str() || *e) throw Malformed{"number '" + s + "'"};
  return d;
}
inline V3 triple(const std::string &s) {
  V3 r;
  const char *p = s.c_str();
  for (int i = 0; i < 3; ++i) {
    char *e = nullptr;
    r[i] = std::strtod(p, &e);
    if (e == p) throw Malformed{"vector '" + s + "'"};
    p = e;
  }
  while (*p && std::strchr(" \t\n\r\v\f", *p)) ++p;
  if (*p) throw Malformed{"vector '" + s + "'"};
  return r;
}
inline UPose read_pose(const ptree *o) {
  UPose p;
  std::string s;
  if (o) {
    if (attr(*o, "xyz", s)) p.xyz = triple(s);
    if (attr(*o, "rpy", s)) p.rpy = triple(s);
  }
  return p;
}
inline double need_num(const ptree *p, const char *a) {
  std::string s;
  if (!p || !attr(*p, a, s)) throw Malformed{std::string("missing ") + a};
  return number(s);
}
// everything but the named children, in order
inline std::string rest_of(const ptree &p, std::set<std::string> skip, std::set<std::string> skip_attr) {
  std::string o = p.data();
  for (auto &c : p) {
    if (skip.count(c.first)) continue;
    o += '{' + c.first;
    if (c.first == "<xmlattr>" && !skip_attr.empty()) {
      for (auto &a : c.second)
        if (!skip_attr.count(a.first)) {
          o += '(' + a.first;
          dump(a.second, o);
          o += ')';
        }
    } else {
      dump(c.second, o);
    }
    o += '}';
  }
  return o;
}

// Structure only: throws Malformed when a mandatory name is missing.
// With numbers=true poses, masses... are read as well.
inline URobot read_robot(const ptree &robot, bool numbers = true) {
  URobot r;
  for (auto &c : robot) {
    const ptree &p = c.second;
    if (c.first == "link") {
      ULink l;
      if (!attr(p, "name", l.name)) throw Malformed{"link without name"};
      if (const ptree *in = first(p, "inertial")) {
        l.has_inertial = true;
        l.itext = rest_of(*in, {"origin"}, {});
        if (const ptree *o = first(*in, "origin")) l.iotext = dumped(*o);
        if (numbers) {
          l.io = read_pose(first(*in, "origin"));
          l.mass = need_num(first(*in, "mass"), "value");
          static const char *n[6] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
          for (int i = 0; i < 6; ++i) l.I[i] = need_num(first(*in, "inertia"), n[i]);
        }
      }
      for (auto &v : p)
        if (v.first == "visual" || v.first == "collision") {
          UElem e;
          e.visual = v.first == "visual";
          const ptree *o = first(v.second, "origin");
          if (numbers) e.o = read_pose(o);
          if (o) e.otext = dumped(*o);
          e.rest = rest_of(v.second, {"origin"}, {});
          l.elems.push_back(e);
        }
      l.rest = rest_of(p, {"inertial", "visual", "collision"}, {});
      r.links.push_back(l);
      r.order += 'L';
    } else if (c.first == "joint") {
      UJoint j;
      if (!attr(p, "name", j.name)) throw Malformed{"joint without name"};
      const ptree *a = first(p, "parent"), *b = first(p, "child");
      if (!a || !attr(*a, "link", j.parent)) throw Malformed{"joint without parent"};
      if (!b || !attr(*b, "link", j.child)) throw Malformed{"joint without child"};
      attr(p, "type", j.type);
      const ptree *o = first(p, "origin");
      if (o) j.otext = dumped(*o);
      const ptree *ax = first(p, "axis");
      if (ax) j.atext = dumped(*ax);
      if (numbers) {
        j.o = read_pose(o);
        std::string s;
        if (ax && attr(*ax, "xyz", s)) j.has_axis = true, j.axis = triple(s);
      }
      if (const ptree *m = first(p, "mimic")) {
        j.has_mimic = true;
        if (!attr(*m, "joint", j.mimic)) throw Malformed{"mimic without joint"};
        std::string s;
        if (numbers) {
          if (attr(*m, "multiplier", s)) j.mult = number(s);
          if (attr(*m, "offset", s)) j.off = number(s);
        }
      }
      j.rest = rest_of(p, {"origin", "axis", "parent", "child"}, {"type"});
      r.joints.push_back(j);
      r.order += 'J';
    } else {
      r.others.push_back(c.first + dumped(p));
      r.order += 'o';
    }
  }
  return r;
}

// Empty when the document is a valid tree, else the reason.
inline std::string invalid(const URobot &r) {
  std::set<std::string> ln, jn, ch;
  for (auto &l : r.links)
    if (!ln.insert(l.name).second) return "duplicate link";
  if (ln.empty()) return "no link";
  for (auto &j : r.joints) {
    if (!jn.insert(j.name).second) return "duplicate joint";
    if (!ln.count(j.parent)) return "unknown parent";
    if (!ln.count(j.child)) return "unknown child";
    if (!ch.insert(j.child).second) return "two parents";
  }
  if (r.links.size() != r.joints.size() + 1) return r.joints.size() >= r.links.size() ? "loop" : "several roots";
  if (r.traversal().size() != r.joints.size()) return "disconnected loop";
  for (auto &j : r.joints)
    if (j.has_mimic && !jn.count(j.mimic)) return "mimic unknown";
  for (auto &j : r.joints) {
    const UJoint *x = &j;
    size_t n = 0;
    while (x->has_mimic && n++ <= r.joints.size()) x = &r.joints[r.joint(x->mimic)];
    if (x->has_mimic) return "mimic loop";
  }
  return std::string();
}

// ---- kinematics and masses -------------------------------------------------
typedef std::map<std::string, double> Joints;
inline TF motion(const UJoint &j, double q) {
  TF t = ident();
  if (j.type == "revolute" || j.type == "continuous") t.R = rot_axis(j.axis, q);
  else if (j.type == "prismatic") t.t = (q / std::max(norm(j.axis), 1e-300)) * j.axis;
  return t;
}
inline std::map<std::string, TF> fk(const URobot &r, const Joints &q) {
  std::map<std::string, TF> w;
  w[r.root()] = ident();
  for (int i : r.traversal()) {
    const UJoint &j = r.joints[i];
    auto it = q.find(j.name);
    w[j.child] = w[j.parent] * j.o.tf() * motion(j, it == q.end() ? 0 : it->second);
  }
  return w;
}
// mass, first moment, inertia about the origin of the frame the poses are in
struct MassSum {
  double m = 0;
  V3 mc = {{0, 0, 0}};
  M3 I = zero3();
  double absm = 0, absI = 0;  // magnitudes, for tolerances
  void add(double mass, const TF &w, const M3 &in) {
    m += mass;
    mc = mc + mass * w.t;
    M3 a = w.R * in * tr(w.R);
    double c2 = dot(w.t, w.t);
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) {
        a.m[i][j] += mass * ((i == j ? c2 : 0) - w.t[i] * w.t[j]);
        absI += std::fabs(in.m[i][j]);
      }
    I = I + a;
    absm += std::fabs(mass);
    absI += std::fabs(mass) * c2;
  }
};
inline MassSum masses(const URobot &r, const std::map<std::string, TF> &w) {
  MassSum s;
  for (auto &l : r.links)
    if (l.has_inertial) s.add(l.mass, w.at(l.name) * l.io.tf(), l.inertia());
  return s;
}

// ---- generation ------------------------------------------------------------
enum { D_LINK = 1, D_JOINT = 2, D_OTHER = 3 };
static const char *const kTypes[] = {"revolute", "continuous", "prismatic", "fixed", "floating", "planar", "bogus", ""};

struct DocOpts {
  int max_links = 8;
  std::vector<int> types = {0, 0, 1, 2, 3, 3, 4, 5};
  double p_inertial = 0.75, p_zero_mass = 0.03, p_origin = 0.75, p_visual = 0.4, p_mimic = 0.15, p_other = 0.25;
  bool odd_names = true, shuffle = true, plausible = false;
  bool axis_unit_only = false;  // axes among +x +y +z
  bool axis_any_length = false;
};

inline double rnd_angle(Rng &r) {
  double k = r.u();
  if (k < 0.15) return 0;
  if (k < 0.35) return (r.range(-4, 4)) * 0.78539816339744830962;
  if (k < 0.45) return r.uni(-7, 7);
  if (k < 0.5) return r.uni(-1e-4, 1e-4);
  return r.uni(-3.14159, 3.14159);
}
inline double rnd_len(Rng &r) {
  double k = r.u();
  if (k < 0.2) return 0;
  if (k < 0.4) return r.range(-3, 3);
  return r.uni(-2, 2);
}
inline void rnd_pose(Rng &r, double p_has, std::vector<double> &n) {  // mask xyz rpy
  int mask = r.chance(p_has) ? r.range(1, 3) : (r.chance(0.2) ? 4 : 0);
  if (mask && mask < 3 && r.chance(0.6)) mask = 3;
  n.push_back(mask);
  for (int i = 0; i < 3; ++i) n.push_back(mask & 1 ? rnd_len(r) : 0);
  for (int i = 0; i < 3; ++i) n.push_back(mask & 2 ? rnd_angle(r) : 0);
}
inline std::string rnd_name(Rng &r, const char *pre, int i, bool odd) {
  static const char *deco[] = {"", "", "", "", " x", ".y", "&<>", "\"'", "/z", "\xc3\xa9", "%1%"};
  std::string s = r.chance(0.3) ? std::string(1, (char)('a' + i)) : cat(pre, r.range(0, 99), "_", i);
  if (odd) s += deco[r.below(11)];
  return s;
}

// LINK n: key, has inertial, mass, I[6], pose[7], elements seed
// JOINT n: key, type, pose[7], axis mask, axis[3], has mimic, mult, off, extras seed
inline std::vector<Op> gen_doc(Rng &r, const DocOpts &o) {
  std::vector<Op> ops;
  int n = r.chance(0.1) ? 1 : r.range(2, o.max_links);
  int shape = r.range(0, 3);  // chain, star, bushy, random
  std::vector<std::string> ln, jn;
  std::vector<int> par(n, -1);
  const bool same = r.chance(0.2);  // links and joints share names
  for (int i = 0; i < n; ++i) {
    ln.push_back(rnd_name(r, "l", i, o.odd_names));
    jn.push_back(same ? ln.back() : rnd_name(r, "j", i, o.odd_names));
    if (i) par[i] = shape == 0 ? i - 1 : shape == 1 ? 0 : shape == 2 ? (i - 1) / 2 : r.range(0, i - 1);
  }
  double amp = r.chance(0.8) ? 1 : std::pow(10, r.uni(-3, 3));
  for (int i = 0; i < n; ++i) {
    if (i) {
      int t = r.pick(o.types);
      Op j(D_JOINT);
      j.n = {r.u(), (double)t};
      rnd_pose(r, o.p_origin, j.n);
      bool ax = t == 3 || t == 4 ? r.chance(0.2) : r.chance(0.75);
      V3 a = v3(0, 0, 0);
      if (o.axis_unit_only || r.chance(0.6)) a[r.range(0, 2)] = (o.axis_unit_only || r.chance(0.7)) ? 1 : -1;
      else {
        a = v3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
        if (r.chance(0.3)) {  // small integers
          for (int k = 0; k < 3; ++k) a[k] = r.range(-1, 1);
          if (norm(a) == 0) a[2] = -1;
        } else if (r.chance(0.7)) a = (1 / std::max(norm(a), 1e-6)) * a;
      }
      if (o.axis_any_length && r.chance(0.1)) a = (r.chance(0.5) ? 2 : r.uni(0.1, 3)) * a;
      j.n.push_back(ax ? 1 : 0);
      for (int k = 0; k < 3; ++k) j.n.push_back(a[k]);
      bool mim = i > 1 && r.chance(o.p_mimic);
      j.n.push_back(mim);
      j.n.push_back(r.uni(-2, 2));
      j.n.push_back(r.chance(0.5) ? 0 : r.uni(-1, 1));
      j.n.push_back(r.chance(0.6) ? (double)r.range(1, 100000) : 0);
      j.s = {jn[i], ln[par[i]], ln[i], mim ? jn[r.range(1, i - 1)] : std::string()};
      ops.push_back(j);
    }
    Op l(D_LINK);
    bool in = r.chance(o.p_inertial);
    double m = r.chance(o.p_zero_mass) ? 0 : r.uni(0.01, 5) * amp;
    l.n = {r.u(), (double)in, m};
    double s = r.uni(0.001, 0.5) * amp;
    double I[6] = {r.uni(.1, 1) * s, r.uni(-.1, .1) * s, r.uni(-.1, .1) * s, r.uni(.1, 1) * s, r.uni(-.1, .1) * s, r.uni(.1, 1) * s};
    if (r.chance(0.2)) I[1] = I[2] = I[4] = 0;
    if (o.plausible) I[0] = s, I[3] = s * 1.1, I[5] = s * 0.9;
    for (double x : I) l.n.push_back(x);
    rnd_pose(r, 0.7, l.n);
    if (i && r.chance(0.06)) {  // the inertial frame undoes the joint's: it is at the parent's
      const Op &j = ops.back();
      const size_t at = 9;  // mask xyz rpy of the inertial; 2.. of the joint
      const bool turn = r.chance(0.3);
      for (int k = 0; k < 3; ++k) l.n[at + 1 + k] = turn ? 0 : -j.n[3 + k], l.n[at + 4 + k] = 0;
      if (!turn) ops.back().n[2] = (int)ops.back().n[2] & 1;
      else {
        Op &jj = ops.back();
        for (int k = 0; k < 6; ++k) jj.n[3 + k] = 0;
        const int ax = r.range(0, 2);
        jj.n[2] = 2, jj.n[6 + ax] = rnd_angle(r), l.n[at + 4 + ax] = -jj.n[6 + ax];
      }
      l.n[at] = turn ? 2 : 1;
    }
    l.n.push_back(r.chance(o.p_visual) ? (double)r.range(1, 100000) : 0);
    l.s = {ln[i]};
    ops.push_back(l);
  }
  // distractors
  while (r.chance(o.p_other)) ops.push_back(Op(D_OTHER, {r.u(), (double)r.range(0, 6), (double)r.below(1000)}));
  if (!o.shuffle || r.chance(0.3))
    for (size_t i = 0; i < ops.size(); ++i) ops[i].n[0] = (double)(i + 1) / (double)(ops.size() + 2);
  return ops;
}

inline std::string esc(const std::string &s) {
  std::string o;
  for (char c : s) switch (c) {
      case '<': o += "&lt;"; break;
      case '>': o += "&gt;"; break;
      case '&': o += "&amp;"; break;
      case '"': o += "&quot;"; break;
      case '\'': o += "&apos;"; break;
      default: o += c;
    }
  return o;
}
inline std::string num(double x) {
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", x);
  return b;
}
inline std::string trip(const Op &o, size_t i, u_int64_t style) {
  static const char *sep[] = {" ", "  ", "\t", " \n ", " ", "\n", "\r\n", "\r", " ", "\f", "\v"};
  const char *s = sep[style % 11];
  return (style % 7 == 0 ? " " : "") + num(o.num(i)) + s + num(o.num(i + 1)) + s + num(o.num(i + 2)) + (style % 5 == 0 ? " " : "");
}
inline std::string pose_text(const Op &o, size_t i, u_int64_t style) {
  int mask = (int)o.idx(i, 8);
  if (!mask) return "";
  std::string s = "<origin";
  bool swap = style & 8;
  std::string a = mask & 1 ? " xyz=\"" + trip(o, i + 1, style) + "\"" : "", b = mask & 2 ? " rpy=\"" + trip(o, i + 4, style / 3) + "\"" : "";
  return s + (swap ? b + a : a + b) + "/>";
}
inline std::string shape_text(Rng &r) {
  auto x = [&] { return r.chance(0.4) ? num(r.range(1, 9) * 0.25) : num(r.uni(0, 3)); };
  switch (r.range(0, 4)) {
    case 0: { std::string a = x(), b = x(); return cat("<box size=\"", a, " ", b, " ", x(), "\"/>"); }
    case 1: { std::string a = x(), b = x(); return r.chance(0.5) ? cat("<cylinder radius=\"", a, "\" length=\"", b, "\"/>") : cat("<cylinder length=\"", a, "\" radius=\"", b, "\"/>"); }
    case 2: return cat("<sphere radius=\"", x(), "\"/>");
    case 3: if (r.chance(0.15)) return r.chance(0.5) ? "" : "<capsule radius=\"1\"/>";
  }
  std::string m = cat("<mesh filename=\"package://m", r.range(0, 9), ".dae\"");
  if (r.chance(0.5)) { std::string a = x(), b = x(); m += cat(" scale=\"", a, " ", b, "  ", x(), "\""); }
  return m + "/>";
}
inline std::string elems_text(long seed) {
  if (seed <= 0) return "";
  Rng r((uint64_t)seed * 77777 + 5);
  std::string s;
  int n = r.chance(0.1) ? r.range(4, 12) : r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    const char *k = r.chance(0.5) ? "visual" : "collision";
    Op o;
    rnd_pose(r, 0.6, o.n);
    s += std::string("<") + k + (r.chance(0.2) ? " name=\"e\"" : "") + ">";
    std::string p = pose_text(o, 0, r.below(100)), g = "<geometry>" + shape_text(r) + "</geometry>";
    s += r.chance(0.5) ? p + g : g + p;
    if (k[0] == 'v' && r.chance(0.4)) s += "<material name=\"m\"><texture filename=\"t.png\"/></material>";
    s += std::string("</") + k + ">";
  }
  return s;
}
inline std::string extras_text(long seed, std::string &attrs) {
  if (seed <= 0) return "";
  Rng r((uint64_t)seed * 991 + 3);
  std::string s;
  if (r.chance(0.6)) {
    int have = r.chance(0.5) ? 15 : r.range(0, 15);
    s += "<limit";
    if (have & 1) s += " lower=\"" + num(r.chance(0.1) ? 0 : r.uni(-3, 3)) + "\"";
    if (have & 2) s += " upper=\"" + num(r.chance(0.1) ? 0 : r.uni(-3, 3)) + "\"";
    if (have & 4) s += " effort=\"" + num(r.uni(0, 9)) + "\"";
    if (have & 8) s += " velocity=\"" + num(r.uni(0, 9)) + "\"";
    s += "/>";
  }
  if (r.chance(0.3)) s += "<dynamics damping=\"0.1\" friction=\"0\"/>";
  if (r.chance(0.3)) s += "<calibration rising=\"0.5\"/>";
  if (r.chance(0.3)) s += "<safety_controller k_velocity=\"1\"/>";
  if (r.chance(0.2)) attrs = " note=\"n\"";
  return s;
}
inline std::string other_text(const Op &o) {
  switch (o.idx(1, 7)) {
    case 0: return "<!-- a comment with <link name=\"zz\"/> inside -->";
    case 1: return "<gazebo reference=\"a\"><link name=\"g\"/><joint name=\"g\"/></gazebo>";
    case 2: return "<transmission name=\"t\"><joint name=\"nested\"><hardwareInterface/></joint></transmission>";
    case 3: return "<material name=\"m\"><texture filename=\"a.png\"/></material>";
    case 4: return "<material name=\"c\"><color rgba=\"1 0 0 1\"/></material>";
    case 5: return "<links/><Joint name=\"x\"/>";
  }
  return "<sensor name=\"s\"><parent link=\"a\"/></sensor>";
}
inline std::string element_text(const Op &o) {
  u_int64_t style = sim::hash_str(o.str(0)) ^ (u_int64_t)(o.num(0) * 1e6);
  std::string s;
  if (o.code == D_LINK) {
    s = o.i(17) & 1 ? std::string("<link") : "<link name=\"" + esc(o.str(0)) + "\"";
    std::string b;
    if (o.i(1)) {
      std::string po = pose_text(o, 9, style), ma = "<mass value=\"" + num(o.num(2)) + "\"/>";
      static const char *n[6] = {"ixx", "ixy", "ixz", "iyy", "iyz", "izz"};
      std::string in = "<inertia";
      for (int i = 0; i < 6; ++i) in += std::string(" ") + n[i] + "=\"" + num(o.num(3 + i)) + "\"";
      in += "/>";
      b += "<inertial>" + (style & 1 ? po + ma + in : ma + in + po) + "</inertial>";
    }
    std::string e = elems_text(o.i(16));
    b = style & 2 ? b + e : e + b;
    s += b.empty() ? "/>" : ">" + b + "</link>";
  } else if (o.code == D_JOINT) {
    std::string attrs, ex = extras_text(o.i(16), attrs);
    const long omit = o.i(17);  // structural defects
    std::string nm = omit & 1 ? "" : " name=\"" + esc(o.str(0)) + "\"", ty = std::string(" type=\"") + kTypes[o.idx(1, 8)] + "\"";
    s = "<joint" + (style & 1 ? nm + ty : ty + nm) + attrs + ">";
    std::string pa = "<parent link=\"" + esc(o.str(1)) + "\"/>", ch = "<child link=\"" + esc(o.str(2)) + "\"/>";
    if (omit & 2) pa = omit & 8 ? "<parent/>" : "";
    if (omit & 4) ch = omit & 8 ? "<child/>" : "";
    s += style & 2 ? pa + ch : ch + pa;
    s += pose_text(o, 2, style);
    if (o.i(9)) s += "<axis xyz=\"" + trip(o, 10, style) + "\"/>";
    if (o.i(13)) {
      s += omit & 16 ? std::string("<mimic") : "<mimic joint=\"" + esc(o.str(3)) + "\"";
      if (style & 4) s += " multiplier=\"" + num(o.num(14)) + "\"";
      if (style & 8) s += " offset=\"" + num(o.num(15)) + "\"";
      s += "/>";
    }
    s += ex + "</joint>";
  } else {
    s = other_text(o);
  }
  return s;
}
inline bool is_doc_op(const Op &o) { return o.code >= D_LINK && o.code <= D_OTHER; }
inline std::string doc_text(const std::vector<Op> &ops, int ws = 0) {
  std::vector<const Op *> v;
  for (const Op &o : ops)
    if (is_doc_op(o)) v.push_back(&o);
  std::stable_sort(v.begin(), v.end(), [](const Op *a, const Op *b) { return a->num(0) < b->num(0); });
  std::string s = ws & 1 ? "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<robot name=\"r\">" : "<robot name=\"r\">";
  for (const Op *o : v) {
    s += ws & 2 ? "\n  " : "";
    s += element_text(*o);
  }
  return s + (ws & 2 ? "\n</robot>\n" : "</robot>");
}
// deterministic joint values
inline Joints joint_values(const URobot &r, uint64_t seed, bool zero = false) {
  Joints q;
  for (auto &j : r.joints) {
    Rng g(sim::mix(seed, sim::hash_str(j.name)));
    q[j.name] = zero ? 0 : g.uni(-2.5, 2.5);
  }
  return q;
}
}  // namespace um
#endif
