// Glue between the library's RobotTree and the independent URDF model.
#ifndef VERIF_SIM_URDFCHECK_H
#define VERIF_SIM_URDFCHECK_H
#include <almath/scenegraph/urdf.h>
#include <boost/property_tree/xml_parser.hpp>
#include "sim/urdfmodel.h"

namespace um {
namespace lib = AL::urdf;

struct ConstRecorder : lib::JointConstVisitor {
  std::vector<std::string> log;
  std::vector<const ptree *> at;
  bool discover(const ptree &p) override {
    sim::HarnessScope h;
    log.push_back("+" + first(*first(p, "<xmlattr>"), "name")->data());
    at.push_back(&p);
    return true;
  }
  void finish(const ptree &p) override {
    sim::HarnessScope h;
    log.push_back("-" + first(*first(p, "<xmlattr>"), "name")->data());
  }
};
struct Recorder : lib::JointVisitor {
  std::vector<std::string> log;
  bool discover(ptree &p) override {
    sim::HarnessScope h;
    log.push_back("+" + first(*first(p, "<xmlattr>"), "name")->data());
    return true;
  }
  void finish(ptree &p) override {
    sim::HarnessScope h;
    log.push_back("-" + first(*first(p, "<xmlattr>"), "name")->data());
  }
};
inline void expect_walk(const URobot &r, const std::string &l, std::vector<std::string> &log, std::string &dot, int depth = 1) {
  for (int i : r.children(l)) {
    const UJoint &j = r.joints[i];
    log.push_back("+" + j.name);
    dot += j.parent + " -> " + j.child + " [label=" + j.name + "];\n";
    expect_walk(r, j.child, log, dot, depth + 1);
    log.push_back("-" + j.name);
  }
}
inline std::string join(const std::vector<std::string> &v) {
  std::string s;
  for (auto &x : v) s += x + " ";
  return s;
}
// All answers of the tree against the model of its document.  dangling: the
// document holds a mimic of a removed joint (is_mimic_tree_flat not asked).
inline std::string answers(lib::RobotTree &t, const ptree &robot, const URobot &m, std::set<std::string> *ever = nullptr, bool dangling = false) {
  // ever: names used so far in this history, gone ones must not be found
  const lib::RobotTree &ct = t;
  if (t.root_link() != m.root()) return cat("root link is ", t.root_link(), ", document says ", m.root());
  std::set<std::string> names;
  auto ask = [&](const ptree *elem, const std::string &n, bool link) -> std::string {
    for (int k = 0; k < 2; ++k) {
      const ptree *got = nullptr;
      sim::Outcome o = sim::attempt([&] {
        if (link) got = k ? &ct.link(n) : &t.link(n);
        else got = k ? &ct.joint(n) : &t.joint(n);
      });
      if (elem && (o != sim::OK || got != elem)) return cat(link ? "link " : "joint ", n, ": ", o == sim::OK ? "other element" : "not found");
      if (!elem && o != sim::THROWN) return cat(link ? "link " : "joint ", n, " should not exist");
    }
    return std::string();
  };
  std::set<std::string> ln, jn;
  for (auto &c : robot)
    if (c.first == "link" || c.first == "joint") {
      bool link = c.first == "link";
      std::string n;
      attr(c.second, "name", n);
      (link ? ln : jn).insert(n);
      std::string e = ask(&c.second, n, link);
      if (!e.empty()) return e;
      if (lib::name(c.second) != n) return cat("name() of ", n);
    }
  for (auto &n : ln)
    if (!jn.count(n)) {
      std::string e = ask(nullptr, n, false);
      if (!e.empty()) return e;
    }
  for (auto &n : jn)
    if (!ln.count(n)) {
      std::string e = ask(nullptr, n, true);
      if (!e.empty()) return e;
    }
  if (ever) {
    for (auto &n : *ever) {
      std::string e = ln.count(n) ? "" : ask(nullptr, n, true);
      if (e.empty() && !jn.count(n)) e = ask(nullptr, n, false);
      if (!e.empty()) return e;
    }
    ever->insert(ln.begin(), ln.end());
    ever->insert(jn.begin(), jn.end());
  }
  if (!ln.count("no such name") && !ask(nullptr, "no such name", true).empty()) return "unknown link found";
  if (!jn.count("no such name") && !ask(nullptr, "no such name", false).empty()) return "unknown joint found";
  std::vector<std::string> want;
  std::string dot;
  expect_walk(m, m.root(), want, dot);
  ConstRecorder a;
  ct.traverse_joints(a);
  if (a.log != want) return "traversal " + join(a.log) + "; document order gives " + join(want);
  Recorder b;
  t.traverse_joints(b);
  if (b.log != want) return "mutable traversal " + join(b.log) + "; document order gives " + join(want);
  for (const ptree *p : a.at) {
    std::string n;
    attr(*p, "name", n);
    if (p != &ct.joint(n)) return "traversal gives another element for " + n;
  }
  std::ostringstream os;
  lib::UrdfDotPrinterVisitor pv(os);
  ct.traverse_joints(pv);
  if (os.str() != dot) return "dot graph: " + os.str() + " expected " + dot;
  if (!dangling && ct.is_mimic_tree_flat() != m.mimic_flat()) return "is_mimic_tree_flat";
  return std::string();
}

inline bool eqd(double a, double b) { return a == b || (a != a && b != b); }
inline bool eq3(const lib::Array3d &a, V3 b) { return eqd(a[0], b[0]) && eqd(a[1], b[1]) && eqd(a[2], b[2]); }
// Wrapper classes against the independent reading (documents with numbers).
inline std::string wrappers(const ptree &robot, const URobot &m) {
  size_t li = 0, ji = 0;
  for (auto &c : robot) {
    if (c.first == "link") {
      const ULink &u = m.links[li++];
      lib::Link l(c.second);
      if (l.name() != u.name) return "Link::name of " + u.name;
      auto in = l.inertial();
      if ((bool)in != u.has_inertial) return "Link::inertial presence of " + u.name;
      if (in) {
        double I[6] = {in->ixx(), in->ixy(), in->ixz(), in->iyy(), in->iyz(), in->izz()};
        for (int k = 0; k < 6; ++k)
          if (!eqd(I[k], u.I[k])) return cat("inertia ", k, " of ", u.name, " ", I[k], " ", u.I[k]);
        if (!eqd(in->mass(), u.mass)) return "mass of " + u.name;
        if (!eq3(in->origin().xyz(), u.io.xyz) || !eq3(in->origin().rpy(), u.io.rpy)) return "inertial origin of " + u.name;
      }
      std::vector<const UElem *> vis;
      for (auto &e : u.elems)
        if (e.visual) vis.push_back(&e);
      size_t k = 0;
      auto range = l.visuals();
      for (auto it = range.begin(); it != range.end(); ++it, ++k) {
        lib::Visual v = *it;
        if (k >= vis.size()) return "too many visuals in " + u.name;
        if (!eq3(v.origin().xyz(), vis[k]->o.xyz) || !eq3(v.origin().rpy(), vis[k]->o.rpy)) return "visual origin in " + u.name;
        const ptree *g = first(v.pt, "geometry");
        std::string kind;
        const ptree *sh = nullptr;
        static const char *n[] = {"box", "cylinder", "sphere", "mesh"};
        if (g)
          for (auto &x : *g)
            for (const char *y : n)
              if (!sh && x.first == y) sh = &x.second, kind = y;
        if (!g) continue;
        if (!sh) {
          if (sim::attempt([&] { v.geometry(); }) != sim::THROWN) return "a geometry without a shape is accepted in " + u.name;
          continue;
        }
        auto val = [&](const char *a) { std::string t; return attr(*sh, a, t) ? number(t) : std::nan(""); };
        auto val3 = [&](const char *a, V3 d) {
          std::string t;
          if (!attr(*sh, a, t)) return d;
          std::istringstream is(t);
          std::string w;
          for (int i = 0; i < 3 && is >> w; ++i) d[i] = number(w);
          return d;
        };
        lib::Geometry geo = v.geometry();
        if (n[geo.which()] != kind) return "geometry kind in " + u.name;
        if (auto *q = boost::get<lib::Box>(&geo)) {
          if (!eq3(q->size(), val3("size", v3(0, 0, 0)))) return "box size in " + u.name;
        } else if (auto *q = boost::get<lib::Cylinder>(&geo)) {
          if (!eqd(q->radius(), val("radius")) || !eqd(q->length(), val("length"))) return "cylinder in " + u.name;
        } else if (auto *q = boost::get<lib::Sphere>(&geo)) {
          if (!eqd(q->radius(), val("radius"))) return "sphere in " + u.name;
        } else if (auto *q = boost::get<lib::Mesh>(&geo)) {
          if (q->filename() != first(*first(*sh, "<xmlattr>"), "filename")->data()) return "mesh filename";
          if (!eq3(q->scale(), val3("scale", v3(1, 1, 1)))) return "mesh scale in " + u.name;
        }
      }
      if (k != vis.size()) return "missing visuals in " + u.name;
    } else if (c.first == "joint") {
      const UJoint &u = m.joints[ji++];
      lib::Joint j(c.second);
      if (j.name() != u.name || j.parent_link() != u.parent || j.child_link() != u.child) return "Joint names of " + u.name;
      if (lib::parent_link(c.second) != u.parent || lib::child_link(c.second) != u.child) return "parent_link/child_link of " + u.name;
      int want = -1;
      for (int k = 0; k < 6; ++k)
        if (u.type == kTypes[k]) want = k;
      int got = -1;
      sim::Outcome o = sim::attempt([&] { got = (int)j.type(); });
      if (want < 0 ? o != sim::THROWN : got != want) return "Joint::type of " + u.name;
      if (!eq3(j.origin().xyz(), u.o.xyz) || !eq3(j.origin().rpy(), u.o.rpy)) return "Joint::origin of " + u.name;
      if (!eq3(j.axis(), u.axis)) return "Joint::axis of " + u.name;
      auto mi = j.mimic();
      if ((bool)mi != u.has_mimic) return "Joint::mimic of " + u.name;
      if (mi && (mi->joint() != u.mimic || !eqd(mi->multiplier(), u.mult) || !eqd(mi->offset(), u.off))) return "Mimic of " + u.name;
      const ptree *lim = first(c.second, "limit");
      auto opt = [&](const char *n, double &d) {
        std::string s;
        if (!lim || !attr(*lim, n, s)) return false;
        d = number(s);
        return true;
      };
      double lo = 0, up = 0, ef = 0, ve = 0;
      bool hl = opt("lower", lo), hu = opt("upper", up), he = opt("effort", ef), hv = opt("velocity", ve);
      auto lu = j.limit_lower_upper();
      if ((bool)lu != (hl || hu) || (lu && (!eqd(lu->first, lo) || !eqd(lu->second, up)))) return "limits of " + u.name;
      auto e = j.limit_effort(), v = j.limit_velocity();
      if ((bool)e != he || (e && !eqd(*e, ef)) || (bool)v != hv || (v && !eqd(*v, ve))) return "effort/velocity of " + u.name;
    }
  }
  return std::string();
}
// Numbers of any document, damaged ones too, against the text of their
// attributes: a clean number reads as itself, one which is not a number is
// never taken for one.
enum Clean { MISSING, CLEAN, BROKEN, UNSURE };
inline Clean clean_number(const std::string &s, double &d) {
  size_t i = s.find_first_not_of(" \t\n\r\f\v"), e = s.find_last_not_of(" \t\n\r\f\v");
  if (i == std::string::npos) return BROKEN;
  const std::string t = s.substr(i, e - i + 1);
  size_t k = 0, digits = 0;
  if (t[k] == '+' || t[k] == '-') ++k;
  while (k < t.size() && std::isdigit((unsigned char)t[k])) ++k, ++digits;
  if (k < t.size() && t[k] == '.') {
    ++k;
    while (k < t.size() && std::isdigit((unsigned char)t[k])) ++k, ++digits;
  }
  bool ok = digits > 0;
  if (ok && k < t.size() && (t[k] == 'e' || t[k] == 'E')) {
    ++k;
    if (k < t.size() && (t[k] == '+' || t[k] == '-')) ++k;
    size_t x = 0;
    while (k < t.size() && std::isdigit((unsigned char)t[k])) ++k, ++x;
    ok = x > 0;
  }
  ok = ok && k == t.size();
  char *end = nullptr;
  d = std::strtod(t.c_str(), &end);
  if (ok) return std::fabs(d) <= 1e307 && (d == 0 || std::fabs(d) >= 1e-300) ? CLEAN : UNSURE;
  return *end || end == t.c_str() ? BROKEN : UNSURE;  // nan, inf, hexadecimal
}
inline Clean clean_attr(const ptree *p, const char *a, double &d) {
  std::string s;
  if (!p || !attr(*p, a, s)) return MISSING;
  return clean_number(s, d);
}
inline Clean clean_triple(const ptree *p, const char *a, V3 &v) {
  std::string s;
  if (!p || !attr(*p, a, s)) return MISSING;
  std::istringstream is(s);
  std::string w;
  std::vector<std::string> ws;
  while (is >> w) ws.push_back(w);
  if (ws.size() != 3) return BROKEN;
  Clean r = CLEAN;
  for (int i = 0; i < 3; ++i) {
    double d = 0;
    Clean c = clean_number(ws[i], d);
    if (c == BROKEN) return BROKEN;
    if (c == UNSURE) r = UNSURE;
    v[i] = d;
  }
  return r;
}
inline std::string values(const ptree &robot) {
  std::string bad;
  // needed: must throw when missing; strict: must throw when broken
  auto scalar = [&](const std::string &what, const ptree *p, const char *a, bool needed, double def, std::function<double()> get) {
    double want = def, got = 0;
    const Clean c = clean_attr(p, a, want);
    if (c == UNSURE || !bad.empty()) return;
    sim::Outcome o = sim::attempt([&] { got = get(); });
    const bool thrown = c == BROKEN || (c == MISSING && needed);
    if (thrown ? o != sim::THROWN : o != sim::OK || !eqd(got, c == MISSING ? def : want)) {
      std::string t;
      if (p) attr(*p, a, t);
      bad = cat(what, ": '", t, "' ", o == sim::OK ? cat("reads as ", got) : std::string("is rejected"));
    }
  };
  auto vector = [&](const std::string &what, const ptree *p, const char *a, bool needed, V3 def, std::function<lib::Array3d()> get) {
    V3 want = def;
    lib::Array3d got{{0, 0, 0}};
    const Clean c = clean_triple(p, a, want);
    if (c == UNSURE || !bad.empty()) return;
    if (c != CLEAN) want = def;
    sim::Outcome o = sim::attempt([&] { got = get(); });
    bool ok = o == sim::OK && eq3(got, want);
    if (c == BROKEN) ok = o == sim::THROWN || (!needed && ok);  // refused or taken as absent
    if (c == MISSING && needed) ok = o == sim::THROWN;
    if (!ok) {
      std::string t;
      if (p) attr(*p, a, t);
      bad = cat(what, ": '", t, "' ", o == sim::OK ? cat("reads as ", got[0], " ", got[1], " ", got[2]) : std::string("is rejected"));
    }
  };
  auto pose = [&](const std::string &what, const ptree *org, std::function<lib::Pose()> get) {
    // a broken half makes the whole pose throw
    V3 v;
    const Clean a = clean_triple(org, "xyz", v), b = clean_triple(org, "rpy", v);
    const bool wa = a == BROKEN || a == UNSURE, wb = b == BROKEN || b == UNSURE;
    if (wb && !wa && sim::attempt([&] { get(); }) == sim::THROWN) return;
    if (wa && !wb && sim::attempt([&] { get(); }) == sim::THROWN) return;
    if (wa && wb) return;
    vector(what + " xyz", org, "xyz", false, v3(0, 0, 0), [&] { return get().xyz(); });
    vector(what + " rpy", org, "rpy", false, v3(0, 0, 0), [&] { return get().rpy(); });
  };
  for (auto &c : robot) {
    if (!bad.empty()) return bad;
    if (c.first == "link") {
      lib::Link l(c.second);
      const std::string n = "link " + l.name();
      const ptree *in = first(c.second, "inertial");
      auto li = l.inertial();
      if ((bool)li != (in != nullptr)) return n + " inertial presence";
      if (in) {
        lib::Inertial &I = *li;
        const ptree *t = first(*in, "inertia");
        scalar(n + " mass", first(*in, "mass"), "value", true, 0, [&] { return I.mass(); });
        scalar(n + " ixx", t, "ixx", true, 0, [&] { return I.ixx(); });
        scalar(n + " ixy", t, "ixy", true, 0, [&] { return I.ixy(); });
        scalar(n + " ixz", t, "ixz", true, 0, [&] { return I.ixz(); });
        scalar(n + " iyy", t, "iyy", true, 0, [&] { return I.iyy(); });
        scalar(n + " iyz", t, "iyz", true, 0, [&] { return I.iyz(); });
        scalar(n + " izz", t, "izz", true, 0, [&] { return I.izz(); });
        pose(n + " inertial", first(*in, "origin"), [&] { return I.origin(); });
      }
      for (auto &e : c.second) {
        if (e.first != "visual") continue;
        lib::Visual v(e.second);
        pose(n + " visual", first(e.second, "origin"), [&] { return v.origin(); });
        const ptree *g = first(e.second, "geometry"), *sh = nullptr;
        int shapes = 0;
        std::string kind;
        if (g)
          for (auto &x : *g)
            if (x.first == "box" || x.first == "cylinder" || x.first == "sphere" || x.first == "mesh") ++shapes, sh = &x.second, kind = x.first;
        if (shapes != 1) continue;
        lib::Geometry geo = v.geometry();
        if (auto *q = boost::get<lib::Box>(&geo)) {
          if (kind != "box") return n + " shape";
          vector(n + " box", sh, "size", true, v3(0, 0, 0), [&] { return q->size(); });
        } else if (auto *q = boost::get<lib::Cylinder>(&geo)) {
          if (kind != "cylinder") return n + " shape";
          scalar(n + " radius", sh, "radius", true, 0, [&] { return q->radius(); });
          scalar(n + " length", sh, "length", true, 0, [&] { return q->length(); });
        } else if (auto *q = boost::get<lib::Sphere>(&geo)) {
          if (kind != "sphere") return n + " shape";
          scalar(n + " radius", sh, "radius", true, 0, [&] { return q->radius(); });
        } else if (auto *q = boost::get<lib::Mesh>(&geo)) {
          if (kind != "mesh") return n + " shape";
          vector(n + " scale", sh, "scale", false, v3(1, 1, 1), [&] { return q->scale(); });
        }
      }
    } else if (c.first == "joint") {
      lib::Joint j(c.second);
      const std::string n = "joint " + j.name();
      pose(n, first(c.second, "origin"), [&] { return j.origin(); });
      vector(n + " axis", first(c.second, "axis"), "xyz", false, v3(1, 0, 0), [&] { return j.axis(); });
      const ptree *mi = first(c.second, "mimic");
      auto lm = j.mimic();
      if ((bool)lm != (mi != nullptr)) return n + " mimic presence";
      if (mi) {
        scalar(n + " multiplier", mi, "multiplier", false, 1, [&] { return lm->multiplier(); });
        scalar(n + " offset", mi, "offset", false, 0, [&] { return lm->offset(); });
      }
      const ptree *lim = first(c.second, "limit");
      double lo = 0, up = 0;
      Clean a = clean_attr(lim, "lower", lo), b = clean_attr(lim, "upper", up);
      if (a != UNSURE && b != UNSURE) {
        boost::optional<std::pair<double, double>> got;
        sim::Outcome o = sim::attempt([&] { got = j.limit_lower_upper(); });
        const bool broken = a == BROKEN || b == BROKEN;
        bool ok = o == sim::OK ? (bool)got == (a == CLEAN || b == CLEAN) : broken && o == sim::THROWN;
        if (o == sim::OK && got && ok) ok = eqd(got->first, a == CLEAN ? lo : 0) && eqd(got->second, b == CLEAN ? up : 0);
        if (!ok) return n + " limits";
      }
      for (int k = 0; k < 2; ++k) {
        double d = 0;
        Clean e = clean_attr(lim, k ? "velocity" : "effort", d);
        if (e == UNSURE) continue;
        boost::optional<double> got;
        sim::Outcome o = sim::attempt([&] { got = k ? j.limit_velocity() : j.limit_effort(); });
        bool ok = o == sim::OK ? (bool)got == (e == CLEAN) && (!got || eqd(*got, d)) : e == BROKEN && o == sim::THROWN;
        if (!ok) return n + (k ? " velocity" : " effort");
      }
    }
  }
  return bad;
}
inline bool parse(const std::string &text, ptree &out, std::string *err = nullptr) {
  std::istringstream is(text);
  try {
    boost::property_tree::read_xml(is, out);
    return true;
  } catch (const std::exception &e) {
    if (err) *err = e.what();
    return false;
  }
}
inline const ptree *robot_of(const ptree &doc) { return first(doc, "robot"); }
inline ptree *robot_of(ptree &doc) { return const_cast<ptree *>(first(doc, "robot")); }
}  // namespace um
#endif
