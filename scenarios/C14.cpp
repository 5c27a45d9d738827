// C14: independent callers under any interleaving.
//
// Callers are real threads of which one runs at a time; the plan decides after
// how many memory accesses of the library each switch happens.  Work of a
// caller: whole simulated runs of the other properties' scenarios (SUB), and
// routines of this file, many of which read a world shared by all callers
// (TASK).  Oracle: every piece of work gives what it gives alone, and no two
// callers touch the same memory without synchronisation.
#include <almath/dsp/digitalfilter.h>
#include <almath/dsp/pidcontroller.h>
#include <almath/geometrics/shapes3d.h>
#include <almath/geometrics/shapes3d_utils.h>
#include <almath/scenegraph/almatheigen.h>
#include <almath/scenegraph/colladascenebuilder.h>
#include <almath/scenegraph/mesh.h>
#include <almath/scenegraph/meshfactory.h>
#include <almath/scenegraph/qianim.h>
#include <almath/scenegraph/urdfeigen.h>
#include <almath/scenegraph/urdfrigidbodysystemtraverser.h>
#include <almath/tools/aldubinscurve.h>
#include <almath/tools/almath.h>
#include <almath/tools/almathio.h>
#include <almath/tools/altransformhelpers.h>
#include <almath/tools/avoidfootcollision.h>
#include <almath/types/alaxismask.h>
#include <almath/types/occupancymapparams.h>
#include <cfenv>
#include <iostream>
#include <locale>
#include <memory>
#include "sim/core.h"
#include "sim/sched.h"
#include "sim/urdfcheck.h"
using namespace sim;
using namespace um;
using namespace AL::Math;
namespace rb = AL::RigidBodySystemBuilder;
namespace anim = AL::qianim;

#define SCENARIOS(X) \
  X(C01) X(C02) X(C03) X(C04) X(C05) X(C06) X(C07) X(C08) X(C09) X(C10) X(C11) X(C12) X(C13) X(C15) X(C16) X(C17) X(C18) X(C19)
namespace sim {
#define X(n) Scenario make_scenario_##n();
SCENARIOS(X)
#undef X
}  // namespace sim

namespace {
// SUB n: caller, scenario, cfg (index modulo), seed words; followed by its ops (code + 100000) and KNOB ops
// TASK n: caller, kind, parameters...
// SLICE n: caller, accesses
enum { SUB = 1, KNOB = 2, TASK = 3, SLICE = 4, BASE = 100000 };
enum { NKIND = 16 };

const std::vector<Scenario> &subs() {
  static const std::vector<Scenario> v = {
#define X(n) make_scenario_##n(),
      SCENARIOS(X)
#undef X
  };
  return v;
}

Plan gen(Rng &r, int cfg) {
  Plan p;
  DocOpts d;
  d.max_links = 6;
  for (Op &o : gen_doc(r, d)) p.ops.push_back(o);  // the shared document
  p.set("world", (double)r.below(1000000));
  p.set("callers", r.range(2, 4));
  p.set("first_solo", r.chance(0.25));  // solo before: everything lazy is initialised
  p.set("global_p", r.chance(0.5) ? 0 : r.chance(0.5) ? 1 : 0.3);
  p.set("conflict_p", r.chance(0.5) ? 0 : r.uni(0, 0.2));
  p.set("quantum", r.chance(0.4) ? 0 : std::floor(std::pow(2, r.uni(3, 14))));
  p.set("sched", (double)r.below(1ull << 40));
  const int n = (int)p.knob("callers");
  const int focus = r.chance(0.3) ? (int)r.below(subs().size()) : -1;   // everybody does the same kind of work
  const int kfocus = r.chance(0.3) ? (int)r.below(NKIND) : -1;
  for (int c = 0; c < n; ++c) {
    int w = r.range(1, 3);
    for (int k = 0; k < w; ++k) {
      if (r.chance(0.35)) {
        int s = focus >= 0 ? focus : (int)r.below(subs().size());
        int scfg = (int)r.below(subs()[s].configs.size());
        if (cfg == 0) scfg = 0;
        Plan q = subs()[s].gen(r, scfg);
        if (q.ops.size() > 60) continue;
        p.ops.push_back(Op(SUB, {(double)c, (double)s, (double)scfg}));
        for (auto &kn : q.knobs) p.ops.push_back(Op(KNOB, {kn.second}, {kn.first}));
        for (Op &o : q.ops) {
          o.code += BASE;
          p.ops.push_back(o);
        }
      } else {
        Op t(TASK, {(double)c, (double)(kfocus >= 0 && r.chance(0.8) ? kfocus : r.below(NKIND)), (double)r.below(1000000), 1});
        if (cfg == 1) {
          static const int calling[] = {0, 0, 0, 4, 5, 6, 7};
          if (r.chance(0.3)) t.f.push_back(Fault{"alloc", (long)std::pow(2, r.uni(0, 9)) - 1});
          else if (r.chance(0.6)) {
            t.f.push_back(Fault{"callback-throw", (long)r.below(1 + r.below(6))});
            if (kfocus < 0) t.n[1] = r.pick(calling);
          }
          if (!t.f.empty() && r.chance(0.4)) t.n[3] = r.range(8, 200);  // a caller that insists
        }
        p.ops.push_back(t);
      }
    }
  }
  int ns = r.chance(0.1) ? 0 : (int)std::pow(2, r.uni(0, 7.5));
  double top = r.uni(2, 15);
  for (int i = 0; i < ns; ++i) p.ops.push_back(Op(SLICE, {(double)r.below((u64)n), std::floor(std::pow(2, r.uni(0, top)))}));
  return p;
}

// ---------------------------------------------------------------- digest
struct Dig {
  u64 h = 1469598103934665603ull;
  void u(u64 v) { h = mix(h, v); }
  void add(int v) { u((u64)(int64_t)v); }
  void add(size_t v) { u(v); }
  void add(bool v) { u(v); }
  void add(double v) {
    u64 b;
    if (std::isnan(v)) b = 0x7ff8;  // signs of NaN depend on optimisation
    else std::memcpy(&b, &v, 8);
    u(b);
  }
  void add(float v) { add((double)v); }
  void add(const std::string &s) { u(hash_str(s)); }
  void add(const char *s) { add(std::string(s)); }
  template <class T>
  void fl(const T &t) { for (float x : t.toVector()) add(x); }
};

// ---------------------------------------------------------- shared world
struct World {  // read by every caller, written by none while they run
  std::string text;
  ptree doc;
  std::unique_ptr<lib::RobotTree> tree;
  std::vector<std::string> links, joints;
  AL::Mesh mesh{false}, textured{true};
  std::unique_ptr<AL::ColladaSceneBuilder> scene;
  ptree anim;
  std::vector<Transform> tfs;
  std::vector<Position3D> pos;
  std::vector<Pose2D> poses;
  std::vector<Position2D> lbox, rbox;
  std::vector<float> angles, weights;
  std::unique_ptr<Sphere> sphere;
  std::unique_ptr<Pill> pill;
  std::unique_ptr<RoundedRectangle> rect;
  std::vector<const Shape3D *> shapes;
  std::unique_ptr<OccupancyMapParams> map;
  rb::Config cfg;
  DSP::PIDController pid;
};

float num_of(Rng &r) { return (float)(r.chance(0.1) ? 0. : r.uni(-2, 2)); }
Transform tf_of(Rng &r) {
  return transformFromRotation3D(Rotation3D((float)r.uni(-3, 3), (float)r.uni(-1.5, 1.5), (float)r.uni(-3, 3))) *
         transformFromPosition3D(Position3D(num_of(r), num_of(r), num_of(r)));
}
void build_world(World &w, const Plan &p) {
  Rng r((u64)p.knob("world"));
  std::vector<Op> ops;
  for (const Op &o : p.ops)
    if (is_doc_op(o)) ops.push_back(o);
  w.text = doc_text(ops, 0);
  if (!parse(w.text, w.doc)) w.doc.clear();
  if (ptree *rob = w.doc.empty() ? nullptr : robot_of(w.doc)) {
    for (auto &c : *rob) {
      std::string n;
      if ((c.first == "link" || c.first == "joint") && attr(c.second, "name", n)) (c.first == "link" ? w.links : w.joints).push_back(n);
    }
    attempt([&] { w.tree.reset(new lib::RobotTree(*rob)); });
  }
  int m = r.range(1, 4);
  for (AL::Mesh *me : {&w.mesh, &w.textured})
    for (int i = 0; i < m; ++i) {
      me->begin(AL::Mesh::TRIANGLES);
      me->normal(0.f, 0.f, 1.f);
      for (int k = 0; k < 3; ++k) {
        if (me->withTexCoords()) me->texCoord((float)r.u(), (float)r.u());
        me->vertex(num_of(r), num_of(r), num_of(r));
      }
      me->end();
    }
  w.scene.reset(new AL::ColladaSceneBuilder());
  w.scene->add(w.mesh, tf_of(r));
  w.scene->add(AL::createBoxMesh(0.5f, 1.f, 2.f), tf_of(r));
  ptree &an = anim::V2::require_animation(w.anim);
  for (const char *j : {"HeadYaw", "LArm"}) {
    ptree &cu = anim::V2::Animation::require_actuatorcurve(an, j);
    anim::V2::ActuatorCurve::put_fps(cu, 25);
    anim::V2::ActuatorCurve::put_mute(cu, false);
    anim::V2::ActuatorCurve::put_unit(cu, anim::Unit::radian);
    for (int f = 0, k = r.range(2, 4); k; --k, f += r.range(1, 9)) {
      ptree &key = anim::V2::ActuatorCurve::require_key(cu, f);
      anim::V2::Key::put_value<float>(key, num_of(r));
      anim::V2::Key::put_tangent<float>(key, anim::Side::left, 0.f, 0.f);
      anim::V2::Key::put_tangent<float>(key, anim::Side::right, 0.25f, 0.f);
    }
  }
  anim::V2::Labels::add_label(anim::V2::Animation::add_labels(an), 2, "x");
  for (int i = 0; i < 5; ++i) {
    w.tfs.push_back(tf_of(r));
    w.pos.push_back(Position3D(num_of(r), num_of(r), num_of(r)));
    w.poses.push_back(Pose2D(num_of(r), num_of(r), (float)r.uni(-3.1, 3.1)));
    w.angles.push_back((float)r.uni(-3, 3));
    w.weights.push_back((float)r.uni(0.1, 3));
  }
  for (int i = 0; i < 4; ++i) {
    static const float sx[] = {0.1f, 0.1f, -0.05f, -0.05f}, sy[] = {0.04f, -0.04f, -0.04f, 0.04f};
    w.lbox.push_back(Position2D(sx[i], sy[i] + 0.01f));
    w.rbox.push_back(Position2D(sx[i], sy[i] - 0.01f));
  }
  w.sphere.reset(new Sphere((float)r.uni(0.1, 2)));
  w.pill.reset(new Pill((float)r.uni(0.1, 2), (float)r.uni(0.1, 2)));
  w.rect.reset(new RoundedRectangle((float)r.uni(0.1, 2), (float)r.uni(0.1, 2), (float)r.uni(0.1, 2)));
  w.shapes = {w.sphere.get(), w.pill.get(), w.rect.get()};
  w.map.reset(new OccupancyMapParams(100 + r.range(0, 50), 0.05f, Position2D(num_of(r), num_of(r))));
  w.cfg.joint_name_format = r.chance(0.5) ? "%1%_joint" : "J_%1%";
  w.cfg.no_static_frame = r.chance(0.2);
  w.pid = DSP::PIDController(1.f, 0.1f, 0.2f, 0.01f, 5.f, 5.f);
}

struct ShapeReader : NotImplementedShape3DVisitor {
  Dig &d;
  explicit ShapeReader(Dig &dd) : d(dd) {}
  void visit(const Pill &s) const override { d.add(s.getHalfExtent()), d.add(s.getRadius()); }
  void visit(const Sphere &s) const override { d.add(s.getRadius()); }
  void visit(const RoundedRectangle &s) const override { d.add(s.getHalfExtentX()), d.add(s.getHalfExtentY()), d.add(s.getRadius()); }
};
template <class T>
struct BRec : rb::Interface<T> {
  const rb::Config &cf;
  Dig &d;
  long stop;
  BRec(const rb::Config &c, Dig &dd, long s) : cf(c), d(dd), stop(s) {}
  const rb::Config &config() const override { return cf; }
  void tick() {
    if (stop >= 0 && stop-- == 0) throw InjectedError();
  }
  template <class M>
  void mat(const M &m) {
    for (int i = 0; i < m.rows(); ++i)
      for (int j = 0; j < m.cols(); ++j) d.add((double)m(i, j));
  }
  void addLink(rb::LinkData<T> l) override {
    HarnessScope h;
    tick();
    d.add(l.parent_body), d.add(l.new_body), d.add(l.new_joint), d.add((int)l.joint_type), d.add((double)l.body_mass.mass);
    mat(l.pose_parent_new.matrix()), mat(l.body_mass.center_of_mass), mat(l.body_mass.rotational_inertia);
  }
  void addStaticFrame(rb::StaticFrameData<T> f) override {
    HarnessScope h;
    tick();
    d.add(f.parent_frame), d.add(f.new_static_frame), d.add(f.new_static_transform);
    mat(f.pose_parent_new.matrix());
  }
};

// One routine; stop: the callback throws at that call (-1: never).
void task(int kind, Rng &r, const World &w, long stop, Dig &d, int depth);

struct Walker : lib::JointConstVisitor {
  Dig &d;
  long stop;
  int mask;
  std::function<void()> nested;
  Walker(Dig &dd, long s, int m) : d(dd), stop(s), mask(m) {}
  bool discover(const ptree &j) override {
    HarnessScope h;
    if (stop >= 0 && stop-- == 0) throw InjectedError();
    if (nested) nested();
    lib::Joint jo(j);
    std::string n = jo.name();
    d.add(n), d.add(jo.parent_link()), d.add(jo.child_link());
    return !(mask >> (n.size() % 3) & 1);
  }
  void finish(const ptree &j) override {
    HarnessScope h;
    d.add(lib::name(j));
  }
};
void pose(Dig &d, const lib::Pose &p) {
  for (int i = 0; i < 3; ++i) d.add(p.xyz()[i]), d.add(p.rpy()[i]);
}
void wrappers_digest(const ptree &robot, Dig &d) {
  for (auto &c : robot) {
    if (c.first == "joint") {
      lib::Joint j(c.second);
      d.add(j.name());
      d.add((int)j.type());
      pose(d, j.origin());
      pose(d, j.origin() * j.origin().inverse());
      for (double x : j.axis()) d.add(x);
      if (auto l = j.limit_lower_upper()) d.add(l->first), d.add(l->second);
      if (auto l = j.limit_effort()) d.add(*l);
      if (auto m = j.mimic()) d.add(m->joint()), d.add(m->multiplier()), d.add(m->offset());
    } else if (c.first == "link") {
      lib::Link l(c.second);
      d.add(l.name());
      if (auto i = l.inertial()) {
        d.add(i->mass()), pose(d, i->origin()), d.add(i->ixx()), d.add(i->iyz());
        double mass;
        Eigen::Vector3d com;
        Eigen::Matrix3d in;
        urdfInertialToEigen(*i, mass, com, in);
        d.add(mass);
        for (int k = 0; k < 9; ++k) d.add(in(k / 3, k % 3));
      }
      for (auto v : l.visuals()) pose(d, v.origin());
    }
  }
}

void task(int kind, Rng &r, const World &w, long stop, Dig &d, int depth) {
  auto ask = [&](const std::function<void()> &f) {  // refusals are results too
    Outcome o = attempt(f);
    if (o == NOMEM) throw std::bad_alloc();
    if (o == INJECTED) throw InjectedError();
    d.add((int)o);
  };
  switch (kind) {
    case 0: {  // queries of the shared tree
      if (!w.tree) return;
      const lib::RobotTree &t = *w.tree;
      Walker v(d, stop, (int)r.below(8));
      if (depth == 0 && r.chance(0.5)) {
        int k = (int)r.below(NKIND);
        u64 s = r.next();
        v.nested = [&d, &w, k, s] {
          Rng q(s);
          task(k, q, w, -1, d, 1);
        };
      }
      ask([&] { t.traverse_joints(v); });
      d.add(t.root_link());
      for (auto &n : w.links) ask([&] { d.add(lib::name(t.link(n))); });
      for (auto &n : w.joints) ask([&] { d.add(lib::parent_link(t.joint(n))); });
      ask([&] { t.link("no such link"); });
      ask([&] { d.add(t.is_mimic_tree_flat()); });
      return;
    }
    case 1:
      if (const ptree *rob = w.doc.empty() ? nullptr : robot_of(w.doc)) ask([&] { wrappers_digest(*rob, d); });
      return;
    case 2: {  // the shared mesh and scene
      AL::ColladaSceneBuilder mine(*w.scene);
      for (int i = r.range(0, 2); i; --i) mine.add(w.mesh, w.tfs[r.below(5)]);
      std::ostringstream a, b;
      a << *w.scene;
      b << mine;
      d.add(a.str()), d.add(b.str()), d.add(a.good() && b.good());
      return;
    }
    case 3: {  // own meshes and scene
      AL::ColladaSceneBuilder::Config cf;
      cf.nbArcVertices = 1 + (int)r.below(3);
      cf.color.r = (float)r.u();
      AL::ColladaSceneBuilder s(cf);
      AL::Mesh m(r.chance(0.3));
      if (!m.withTexCoords()) AL::addBoxMesh(1.f, (float)r.uni(0.1, 3), 2.f, m);
      ask([&] { s.add(m, w.tfs[0]); });
      for (const Shape3D *sh : w.shapes)
        if (r.chance(0.5)) ask([&] { s.add(*sh, w.tfs[1]); });
      AL::Mesh rm = AL::createRoundedBoxMesh(0.3f, (float)r.uni(0.1, 1), 0.2f, 0.1f, 1 + (int)r.below(3));
      for (float x : rm.positions()) d.add(x);
      for (size_t x : rm.vertices()) d.add(x);
      for (size_t i = 0; i < w.textured.verticesNb(); ++i) d.add(*w.textured.vertexPtrAt(i)), d.add(*w.textured.positionPtrAt(0));
      std::ostringstream a;
      a << s;
      d.add(a.str());
      return;
    }
    case 4: {  // load, look at, prune and save an own copy
      ptree own = w.doc;
      ptree *rob = own.empty() ? nullptr : robot_of(own);
      if (!rob) return;
      ask([&] {
        lib::RobotTree t(*rob);
        int k = (int)r.below(6);
        ask([&] {
          if (k == 0) for (auto &n : lib::makeContinuousJointsFixed(t)) d.add(n);
          if (k == 1) lib::squashFixedJointsMass(t);
          if (k == 2) for (auto &n : lib::makeMasslessJointsFixed(t)) d.add(n);
          if (k == 3 && !w.links.empty()) t.define_as_root_link(w.links[r.below(w.links.size())]);
          if (k == 4) t.transport_root_link_frame(lib::Pose({{1, 2, 3}}, {{0.1, 0.2, 0.3}}));
          if (k == 5) {
            u64 s = r.next();
            for (auto &n : lib::removeSubTreeIfJoint(t, [&, s](const ptree &j) {
                   HarnessScope h;
                   if (stop >= 0 && stop-- == 0) throw InjectedError();
                   return mix(s, hash_str(lib::name(j))) % 3 == 0;
                 }))
              d.add(n);
          }
        });
        std::ostringstream os, dot;
        boost::property_tree::write_xml(os, own);
        lib::UrdfDotPrinterVisitor v(dot);
        t.traverse_joints(v);
        d.add(os.str()), d.add(dot.str());
      });
      return;
    }
    case 5: {  // rewriting file names, the function calling the library back
      ptree own = w.doc;
      ptree *rob = own.empty() ? nullptr : robot_of(own);
      if (!rob) return;
      int k = (int)r.below(NKIND);
      u64 s = r.next();
      bool nest = depth == 0 && r.chance(0.4);
      ask([&] {
        lib::robot::transform_filenames(*rob, [&](std::string f) {
          HarnessScope h;
          if (stop >= 0 && stop-- == 0) throw InjectedError();
          if (nest) {
            Rng q(s);
            task(k, q, w, -1, d, 1);
          }
          return f + "!";
        });
      });
      d.add(dumped(own));
      return;
    }
    case 6: case 7: {  // rigid body systems
      rb::Config cf = w.cfg;
      std::unique_ptr<BRec<double>> rd;
      std::unique_ptr<BRec<float>> rf;
      const rb::Config &use = r.chance(0.5) ? w.cfg : cf;
      rd.reset(new BRec<double>(use, d, stop));
      rf.reset(new BRec<float>(use, d, stop));
      rb::NamesChecker<double> ch(*rd);
      rb::Adapter<double, float> ad(*rf);
      rb::Interface<double> *top = r.chance(0.5) ? (rb::Interface<double> *)&ch : r.chance(0.5) ? (rb::Interface<double> *)&ad : rd.get();
      const bool a = r.chance(0.3), b = r.chance(0.3);
      if (kind == 6) {
        std::istringstream is(w.text);
        ask([&] { AL::buildRigidBodySystemFromUrdf(*top, is, a, b); });
      } else {
        ptree own = w.doc;
        ask([&] { AL::buildRigidBodySystemFromUrdf(*top, own, a, b); });
        d.add(dumped(own));
      }
      return;
    }
    case 8: {  // the shared animation
      const ptree &an = anim::V2::get_animation(w.anim);
      anim::V2::Animation::check_all(an);
      for (const ptree &cu : anim::V2::Animation::get_actuatorcurves(an)) {
        d.add(anim::V2::ActuatorCurve::get_actuator(cu)), d.add(anim::V2::ActuatorCurve::get_fps(cu));
        d.add((int)anim::V2::ActuatorCurve::get_unit(cu));
        ask([&] { anim::V2::ActuatorCurve::check_cubic_bezier<double>(cu); });
        for (const ptree &k : anim::V2::ActuatorCurve::get_keys(cu)) {
          d.add(anim::V2::Key::get_frame(k)), d.add(anim::V2::Key::get_value<double>(k));
          if (auto t = anim::V2::Key::get_tangent_optional(k, anim::Side::right)) d.add(anim::V2::Tangent::get_abscissa<double>(*t));
          d.add((bool)anim::V2::ActuatorCurve::get_key_optional(cu, (int)r.below(12)));
        }
      }
      for (const ptree &l : anim::V2::Animation::get_labels(an))
        for (const ptree &x : anim::V2::Labels::get_labels(l)) d.add(anim::V2::Label::get_value(x));
      return;
    }
    case 9: {  // an own animation
      ptree root = r.chance(0.5) ? w.anim : ptree();
      ptree &an = anim::V2::require_animation(root);
      for (int i = r.range(1, 6); i; --i) {
        ptree &cu = anim::V2::Animation::require_actuatorcurve(an, r.chance(0.5) ? "A" : "B");
        ptree &k = anim::V2::ActuatorCurve::require_key(cu, (int)r.below(10));
        anim::V2::Key::put_value<double>(k, r.uni(-1, 1));
        anim::V2::Key::put_tangent<double>(k, r.chance(0.5) ? anim::Side::left : anim::Side::right, r.uni(-1, 1), 0.5);
        if (r.chance(0.2)) anim::V2::Key::erase_tangent(k, anim::Side::left);
        if (r.chance(0.3)) anim::V2::Labels::add_label(anim::V2::Animation::add_labels(an), (int)r.below(5), "l");
      }
      d.add(dumped(root));
      return;
    }
    case 10: {  // pose arithmetic on shared values
      for (int i = 0; i < 3; ++i) {
        const Transform &a = w.tfs[r.below(5)], &b = w.tfs[r.below(5)];
        d.fl(a * b), d.fl(a.inverse()), d.fl(transformLogarithm(a)), d.fl(velocityExponential(transformLogarithm(b)));
        d.fl(transformMean(a, b, (float)r.u())), d.fl(quaternionFromTransform(a)), d.fl(position6DFromTransformDiff(a, b));
        d.fl(rotation3DFromTransform(a)), d.fl(pose2DFromTransform(b)), d.fl(a * w.pos[r.below(5)]);
        d.fl(rotationFromAngleDirection((float)r.uni(-3, 3), w.pos[0]));
        Transform o;
        changeReferenceTransform(a, b, o);
        d.fl(o);
        orthogonalSpace(w.pos[i], o);
        d.fl(o);
        const Pose2D &p = w.poses[r.below(5)], &q = w.poses[r.below(5)];
        d.fl(p * q), d.fl(p.inverse()), d.fl(pose2DInverse(q)), d.add(p.distance(q)), d.add(p.isNear(q, 0.1f));
        ask([&] { d.fl(w.pos[i].normalize()); });
      }
      d.fl(averageTransforms(w.tfs));
      return;
    }
    case 11: {  // printing
      std::ostringstream os;
      os.precision(r.range(1, 9));
      os << w.tfs[r.below(5)] << w.pos[1] << w.poses[2] << quaternionFromTransform(w.tfs[3]) << rotationFromTransform(w.tfs[0])
         << rotation3DFromTransform(w.tfs[1]) << position6DFromTransform(w.tfs[2]) << transformLogarithm(w.tfs[4]);
      d.add(os.str()), d.add((int)os.precision());
      d.add(toSpaceSeparated(w.tfs[1])), d.add(toSpaceSeparated(w.pos[2])), d.add(toSpaceSeparated(quaternionFromTransform(w.tfs[2])));
      return;
    }
    case 12: {  // planning
      for (const Pose2D &p : getDubinsSolutions(w.poses[r.below(5)], (float)r.uni(0.1, 2))) d.fl(p);
      Pose2D m((float)r.uni(-0.1, 0.1), (float)r.uni(-0.2, 0.2), (float)r.uni(-0.5, 0.5)), e = m, g = m;
      d.add(avoidFootCollision(w.lbox, w.rbox, r.chance(0.5), m)), d.fl(m);
      d.add(clipFootWithEllipse(0.06f, 0.08f, e)), d.fl(e);
      std::vector<Position2D> box;
      computeBox(w.lbox, g, box);
      for (auto &x : box) d.fl(x);
      d.add(areTwoBoxesInCollision(w.rbox, box));
      return;
    }
    case 13: {  // shapes
      ShapeReader v(d);
      for (const Shape3D *s : w.shapes) s->accept(v);
      Rectangle re(1.f, 2.f);
      ask([&] { re.accept(v); });
      Position3D a, b;
      getSphereCentersFromPill(w.pill->getHalfExtent(), w.tfs[r.below(5)], a, b);
      float he;
      Transform t;
      computePillParameters(a, b, he, t);
      d.fl(a), d.fl(b), d.fl(t), d.add(he);
      return;
    }
    case 14: {  // maps, angles, masks
      for (const Pose2D &p : w.poses) {
        auto px = w.map->getPixelFromPose(p);
        d.add(px.x), d.add(px.y);
        d.fl(w.map->getPositionFromPixel(px));
      }
      d.add(modulo2PI((float)r.uni(-100, 100)));
      ask([&] { d.add(meanAngle(w.angles)); });
      ask([&] { d.add(weightedMeanAngle(w.angles, w.weights)); });
      float x = (float)r.uni(-9, 9);
      d.add(clipData(-1.f, 1.f, x)), d.add(x);
      return;
    }
    case 15: {  // control: a copy of the shared regulator, an own filter
      DSP::PIDController c = w.pid;
      DSP::DigitalFilter f;
      f.configureFilter({0.5f, 0.25f, 0.25f}, {0.3f, (float)r.u()}, 0.1f);
      for (int i = 0; i < 12; ++i) {
        d.add(c.computeFeedback((float)r.u(), (float)r.u()));
        d.add(f.processFilter(num_of(r)));
      }
      ask([&] { c.setGains(-1.f, 0.f, 0.f); });
      return;
    }
  }
}

// ----------------------------------------------------------------- work
struct Work {
  int caller = 0, kind = 0;
  bool sub = false;
  size_t first_op = 0;
  Plan plan;  // of a sub scenario
  const Op *op = nullptr;
};
struct Result {
  u64 h = 0;
  bool failed = false, unsteady = false;
  int outcome = 0;
  std::string cls, msg;
  bool fpu = true;
};
Result perform(const Work &k, const World &w, bool faults) {
  Result res;
  if (k.sub) {
    Ctx c;
    c.muted = true;
    try {
      subs()[k.kind].exec(k.plan, c);
    } catch (const Violation &) {
    } catch (const std::exception &e) {
      c.failed = true;
      c.cls = "unexpected-exception";
      c.msg = e.what();
    }
    res.h = c.hash;
    res.failed = c.failed;
    res.cls = c.cls;
    res.msg = c.msg;
  } else {
    Dig d;
    Ctx c;
    c.muted = true;
    bool fired = false;
    Outcome o = OK, first = OK;
    const long stop = faults ? k.op->fault("callback-throw") : -1;
    const long times = faults ? std::max(1L, std::min(200L, k.op->i(3, 1))) : 1;
    for (long again = 0; again < times; ++again) {
      d = Dig();
      Rng r((u64)k.op->i(2));
      Op none;
      AllocFault a(c, faults ? *k.op : none);
      o = attempt([&] { task(k.kind, r, w, stop, d, 0); });
      fired = a.end();
      if (again == 0) first = o;
      else if (stop >= 0 && o != first && !res.failed) {
        res.failed = res.unsteady = true;
        res.cls = "left-behind";
        res.msg = cat("outcome ", o, " at call ", again, " of the same work whose callback always throws, outcome ", first, " at the first one");
      }
    }
    if (o == INJECTED) c.fired("callback-throw");
    res.outcome = (int)o;
    // an interrupted call promises nothing about its own result here (the other properties do)
    res.h = fired || o == INJECTED ? (u64)o : mix(d.h, (u64)o);
  }
  res.fpu = std::fegetround() == FE_TONEAREST;
  return res;
}

std::string process_state() {
  std::ostringstream o;
  o << std::locale().name() << "|" << setlocale(LC_ALL, nullptr) << "|" << std::cout.flags() << "," << std::cout.precision() << "," << std::cout.width()
    << "," << (int)std::cout.fill() << "|" << std::cerr.flags() << "," << std::cerr.precision() << "|" << std::fegetround();
  return o.str();
}

struct NullBuf : std::streambuf {
  int overflow(int ch) override { return ch == EOF ? 0 : ch; }
  std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};
struct Process {  // warnings of the library go nowhere
  NullBuf nb;
  std::streambuf *e, *o;
  Process() : e(std::cerr.rdbuf(&nb)), o(std::cout.rdbuf(&nb)) { g_shared_process = true; }
  ~Process() {
    std::cerr.rdbuf(e);
    std::cout.rdbuf(o);
    std::cerr.clear();
    std::cout.clear();
    g_shared_process = false;
  }
};

void exec(const Plan &p, Ctx &c) {
  Process process;
  World w;
  build_world(w, p);
  std::vector<Work> all;
  std::vector<sched::Slice> slices;
  const int n = std::max(1, std::min((int)p.knob("callers", 2), (int)sched::MAXT));
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &o = p.ops[i];
    if (o.code == SUB || o.code == TASK) {
      Work k;
      k.caller = (int)o.idx(0, n);
      k.sub = o.code == SUB;
      k.kind = (int)o.idx(1, k.sub ? subs().size() : NKIND);
      k.first_op = i;
      k.op = &o;
      if (k.sub) {
        k.plan.cfg = (int)o.idx(2, subs()[k.kind].configs.size());
        k.plan.seed = 1;
      }
      all.push_back(k);
    } else if (o.code == KNOB && !all.empty() && all.back().sub) {
      all.back().plan.knobs.push_back(std::make_pair(o.str(0), o.num(0)));
    } else if (o.code >= BASE && !all.empty() && all.back().sub) {
      Op q = o;
      q.code -= BASE;
      all.back().plan.ops.push_back(q);
    } else if (o.code == SLICE) {
      slices.push_back(sched::Slice{(int)o.idx(0, n), (u64)std::max(1L, o.i(1, 1))});
    }
  }
  const std::string before = process_state();
  std::vector<Result> together(all.size()), alone(all.size());
  if (p.knob("first_solo"))
    for (size_t i = 0; i < all.size(); ++i) perform(all[i], w, true);
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < n; ++t)
    bodies.push_back([&, t] {
      for (size_t i = 0; i < all.size(); ++i)
        if (all[i].caller == t) together[i] = perform(all[i], w, true);
    });
  sched::Options so;
  so.global_p = p.knob("global_p");
  so.conflict_p = p.knob("conflict_p");
  so.quantum = p.knob("quantum");
  so.seed = (u64)p.knob("sched");
  sched::Report rep = sched::run(bodies, slices, so);
  if (rep.race) c.fail("unsynchronised-sharing", rep.what);
  if (rep.process_state) c.fail("process-wide-state", rep.what);
  if (process_state() != before) c.fail("process-wide-state", "the callers left the process in state " + process_state() + " instead of " + before);
  for (size_t i = 0; i < all.size(); ++i) {
    const Work &k = all[i];
    c.op_index = (int)k.first_op;
    alone[i] = perform(k, w, true);
    const Result &a = alone[i], &b = together[i];
    const std::string what = k.sub ? "simulated run of " + subs()[k.kind].id : cat("task ", k.kind);
    if (!b.fpu || !a.fpu) c.fail("process-wide-state", what + " left another rounding mode");
    if (b.unsteady || a.unsteady) c.fail("left-behind", what + ": " + (b.unsteady ? b.msg : a.msg));
    if (b.failed && !a.failed) c.fail("disturbed", what + " went wrong only among other callers: " + b.cls + ": " + b.msg);
    if (a.failed && !b.failed) c.fail("disturbed", what + " went wrong only after other work: " + a.cls + ": " + a.msg);
    if (a.failed) {
      c.probe("a run of another property failed anyway");
      continue;
    }
    if (a.h != b.h) c.fail("disturbed", cat(what, " gave another result among other callers than alone (outcomes ", b.outcome, " and ", a.outcome, ")"));
    if (!k.sub && !k.op->f.empty()) {  // an interrupted call leaves nothing behind: the same work again
      Result x = perform(k, w, false), y = perform(k, w, false);
      if (x.h != y.h) c.fail("left-behind", what + " gives another result after an interrupted call");
    }
    c.trace(b.h);
    c.trace(b.outcome);
  }
  u64 acc = 0;
  int busy = 0;
  for (int t = 0; t < n; ++t) {
    acc += rep.accesses[t];
    busy += rep.accesses[t] > 0;
  }
  c.state(mix(rep.switches, mix(rep.accesses[0], mix(rep.accesses[1], rep.conflict_switches))));
  if (rep.switches > (u64)n) c.probe("interleaved run");
  if (rep.conflict_switches) c.probe("switch at static or shared memory");
  if (rep.lock_waits) c.probe("a caller waited for a lock");
  if (rep.syncs) c.probe("synchronisation seen");
  if (rep.shared_granules) c.probe("memory read by several callers");
  if (rep.shadow_full) c.probe("shadow table full");
  if (rep.switches > 16) c.probe("more than 16 switches");
  if (rep.switches > 256) c.probe("more than 256 switches");
  if (rep.switches > 4096) c.probe("more than 4096 switches");
  c.simtime((double)acc * 1e-8);
  if (busy >= 2 && rep.switches > (u64)n) c.nontrivial();
}
}  // namespace

namespace sim {
Scenario make_scenario() {
  Scenario s;
  s.id = "C14";
  s.rule =
      "One case is two to four callers, each with one to three pieces of work (whole runs of the other scenarios, or tasks "
      "on a shared read-only world), and a schedule of switches; non-trivial when two callers touched memory and were "
      "switched beyond start and end; distinct by hash of the results.";
  s.real = {"the whole library except the qigeometry serialisation", "boost.property_tree", "boost.multi_index", "Eigen", "libstdc++"};
  s.stub = {"thread scheduler (one caller runs at a time, switched at memory accesses chosen by the plan)", "locks and one-time initialisation (cooperative)",
            "memory allocator (failures injected)", "devices and storage of the other scenarios"};
  s.configs = {"fault-free", "memory-and-callback-faults", "all-scenario-faults"};
  s.fault_kinds = {"alloc-failure", "callback-throw", "preemption"};
  s.state_measure = "schedule: number of switches, accesses made by the callers, forced switches";
  s.assumptions = {"callers switch at memory accesses, function entries and synchronisation of library code, not inside libstdc++.so or libc",
                   "one simulated second stands for 10^8 memory accesses"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 6;
  s.quick_runs = 60000;
  s.thorough_runs = 3000000;
  s.quick_secs = 50;
  s.cpu_limit = 20;
  return s;
}
}  // namespace sim
