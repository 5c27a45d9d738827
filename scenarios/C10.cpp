// C10: building a rigid body system from a URDF.
#include <almath/scenegraph/urdfrigidbodysystemtraverser.h>
#include <memory>
#include "sim/core.h"
#include "sim/urdfedits.h"
using namespace sim;
using namespace um;
namespace rb = AL::RigidBodySystemBuilder;

namespace {
enum { BUILD = 70 };
// BUILD n: remove root, fix continuous, stack, no_static_frame, name format, throw at call (-1), throw after recording,
//          stream variant, damage kind, damage position, galilean
const char *kFormats[] = {"%1%_joint", "J:%1%", "%1%%1%", "%1%"};

Plan gen(Rng &r, int cfg) {
  Plan p;
  DocOpts o;
  o.max_links = r.chance(0.05) ? 20 : 7;
  o.p_mimic = 0.05;
  o.p_inertial = r.chance(0.6) ? 0.93 : 0.6;
  o.axis_unit_only = !r.chance(0.1);
  o.types = {0, 1, 3, 3, 4};
  if (r.chance(0.1)) o.types.push_back(2), o.types.push_back(5);
  p.ops = gen_doc(r, o);
  if (r.chance(0.1))  // an axis which is nearly one of those that can be represented
    for (Op &j : p.ops)
      if (j.code == D_JOINT && r.chance(0.4)) {
        static const double len[] = {0.5, 2, -1, 1 + 1e-7, 1 - 1e-12, 1e-3, 0};
        const int k = r.range(0, 2);
        j.n[9] = 1;
        for (int i = 0; i < 3; ++i) j.n[10 + i] = i == k ? r.pick(len) : 0;
        if (r.chance(0.4)) j.n[10 + k] = 1, j.n[10 + (k + r.range(1, 2)) % 3] = r.uni(-1, 1) * std::pow(10, r.uni(-14, 0));
      }
  if (r.chance(0.1)) {  // a joint named as the default joint of a link
    std::vector<size_t> L, J;
    for (size_t i = 0; i < p.ops.size(); ++i)
      if (p.ops[i].code == D_LINK) L.push_back(i);
      else if (p.ops[i].code == D_JOINT) J.push_back(i);
    if (!L.empty() && !J.empty()) p.ops[J[r.below(J.size())]].s[0] = p.ops[L[0]].s[0] + "_joint";
  }
  p.set("ws", r.range(0, 3));
  int n = r.range(1, 4);
  for (int i = 0; i < n; ++i) {
    Op b(BUILD);
    b.n = {(double)r.chance(0.2), (double)r.chance(0.3), (double)r.below(7), (double)r.chance(0.2), (double)(r.chance(0.6) ? 0 : r.below(4)), -1, (double)r.chance(0.5),
           (double)r.chance(0.3), 0, r.u(), (double)r.chance(0.15)};
    if (cfg >= 1) {
      double k = r.u();
      if (k < 0.4) b.n[5] = (double)r.range(0, 6);
      else if (k < 0.75) b.f.push_back(Fault{"alloc", (long)(r.chance(0.5) ? r.below(60) : std::pow(10, r.uni(1, 3.7)))});
      else if (k < 0.9) b.n[7] = 1, b.n[8] = r.range(1, 3);
    }
    p.ops.push_back(b);
  }
  return p;
}

struct Call {
  bool link = true;
  std::string parent, body, joint;
  TF pose;
  int type = 0;
  double mass = 0;
  V3 com;
  M3 I;
};
template <class T>
struct Rec : rb::Interface<T> {
  rb::Config cfg;
  std::vector<Call> calls;
  long throw_at = -1;
  bool after = false;
  long made = 0;
  bool threw = false;
  const rb::Config &config() const override { return cfg; }
  template <class P>
  static TF tf(const P &p) {
    TF t;
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < 3; ++j) t.R.m[i][j] = (double)p.linear()(i, j);
      t.t[i] = (double)p.translation()(i);
    }
    return t;
  }
  void put(const Call &c) {
    const bool boom = made++ == throw_at;
    if (boom && !after) {
      threw = true;
      um::inject_tree(throw_at + (long)calls.size());
    }
    calls.push_back(c);
    if (boom) {
      threw = true;
      um::inject_tree(throw_at + (long)calls.size());
    }
  }
  void addLink(rb::LinkData<T> l) override {
    HarnessScope h;
    Call c;
    c.parent = l.parent_body;
    c.body = l.new_body;
    c.joint = l.new_joint;
    c.pose = tf(l.pose_parent_new);
    c.type = (int)l.joint_type;
    c.mass = l.body_mass.mass;
    for (int i = 0; i < 3; ++i) {
      c.com[i] = l.body_mass.center_of_mass[i];
      for (int j = 0; j < 3; ++j) c.I.m[i][j] = l.body_mass.rotational_inertia(i, j);
    }
    put(c);
  }
  void addStaticFrame(rb::StaticFrameData<T> f) override {
    HarnessScope h;
    Call c;
    c.link = false;
    c.parent = f.parent_frame;
    c.body = f.new_static_frame;
    c.joint = f.new_static_transform;
    c.pose = tf(f.pose_parent_new);
    put(c);
  }
};

struct Expect {
  std::vector<Call> calls;
  bool throws = false;
};
// Compound mass of a link and of everything welded to it.
void weld(const URobot &m, const std::string &l, const TF &w, MassSum &s, bool &any) {
  const ULink &k = m.links[m.link(l)];
  if (k.has_inertial) any = true, s.add(k.mass, w * k.io.tf(), k.inertia());
  for (int j : m.children(l))
    if (m.joints[j].type == "fixed") weld(m, m.joints[j].child, w * m.joints[j].o.tf(), s, any);
}
std::string jname(const std::string &fmt, const std::string &b) {
  std::string o;
  for (size_t i = 0; i < fmt.size(); ++i)
    if (fmt.compare(i, 3, "%1%") == 0) o += b, i += 2;
    else o += fmt[i];
  return o;
}
Expect model(URobot m, const Op &b, const rb::Config &cfg, bool checker, bool erase) {
  Expect e;
  std::vector<std::string> unused;
  if (b.i(0) && model_edit(m, Op(E_RM_ROOT), "", unused) != OK) {
    e.throws = true;
    return e;
  }
  if (b.i(1)) model_edit(m, Op(E_FIX_CONT), "", unused);
  auto body = [&](const std::string &l, Call &c) {
    MassSum s;
    bool any = false;
    weld(m, l, ident(), s, any);
    c.mass = s.m;
    c.com = s.m != 0 ? (1 / s.m) * s.mc : v3(NAN, NAN, NAN);
    c.I = s.I;
    if (s.m != 0) {
      double c2 = dot(c.com, c.com);
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) c.I.m[i][j] -= s.m * ((i == j ? c2 : 0) - c.com[i] * c.com[j]);
    }
    if (erase) c.I = zero3();
    return any;
  };
  std::set<std::string> bodies{cfg.galilean_frame}, frames, tf;
  auto put = [&](const Call &c) {
    if (checker) {
      bool known = bodies.count(c.parent) || (!c.link && frames.count(c.parent));
      if (!known || bodies.count(c.body) || frames.count(c.body) || tf.count(c.joint)) {
        e.throws = true;
        return false;
      }
      (c.link ? bodies : frames).insert(c.body);
      tf.insert(c.joint);
    }
    e.calls.push_back(c);
    return true;
  };
  Call root;
  root.parent = cfg.galilean_frame;
  root.body = m.root();
  root.joint = jname(cfg.joint_name_format, root.body);
  root.pose = ident();
  root.type = 0;
  if (!body(root.body, root)) return e;  // massless non-fixed link: nothing below
  if (!put(root)) return e;
  for (int i : m.traversal()) {
    const UJoint &j = m.joints[i];
    Call c;
    c.parent = j.parent;
    c.body = j.child;
    c.joint = j.name;
    c.pose = j.o.tf();
    c.link = body(j.child, c) && j.type != "fixed";
    const bool massless = !c.link;
    if (massless) {  // fixed, or made fixed
      if (cfg.no_static_frame) continue;
    } else if (j.type == "floating") {
      c.type = 0;
    } else if (j.type == "revolute" || j.type == "continuous") {
      V3 a = j.axis;
      c.type = a[0] == 1 && a[1] == 0 && a[2] == 0 ? 1 : a[0] == 0 && a[1] == 1 && a[2] == 0 ? 2 : a[0] == 0 && a[1] == 0 && a[2] == 1 ? 3 : -1;
      if (c.type < 0) {
        e.throws = true;
        return e;
      }
    } else {
      e.throws = true;
      return e;
    }
    if (!put(c)) return e;
  }
  return e;
}
double rel(double a, double b, double s) { return std::fabs(a - b) / std::max(s, 1e-300); }
std::string differ(const std::vector<Call> &want, const std::vector<Call> &got, double eps, bool prefix, bool values = true) {
  if (prefix ? got.size() > want.size() : got.size() != want.size()) return cat(got.size(), " calls instead of ", want.size());
  for (size_t i = 0; i < got.size(); ++i) {
    const Call &a = want[i], &b = got[i];
    std::string w = cat("call ", i, " (", b.body, "): ");
    if (a.link != b.link) return w + (b.link ? "link instead of static frame" : "static frame instead of link");
    if (a.parent != b.parent) return w + "parent " + b.parent + " instead of " + a.parent;
    if (a.body != b.body) return w + "instead of " + a.body;
    if (a.joint != b.joint) return w + "joint " + b.joint + " instead of " + a.joint;
    if (!values) continue;
    double len = std::max(norm(a.pose.t), 1e-30);
    if (!(dist(a.pose, b.pose, len) < eps)) return w + cat("pose off by ", dist(a.pose, b.pose, len));
    if (!a.link) continue;
    if (a.type != b.type) return w + cat("joint type ", b.type, " instead of ", a.type);
    if (!(rel(a.mass, b.mass, std::fabs(a.mass)) < eps) && a.mass != b.mass) return w + cat("mass ", b.mass, " instead of ", a.mass);
    double sI = 0;
    for (int k = 0; k < 3; ++k)
      for (int l = 0; l < 3; ++l) sI += std::fabs(a.I.m[k][l]);
    if (a.mass != 0) {
      V3 d = a.com - b.com;
      double e = norm(d) / (norm(a.com) + norm(b.com) + 10);
      if (!(e < eps)) return w + cat("center of mass off by ", norm(d));
      sI += a.mass * 30;
    }
    for (int k = 0; k < 3; ++k)
      for (int l = 0; l < 3; ++l)
        if (!(std::fabs(a.I.m[k][l] - b.I.m[k][l]) <= eps * (sI + 1e-30))) return w + cat("inertia ", k, l, " is ", b.I.m[k][l], " instead of ", a.I.m[k][l]);
  }
  return std::string();
}

struct Stack {  // builder stacks under test; the innermost is always a recorder
  Rec<double> d;
  Rec<float> f;
  std::unique_ptr<rb::Interface<double>> a, b;
  std::unique_ptr<rb::Interface<float>> g;
  rb::Interface<double> *top = nullptr;
  bool checker = false, erase = false, single = false;
  std::vector<Call> &calls() { return single ? f.calls : d.calls; }
  bool threw() { return single ? f.threw : d.threw; }
  void make(int kind) {
    switch (kind) {
      case 0: top = &d; break;
      case 1:
        a.reset(new rb::NamesChecker<double>(d));
        top = a.get();
        checker = true;
        break;
      case 2:
        a.reset(new rb::Adapter<double, float>(f));
        top = a.get();
        single = true;
        break;
      case 3:
        a.reset(new rb::InertiaEraser<double>(d));
        b.reset(new rb::NamesChecker<double>(*a));
        top = b.get();
        checker = erase = true;
        break;
      case 4:
        g.reset(new rb::NamesChecker<float>(f));
        a.reset(new rb::Adapter<double, float>(*g));
        top = a.get();
        checker = single = true;
        break;
      case 5:
        a.reset(new rb::Decorator<double>(d));
        b.reset(new rb::Decorator<double>(*a));
        top = b.get();
        break;
      default:
        a.reset(new rb::NamesChecker<double>(d));
        b.reset(new rb::InertiaEraser<double>(*a));
        top = b.get();
        checker = erase = true;
    }
  }
};

void exec(const Plan &p, Ctx &c) {
  const std::string text = doc_text(p.ops, (int)p.knob("ws"));
  ptree doc;
  if (!parse(text, doc)) c.fail("harness", "generated text does not parse");
  URobot m = read_robot(*robot_of(doc));
  const std::string inv = invalid(m);
  int full = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &b = p.ops[i];
    if (b.code != BUILD) continue;
    c.op_index = (int)i;
    Stack s;
    s.make((int)b.idx(2, 7));
    for (rb::Config *cf : {&s.d.cfg, &s.f.cfg}) {
      cf->no_static_frame = b.i(3);
      cf->joint_name_format = kFormats[b.idx(4, 4)];
      if (b.i(10)) cf->galilean_frame = "galileo";
    }
    if (b.i(10)) s.top = nullptr, s.a.reset(), s.b.reset(), s.g.reset(), s.make((int)b.idx(2, 7));
    s.d.throw_at = s.f.throw_at = b.i(5);
    s.d.after = s.f.after = b.i(6);
    Expect e = inv.empty() ? model(m, b, s.d.cfg, s.checker, s.erase) : Expect{{}, true};
    const double eps = s.single ? 2e-5 : 1e-9;
    ptree work = doc;
    std::string bytes = text;
    bool damaged = false;
    if (b.i(7) && b.i(8) == 1 && bytes.size() > 1) {  // truncated storage
      size_t cut = (size_t)(b.num(9) * (double)bytes.size());
      if (bytes.find_last_not_of(" \n") >= cut) damaged = true;
      bytes.resize(cut);
    }
    std::istringstream is(bytes);
    if (b.i(7) && b.i(8) == 2) is.setstate(std::ios::badbit), damaged = true;
    Outcome o;
    bool nomem;
    {
      AllocFault af(c, b);
      o = attempt([&] {
        if (b.i(7)) AL::buildRigidBodySystemFromUrdf(*s.top, is, b.i(0), b.i(1));
        else AL::buildRigidBodySystemFromUrdf(*s.top, work, b.i(0), b.i(1));
      });
      nomem = af.end();
    }
    c.trace((int)o);
    c.trace((int)s.calls().size());
    if (damaged) {
      c.fired(b.i(8) == 1 ? "truncated-read" : "read-error");
      if (o == OK) c.fail("damaged-accepted", "a damaged document was built");
      if (!s.calls().empty()) c.fail("damaged-called", "the builder was called for a damaged document");
      continue;
    }
    if (s.threw()) {
      c.fired("builder-throw");
      if (o != INJECTED && !(nomem && o == NOMEM)) c.fail("exception-lost", cat("the builder's exception did not reach the caller: outcome ", o));
      size_t n = (size_t)b.i(5) + (b.i(6) ? 1 : 0);
      if (s.calls().size() != n) c.fail("calls-after-throw", cat(s.calls().size(), " calls recorded, the failing one was number ", b.i(5)));
    } else if (nomem) {
      if (o == INJECTED) c.fail("outcome", "unexpected injected failure");
    } else {
      if (e.throws ? o != THROWN : o != OK) c.fail("outcome", cat("outcome ", o, ", ", e.throws ? "a rejection" : "success", " expected\n", text));
    }
    if (e.throws && o == OK && !nomem) c.fail("outcome", "success instead of a rejection\n" + text);
    const bool partial = o != OK && (s.threw() || nomem);
    // known finding: boost::format hides the lack of memory and gives a truncated default joint name
    if (nomem && !p.knob("known") && !s.calls().empty() && !e.calls.empty()) s.calls()[0].joint = e.calls[0].joint;
    if (nomem && e.throws && s.calls().size() > e.calls.size()) s.calls().resize(e.calls.size());
    std::string d = differ(e.calls, s.calls(), eps, partial || nomem && e.throws, !nomem);
    if (!d.empty()) c.fail(partial ? "calls-before-failure" : "calls", d + "\n" + text);
    for (auto &k : s.calls()) {
      c.trace(k.body);
      c.trace((int)k.type);
    }
    c.state(mix((u64)s.calls().size(), mix((u64)o, mix((u64)b.idx(2, 7), hash_str(m.order)))));
    if (o == OK && s.calls().size() >= 2) ++full;
    bool dangling = false;  // a removed root joint leaves its mimics (known finding of C07): cannot load again
    if (inv.empty() && b.i(0)) {
      URobot after = m;
      std::vector<std::string> unused;
      model_edit(after, Op(E_RM_ROOT), "", unused);
      dangling = leaves_dangling_mimic(m, after);
    }
    // building again with a healthy builder: from the same (already simplified) document and from a fresh one
    for (int again = 0; again < 2; ++again) {
      if (again == 0 && (dangling || b.i(7) || o == THROWN || (nomem && o != OK))) continue;
      Stack t;
      for (rb::Config *cf : {&t.d.cfg, &t.f.cfg}) *cf = s.d.cfg;
      t.make((int)b.idx(2, 7));
      ptree fresh = doc;
      Outcome o2 = attempt([&] { AL::buildRigidBodySystemFromUrdf(*t.top, again ? fresh : work, again ? b.i(0) : 0, b.i(1)); });
      if (e.throws ? o2 != THROWN : o2 != OK) c.fail("rebuild-outcome", cat("building again: outcome ", o2, again ? " (fresh document)" : " (same document)"));
      d = differ(e.calls, t.calls(), eps, false);
      if (!d.empty()) c.fail("rebuild", cat("building again ", again ? "(fresh document): " : "(same document): ", d, "\n", text));
    }
  }
  if (full >= 1 && m.joints.size() >= 2) c.nontrivial();
}
}  // namespace

namespace sim {
Scenario make_scenario() {
  Scenario s;
  s.id = "C10";
  s.rule =
      "One case is a generated document built up to four times with drawn options, builder stack and fault; non-trivial "
      "when at least one build of a robot with two joints or more completed with two calls or more; distinct by hash of "
      "outcomes and calls.";
  s.real = {"buildRigidBodySystemFromUrdf", "AL::urdf::RobotTree", "RigidBodySystemBuilder NamesChecker, Adapter, Decorator, InertiaEraser", "urdfInertialToEigen, squashInertial"};
  s.stub = {"innermost builder (recorder that can throw)"};
  s.configs = {"no-fault", "faults"};
  s.fault_kinds = {"builder-throw", "alloc-failure", "truncated-read", "read-error"};
  s.state_measure = "number of calls x outcome x builder stack x element order of the document";
  s.assumptions = {"numbers of the document are well formed", "boost.property_tree's number translators report lack of memory as a missing value: values read while an allocation failed are not compared"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 32;
  s.quick_runs = 50000;
  s.thorough_runs = 3000000;
  s.quick_secs = 30;
  return s;
}
}  // namespace sim
