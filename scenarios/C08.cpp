// C08: re-rooting and moving the root frame keep the mechanism the same.
#include <memory>
#include "sim/core.h"
#include "sim/urdfedits.h"
using namespace sim;
using namespace um;

namespace {
enum { RELOAD = 60 };
Plan gen(Rng &r, int cfg) {
  Plan p;
  DocOpts o;
  o.max_links = r.chance(0.05) ? 20 : 7;
  o.p_mimic = 0.05;
  o.odd_names = false;
  o.axis_any_length = true;
  o.types = {0, 0, 1, 2, 3};
  if (r.chance(0.3)) o.types.push_back(4), o.types.push_back(5);
  p.ops = gen_doc(r, o);
  p.set("ws", r.range(0, 3));
  p.set("q", (double)r.below(1000000));
  int n = r.range(1, 7);
  for (int i = 0; i < n; ++i) {
    Op e = gen_edit(r, r.chance(0.7) ? E_REROOT : E_TRANSPORT);
    if (cfg == 1) {
      double k = r.u();
      // special transports: onto an existing element, onto an equivalent angle, tiny, back and forth
      if (e.code == E_TRANSPORT) e.n.push_back(k < 0.3 ? 1 : k < 0.5 ? 2 : k < 0.6 ? 3 : k < 0.7 ? 4 : 0);
      else if (i && k < 0.4) e.n[0] = 0.5, e.n.push_back(5);  // back to the previous root
    }
    p.ops.push_back(e);
    if (cfg == 1 && r.chance(0.2)) p.ops.push_back(Op(RELOAD));
  }
  return p;
}

struct Snapshot {
  std::map<std::string, TF> link;                   // world pose of every link frame
  std::vector<std::pair<std::string, TF>> element;  // world pose of every inertial, visual, collision
};
Snapshot snap(const URobot &m, const Joints &q) {
  Snapshot s;
  s.link = fk(m, q);
  for (auto &l : m.links) {
    if (l.has_inertial) s.element.push_back(std::make_pair("inertial of " + l.name, s.link[l.name] * l.io.tf()));
    for (size_t i = 0; i < l.elems.size(); ++i) s.element.push_back(std::make_pair(cat("element ", i, " of ", l.name), s.link[l.name] * l.elems[i].o.tf()));
  }
  return s;
}
double extent(const Snapshot &s) {
  double e = 1e-3;
  for (auto &x : s.link) e = std::max(e, norm(x.second.t));
  for (auto &x : s.element) e = std::max(e, norm(x.second.t));
  return e;
}

void exec(const Plan &p, Ctx &c) {
  const std::string text = doc_text(p.ops, (int)p.knob("ws"));
  ptree doc;
  if (!parse(text, doc)) c.fail("harness", "generated text does not parse");
  ptree *robot = robot_of(doc);
  URobot m = read_robot(*robot);
  if (!invalid(m).empty()) return;
  std::unique_ptr<lib::RobotTree> tree(new lib::RobotTree(*robot));
  const u64 qs = (u64)p.knob("q");
  int moved = 0;
  std::string prev_root = m.root();
  double amp = 1e-3;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &oo = p.ops[i];
    if (oo.code == RELOAD) {  // crash and restart: only the saved document survives
      std::ostringstream os;
      boost::property_tree::write_xml(os, doc);
      ptree d2;
      if (!parse(os.str(), d2)) c.fail("document", "the saved document does not parse");
      tree.reset();
      doc.swap(d2);
      robot = robot_of(doc);
      tree.reset(new lib::RobotTree(*robot));
      c.fired("crash-restart");
      URobot again = read_robot(*robot);
      std::string er = same_structure(m, again);
      if (!er.empty()) c.fail("reload", "saving and reloading changed the document: " + er);
      m = again;
      continue;
    }
    if (oo.code != E_REROOT && oo.code != E_TRANSPORT) continue;
    c.op_index = (int)i;
    Op o = oo;
    std::string name = target(o, m);
    if (o.code == E_REROOT && o.i(3) == 5) name = prev_root;
    if (o.code == E_TRANSPORT) {
      UPose np;
      bool set = true;
      int kind = (int)o.i(8);
      if (kind == 1 || kind == 2) {  // onto one of the root's own elements
        std::vector<UPose> c2;
        ULink &l = m.links[m.link(m.root())];
        if (l.has_inertial) c2.push_back(l.io);
        for (auto &e : l.elems) c2.push_back(e.o);
        for (int j : m.children(m.root())) c2.push_back(m.joints[j].o);
        if (c2.empty()) set = false;
        else np = c2[(size_t)(o.num(0) * 1000) % c2.size()];
        if (kind == 2) {  // same rotation, other angles
          np.rpy[0] += M_PI;
          np.rpy[1] = M_PI - np.rpy[1];
          np.rpy[2] += M_PI;
        }
      } else if (kind == 3) {
        for (int k = 0; k < 3; ++k) np.xyz[k] = o.num(2 + k) * 1e-9, np.rpy[k] = o.num(5 + k) * 1e-9;
      } else if (kind == 4) {  // half turns
        for (int k = 0; k < 3; ++k) np.rpy[k] = M_PI * (double)((int)(o.num(0) * 64) >> k & 1);
      } else {
        set = false;
      }
      if (set)
        for (int k = 0; k < 3; ++k) o.n[2 + k] = np.xyz[k], o.n[5 + k] = np.rpy[k];
    }
    const std::string before = dumped(*robot), en = edit_name(o.code);
    URobot want = m;
    std::vector<std::string> names;
    Frames fr;
    Outcome exp = model_edit(want, o, name, names, &fr);
    const std::string old_root = m.root();
    EditResult e = run_edit(*tree, o, name);
    c.trace((int)e.outcome);
    if (e.outcome != exp) c.fail("edit-outcome", cat(en, " ", name, ": outcome ", e.outcome, " instead of ", exp));
    if (e.outcome != OK) {
      c.rejected("refused");
      if (dumped(*robot) != before) c.fail("edit-not-atomic", en + " was refused but changed the document");
      continue;
    }
    URobot got = read_robot(*robot);
    std::string er = same_structure(want, got);
    if (!er.empty()) c.fail("edit-effect", en + " " + name + ": " + er + "\n" + text);
    if (o.code == E_REROOT && (tree->root_link() != name || got.root() != name)) c.fail("root", "root is " + tree->root_link() + " after " + en + " " + name);
    if (o.code == E_REROOT && name != old_root) prev_root = old_root, ++moved;
    if (o.code == E_TRANSPORT) ++moved;
    for (int s = 0; s < 3; ++s) {
      Joints q = joint_values(m, qs + (u64)s, s == 0);
      Snapshot a = snap(m, q), b = snap(got, q);
      amp = std::max(amp, std::max(extent(a), extent(b)));
      // old world expressed in the new one, from the new root link
      auto d = [&](const std::string &l) { return fr.count(l) ? fr[l] : ident(); };
      TF change = b.link[got.root()] * inv(a.link[got.root()] * d(got.root()));
      for (auto &x : a.link) {
        double er2 = dist(change * x.second * d(x.first), b.link[x.first], amp);
        if (!(er2 < 1e-9)) c.fail("link-pose", cat(en, " ", name, ": link ", x.first, " moved by ", er2, "\n", text));
      }
      if (a.element.size() != b.element.size()) c.fail("element", "elements lost");
      for (size_t k = 0; k < a.element.size(); ++k) {
        double er2 = dist(change * a.element[k].second, b.element[k].second, amp);
        if (!(er2 < 1e-9)) c.fail("element-pose", cat(en, " ", name, ": ", a.element[k].first, " moved by ", er2, " root ", old_root, "\n", text));
      }
      if (s == 1)
        for (auto &x : b.link) c.trace((int)std::lrint(1000 * x.second.t[0] / amp));
    }
    c.state(mix(hash_str(got.root()), mix(hash_str(m.order), (u64)moved)));
    m = got;
  }
  if (moved >= 2 && m.joints.size()) c.nontrivial();
}
}  // namespace

namespace sim {
Scenario make_scenario() {
  Scenario s;
  s.id = "C08";
  s.rule =
      "One case is a generated valid document and up to seven re-rootings and frame transports, each checked at three "
      "joint configurations; non-trivial when two of them took effect; distinct by hash of outcomes and link positions.";
  s.real = {"AL::urdf::RobotTree", "AL::urdf::Pose", "urdfeigen.h conversions", "Eigen"};
  s.stub = {"storage between restarts (a string)"};
  s.configs = {"random", "special-frames-and-restarts"};
  s.fault_kinds = {"crash-restart"};
  s.state_measure = "root link x element order of the document x number of effective edits";
  s.assumptions = {"joint types, poses and axes of the document are well formed", "floating and planar joints stay at their zero pose"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 32;
  s.quick_runs = 40000;
  s.thorough_runs = 2000000;
  s.quick_secs = 30;
  return s;
}
}  // namespace sim
