// C13: documents saved on a simulated disk, crashes, and what reloads.
#include <almath/scenegraph/qianim.h>
#include <almath/scenegraph/urdfrigidbodysystemtraverser.h>
#include <memory>
#include "sim/core.h"
#include "sim/disk.h"
#include "sim/urdfedits.h"
using namespace sim;
using namespace um;
namespace rb = AL::RigidBodySystemBuilder;
namespace Q = AL::qianim;
namespace V2 = AL::qianim::V2;
namespace pt = boost::property_tree;

namespace {
enum { PUT_POSE = 10, ANIM, SAVE, CRASH, RELOAD };
const char *const fname[2] = {"robot.urdf", "dance.qianim"};

double rnd_double(Rng &r, bool extreme) {
  double k = r.u();
  if (k < 0.2) return r.range(-20, 20) / 8.0;
  if (k < 0.78) return r.uni(-10, 10);
  if (k < 0.8) return r.uni(-1, 1) * std::pow(10.0, -r.range(60, 322));
  if (k < 0.95) return r.uni(-1, 1) * std::pow(10.0, extreme ? r.range(-250, 250) : r.range(-60, 60));
  static const double s[] = {0.1, 1.0 / 3, -0.0, 1e22, 123456789.123456789, 5e-324, 1.7976931348623157e308, 9007199254740993.0};
  return s[r.below(extreme ? 8 : 5)];
}
Plan gen(Rng &r, int cfg) {
  Plan p;
  DocOpts d;
  d.max_links = 6;
  d.types = {0, 0, 1, 3, 3, 4};
  p.ops = gen_doc(r, d);
  p.set("ws", r.range(0, 3));
  p.set("pretty", r.below(3));
  int n = r.range(4, 26);
  for (int i = 0; i < n; ++i) {
    double k = r.u();
    const double which = (double)r.chance(0.4);
    Op o;
    if (k < 0.12) {
      o = Op(PUT_POSE, {(double)r.below(20)});
      for (int j = 0; j < 6; ++j) o.n.push_back(rnd_double(r, false));
    } else if (k < 0.32) {
      o = Op(ANIM, {(double)r.below(7), (double)r.below(4), (double)r.below(12), (double)r.chance(0.5), rnd_double(r, true), rnd_double(r, true), (double)r.below(1000)});
    } else if (k < 0.42) {
      o = gen_edit(r, r.range(E_RM_LEAF, E_PRUNE));
    } else if (k < 0.75) {
      // document, protocol, buffer size
      o = Op(SAVE, {which, (double)r.below(4), std::floor(std::pow(2, r.uni(0, 13)))});
      if (cfg == 1) {
        double f = r.u();
        if (f < 0.2) o.f.push_back(Fault{"crash-in-save", (long)r.below(r.chance(0.5) ? 4 : 60)});
        else if (f < 0.35) o.f.push_back(Fault{"disk-full", (long)r.below(3000)});
        o.n.push_back((double)r.below(1000000));
      }
    } else if (k < 0.85 && cfg == 1) {
      o = Op(CRASH, {(double)r.below(1000000)});
    } else {
      o = Op(RELOAD, {which, (double)r.below(1000000), r.chance(0.3) ? 1 : std::floor(std::pow(2, r.uni(0, 12)))});
      if (cfg == 1 && r.chance(0.25)) o.f.push_back(Fault{r.chance(0.5) ? "read-error" : "read-exception", (long)r.below(4000)});
    }
    p.ops.push_back(o);
  }
  return p;
}

std::string bits(double d) {
  char b[40];
  std::snprintf(b, sizeof b, "%a ", d);
  return b;
}
// What the library's accessors say of a document.
std::string urdf_numbers(const ptree &robot) {
  std::string s;
  for (auto &c : robot) {
    if (c.first == "link") {
      lib::Link l(c.second);
      s += "L" + l.name() + " ";
      if (auto in = l.inertial()) {
        s += bits(in->mass()) + bits(in->ixx()) + bits(in->ixy()) + bits(in->ixz()) + bits(in->iyy()) + bits(in->iyz()) + bits(in->izz());
        const lib::Pose o = in->origin();
        for (int k = 0; k < 3; ++k) s += bits(o.xyz()[k]) + bits(o.rpy()[k]);
      }
    } else if (c.first == "joint") {
      lib::Joint j(c.second);
      s += "J" + j.name() + ">" + j.parent_link() + ">" + j.child_link() + " " + std::to_string((int)j.type()) + " ";
      const lib::Pose o = j.origin();
      for (int k = 0; k < 3; ++k) s += bits(o.xyz()[k]) + bits(o.rpy()[k]);
      for (double x : j.axis()) s += bits(x);
      if (auto m = j.mimic()) s += "M" + m->joint() + bits(m->multiplier()) + bits(m->offset());
      if (auto l = j.limit_lower_upper()) s += "l" + bits(l->first) + bits(l->second);
    }
  }
  return s;
}
std::string anim_numbers(const ptree &root) {
  std::string s;
  const ptree &a = V2::get_animation(root);
  for (const ptree &c : V2::Animation::get_actuatorcurves(a)) {
    s += "C" + V2::ActuatorCurve::get_actuator(c) + " ";
    attempt([&] { s += std::to_string((int)V2::ActuatorCurve::get_unit(c)) + " "; });
    attempt([&] { s += std::to_string(V2::ActuatorCurve::get_fps(c)) + " "; });
    attempt([&] { s += std::to_string(V2::ActuatorCurve::get_mute(c)) + " "; });
    for (const ptree &k : V2::ActuatorCurve::get_keys(c)) {
      s += "K" + std::to_string(V2::Key::get_frame(k)) + " ";
      attempt([&] { s += bits(V2::Key::get_value<double>(k)); });
      for (Q::Side side : {Q::Side::left, Q::Side::right})
        if (auto t = V2::Key::get_tangent_optional(k, side)) {
          s += side == Q::Side::left ? "l" : "r";
          attempt([&] { s += bits(V2::Tangent::get_abscissa<double>(*t)); });
          attempt([&] { s += bits(V2::Tangent::get_ordinate<double>(*t)); });
        }
    }
  }
  for (const ptree &l : V2::Animation::get_labels(a))
    for (const ptree &x : V2::Labels::get_labels(l)) s += "T" + std::to_string(V2::Label::get_frame(x)) + V2::Label::get_value(x) + " ";
  Outcome o = attempt([&] { V2::Animation::check_all(a); });
  return s + (o == OK ? "valid" : "invalid");
}
struct Log : rb::Interface<double> {
  rb::Config cfg;
  std::string s;
  const rb::Config &config() const override { return cfg; }
  void addLink(rb::LinkData<double> l) override {
    s += "L" + l.parent_body + ">" + l.new_body + ">" + l.new_joint + " " + bits(l.body_mass.mass);
    for (int i = 0; i < 3; ++i) {
      s += bits(l.pose_parent_new.translation()(i)) + bits(l.body_mass.center_of_mass[i]);
      for (int j = 0; j < 3; ++j) s += bits(l.pose_parent_new.linear()(i, j)) + bits(l.body_mass.rotational_inertia(i, j));
    }
  }
  void addStaticFrame(rb::StaticFrameData<double> f) override {
    s += "F" + f.parent_frame + ">" + f.new_static_frame + " ";
    for (int i = 0; i < 3; ++i) s += bits(f.pose_parent_new.translation()(i));
  }
};
struct Version {
  std::string text, tree, numbers;
};

struct World {
  Ctx &c;
  const Plan &p;
  const int pretty;
  const int flags;
  Disk disk;
  ptree doc[2];
  std::unique_ptr<lib::RobotTree> tree;
  std::vector<Version> saved[2];  // every document whose save was started
  long durable[2] = {-1, -1};     // index of the last version known to be on the platter
  bool pending[2] = {false, false};  // a later save was started
  std::string start;
  World(Ctx &cc, const Plan &pp)
      : c(cc), p(pp), pretty((int)pp.knob("pretty")), flags(pretty ? pt::xml_parser::trim_whitespace : 0) {}
  void write(std::ostream &o, const ptree &d) {
    if (pretty == 0) pt::write_xml(o, d);
    else pt::write_xml(o, d, pt::xml_writer_settings<std::string>(pretty == 1 ? ' ' : '\t', pretty == 1 ? 2 : 1));
  }
  std::string text(const ptree &d) {
    std::ostringstream o;
    write(o, d);
    return o.str();
  }
  void fresh(int w) {
    if (w == 0) {
      tree.reset();
      doc[0] = ptree();
      std::istringstream in(start);
      pt::read_xml(in, doc[0], flags);
      tree.reset(new lib::RobotTree(*robot_of(doc[0])));
    } else {
      doc[1] = ptree();
      V2::require_animation(doc[1]);
    }
  }
  std::string numbers(int w, const ptree &d) { return w ? anim_numbers(d) : urdf_numbers(*robot_of(d)); }
  Version snapshot(int w) { return Version{text(doc[w]), dumped(doc[w]), numbers(w, doc[w])}; }
  // loads a text as a program would; t gets the tree, idx the index
  Outcome load(int w, std::istream &in, ptree &t, std::unique_ptr<lib::RobotTree> &idx, std::string *err) {
    return attempt([&] {
      pt::read_xml(in, t, flags);
      if (w == 0) idx.reset(new lib::RobotTree(t.get_child("robot")));
      else V2::get_animation(t);
    }, err);
  }
};

void exec(const Plan &p, Ctx &c) {
  World w(c, p);
  w.start = doc_text(p.ops, (int)p.knob("ws"));
  {
    ptree t;
    if (!parse(w.start, t) || !robot_of(t)) return;
    URobot m = read_robot(*robot_of(t), false);
    if (!invalid(m).empty()) return;
    for (auto &j : m.joints)
      if (j.type == "bogus" || j.type.empty()) return;
  }
  w.fresh(0);
  w.fresh(1);
  int crashes = 0, reloads = 0, torn_reads = 0;
  std::string err;
  auto crash = [&](u64 seed) {
    bool zeros = false;
    size_t lost = w.disk.crash(seed, zeros);
    ++crashes;
    c.fired("crash");
    if (lost) c.fired("torn-or-lost-write");
    if (zeros) c.fired("zero-filled-hole");
    // the process dies too: documents in memory are gone
    w.fresh(0);
    w.fresh(1);
  };
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &o = p.ops[i];
    c.op_index = (int)i;
    if (is_doc_op(o)) continue;
    c.trace(o.code);
    if (o.code >= E_RM_ROOT) {
      URobot m = read_robot(*robot_of(w.doc[0]), false), after = m;
      const std::string name = target(o, m);
      std::vector<std::string> names;
      if (model_edit(after, o, name, names) == OK && !leaves_dangling_mimic(m, after)) run_edit(*w.tree, o, name);
      continue;
    }
    switch (o.code) {
      case PUT_POSE: {
        URobot m = read_robot(*robot_of(w.doc[0]), false);
        if (m.joints.empty()) break;
        ptree &j = w.tree->joint(m.joints[o.idx(0, m.joints.size())].name);
        lib::Array3d x{{o.num(1), o.num(2), o.num(3)}}, y{{o.num(4), o.num(5), o.num(6)}};
        lib::Pose pose(x, y);
        auto e = pose.to_ptree();
        if (!e) {
          c.check(lib::is_identity(pose), "pose", "a pose has no element");
          break;
        }
        j.erase("origin");
        j.put_child("origin", *e);
        lib::Pose back = lib::Joint(j).origin();
        for (int k = 0; k < 3; ++k)
          c.check(back.xyz()[k] == x[k] && back.rpy()[k] == y[k], "pose",
                  cat("a pose written in the document reads ", bits(back.xyz()[k]), bits(back.rpy()[k]), " instead of ", bits(x[k]), bits(y[k])));
        break;
      }
      case ANIM: {
        ptree &a = V2::require_animation(w.doc[1]);
        static const char *const names[] = {"HeadYaw", "LHand & <x> \"q\"", "R\xc3\xa9'", ""};
        ptree &cv = V2::Animation::require_actuatorcurve(a, names[o.idx(1, 4)]);
        const int frame = (int)o.idx(2, 4000);
        const Q::Side side = o.i(3) ? Q::Side::right : Q::Side::left;
        const double v = o.num(4), u = o.num(5);
        switch (o.idx(0, 7)) {
          case 0:
            V2::ActuatorCurve::put_fps(cv, 1 + frame);
            V2::ActuatorCurve::put_unit(cv, (Q::Unit)(o.i(6) % 4));
            V2::ActuatorCurve::put_mute(cv, o.i(6) & 1);
            break;
          case 1: {
            static const char *const labels[] = {"walk", "a&b <c>", "\xe4\xbd\xa0", "x > y \"z\"", "'", "  spaced\n out\t"};
            auto ls = V2::Animation::get_labels(a);
            if (ls.begin() == ls.end()) V2::Labels::put_fps(V2::Animation::add_labels(a), 25);
            V2::Labels::add_label(const_cast<ptree &>(*first(a, "Labels")), frame, labels[o.idx(6, w.pretty ? 5 : 6)]);
            break;
          }
          case 2: {
            ptree &k = V2::ActuatorCurve::require_key(cv, frame);
            V2::Key::put_tangent<double>(k, side, v, u);
            const ptree &t = V2::Key::get_tangent(k, side);
            c.check(V2::Tangent::get_abscissa<double>(t) == v && V2::Tangent::get_ordinate<double>(t) == u, "number",
                    cat("a tangent reads ", bits(V2::Tangent::get_abscissa<double>(t)), bits(V2::Tangent::get_ordinate<double>(t)), "instead of ", bits(v), bits(u)));
            break;
          }
          case 3: {
            ptree &k = V2::ActuatorCurve::require_key(cv, frame);
            V2::Key::put_value<float>(k, (float)v);
            if (std::fabs((float)v) <= 3e38 && ((float)v == 0 || std::fabs((float)v) > 1e-37))
              c.check(V2::Key::get_value<float>(k) == (float)v, "number", cat("a float key reads ", bits(V2::Key::get_value<float>(k)), "instead of ", bits((float)v)));
            else V2::Key::put_value<float>(k, 1.5f);
            break;
          }
          default: {
            ptree &k = V2::ActuatorCurve::require_key(cv, frame);
            V2::Key::put_value<double>(k, v);
            c.check(V2::Key::get_value<double>(k) == v, "number", cat("a key reads ", bits(V2::Key::get_value<double>(k)), "instead of ", bits(v)));
          }
        }
        break;
      }
      case SAVE: {
        const int d = (int)o.idx(0, 2), proto = (int)o.idx(1, 4);
        Version v = w.snapshot(d);
        const std::string tmp = std::string(fname[d]) + ".tmp", final = fname[d];
        const bool in_place = proto < 2, sync = proto == 1 || proto == 2;
        w.disk.capacity = o.fault("disk-full") < 0 ? -1 : (long)v.text.size() * (o.fault("disk-full") % 3000) / 2900;
        File f = w.disk.create(in_place ? final : tmp);
        w.pending[d] = true;
        w.saved[d].push_back(v);
        DiskOut dev(w.disk, f, o.idx(2, 10000), o.fault("crash-in-save"));
        std::ostream os(&dev);
        Outcome r = attempt([&] { w.write(os, w.doc[d]); }, &err);
        os.flush();
        w.disk.capacity = -1;
        if (dev.crashed) {
          c.fired("crash-in-save");
          c.trace(1);
          crash((u64)o.i(3) + 1);
          break;
        }
        if (dev.failed) c.fired("disk-full");
        if (r != OK || !os) {
          c.check(dev.failed, "save", "saving failed on a healthy disk: " + err);
          if (!in_place) w.disk.names.erase(tmp);
          break;
        }
        c.check(f->cached == v.text, "save", "the file is not the document written in memory");
        if (sync) w.disk.fsync(f);
        if (!in_place) {
          w.disk.rename(tmp, final);
          if (sync) w.disk.sync_dir();
        }
        if (sync) {
          w.durable[d] = (long)w.saved[d].size() - 1;
          w.pending[d] = false;
        }
        break;
      }
      case CRASH:
        crash((u64)o.i(0));
        break;
      case RELOAD: {
        const int d = (int)o.idx(0, 2);
        if (!w.disk.names.count(fname[d])) {
          c.check(w.durable[d] < 0, "harness", "a durable file vanished");
          break;
        }
        const std::string bytes = w.disk.names[fname[d]]->cached;
        long good = o.fault("read-error");
        const int kind = good >= 0 ? 0 : 1;
        if (good < 0) good = o.fault("read-exception");
        if (good >= 0) good = (long)bytes.size() * (good % 4000) / 4000;
        // one gulp
        ptree whole;
        std::unique_ptr<lib::RobotTree> iw;
        std::string e0, e1;
        std::istringstream all(bytes);
        Outcome r0 = w.load(d, all, whole, iw, &e0);
        // chunked, possibly failing
        ptree t;
        std::unique_ptr<lib::RobotTree> ix;
        ChunkIn src(bytes, (u64)o.i(1), o.idx(2, 5000), good, kind);
        std::istream in(&src);
        Outcome r1 = w.load(d, in, t, ix, &e1);
        if (src.fired) c.fired(kind ? "read-exception" : "read-error");
        else {
          c.check((r0 == OK) == (r1 == OK), "chunks", cat("read at once: ", r0 == OK ? "accepted" : e0, ", read in chunks: ", r1 == OK ? "accepted" : e1));
          if (r0 == OK) c.check(dumped(t) == dumped(whole), "chunks", "another document when read in chunks");
        }
        auto which = [&](const ptree &x) -> long {
          const std::string s = dumped(x);
          for (long k = (long)w.saved[d].size(); k-- > 0;)
            if (w.saved[d][(size_t)k].tree == s) return k;
          return -1;
        };
        bool complete = false;
        for (auto &v : w.saved[d]) complete = complete || v.text == bytes;
        if (r1 == OK) {
          long k = which(t);
          c.check(k >= 0, "reload", cat("a document that was never saved was accepted (", bytes.size(), " bytes survived)"));
          const Version &v = w.saved[d][(size_t)k];
          c.check(w.numbers(d, t) == v.numbers, "numbers", "values changed by saving and reloading: " + w.numbers(d, t) + " instead of " + v.numbers);
          c.check(w.text(t) == v.text, "idempotent", "saving the reloaded document gives another text");
          if (d == 0) {
            std::string e = answers(*ix, *robot_of(t), read_robot(*robot_of(t), false));
            c.check(e.empty(), "index", "after reloading: " + e);
          }
          ++reloads;
          c.probe("complete document reloaded");
        } else {
          c.probe("damaged document rejected");
          ++torn_reads;
        }
        if (r0 == OK) c.check(which(whole) >= 0, "reload", cat("a document that was never saved was accepted (", bytes.size(), " bytes survived)"));
        c.check(!complete || r0 == OK, "refused", "a complete document is refused: " + e0);
        if (w.durable[d] >= 0 && !w.pending[d])
          c.check(bytes == w.saved[d][(size_t)w.durable[d]].text && r0 == OK, "durable", "a synced document did not reload: " + e0);
        if (d == 0) {
          // the stream overload of the traverser against the document overload
          Log a, b;
          ptree copy = whole;
          Outcome q0 = r0 == OK ? attempt([&] { AL::buildRigidBodySystemFromUrdf(a, copy, false, true); }) : THROWN;
          ChunkIn src2(bytes, (u64)o.i(1) + 1, o.idx(2, 5000), good, kind);
          std::istream in2(&src2);
          Outcome q1 = attempt([&] { AL::buildRigidBodySystemFromUrdf(b, in2, false, true); });
          if (!src2.fired) {
            if (w.flags == 0 || r0 != OK || q0 == OK) {
              c.check((q0 == OK) == (q1 == OK) || r0 != OK, "stream-build", cat("built from the document: ", q0, ", from the stream: ", q1));
              if (q0 == OK && q1 == OK) c.check(a.s == b.s, "stream-build", "another system when built from a stream: " + b.s + " instead of " + a.s);
            }
            if (r0 != OK) c.check(q1 != OK || b.s.empty(), "stream-build", "a system was built from a damaged document");
          } else {
            c.check(q1 != OK || r0 == OK, "stream-build", "a damaged document was built");
            if (q1 == OK) c.check(q0 == OK && a.s == b.s, "stream-build", "a partial document was built");
          }
        }
        if (r1 == OK) {  // go on with what was reloaded
          if (d == 0) {
            w.tree.reset();
            w.doc[0].swap(t);
            w.tree.reset(new lib::RobotTree(*robot_of(w.doc[0])));
          } else
            w.doc[1].swap(t);
        }
        c.trace((int)r0);
        c.trace((int)r1);
        c.trace(bytes);
        c.state(mix((u64)(d * 64 + (r0 == OK) * 2 + complete), mix((u64)(bytes.size() * 8 / ((w.saved[d].empty() ? 0 : w.saved[d].back().text.size()) + 1)), (u64)w.saved[d].size() * 8 + (u64)crashes)));
        break;
      }
    }
  }
  if (reloads && (p.cfg == 0 || crashes)) c.nontrivial();
}
}  // namespace

Scenario sim::make_scenario() {
  Scenario s;
  s.id = "C13";
  s.rule = "a URDF and an animation edited, saved under four protocols, crashed and reloaded, 4-26 operations; non-trivial: a document was reloaded, after a crash when crashes are on";
  s.real = {"urdf.cpp loading, editing and number conversion", "qianim", "buildRigidBodySystemFromUrdf(istream)", "boost read_xml/write_xml"};
  s.stub = {"disk (write-back cache, torn, lost and zero-filled writes, capacity)", "reader delivering chunks", "power supply"};
  s.configs = {"healthy storage", "crashes and storage faults"};
  s.fault_kinds = {"crash", "crash-in-save", "torn-or-lost-write", "zero-filled-hole", "disk-full", "read-error", "read-exception"};
  s.state_measure = "document x outcome x completeness x eighth of the size surviving x saves x crashes";
  s.assumptions = {"a save starts from an empty file, so stale bytes of an older version never mix with new ones"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 16;
  s.quick_runs = 30000;
  s.thorough_runs = 1000000;
  s.quick_secs = 35;
  return s;
}
