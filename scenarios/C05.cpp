// C05: documents written to output devices that fail in every way.
#include <almath/geometrics/shapes3d.h>
#include <almath/scenegraph/colladascenebuilder.h>
#include <almath/scenegraph/mesh.h>
#include <almath/scenegraph/meshfactory.h>
#include <almath/scenegraph/qianim.h>
#include <almath/types/altransform.h>
#include <memory>
#include "sim/core.h"
#include "sim/device.h"
#include "sim/urdfedits.h"
using namespace sim;
using namespace um;
using AL::ColladaSceneBuilder;
using AL::Mesh;
namespace V2 = AL::qianim::V2;

namespace {
enum { SCENE_ADD = 10, ANIM_ADD, OPEN, WRITE, REPAIR, SCENE_COPY };
enum { W_SCENE, W_URDF, W_ANIM, W_DOT, N_WRITERS };
const char *const wname[] = {"operator<<(ColladaSceneBuilder)", "write_xml(urdf)", "write_xml(animation)", "UrdfDotPrinterVisitor"};
const char *const fkinds[] = {"disk-full", "sink-exception", "one-refused-write", "one-short-write"};

Plan gen(Rng &r, int cfg) {
  Plan p;
  DocOpts d;
  d.max_links = 6;
  p.ops = gen_doc(r, d);
  p.set("ws", r.range(0, 3));
  int n = r.range(0, 3);
  for (int i = 0; i < n; ++i) p.ops.push_back(Op(SCENE_ADD, {(double)r.below(100000)}));
  n = r.range(0, 4);
  for (int i = 0; i < n; ++i) p.ops.push_back(Op(ANIM_ADD, {(double)r.below(100000)}));
  n = r.range(3, 14);
  const double pf = cfg ? r.uni(0.3, 1) : 0, pe = r.u();
  auto open = [&] {
    // fault kind, where (fraction of the next text) or absolute, buffer size, failing flush, exception mask
    const bool f = r.chance(pf);
    Op o(OPEN, {r.chance(0.3) ? -(double)r.below(40) : r.u() * 1.2, r.chance(0.4) ? 0 : std::floor(std::pow(2, r.uni(0, 13))),
                r.chance(pe) ? (double)r.range(1, 3) : 0});
    if (f) {
      int k = r.range(0, 4);
      o.f.push_back(Fault{k == 4 ? "flush" : fkinds[k], 0});
    }
    p.ops.push_back(o);
  };
  open();
  for (int i = 0; i < n; ++i) {
    double k = r.u();
    if (k < 0.5) {
      Op o(WRITE, {(double)r.below(N_WRITERS), (double)r.below(3), (double)r.chance(0.7)});
      if (cfg == 1 && r.chance(0.12)) o.f.push_back(Fault{"alloc", (long)std::pow(2, r.uni(0, 9)) - 1});
      p.ops.push_back(o);
    } else if (k < 0.68) open();
    else if (k < 0.78) p.ops.push_back(Op(REPAIR));
    else if (k < 0.86) p.ops.push_back(gen_edit(r, r.range(E_RM_LEAF, E_PRUNE)));
    else if (k < 0.92) p.ops.push_back(Op(ANIM_ADD, {(double)r.below(100000)}));
    else if (k < 0.97) p.ops.push_back(Op(SCENE_ADD, {(double)r.below(100000)}));
    else p.ops.push_back(Op(SCENE_COPY));
  }
  return p;
}

void scene_add(ColladaSceneBuilder &b, u64 seed) {
  Rng r(seed * 31 + 7);
  if (r.chance(0.3)) {
    AL::SceneBuilder &base = b;
    base.add(AL::Math::Sphere((float)r.uni(0.1, 2)), AL::Math::Transform());
    return;
  }
  Mesh m;
  int np = r.range(3, 9);
  for (int i = 0; i < np; ++i) m.position((float)r.uni(-2, 2), (float)r.uni(-2, 2), (float)r.uni(-2, 2));
  m.normal(0.f, 0.f, 1.f);
  for (int i = r.range(0, 3); i > 0; --i) {
    m.begin(Mesh::POLYGON);
    for (int j = 0; j < 4; ++j) m.vertex((size_t)r.below((u64)np));
    m.end();
  }
  AL::SceneBuilder &base = b;
  base.add(m, Eigen::Affine3f(Eigen::Translation3f((float)r.u(), 0, 1)));
}
void anim_add(ptree &root, u64 seed) {
  Rng r(seed * 17 + 3);
  static const char *const names[] = {"HeadYaw", "LHand & <x>", "R\xc3\xa9", ""};
  ptree &a = V2::require_animation(root);
  ptree &cv = V2::Animation::require_actuatorcurve(a, names[r.below(4)]);
  V2::ActuatorCurve::put_unit(cv, AL::qianim::Unit::radian);
  V2::ActuatorCurve::put_fps(cv, r.range(1, 50));
  for (int i = r.range(0, 4); i > 0; --i) {
    ptree &k = V2::ActuatorCurve::require_key(cv, r.range(0, 30));
    V2::Key::put_value(k, r.uni(-3, 3));
    if (r.chance(0.5)) V2::Key::put_tangent(k, AL::qianim::Side::right, r.uni(0, 1), r.uni(-1, 1));
  }
  if (r.chance(0.3)) V2::Labels::add_label(V2::Animation::add_labels(a), r.range(0, 20), "step <1>");
}
bool prefix(const std::string &a, const std::string &of) { return a.size() <= of.size() && of.compare(0, a.size(), a) == 0; }

void exec(const Plan &p, Ctx &c) {
  ptree doc, anim;
  ColladaSceneBuilder scene;
  std::string err;
  if (!parse(doc_text(p.ops, (int)p.knob("ws")), doc, &err)) return;
  ptree *robot = robot_of(doc);
  if (!robot || !invalid(read_robot(*robot, false)).empty()) return;
  std::unique_ptr<lib::RobotTree> tree(new lib::RobotTree(*robot));
  std::unique_ptr<OutDevice> dev;
  std::unique_ptr<std::ostream> os;
  std::string want;      // what the stream must have received so far
  bool broken = false;   // a failure was reported since the stream was opened or repaired
  int writes = 0, failures = 0;
  auto write = [&](std::ostream &o, int who, int style) -> std::ostream * {
    const boost::property_tree::xml_writer_settings<std::string> set(style == 1 ? ' ' : '\t', style ? 3 - style : 0);
    switch (who) {
      case W_SCENE: return &(o << scene);
      case W_URDF: boost::property_tree::write_xml(o, doc, set); break;
      case W_ANIM: boost::property_tree::write_xml(o, anim, set); break;
      default: {
        lib::UrdfDotPrinterVisitor v(o);
        const lib::RobotTree &t = *tree;
        t.traverse_joints(v);
      }
    }
    return &o;
  };
  auto healthy = [&](int who, int style) {
    std::ostringstream o;
    std::string e;
    Outcome r = attempt([&] { write(o, who, style); }, &e);
    if (r != OK || !o) c.fail("healthy-write", cat(wname[who], " to a healthy stream failed: ", e));
    return o.str();
  };
  auto seen = [&] { return dev->stored(); };
  auto taken = [&] {
    // bytes still in the user-space buffer count as accepted
    return dev->stored().size() + dev->pending();
  };
  auto memory = [&] { return dumped(doc) + dumped(anim) + healthy(W_SCENE, 0); };
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &o = p.ops[i];
    c.op_index = (int)i;
    if (is_doc_op(o)) continue;
    c.trace(o.code);
    if (o.code >= E_RM_ROOT) {
      URobot m = read_robot(*robot, false);
      const std::string name = target(o, m);
      // edits are C07's business: here they only make new documents
      std::vector<std::string> names;
      URobot after = m;
      if (model_edit(after, o, name, names) == OK && !leaves_dangling_mimic(m, after)) run_edit(*tree, o, name);
      continue;
    }
    switch (o.code) {
      case SCENE_ADD: scene_add(scene, (u64)o.i(0)); break;
      case SCENE_COPY: scene = ColladaSceneBuilder(scene); break;
      case ANIM_ADD: anim_add(anim, (u64)o.i(0)); break;
      case REPAIR:
        if (!os) break;
        dev->repair();
        os->clear();
        if (broken) c.probe("stream repaired after a failure");
        broken = false;
        os->flush();
        want = dev->stored();
        break;
      case OPEN: {
        double where = o.num(0);
        int kind = -1;
        for (int k = 0; k < 4; ++k)
          if (o.fault(fkinds[k]) >= 0) kind = k;
        // room relative to the next text written
        size_t len = 0;
        for (size_t j = i + 1; j < p.ops.size(); ++j)
          if (p.ops[j].code == WRITE) {
            len = healthy((int)p.ops[j].idx(0, N_WRITERS), (int)p.ops[j].idx(1, 3)).size();
            break;
          }
        long room = kind < 0 ? -1 : where <= 0 ? (long)-where : (long)(where * (double)len);
        os.reset();
        dev.reset(new OutDevice(room, kind, o.idx(1, 10000), o.fault("flush") >= 0));
        os.reset(new std::ostream(dev.get()));
        const long ex = o.i(2);
        os->exceptions(ex == 1 ? std::ios::badbit : ex == 2 ? std::ios::failbit : ex == 3 ? std::ios::badbit | std::ios::failbit : std::ios::goodbit);
        want.clear();
        broken = false;
        break;
      }
      case WRITE: {
        if (!os) break;
        const int who = (int)o.idx(0, N_WRITERS), style = (int)o.idx(1, 3);
        const std::string text = healthy(who, style), mem = memory();
        if (who == W_DOT) {
          URobot m = read_robot(*robot, false);
          std::vector<std::string> log;
          std::string dot;
          expect_walk(m, m.root(), log, dot);
          c.check(text == dot, "dot", "dot graph: " + text + " expected " + dot);
        }
        const bool was_failed = !os->good(), was_fired = dev->fired();
        std::ostream *back = os.get();
        AllocFault a(c, o);
        Outcome r = attempt([&] { back = write(*os, who, style); }, &err);
        const bool nomem = a.end();
        const std::ios::iostate mask = os->exceptions();
        if (r == OK) {
          c.check(back == os.get(), "stream", cat(wname[who], " returned another stream"));
          c.check(was_failed || !(os->rdstate() & mask), "swallowed", cat(wname[who], " swallowed the exception of the stream"));
        }
        bool visible = r != OK || !os->good();
        if (was_failed) c.check(!os->good(), "cleared", cat(wname[who], " cleared the error state of the stream"));
        if (!visible && o.i(2)) {
          Outcome fl = attempt([&] { os->flush(); });
          visible = fl != OK || !os->good();
        }
        const bool fired = dev->fired();
        if (fired && !was_fired) {
          for (int k = 0; k < 4; ++k)
            for (size_t j = i; j-- > 0;)
              if (p.ops[j].code == OPEN) {
                if (p.ops[j].fault(fkinds[k]) >= 0 && !dev->sync_fired()) c.fired(fkinds[k]);
                break;
              }
          if (dev->sync_fired()) c.fired("failing-flush");
        }
        const std::string full = want + text;
        const std::string got = seen();
        c.check(prefix(got, full), "prefix", cat(wname[who], ": the bytes delivered are not a prefix of the document: ", got.size(), " bytes of ", full.size()));
        if (!visible) {
          c.check(taken() == full.size() && (!o.i(2) || got == full), "silent-loss",
                  cat(wname[who], " reported success but ", taken(), " bytes of ", full.size(), " were taken", dev->fired() ? " by the failing device" : ""));
          want = full;
        } else {
          if (!was_failed && !nomem && !fired) c.fail("false-failure", cat(wname[who], " failed on a healthy stream: ", err));
          broken = true;
          ++failures;
          // only flushing could deliver more; what was accepted stays a prefix
          if (taken() > full.size()) c.fail("prefix", cat(wname[who], ": more bytes accepted than the document holds"));
          want = full.substr(0, taken());
          c.probe(r != OK ? "failure seen as an exception" : "failure seen in the stream state");
        }
        ++writes;
        c.check(memory() == mem, "memory", cat(wname[who], " changed the document in memory"));
        c.check(healthy(who, style) == text, "rewrite", cat(wname[who], ": writing again gives another text"));
        if (who == W_DOT && r != OK) {
          std::string e = answers(*tree, *robot, read_robot(*robot, false));
          if (!e.empty()) c.fail("tree", "after a failed dot graph: " + e);
        }
        c.trace((int)r);
        c.trace(got);
        c.state(mix(mix((u64)who * 8 + (u64)r, (u64)os->rdstate() * 64 + (u64)(fired * 2 + nomem)), (u64)(got.size() * 16 / (full.size() + 1))));
        break;
      }
    }
  }
  if (writes > 1 && (failures || p.cfg == 0)) c.nontrivial();
}
}  // namespace

Scenario sim::make_scenario() {
  Scenario s;
  s.id = "C05";
  s.rule = "a random URDF document, animation and scene, then up to 14 writes, edits, device openings and repairs; non-trivial: two writes, one of them failed when faults are on";
  s.real = {"ColladaSceneBuilder operator<<", "UrdfDotPrinterVisitor and traverse_joints", "urdf/qianim editing", "boost write_xml", "std::ostream"};
  s.stub = {"output device (buffered stream buffer with scripted failures)", "global allocator (fails on request)"};
  s.configs = {"healthy devices", "failing devices and memory"};
  s.fault_kinds = {"disk-full", "sink-exception", "one-refused-write", "one-short-write", "failing-flush", "alloc-failure"};
  s.state_measure = "writer x outcome x stream state x fault x sixteenth of the text delivered";
  s.assumptions = {"the caller flushes the stream before trusting its state, as with any buffered file"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 16;
  s.quick_runs = 30000;
  s.thorough_runs = 1000000;
  s.quick_secs = 35;
  return s;
}
