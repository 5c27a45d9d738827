// C11: chains of rigid body builders under any history of calls.
#include <almath/scenegraph/rigidbodysystembuilder.h>
#include <memory>
#include <set>
#include "sim/core.h"
using namespace sim;
namespace rb = AL::RigidBodySystemBuilder;

namespace {
enum { LAYER = 1, LINK = 2, FRAME = 3, CONFIG = 4 };
enum Kind { CHECK, DECO, ERASE, CAST };
// LAYER n: kind (order = from the innermost)
// LINK / FRAME n: entry layer, parent, name, joint, overload (0 data, 1 add with name, 2 add with default name), type, seed;
//   faults: alloc, inner (the innermost builder throws)
const char *kPool[] = {"", "a", "b", "c", "d", "a_joint", "b_joint", "galileo", "e", "f", "g", "h with space", "\xc3\xa9", "a\n"};
const char *kFormats[] = {"%1%_joint", "%1%", "J%1%", "x"};

Plan gen(Rng &r, int cfg) {
  Plan p;
  int nl = r.range(1, 5);
  int style = r.range(0, 2);
  for (int i = 0; i < nl; ++i) p.ops.push_back(Op(LAYER, {(double)(style == 0 ? 0 : style == 1 ? r.range(0, 3) : (r.chance(0.6) ? 0 : r.range(1, 3)))}));
  p.set("galileo", r.chance(0.2));
  int n = r.range(2, 25);
  int pool = r.range(4, 14);
  for (int i = 0; i < n; ++i) {
    if (r.chance(0.06)) {
      p.ops.push_back(Op(CONFIG, {(double)r.below(4), (double)r.chance(0.3), (double)r.chance(0.1)}));
      continue;
    }
    Op o(r.chance(0.65) ? LINK : FRAME);
    o.n = {r.chance(0.85) ? 0. : (double)r.below(6), (double)(r.chance(0.4) ? 0 : r.below((u64)pool)), (double)r.below((u64)pool), (double)r.below((u64)pool),
           (double)(r.chance(0.5) ? 0 : r.range(1, 2)), (double)r.below(4), (double)r.below(100000)};
    if (r.chance(0.3)) o.n[3] = o.n[2];  // joint named as the body
    if (cfg == 1) {
      double k = r.u();
      if (k < 0.2) o.f.push_back(Fault{"inner", 0});
      else if (k < 0.5 && o.n[4] < 2) o.f.push_back(Fault{"alloc", (long)r.below(r.chance(0.5) ? 8 : 40)});
    }
    p.ops.push_back(o);
    if (cfg == 1 && !o.f.empty() && r.chance(0.5)) {  // the caller retries
      Op again = o;
      again.f.clear();
      p.ops.push_back(again);
    }
  }
  return p;
}

struct Seen {
  bool link;
  std::string parent, name, joint;
  float pose[12];
  int type;
  float mass, com[3], in[9];
};
bool same(const Seen &a, const Seen &b) {
  if (a.link != b.link || a.parent != b.parent || a.name != b.name || a.joint != b.joint) return false;
  if (std::memcmp(a.pose, b.pose, sizeof a.pose)) return false;
  if (!a.link) return true;
  return a.type == b.type && same_bits(a.mass, b.mass) && !std::memcmp(a.com, b.com, sizeof a.com) && !std::memcmp(a.in, b.in, sizeof a.in);
}
struct Inner {
  rb::Config cfg;
  std::vector<Seen> seen;
  bool boom = false, threw = false;
  void put(const Seen &s) {
    if (boom) {
      threw = true;
      inject((long)seen.size());
    }
    seen.push_back(s);
  }
};
template <class T>
struct Rec : rb::Interface<T> {
  Inner &in;
  Rec(Inner &i) : in(i) {}
  const rb::Config &config() const override { return in.cfg; }
  template <class P>
  static void pose(const P &p, float *o) {
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 4; ++j) *o++ = (float)p.matrix()(i, j);
  }
  void addLink(rb::LinkData<T> l) override {
    HarnessScope h;
    Seen s{};
    s.link = true;
    s.parent = l.parent_body, s.name = l.new_body, s.joint = l.new_joint;
    pose(l.pose_parent_new, s.pose);
    s.type = (int)l.joint_type;
    s.mass = (float)l.body_mass.mass;
    for (int i = 0; i < 3; ++i) s.com[i] = (float)l.body_mass.center_of_mass[i];
    for (int i = 0; i < 9; ++i) s.in[i] = (float)l.body_mass.rotational_inertia(i / 3, i % 3);
    in.put(s);
  }
  void addStaticFrame(rb::StaticFrameData<T> f) override {
    HarnessScope h;
    Seen s{};
    s.link = false;
    s.parent = f.parent_frame, s.name = f.new_static_frame, s.joint = f.new_static_transform;
    pose(f.pose_parent_new, s.pose);
    in.put(s);
  }
};
// A level of the chain: exactly one of the two is set.
struct Level {
  std::shared_ptr<rb::Interface<double>> d;
  std::shared_ptr<rb::Interface<float>> f;
  Kind kind = DECO;
  std::set<std::string> bodies, frames, transforms;  // model of a checker
};
template <class T>
std::shared_ptr<rb::Interface<T>> layer(Kind k, rb::Interface<T> &below) {
  switch (k) {
    case CHECK: return std::make_shared<rb::NamesChecker<T>>(below);
    case ERASE: return std::make_shared<rb::InertiaEraser<T>>(below);
    default: return std::make_shared<rb::Decorator<T>>(below);
  }
}
// masses and such: any number goes through the layers unchanged
float amount(Rng &g) {
  const double k = g.u();
  if (k < 0.12) return 0;
  if (k < 0.17) return -0.0f;
  if (k < 0.25) return (float)(g.uni(-1, 1) * std::pow(10, g.range(-30, 30)));
  return (float)g.uni(-0.5, 3);
}
template <class T>
void drive(rb::Interface<T> &b, const Op &o, const std::string &par, const std::string &name, const std::string &joint) {
  Rng g((u64)o.i(6) + 1);
  typename rb::LinkData<T>::Pose pose;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 4; ++j) pose.matrix()(i, j) = (T)(float)g.uni(-2, 2);
  rb::LinkData<T> l;
  l.body_mass.mass = (T)amount(g);
  for (int i = 0; i < 3; ++i) l.body_mass.center_of_mass[i] = (T)amount(g);
  for (int i = 0; i < 9; ++i) l.body_mass.rotational_inertia(i / 3, i % 3) = (T)amount(g);
  const rb::JointType ty = (rb::JointType)o.idx(5, 4);
  const int how = (int)o.idx(4, 3);
  if (o.code == LINK) {
    if (how == 0) {
      l.parent_body = par, l.new_body = name, l.new_joint = joint;
      l.pose_parent_new = pose;
      l.joint_type = ty;
      b.addLink(l);
    } else if (how == 1) {
      b.add(par, name, pose, ty, l.body_mass, joint);
    } else {
      b.add(par, name, pose, ty, l.body_mass);
    }
  } else {
    if (how == 0) {
      rb::StaticFrameData<T> s;
      s.parent_frame = par, s.new_static_frame = name, s.new_static_transform = joint;
      s.pose_parent_new = pose;
      b.addStaticFrame(s);
    } else if (how == 1) {
      b.add(par, name, pose, joint);
    } else {
      b.add(par, name, pose);
    }
  }
}
Seen expected(const Op &o, const std::string &par, const std::string &name, const std::string &joint, bool erase) {
  Seen s{};
  Rng g((u64)o.i(6) + 1);
  s.link = o.code == LINK;
  s.parent = par, s.name = name, s.joint = joint;
  for (float &x : s.pose) x = (float)g.uni(-2, 2);
  if (!s.link) return s;
  s.type = (int)o.idx(5, 4);
  s.mass = amount(g);
  for (float &x : s.com) x = amount(g);
  for (float &x : s.in) x = amount(g);
  if (erase)
    for (float &x : s.in) x = 0;
  return s;
}

void exec(const Plan &p, Ctx &c) {
  Inner in;
  if (p.knob("galileo")) in.cfg.galilean_frame = "galileo";
  const std::string gal = in.cfg.galilean_frame;
  std::vector<Level> chain;
  Level base;
  base.d = std::make_shared<Rec<double>>(in);
  chain.push_back(base);
  for (auto &o : p.ops) {
    if (o.code != LAYER) continue;
    Level l, &b = chain.back();
    l.kind = (Kind)o.idx(0, 4);
    if (l.kind == CAST) {
      if (b.d) l.f = std::make_shared<rb::Adapter<float, double>>(*b.d);
      else l.d = std::make_shared<rb::Adapter<double, float>>(*b.f);
    } else {
      if (b.d) l.d = layer<double>(l.kind, *b.d);
      else l.f = layer<float>(l.kind, *b.f);
    }
    l.bodies.insert(gal);
    chain.push_back(l);
  }
  std::string fmt = "%1%_joint";
  bool nostatic = false;
  std::vector<Seen> want;
  int accepted = 0, rejected = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &o = p.ops[i];
    c.op_index = (int)i;
    if (o.code == CONFIG) {
      in.cfg.joint_name_format = fmt = kFormats[o.idx(0, 4)];
      in.cfg.no_static_frame = nostatic = o.i(1);
      for (auto &l : chain) {
        const rb::Config &cf = l.d ? l.d->config() : l.f->config();
        if (&cf != &in.cfg) c.fail("config", "a layer does not give the configuration of the innermost builder");
      }
      continue;
    }
    if (o.code != LINK && o.code != FRAME) continue;
    size_t entry = chain.size() - 1 - std::min(chain.size() - 1, (size_t)o.idx(0, 1000));
    const std::string par = kPool[o.idx(1, 14)], name = kPool[o.idx(2, 14)];
    std::string joint = kPool[o.idx(3, 14)];
    if (o.idx(4, 3) == 2) joint = fmt == "%1%_joint" ? name + "_joint" : fmt == "%1%" ? name : fmt == "J%1%" ? "J" + name : std::string();
    const bool bad_format = o.idx(4, 3) == 2 && fmt == "x";  // format without argument: boost::format refuses
    const bool skip = o.code == FRAME && o.idx(4, 3) && nostatic;
    // model
    bool reject = bad_format && !(o.code == FRAME && false), erase = false;
    if (o.code == FRAME && o.idx(4, 3) == 2 && bad_format) reject = true;
    if (skip && !bad_format) reject = false;
    for (size_t k = entry; k > 0 && !reject && !skip; --k) {
      Level &l = chain[k];
      if (l.kind == ERASE) erase = true;
      if (l.kind != CHECK) continue;
      bool known = l.bodies.count(par) || (o.code == FRAME && l.frames.count(par));
      if (!known || l.bodies.count(name) || l.frames.count(name) || l.transforms.count(joint)) reject = true;
    }
    in.boom = o.fault("inner") >= 0;
    in.threw = false;
    const size_t before = in.seen.size();
    Outcome out;
    bool nomem;
    {
      AllocFault a(c, o);
      out = attempt([&] {
        if (chain[entry].d) drive<double>(*chain[entry].d, o, par, name, joint);
        else drive<float>(*chain[entry].f, o, par, name, joint);
      });
      nomem = a.end();
    }
    in.boom = false;
    c.trace((int)out);
    c.state(mix(mix((u64)want.size(), (u64)o.code), mix((u64)out, mix(hash_str(par), hash_str(name)))));
    std::string what = cat(o.code == LINK ? "link \"" : "frame \"", name, "\" on \"", par, "\" by \"", joint, "\" at layer ", entry);
    if (in.threw) c.fired("builder-throw");
    const bool reached = in.seen.size() != before;
    if (in.seen.size() > before + 1) c.fail("forwarded-twice", what + " reached the innermost builder more than once");
    if (reject || skip) {
      if (reached || in.threw) c.fail("forwarded", what + " should not reach the innermost builder");
      if (reject && out == OK) c.fail("accepted", what + " should be rejected");
      if (reject && !nomem && out != THROWN) c.fail("rejection", cat(what, ": outcome ", out));
      if (!reject && out != OK && !nomem) c.fail("rejected", what + " should be ignored silently");
      if (reject) c.rejected("names"), ++rejected;
      continue;
    }
    if (in.threw) {
      if (out != INJECTED) c.fail("exception-lost", cat(what, ": the inner failure came out as ", out));
      continue;  // nothing changed
    }
    if (nomem && out != OK) {
      // all or nothing: the innermost builder must not hold what the layers forgot
      if (reached) c.fail("half-added", what + " was added to the innermost builder but reported as failed for lack of memory");
      continue;
    }
    if (out != OK) c.fail("rejected", cat(what, " should be accepted: outcome ", out));
    if (!reached) c.fail("lost", what + " did not reach the innermost builder");
    Seen e = expected(o, par, name, joint, erase);
    if (!same(e, in.seen.back())) c.fail("arguments", what + " reached the innermost builder with other arguments: " + in.seen.back().parent + "/" + in.seen.back().name + "/" + in.seen.back().joint);
    want.push_back(e);
    for (size_t k = entry; k > 0; --k)
      if (chain[k].kind == CHECK) {
        (o.code == LINK ? chain[k].bodies : chain[k].frames).insert(name);
        chain[k].transforms.insert(joint);
      }
    ++accepted;
  }
  if (want.size() != in.seen.size()) c.fail("calls", "the innermost builder holds other calls");
  for (size_t i = 0; i < want.size(); ++i) {
    if (!same(want[i], in.seen[i])) c.fail("calls", "a call recorded earlier changed");
    c.trace(want[i].name);
  }
  if (accepted >= 2 && rejected >= 1) c.nontrivial();
}
}  // namespace

namespace sim {
Scenario make_scenario() {
  Scenario s;
  s.id = "C11";
  s.rule =
      "One case is a chain of up to five layers and up to 25 calls with colliding names, some entering the chain below "
      "the top, some failing inside; non-trivial when two calls were accepted and one rejected; distinct by hash of "
      "outcomes and accepted names.";
  s.real = {"RigidBodySystemBuilder Interface, Decorator, Adapter, NamesChecker, InertiaEraser, Config"};
  s.stub = {"innermost builder (recorder that can throw)", "memory allocator (failures injected)"};
  s.configs = {"no-fault", "faults"};
  s.fault_kinds = {"builder-throw", "alloc-failure"};
  s.state_measure = "number of accepted calls x call x outcome x parent x name";
  s.assumptions = {};
  s.gen = gen;
  s.exec = exec;
  s.batch = 64;
  s.quick_runs = 150000;
  s.thorough_runs = 10000000;
  s.quick_secs = 20;
  return s;
}
}  // namespace sim
