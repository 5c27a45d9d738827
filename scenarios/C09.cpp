// C09: fixing and squashing joints conserves mass, centre of mass, inertia.
#include <memory>
#include "sim/core.h"
#include "sim/urdfedits.h"
#include <almath/scenegraph/urdfeigen.h>
using namespace sim;
using namespace um;

namespace {
enum { RELOAD = 60, CHAIN = 61 };
Plan gen(Rng &r, int cfg) {
  Plan p;
  DocOpts o;
  o.max_links = r.chance(0.05) ? 20 : 7;
  o.p_mimic = 0.05;
  o.odd_names = false;
  o.p_visual = 0.1;
  o.p_inertial = r.uni(0.3, 1);
  o.p_zero_mass = r.chance(0.3) ? 0.4 : 0.03;
  o.types = {0, 1, 2, 3, 3, 3, 4, 5};
  p.ops = gen_doc(r, o);
  p.set("ws", r.range(0, 3));
  p.set("q", (double)r.below(1000000));
  static const int all[] = {E_FIX, E_FIX, E_FLOAT, E_FIX_CONT, E_SQUASH, E_SQUASH, E_SQUASH, E_SQUASH_ALL, E_MASSLESS};
  int n = r.range(1, 8);
  for (int i = 0; i < n; ++i) {
    Op e = gen_edit(r, r.pick(all));
    if (cfg == 1 && r.chance(0.25)) e.f.push_back(Fault{"alloc", (long)std::pow(2, r.uni(0, 9)) - 1});
    p.ops.push_back(e);
    if (cfg == 1 && r.chance(0.2)) p.ops.push_back(Op(RELOAD));
  }
  if (r.chance(0.3)) {  // bodies (mass, I[6], mask xyz rpy) merged pairwise in any order
    Op k(CHAIN, {(double)r.below(1000000), (double)r.range(2, 6), r.chance(0.3) ? 1. : 0.});
    for (int b = 0; b < (int)k.n[1]; ++b) {
      k.n.push_back(r.chance(0.2) ? 0 : r.uni(0, 5));
      for (int j = 0; j < 6; ++j) k.n.push_back(r.chance(0.2) ? 0 : r.uni(-1, 1) + (j == 0 || j == 3 || j == 5 ? 2 : 0));
      rnd_pose(r, 0.8, k.n);
    }
    p.ops.push_back(k);
  }
  return p;
}

void compare(Ctx &c, const MassSum &a, const MassSum &b, double len, const std::string &what) {
  double sm = std::max(a.absm, b.absm), sI = std::max(std::max(a.absI, b.absI), sm * len * len);
  if (!(std::fabs(a.m - b.m) <= 1e-9 * sm)) c.fail("mass", cat(what, ": mass ", a.m, " became ", b.m));
  for (int i = 0; i < 3; ++i)
    if (!(std::fabs(a.mc[i] - b.mc[i]) <= 1e-9 * sm * len)) c.fail("first-moment", cat(what, ": mass*com[", i, "] ", a.mc[i], " became ", b.mc[i]));
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      if (!(std::fabs(a.I.m[i][j] - b.I.m[i][j]) <= 1e-9 * sI)) c.fail("inertia", cat(what, ": inertia[", i, "][", j, "] ", a.I.m[i][j], " became ", b.I.m[i][j]));
}
double extent(const URobot &m, const std::map<std::string, TF> &w) {
  double e = 1e-3;
  for (auto &l : m.links)
    if (l.has_inertial) e = std::max(e, norm((w.at(l.name) * l.io.tf()).t));
  return e;
}

// squashInertial, applied to any pairs of bodies in any order, keeps the sums
template <typename S>
void chain(const Op &o, Ctx &c, double tol) {
  typedef Eigen::Transform<S, 3, Eigen::AffineCompact, Eigen::DontAlign> P;
  typedef Eigen::Matrix<S, 3, 3> Mat;
  struct Body { S m; P pose; Mat in; };
  std::vector<Body> bs;
  MassSum want, got;
  double len = 1e-3;
  auto sum = [&](MassSum &t, const Body &b) {
    M3 R, J;
    V3 x = v3(b.pose.translation()[0], b.pose.translation()[1], b.pose.translation()[2]);
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) R.m[i][j] = b.pose.linear()(i, j), J.m[i][j] = b.in(i, j);
    J = R * J * tr(R);
    t.m += b.m;
    t.absm += std::fabs(b.m);
    t.mc = t.mc + (double)b.m * x;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) {
        t.I.m[i][j] += J.m[i][j] + b.m * ((i == j ? dot(x, x) : 0) - x[i] * x[j]);
        t.absI += std::fabs(J.m[i][j]);
      }
    len = std::max(len, norm(x));
  };
  for (size_t b = 0; b < o.idx(1, 7); ++b) {
    size_t k = 3 + b * 14;
    Body x;
    x.m = (S)o.num(k);
    size_t q = k + 1;
    x.in << (S)o.num(q), (S)o.num(q + 1), (S)o.num(q + 2), (S)o.num(q + 1), (S)o.num(q + 3), (S)o.num(q + 4), (S)o.num(q + 2), (S)o.num(q + 4), (S)o.num(q + 5);
    TF t{rot_rpy(v3(o.num(k + 11), o.num(k + 12), o.num(k + 13))), v3(o.num(k + 8), o.num(k + 9), o.num(k + 10))};
    for (int i = 0; i < 3; ++i) {
      x.pose.translation()[i] = (S)t.t[i];
      for (int j = 0; j < 3; ++j) x.pose.linear()(i, j) = (S)t.R.m[i][j];
    }
    sum(want, x);
    bs.push_back(x);
  }
  Rng r((u64)o.num(0));
  while (bs.size() > 1) {
    size_t i = r.below(bs.size()), j = r.below(bs.size());
    if (i == j) continue;
    const Body a = bs[i], b = bs[j];
    Body n;
    AL::Math::squashInertial(a.m, a.pose, a.in, b.m, b.pose, b.in, n.m, n.pose, n.in);
    if (!(n.pose.linear().array() == a.pose.linear().array()).all()) c.fail("squash-frame", "squashInertial did not keep the basis of the first frame");
    if (!(bs[i].pose.translation().array() == a.pose.translation().array()).all()) c.fail("squash-frame", "squashInertial changed its argument");
    const double sI = n.in.cwiseAbs().sum() + 1e-30;
    if (!((n.in - n.in.transpose()).cwiseAbs().maxCoeff() <= tol * sI)) c.fail("squash-symmetry", "squashInertial returned an inertia which is not symmetric");
    bs[std::min(i, j)] = n;
    bs.erase(bs.begin() + (long)std::max(i, j));
  }
  if (bs.empty()) return;
  sum(got, bs[0]);
  double sm = want.absm, sI = std::max(want.absI, sm * len * len);
  if (!(std::fabs(want.m - got.m) <= tol * sm)) c.fail("squash-mass", cat("squashInertial: mass ", want.m, " became ", got.m));
  for (int i = 0; i < 3; ++i) {
    if (!(std::fabs(want.mc[i] - got.mc[i]) <= tol * sm * len)) c.fail("squash-com", cat("squashInertial: mass*com ", want.mc[i], " became ", got.mc[i]));
    for (int j = 0; j < 3; ++j)
      if (!(std::fabs(want.I.m[i][j] - got.I.m[i][j]) <= tol * sI)) c.fail("squash-inertia", cat("squashInertial: inertia ", want.I.m[i][j], " became ", got.I.m[i][j]));
  }
  c.trace((float)got.I.m[0][1]);
}

void exec(const Plan &p, Ctx &c) {
  const std::string text = doc_text(p.ops, (int)p.knob("ws"));
  ptree doc;
  if (!parse(text, doc)) c.fail("harness", "generated text does not parse");
  ptree *robot = robot_of(doc);
  URobot m = read_robot(*robot);
  if (!invalid(m).empty()) return;
  std::unique_ptr<lib::RobotTree> tree(new lib::RobotTree(*robot));
  const u64 qs = (u64)p.knob("q");
  int changed = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &o = p.ops[i];
    c.op_index = (int)i;
    if (o.code == RELOAD) {
      std::ostringstream os;
      boost::property_tree::write_xml(os, doc);
      ptree d2;
      if (!parse(os.str(), d2)) c.fail("document", "the saved document does not parse");
      tree.reset();
      doc.swap(d2);
      robot = robot_of(doc);
      tree.reset(new lib::RobotTree(*robot));
      c.fired("crash-restart");
      URobot again = read_robot(*robot);
      std::string er = same_structure(m, again);
      if (!er.empty()) c.fail("reload", "saving and reloading changed the document: " + er);
      m = again;
      continue;
    }
    if (o.code == CHAIN) {
      if (o.num(2)) chain<float>(o, c, 1e-4);
      else chain<double>(o, c, 1e-10);
      continue;
    }
    if (o.code < E_FIX || o.code > E_MASSLESS) continue;
    const std::string name = target(o, m), en = edit_name(o.code);
    URobot want = m;
    std::vector<std::string> names;
    Outcome exp = model_edit(want, o, name, names);
    const std::string before = dumped(*robot);
    ptree saved;
    if (o.fault("alloc") >= 0) saved = doc;
    EditResult e;
    bool f;
    {
      AllocFault a(c, o);
      e = run_edit(*tree, o, name);
      f = a.end();
    }
    c.trace((int)e.outcome);
    if (f && e.outcome != OK && exp == OK) {
      // interrupted: what is left is discarded, the caller goes back to its copy
      c.rejected("no memory");
      tree.reset();
      doc.swap(saved);
      robot = robot_of(doc);
      tree.reset(new lib::RobotTree(*robot));
      continue;
    }
    if (e.outcome != exp && !(f && e.outcome != OK)) c.fail("edit-outcome", cat(en, " ", name, ": outcome ", e.outcome, " instead of ", exp));
    if (e.outcome != OK) {
      c.rejected("refused");
      if (dumped(*robot) != before) c.fail("edit-not-atomic", en + " was refused but changed the document");
      continue;
    }
    URobot got;
    try {
      got = read_robot(*robot);
    } catch (const Malformed &x) {
      c.fail("document", en + " wrote " + x.what + "\n" + text);
    }
    std::string er = same_structure(want, got);
    if (!er.empty()) c.fail("edit-effect", en + " " + name + ": " + er + "\n" + text);
    if (e.has_names && e.names != names) c.fail("edit-names", en + " returned " + join(e.names) + "expected " + join(names));
    // which joints must be at zero for the comparison: those the edit froze, or squashed across
    std::set<std::string> zero(names.begin(), names.end());
    bool all_zero = false;
    if (o.code == E_FIX || o.code == E_FLOAT) zero.insert(name);
    if (o.code == E_SQUASH && m.joints[m.joint(name)].type != "fixed") all_zero = true;
    for (int s = 0; s < 2; ++s) {
      if (s == 1 && all_zero) break;
      Joints q = joint_values(m, qs + (u64)s, s == 0);
      for (auto &z : zero) q[z] = 0;
      auto wa = fk(m, q), wb = fk(got, q);
      double len = std::max(extent(m, wa), extent(got, wb));
      compare(c, masses(m, wa), masses(got, wb), len, cat(en, " ", name, s ? " at a random configuration" : " at zero"));
    }
    if (o.code == E_SQUASH_ALL || o.code == E_MASSLESS) {
      for (auto &j : got.joints)
        if (j.type == "fixed" && got.links[got.link(j.child)].has_inertial) c.fail("left-over", en + ": link below fixed joint " + j.name + " keeps a mass");
      if (o.code == E_MASSLESS)
        for (auto &j : got.joints)
          if (j.type != "fixed" && !got.links[got.link(j.child)].has_inertial) c.fail("left-over", en + ": joint " + j.name + " moves a massless link");
    }
    changed += dumped(*robot) != before;
    int inert = 0;
    for (auto &l : got.links) inert += l.has_inertial;
    c.state(mix(mix((u64)inert, got.links.size()), mix((u64)o.code, hash_str(got.order))));
    m = got;
  }
  MassSum t = masses(m, fk(m, joint_values(m, qs)));
  c.trace((int)std::lrint(1000 * t.m / (t.absm + 1e-9)));
  c.trace(dumped(*robot));
  if (changed >= 2) c.nontrivial();
}
}  // namespace

namespace sim {
Scenario make_scenario() {
  Scenario s;
  s.id = "C09";
  s.rule =
      "One case is a generated valid document and up to eight joint conversions and mass squashes, interleaved with "
      "restarts from the saved document and edits interrupted by failing allocations; non-trivial when two edits changed "
      "the document; distinct by hash of outcomes and final document.";
  s.real = {"AL::urdf edit functions", "Math::squashInertial and urdfeigen.h", "Eigen"};
  s.stub = {"memory allocator (failures injected)", "storage between restarts (a string)"};
  s.configs = {"fault-free", "restarts-and-memory-faults"};
  s.fault_kinds = {"alloc-failure", "crash-restart"};
  s.state_measure = "number of links with inertia x number of links x edit x element order";
  s.assumptions = {"masses are not negative", "floating and planar joints stay at their zero pose"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 32;
  s.quick_runs = 40000;
  s.thorough_runs = 2000000;
  s.quick_secs = 30;
  return s;
}
}  // namespace sim
