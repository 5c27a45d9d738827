// C18: traversals and prunings with arbitrary and failing callbacks.
#include <memory>
#include "sim/core.h"
#include "sim/urdfedits.h"
using namespace sim;
using namespace um;

namespace {
enum { WALK = 80, PRUNE = 81 };
// WALK n: mutable, decision seed, probability to descend, throw at callback (-1), nested walk at callback (-1), mutate
// PRUNE n: decision seed, probability, throw at call (-1), stateful
Plan gen(Rng &r, int cfg) {
  Plan p;
  DocOpts o;
  o.max_links = r.chance(0.1) ? 25 : 9;
  o.p_inertial = 0.3;
  o.p_visual = 0.1;
  o.p_mimic = r.chance(0.2) ? 0.1 : 0;
  p.ops = gen_doc(r, o);
  p.set("ws", r.range(0, 3));
  int n = r.range(1, 8);
  for (int i = 0; i < n; ++i) {
    double k = r.u();
    Op e;
    if (k < 0.55) {
      e = Op(WALK, {(double)r.chance(0.5), (double)r.below(100000), r.chance(0.4) ? 1 : r.u(), -1, -1, (double)r.chance(0.3)});
      if (cfg == 1 && r.chance(0.4)) e.n[3] = (double)r.below(12);
      if (r.chance(0.2)) e.n[4] = (double)r.below(8);
      if (cfg == 1 && r.chance(0.1)) e.f.push_back(Fault{"alloc", (long)r.below(20)});
    } else if (k < 0.8) {
      e = Op(PRUNE, {(double)r.below(100000), r.chance(0.3) ? r.u() : 0.3 * r.u(), -1, (double)r.chance(0.5)});
      if (cfg == 1 && r.chance(0.4)) e.n[2] = (double)r.below(8);
      if (cfg == 1 && r.chance(0.2)) e.f.push_back(Fault{"alloc", (long)r.below(40)});
    } else {
      static const int w[] = {E_REROOT, E_REROOT, E_RM_LEAF, E_RM_ROOT, E_FIX, E_FIX_CONT};
      e = gen_edit(r, r.pick(w));
    }
    p.ops.push_back(e);
  }
  return p;
}
bool decide(u64 seed, double prob, u64 key) { return (double)(mix(seed, key) % 10000) < prob * 10000; }

// expected sequence of callbacks; stops when the callback `stop` throws
struct Want {
  const URobot &m;
  u64 seed;
  double prob;
  long stop;
  std::vector<std::string> log;
  bool thrown = false;
  bool ev(const std::string &s) {
    log.push_back(s);
    if ((long)log.size() - 1 == stop) thrown = true;
    return !thrown;
  }
  void walk(const std::string &l) {
    for (int i : m.children(l)) {
      const UJoint &j = m.joints[i];
      bool down = decide(seed, prob, log.size());
      if (!ev("+" + j.name)) return;
      if (down) walk(j.child);
      if (thrown) return;
      if (!ev("-" + j.name)) return;
    }
  }
};
template <class Base, class P>
struct Vis : Base {
  Ctx &c;
  lib::RobotTree &t;
  const URobot &m;
  const Op &o;
  std::vector<std::string> log;
  std::vector<const ptree *> elems;
  std::string nested_error;
  Vis(Ctx &cc, lib::RobotTree &tt, const URobot &mm, const Op &oo) : c(cc), t(tt), m(mm), o(oo) {}
  void hit(P &p, const char *sign) {
    std::string n;
    attr(p, "name", n);
    const long k = (long)log.size();
    log.push_back(sign + n);
    elems.push_back(&p);
    if (k == o.i(4, -1)) {  // a whole traversal and queries inside a callback
      ConstRecorder r;
      const lib::RobotTree &ct = t;
      ct.traverse_joints(r);
      std::vector<std::string> want;
      std::string dot;
      expect_walk(m, m.root(), want, dot);
      if (r.log != want) nested_error = "nested traversal: " + join(r.log) + "; expected " + join(want);
      if (&ct.joint(n) != &p) nested_error = "nested query of " + n;
      c.probe("nested traversal");
    }
    if (k == o.i(3, -1)) um::inject_tree(k + o.i(5));
    touch(p, (int)o.i(5));
  }
  static void touch(const ptree &, int) {}
  static void touch(ptree &p, int mutate) {
    if (mutate) p.put("dynamics.<xmlattr>.damping", "0.25");
  }
  bool discover(P &p) override {
    HarnessScope h;
    bool d = decide((u64)o.i(1), o.num(2), log.size());
    hit(p, "+");
    return d;
  }
  void finish(P &p) override {
    HarnessScope h;
    hit(p, "-");
  }
};

void exec(const Plan &p, Ctx &c) {
  const std::string text = doc_text(p.ops, (int)p.knob("ws"));
  ptree doc;
  if (!parse(text, doc)) c.fail("harness", "generated text does not parse");
  ptree *robot = robot_of(doc);
  URobot m = read_robot(*robot);
  if (!invalid(m).empty()) return;
  lib::RobotTree tree(*robot);
  const lib::RobotTree &ctree = tree;
  int calls = 0, events = 0;
  std::set<std::string> ever;
  for (auto &l : m.links) ever.insert(l.name);
  for (auto &j : m.joints) ever.insert(j.name);
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &o = p.ops[i];
    c.op_index = (int)i;
    if (o.code == WALK) {
      Want w{m, (u64)o.i(1), o.num(2), o.i(3, -1)};
      w.walk(m.root());
      const std::string before = dumped(*robot);
      std::vector<std::string> log;
      std::vector<const ptree *> el;
      std::string nested;
      Outcome out;
      bool f;
      {
        AllocFault a(c, o);
        if (o.i(0)) {
          Vis<lib::JointVisitor, ptree> v(c, tree, m, o);
          out = attempt([&] { tree.traverse_joints(v); });
          f = a.end();
          log = v.log, el = v.elems, nested = v.nested_error;
        } else {
          Vis<lib::JointConstVisitor, const ptree> v(c, tree, m, o);
          out = attempt([&] { ctree.traverse_joints(v); });
          f = a.end();
          log = v.log, el = v.elems, nested = v.nested_error;
        }
      }
      c.trace((int)out);
      if (!nested.empty()) c.fail("nested", nested);
      if (f && out == NOMEM) {
        if (log.size() > w.log.size()) c.fail("callbacks", "too many callbacks: " + join(log));
        w.log.resize(log.size());
      } else {
        if (w.thrown) c.fired("visitor-throw");
        if (out != (w.thrown ? INJECTED : OK)) c.fail("outcome", cat("traversal outcome ", out, ", expected ", w.thrown ? "the visitor's exception" : "success"));
      }
      if (log != w.log) c.fail("callbacks", "callbacks " + join(log) + "; expected " + join(w.log) + "\n" + text);
      for (size_t k = 0; k < el.size(); ++k)
        if (el[k] != &ctree.joint(log[k].substr(1))) c.fail("element", "another element was given for " + log[k]);
      if (!(o.i(0) && o.i(5)) && dumped(*robot) != before) c.fail("document", "a traversal changed the document");
      ++calls;
      events += (int)log.size();
      c.state(mix(hash_str(join(log)), (u64)out));
    } else if (o.code == PRUNE) {
      // Joints are asked about in tree order, at most once; those of a sub-tree
      // which is selected already may be left out.  What is removed follows
      // from the answers given.
      const long stop = o.i(2, -1);
      const std::vector<int> order = m.traversal();
      auto answer = [&](size_t index, const std::string &n) { return decide((u64)o.i(0), o.num(1), o.i(3) ? index : hash_str(n)); };
      auto parent_cut = [&](int j, const std::set<std::string> &cut) {
        int up = m.joint_of_child(m.joints[j].parent);
        return up >= 0 && cut.count(m.joints[up].name) > 0;
      };
      bool skip = false;
      for (bool everybody : {true, false}) {
        std::set<std::string> cut;
        size_t n = 0;
        for (int j : order) {
          const bool below = parent_cut(j, cut);
          bool yes = false;
          if (everybody || !below) yes = answer(n++, m.joints[j].name);
          if (yes || below) cut.insert(m.joints[j].name);
        }
        URobot w = m;
        for (auto &x : cut) remove_joint(w, w.joint(x));
        skip = skip || leaves_dangling_mimic(m, w);
      }
      if (skip) {
        c.probe("skipped: removal of a mimicked joint");
        continue;
      }
      const std::string before = dumped(*robot);
      std::vector<std::string> asked, got, names;
      std::vector<bool> said;
      Outcome out;
      bool f;
      {
        AllocFault a(c, o);
        out = attempt([&] {
          got = lib::removeSubTreeIfJoint(tree, [&](const ptree &j) {
            HarnessScope h;
            std::string n;
            attr(j, "name", n);
            bool yes = answer(asked.size(), n);
            asked.push_back(n);
            said.push_back(yes);
            if ((long)asked.size() - 1 == stop) um::inject_tree((long)n.size() + stop);
            return yes;
          });
        });
        f = a.end();
      }
      c.trace((int)out);
      const bool thrown = stop >= 0 && (long)asked.size() > stop;
      std::set<std::string> cut;
      size_t k = 0;
      for (int j : order) {
        const std::string &n = m.joints[j].name;
        const bool below = parent_cut(j, cut);
        bool yes = false;
        if (k < asked.size() && asked[k] == n) yes = said[k++];
        else if (!below && k < asked.size()) c.fail("predicate", "asked " + join(asked) + ", but not about " + n + "\n" + text);
        else if (!below && out == OK) c.fail("predicate", "asked " + join(asked) + ", but never about " + n + "\n" + text);
        if (yes || below) {
          cut.insert(n);
          names.push_back(n);
        }
      }
      if (k != asked.size()) c.fail("predicate", "asked " + join(asked) + ", which is not in tree order, or is more than once\n" + text);
      URobot want = m;
      if (!thrown)
        for (auto &n : cut) remove_joint(want, want.joint(n));
      if (f && out == NOMEM) {
        c.rejected("no memory");
        // leaves are removed one by one, last first: any prefix of that may be done
        URobot now = read_robot(*robot);
        URobot step = m;
        bool ok = same_structure(step, now).empty();
        for (size_t k = names.size(); k > 0 && !ok; --k) {
          remove_joint(step, step.joint(names[k - 1]));
          ok = same_structure(step, now).empty();
        }
        if (!ok) c.fail("prune-nomem", "a pruning interrupted by lack of memory removed something else");
        if (leaves_dangling_mimic(m, now)) return;
        m = now;
      } else {
        if (thrown) c.fired("visitor-throw");
        if (out != (thrown ? INJECTED : OK)) c.fail("outcome", cat("pruning outcome ", out));
        if (thrown && dumped(*robot) != before) c.fail("document", "the predicate threw but the document changed");
        if (!thrown && got != names) c.fail("names", "returned " + join(got) + "; expected " + join(names));
        std::string er = same_structure(want, read_robot(*robot));
        if (!er.empty()) c.fail("prune-effect", er + "\n" + text);
      }
      ++calls;
      events += (int)asked.size();
      c.state(mix(hash_str(join(asked)), mix((u64)out, names.size())));
    } else if (o.code >= E_RM_ROOT && o.code < E_LAST) {
      std::vector<std::string> names;
      URobot want = m;
      const std::string name = target(o, m);
      Outcome exp = model_edit(want, o, name, names);
      if (leaves_dangling_mimic(m, want)) continue;
      EditResult e = run_edit(tree, o, name);
      if (e.outcome != exp) c.fail("edit-outcome", cat(edit_name(o.code), " ", name, ": outcome ", e.outcome));
    } else {
      continue;
    }
    m = read_robot(*robot);
    std::string er = invalid(m);
    if (!er.empty()) c.fail("document", "the document is not a valid tree: " + er);
    er = answers(tree, *robot, m, &ever);
    if (!er.empty()) c.fail("index", er + "\n" + text);
  }
  for (auto &j : m.joints) c.trace(j.name);
  if (calls >= 2 && events >= 6) c.nontrivial();
}
}  // namespace

namespace sim {
Scenario make_scenario() {
  Scenario s;
  s.id = "C18";
  s.rule =
      "One case is a generated valid document and up to eight traversals, prunings and edits with drawn (possibly "
      "stateful, throwing or re-entrant) callbacks; non-trivial when two of them made six callbacks or more; distinct by "
      "hash of outcomes and remaining joints.";
  s.real = {"AL::urdf::RobotTree traverse_joints, edits", "removeSubTreeIfJoint"};
  s.stub = {"visitors and predicates (drawn decisions)"};
  s.configs = {"no-fault", "throwing-callbacks"};
  s.fault_kinds = {"visitor-throw", "alloc-failure"};
  s.state_measure = "sequence of callbacks x outcome";
  s.assumptions = {"visitors do not change names, parents or children of joints, nor edit the tree from inside a callback"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 32;
  s.quick_runs = 60000;
  s.thorough_runs = 4000000;
  s.quick_secs = 30;
  return s;
}
}  // namespace sim
