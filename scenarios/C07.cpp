// C07: the index of a robot tree under any edit history.
#include <memory>
#include "sim/core.h"
#include "sim/urdfedits.h"
using namespace sim;
using namespace um;

namespace {
Plan gen(Rng &r, int cfg) {
  Plan p;
  DocOpts o;
  o.max_links = r.chance(0.05) ? 25 : 8;
  if (r.chance(0.4)) o.types = {0, 1, 2, 3};
  p.ops = gen_doc(r, o);
  p.set("ws", r.range(0, 3));
  static const int all[] = {E_RM_ROOT, E_RM_LEAF, E_RM_LEAF, E_REROOT, E_REROOT, E_REROOT, E_TRANSPORT, E_FIX, E_FLOAT,
                            E_FIX_CONT, E_SQUASH, E_SQUASH_ALL, E_MASSLESS, E_PRUNE, E_SET};
  std::vector<int> w;
  for (int c : all)
    if (r.chance(0.7)) w.push_back(c);  // swarm: a subset of the operations
  if (w.empty()) w.push_back(E_REROOT);
  int n = r.range(1, 9);
  for (int i = 0; i < n; ++i) {
    Op e = gen_edit(r, r.pick(w));
    if (cfg == 1 && r.chance(0.3)) e.f.push_back(Fault{"alloc", (long)std::pow(2, r.uni(0, 8)) - 1});
    p.ops.push_back(e);
  }
  return p;
}

void exec(const Plan &p, Ctx &c) {
  const std::string text = doc_text(p.ops, (int)p.knob("ws"));
  const bool known = p.knob("known") != 0;
  ptree doc;
  if (!parse(text, doc)) c.fail("harness", "generated text does not parse");
  ptree *robot = robot_of(doc);
  URobot m = read_robot(*robot);
  if (!invalid(m).empty()) return;  // only while minimising
  std::unique_ptr<lib::RobotTree> t(new lib::RobotTree(*robot));
  int done = 0, kinds = 0;
  std::set<std::string> ever;
  for (auto &l : m.links) ever.insert(l.name);
  for (auto &j : m.joints) ever.insert(j.name);
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &o = p.ops[i];
    if (o.code < E_RM_ROOT || o.code >= E_LAST) continue;
    c.op_index = (int)i;
    const std::string name = target(o, m), en = edit_name(o.code);
    URobot want = m;
    std::vector<std::string> names;
    Outcome exp = model_edit(want, o, name, names);
    if (leaves_dangling_mimic(m, want) && !known) {
      c.probe("skipped: removal of a mimicked joint");
      continue;
    }
    const std::string before = dumped(*robot);
    EditResult e;
    bool f;
    {
      AllocFault a(c, o);
      e = run_edit(*t, o, name);
      f = a.end();
    }
    c.trace((int)e.outcome);
    c.state(mix(hash_str(m.order), mix((u64)o.code, (u64)e.outcome)));
    if (e.outcome != exp && !f) c.fail("edit-outcome", cat(en, " ", name, ": outcome ", e.outcome, " instead of ", exp, "\n", text));
    if (f && e.outcome != OK && exp != THROWN) {  // lack of memory may surface as another exception
      c.rejected("no memory");
      if (o.code == E_RM_ROOT || o.code == E_RM_LEAF) {
        if (dumped(*robot) != before) c.fail("edit-not-atomic", en + " interrupted by lack of memory changed the document");
      } else if (o.code == E_REROOT) {
        return;  // the tree promises nothing after that
      }
    } else if (e.outcome != OK) {
      c.rejected("refused");
      if (dumped(*robot) != before) c.fail("edit-not-atomic", en + " was refused but changed the document");
    }
    URobot got;
    try {
      got = read_robot(*robot);
    } catch (const Malformed &x) {
      c.fail("document", en + " wrote a malformed document: " + x.what);
    }
    std::string er;
    if (e.outcome == OK) {
      er = same_structure(want, got);
      if (!er.empty()) c.fail("edit-effect", en + " " + name + ": " + er + "\n" + text);
      if (e.has_names && e.names != names) c.fail("edit-names", en + " returned " + join(e.names) + "expected " + join(names));
      ++done;
      kinds |= 1 << (o.code - E_RM_ROOT);
    }
    m = got;
    er = invalid(m);
    if (!er.empty()) c.fail("document", "after " + en + " the document is not a valid tree: " + er);
    er = answers(*t, *robot, m, &ever);
    if (!er.empty()) c.fail("index", "after " + en + " " + name + ": " + er + "\n" + text);
    // a fresh load of what would be written (not after every edit: it is the costly part)
    if ((i + p.ops.size()) % 3 && i + 1 < p.ops.size()) continue;
    std::ostringstream os;
    boost::property_tree::write_xml(os, doc);
    ptree doc2;
    if (!parse(os.str(), doc2)) c.fail("document", "the written document does not parse after " + en);
    std::unique_ptr<lib::RobotTree> t2;
    if (attempt([&] { t2.reset(new lib::RobotTree(*robot_of(doc2))); }) != OK) c.fail("document", "the written document does not load after " + en);
    er = answers(*t2, *robot_of(doc2), m);
    if (!er.empty()) c.fail("reload", "after " + en + ": reloaded tree: " + er);
  }
  for (int j : m.traversal()) c.trace(m.joints[j].name);
  c.trace(dumped(*robot));
  if (done >= 2 && (kinds & (kinds - 1)) && m.joints.size() > 0) c.nontrivial();
}
}  // namespace

namespace sim {
Scenario make_scenario() {
  Scenario s;
  s.id = "C07";
  s.rule =
      "One case is a generated valid document and up to nine edits (some with unknown names, some interrupted by failing "
      "allocations); after each one the tree is compared with the document and with a fresh load. Non-trivial when two "
      "edits of different kinds succeeded and a joint is left; distinct by hash of outcomes, traversal and document.";
  s.real = {"AL::urdf::RobotTree and edit functions", "boost.multi_index", "boost.property_tree"};
  s.stub = {"memory allocator (failures injected)"};
  s.configs = {"fault-free", "memory-faults"};
  s.fault_kinds = {"alloc-failure"};
  s.state_measure = "element order of the document x edit x outcome";
  s.assumptions = {"poses, axes and joint types of the document are well formed",
                   "a re-rooting interrupted by lack of memory promises nothing but memory safety"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 32;
  s.quick_runs = 40000;
  s.thorough_runs = 2000000;
  s.quick_secs = 35;
  return s;
}
}  // namespace sim
