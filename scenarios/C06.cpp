// C06: loading URDF documents: valid, structurally damaged, damaged bytes,
// failing reads, failing allocations.
#include <almath/scenegraph/urdf.h>
#include <memory>
#include "sim/core.h"
#include "sim/urdfcheck.h"
using namespace sim;
using namespace um;

namespace {
// Byte source with faults: stops (EOF) or throws at an offset, hands out chunks.
struct Source : std::streambuf {
  std::string data;
  size_t pos = 0, chunk;
  long stop_at, throw_at;
  bool fired = false;
  Source(std::string d, size_t c, long s, long t) : data(std::move(d)), chunk(c ? c : 1), stop_at(s), throw_at(t) {}
  int_type underflow() override {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    size_t end = std::min(data.size(), pos + chunk);
    if (stop_at >= 0 && end > (size_t)stop_at) {
      end = std::max(pos, (size_t)stop_at);
      if (end == pos) {
        fired = true;
        return traits_type::eof();
      }
    }
    if (throw_at >= 0 && end > (size_t)throw_at) {
      fired = true;
      throw InjectedError();
    }
    if (end == pos) return traits_type::eof();
    setg(&data[pos], &data[pos], &data[0] + end);
    pos = end;
    return traits_type::to_int_type(*gptr());
  }
};

enum { FLIP = 20, LOADFAULT = 21, QUERYFAULT = 22, REORDER = 23, NUMBER = 24 };
// puts another text in place of a numeric attribute
bool renumber(std::string &text, const Op &o) {
  static const char *const names[] = {"xyz", "rpy", "value", "ixx", "ixy", "ixz", "iyy", "iyz", "izz", "multiplier", "offset", "lower", "upper", "effort", "velocity", "radius", "length", "size", "scale"};
  static const char *const bad[] = {"", " ", "abc", "1;5", "1.5x", "1 2", "1 2 3 4", "0x10", "1e400", "nan", "inf", "1,5", "1e-400", "+3", "1.", ".5", "--1", "1e", "1 2 x", "  2  ", "1 2", "7 8 9", "1e5", "1, 2, 3", "0 0 0 0", "1 0 0;", "1/2", "5 m"};
  std::vector<size_t> at;
  std::string key = names[o.idx(0, 19)];
  for (int k = 0; k < 19 && at.empty(); ++k, key = names[(o.idx(0, 19) + (size_t)k) % 19])
    for (size_t i = text.find(" " + key + "=\""); i != std::string::npos; i = text.find(" " + key + "=\"", i + 1)) at.push_back(i + key.size() + 3);
  if (at.empty()) return false;
  const size_t a = at[(size_t)o.i(1) % at.size()], e = text.find('"', a);
  if (e == std::string::npos) return false;
  text.replace(a, e - a, bad[o.idx(2, sizeof bad / sizeof *bad)]);
  return true;
}

void damage(Rng &r, std::vector<Op> &ops) {
  std::vector<size_t> L, J;
  for (size_t i = 0; i < ops.size(); ++i) (ops[i].code == D_LINK ? L : J).push_back(i);
  auto pad = [](Op &o) { while (o.n.size() < 18) o.n.push_back(0); };
  auto joint = [&]() -> Op & { return ops[r.pick(J)]; };
  J.erase(std::remove_if(J.begin(), J.end(), [&](size_t i) { return ops[i].code != D_JOINT; }), J.end());
  int k = r.range(0, 15);
  if (J.empty()) k = r.range(0, 2);
  switch (k) {
    case 0: { Op c = ops[r.pick(L)]; c.n[0] = r.u(); ops.push_back(c); break; }           // duplicate link
    case 1: { Op c = ops[r.pick(L)]; c.n[0] = r.u(); c.s[0] += "_extra"; ops.push_back(c); break; }  // second root
    case 2: { Op &o = ops[r.pick(L)]; pad(o); o.n[17] = 1; break; }                       // link without name
    case 3: { Op c = joint(); c.n[0] = r.u(); if (r.chance(0.5)) c.s[0] += "_dup"; ops.push_back(c); break; }
    case 4: joint().s[1 + r.range(0, 1)] = "nowhere"; break;
    case 5: { Op &o = joint(); o.s[1] = ops[r.pick(L)].s[0]; break; }                     // other parent: loops
    case 6: { Op &o = joint(); o.s[2] = ops[r.pick(L)].s[0]; break; }                     // other child: two parents
    case 7: { Op &o = joint(); std::swap(o.s[1], o.s[2]); break; }
    case 8: case 9: { pad(joint()); Op &o = joint(); pad(o); o.n[17] = r.pick(std::vector<double>{1, 2, 4, 10, 12, 16}); if (o.n[17] == 16) o.n[13] = 1; break; }
    case 10: { Op &o = joint(); o.n[13] = 1; o.s[3] = "no joint"; break; }
    case 11: { Op &o = joint(); o.n[13] = 1; o.s[3] = o.s[0]; break; }                    // mimics itself
    case 12: case 13: {                                                                   // mimic chains and loops
      if (r.chance(0.4)) {  // a ring, in any order of the document
        for (size_t i = J.size(); i > 1; --i) std::swap(J[i - 1], J[r.below(i)]);
        size_t n = 1 + r.below(J.size());
        for (size_t i = 0; i < n; ++i) { ops[J[i]].n[13] = 1; ops[J[i]].s[3] = ops[J[(i + 1) % n]].s[0]; }
        break;
      }
      for (size_t i : J) if (r.chance(0.7)) { ops[i].n[13] = 1; ops[i].s[3] = ops[r.pick(J)].s[0]; }
      break;
    }
    case 14: ops.erase(ops.begin() + (long)r.pick(L)); break;
    case 15: ops.erase(ops.begin() + (long)r.pick(J)); break;
  }
}

Plan gen(Rng &r, int cfg) {
  Plan p;
  DocOpts o;
  o.max_links = r.chance(0.05) ? 60 : 9;
  if (r.chance(0.3)) o.p_mimic = 0.7;
  o.types.push_back(6);
  o.axis_any_length = true;
  o.types.push_back(7);
  p.ops = gen_doc(r, o);
  if (r.chance(0.4)) {  // deep mimic chains in any order, no loop: each mimics an earlier one
    std::vector<std::string> names;
    for (Op &x : p.ops)
      if (x.code == D_JOINT) {
        if (!names.empty() && r.chance(0.7)) {
          x.n[13] = 1;
          x.s[3] = r.chance(0.5) ? names.back() : r.pick(names);
        }
        names.push_back(x.s[0]);
      }
    }
  int nd = r.chance(0.45) ? 0 : r.chance(0.8) ? 1 : r.range(2, 3);
  for (int i = 0; i < nd; ++i) {
    bool has = false;
    for (Op &x : p.ops) has |= x.code == D_LINK;
    if (has) damage(r, p.ops);
  }
  if (r.chance(0.3))
    for (int i = r.range(1, 4); i > 0; --i) p.ops.push_back(Op(NUMBER, {(double)r.below(19), (double)r.below(100), (double)r.below(28)}));
  p.set("ws", r.range(0, 3));
  p.set("chunk", r.chance(0.5) ? 1 << r.range(0, 8) : 1 << 20);
  if (cfg == 1) {
    double k = r.u();
    if (k < 0.2) p.set("stop", r.u());
    else if (k < 0.35) p.set("throw", r.u());
    else if (k < 0.55) {
      int n = r.range(1, 3);
      for (int i = 0; i < n; ++i) p.ops.push_back(Op(FLIP, {r.u(), (double)r.range(0, 3), (double)r.range(1, 255)}));
    } else {
      Op f(LOADFAULT);
      f.f.push_back(Fault{"alloc", (long)std::pow(2, r.uni(0, 9)) - 1});
      p.ops.push_back(f);
      if (r.chance(0.5)) {
        Op g(QUERYFAULT);
        g.f.push_back(Fault{"alloc", (long)std::pow(2, r.uni(0, 7)) - 1});
        p.ops.push_back(g);
      }
    }
  }
  return p;
}

void exec(const Plan &p, Ctx &c) {
  std::string text = doc_text(p.ops, (int)p.knob("ws"));
  bool damaged = false;
  for (const Op &o : p.ops)
    if (o.code == NUMBER && renumber(text, o)) damaged = true, c.fired("corrupted-number");
  for (const Op &o : p.ops)
    if (o.code == FLIP && !text.empty()) {
      size_t at = (size_t)(o.num(0) * (double)text.size());
      if (at >= text.size()) continue;
      damaged = true;
      c.fired("byte-corruption");
      switch (o.idx(1, 4)) {
        case 0: text[at] = (char)(text[at] ^ (char)o.i(2)); break;
        case 1: text.erase(at, 1 + (size_t)o.i(2) % 9); break;
        case 2: text.insert(at, text.substr(at / 2, (size_t)o.i(2) % 40)); break;
        case 3: text[at] = "<>/\"= &x"[o.i(2) % 8]; break;
      }
    }
  long stop = p.knob("stop", -1) >= 0 ? (long)(p.knob("stop") * (double)text.size()) : -1;
  long thr = p.knob("throw", -1) >= 0 ? (long)(p.knob("throw") * (double)text.size()) : -1;
  ptree doc;
  Source src(text, (size_t)p.knob("chunk", 64), stop, thr);
  Outcome pr = attempt([&] {
    std::istream is(&src);
    boost::property_tree::read_xml(is, doc);
  });
  if (src.fired) c.fired(stop >= 0 ? "truncated-read" : "read-error");
  c.trace((int)pr);
  ptree *robot = robot_of(doc);
  if (pr != OK || !robot) {
    c.rejected("not XML");
    return;
  }
  URobot m;
  std::string why;
  try {
    m = read_robot(*robot, !damaged);
    why = invalid(m);
  } catch (const Malformed &e) {
    why = e.what;
  }
  const std::string before = dumped(*robot);
  std::unique_ptr<lib::RobotTree> t;
  std::string what;
  for (size_t i = 0; i < p.ops.size(); ++i)
    if (p.ops[i].code == LOADFAULT) {
      c.op_index = (int)i;
      Outcome o;
      bool f;
      {
        AllocFault a(c, p.ops[i]);
        o = attempt([&] { t.reset(new lib::RobotTree(*robot)); });
        f = a.end();
      }
      if (o != OK && !f && why.empty()) c.fail("load-rejected", "valid document rejected");
      if (dumped(*robot) != before) c.fail("load-modifies", "a failed load changed the document");
      t.reset();
    }
  Outcome o = attempt([&] { t.reset(new lib::RobotTree(*robot)); }, &what);
  c.trace((int)o);
  if (why.empty() && o != OK) c.fail("load-rejected", "valid document rejected: " + what + "\n" + text);
  if (!why.empty() && o == OK) c.fail("load-accepted", "invalid document accepted (" + why + ")\n" + text);
  if (!why.empty() && o != THROWN) c.fail("load-outcome", cat("outcome ", o));
  if (dumped(*robot) != before) c.fail("load-modifies", "loading changed the document");
  c.probe(why.empty() ? "accepted" : ("rejected: " + why.substr(0, why.find('\''))).c_str());
  c.state(mix(mix(m.links.size(), m.joints.size()), hash_str(why + m.order)));
  if (o != OK) {
    c.rejected("invalid document");
    c.nontrivial();
    return;
  }
  std::string e = answers(*t, *robot, m);
  if (!e.empty()) c.fail("answers", e + "\n" + text);
  e = values(*robot);
  if (!e.empty()) c.fail("values", e + "\n" + text);
  if (!damaged) {
    e = wrappers(*robot, m);
    if (!e.empty()) c.fail("wrappers", e + "\n" + text);
  }
  for (size_t i = 0; i < p.ops.size(); ++i)
    if (p.ops[i].code == QUERYFAULT) {
      c.op_index = (int)i;
      AllocFault a(c, p.ops[i]);
      attempt([&] {
        for (auto &j : m.joints) t->joint(j.name);
        t->is_mimic_tree_flat();
        ConstRecorder v;
        t->traverse_joints(v);
      });
      a.end();
      e = answers(*t, *robot, m);
      if (!e.empty()) c.fail("answers-after-failure", e);
    }
  if (dumped(*robot) != before) c.fail("query-modifies", "queries changed the document");
  for (int i : m.traversal()) c.trace(m.joints[i].name);
  if (m.joints.size() > 1) c.nontrivial();
}
}  // namespace

namespace sim {
Scenario make_scenario() {
  Scenario s;
  s.id = "C06";
  s.rule =
      "One case is one generated URDF text (valid or with structural damage, byte damage, interrupted read or failing "
      "allocations) loaded and queried; non-trivial when the document has at least two joints or is rejected; distinct "
      "by hash of verdict and traversal.";
  s.real = {"AL::urdf::RobotTree", "AL::urdf wrappers", "UrdfDotPrinterVisitor", "boost.property_tree XML reader"};
  s.stub = {"byte source (truncation, errors, chunking)", "memory allocator (failures injected)"};
  s.configs = {"structural", "io-and-memory-faults"};
  s.fault_kinds = {"alloc-failure", "byte-corruption", "corrupted-number", "truncated-read", "read-error"};
  s.state_measure = "number of links and joints x element order x reason of rejection";
  s.assumptions = {"boost's XML reader is the given byte reader; the model reads the tree it produced"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 32;
  s.quick_runs = 60000;
  s.thorough_runs = 3000000;
  s.quick_secs = 30;
  return s;
}
}  // namespace sim
