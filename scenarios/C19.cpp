// C19: rewriting mesh and texture file names.
#include "sim/core.h"
#include "sim/urdfedits.h"
using namespace sim;
using namespace um;

namespace {
enum { ROUND = 90, ELEM = 91 };
// ROUND n: function (0 identity, 1 suffix, 2 empty, 3 constant, 4 per call index, 5 long), throw at call (-1), reload before, alloc
// ELEM n: position key, kind, seed: extra elements at robot level
Plan gen(Rng &r, int cfg) {
  Plan p;
  DocOpts o;
  o.max_links = 6;
  o.p_visual = 0;
  p.ops = gen_doc(r, o);
  for (Op &e : p.ops)
    if (e.code == D_LINK) e.n.resize(18), e.n[16] = r.chance(0.8) ? (double)r.range(1, 1000000) : 0;
  int n = r.range(0, 4);
  for (int i = 0; i < n; ++i) p.ops.push_back(Op(ELEM, {r.u(), (double)r.below(8), (double)r.below(100000)}));
  p.set("ws", r.range(0, 3));
  n = r.range(1, 5);
  for (int i = 0; i < n; ++i) {
    Op e(ROUND, {(double)r.below(6), -1, (double)r.chance(0.3)});
    if (cfg == 1 && r.chance(0.5)) e.n[1] = (double)r.below(10);
    if (cfg == 1 && r.chance(0.3)) e.f.push_back(Fault{"alloc", (long)r.below(30)});
    p.ops.push_back(e);
  }
  return p;
}
// ---- independent document text, richer than the shared one in references
std::string fname(Rng &r) {
  static const char *n[] = {"package://a/b.dae", "file:///usr/x.mesh", "", " spaced name .stl ", "a&amp;b&lt;.png", "\xc3\xa9t\xc3\xa9.png", "t.png", "%20", "..\\x"};
  return std::string(r.pick(n)) + (r.chance(0.4) ? cat(r.below(10)) : "");
}
std::string material(Rng &r) {
  std::string s = r.chance(0.8) ? cat("<material name=\"m", r.below(5), "\">") : "<material>";
  if (r.chance(0.4)) s += "<color rgba=\"1 0 0 1\"/>";
  double k = r.u();
  if (k < 0.6) s += "<texture filename=\"" + fname(r) + "\"/>";
  else if (k < 0.7) s += "<texture/>";
  else if (k < 0.8) s += "<texture other=\"filename.png\"/>";
  return s + "</material>";
}
std::string geometry(Rng &r) {
  double k = r.u();
  if (k < 0.1) return "";
  if (k < 0.15) return "<geometry/>";
  if (k < 0.3) return "<geometry><sphere radius=\"1\"/></geometry>";
  std::string mesh = r.chance(0.9) ? "<mesh " + std::string(r.chance(0.5) ? "scale=\"1 1 1\" " : "") + "filename=\"" + fname(r) + "\"/>" : "<mesh/>";
  if (r.chance(0.1)) mesh += "<mesh filename=\"" + fname(r) + "\"/>";
  return "<geometry>" + mesh + "</geometry>";
}
std::string link_elems(long seed) {
  if (seed <= 0) return "";
  Rng r((u64)seed);
  std::string s;
  int n = r.range(0, 4);
  for (int i = 0; i < n; ++i) {
    bool v = r.chance(0.6);
    s += v ? "<visual>" : "<collision>";
    std::string a = geometry(r), b = r.chance(v ? 0.6 : 0.15) ? material(r) : "";
    if (r.chance(0.1)) b += material(r);
    s += r.chance(0.5) ? a + b : b + a;
    if (r.chance(0.1)) s += "<mesh filename=\"not a reference\"/>";
    s += v ? "</visual>" : "</collision>";
  }
  if (r.chance(0.1)) s += "<geometry><mesh filename=\"misplaced\"/></geometry>";
  if (r.chance(0.1)) s += material(r);  // not in a visual: not a reference
  return s;
}
std::string elem(const Op &o) {
  Rng r((u64)o.i(2) + 9);
  switch (o.idx(1, 8)) {
    case 0: return "<gazebo><mesh filename=\"g.dae\"/><material><texture filename=\"g.png\"/></material></gazebo>";
    case 1: return "<texture filename=\"root.png\"/>";
    case 2: return "<mesh filename=\"root.dae\"/>";
    case 3: return "<visual><geometry><mesh filename=\"v.dae\"/></geometry></visual>";
    case 4: return "<sensor><visual><geometry><mesh filename=\"s.dae\"/></geometry></visual></sensor>";
    default: return material(r);
  }
}
std::string build(const Plan &p) {
  std::vector<const Op *> v;
  for (auto &o : p.ops)
    if (is_doc_op(o) || o.code == ELEM) v.push_back(&o);
  std::stable_sort(v.begin(), v.end(), [](const Op *a, const Op *b) { return a->num(0) < b->num(0); });
  std::string s = "<robot name=\"r\" filename=\"not this one\">";
  for (const Op *o : v) {
    if (o->code == ELEM) s += elem(*o);
    else if (o->code == D_LINK) s += "<link name=\"" + esc(o->str(0)) + "\"" + (o->i(16) % 7 == 3 ? " filename=\"nor this\"" : "") + ">" + link_elems(o->i(16)) + "</link>";
    else s += element_text(*o);
    if ((int)p.knob("ws") & 1) s += "\n ";
  }
  return s + "</robot>";
}
// references of a document, in document order
void texture_of(ptree &mat, std::vector<ptree *> &out) {
  if (ptree *t = const_cast<ptree *>(first(mat, "texture")))
    if (ptree *a = const_cast<ptree *>(first(*t, "<xmlattr>")))
      if (ptree *f = const_cast<ptree *>(first(*a, "filename"))) out.push_back(f);
}
std::vector<ptree *> refs(ptree &robot) {
  std::vector<ptree *> out;
  for (auto &c : robot) {
    if (c.first == "material") texture_of(c.second, out);
    if (c.first != "link") continue;
    for (auto &v : c.second) {
      if (v.first != "visual" && v.first != "collision") continue;
      if (ptree *g = const_cast<ptree *>(first(v.second, "geometry")))
        for (auto &me : *g)
          if (me.first == "mesh")
            if (ptree *a = const_cast<ptree *>(first(me.second, "<xmlattr>")))
              if (ptree *f = const_cast<ptree *>(first(*a, "filename"))) out.push_back(f);
      if (v.first == "visual")
        for (auto &ma : v.second)
          if (ma.first == "material") texture_of(ma.second, out);
    }
  }
  return out;
}
std::string apply(int f, const std::string &in, size_t call) {
  switch (f) {
    case 0: return in;
    case 1: return in + ".x";
    case 2: return "";
    case 3: return "const & <name>";
    case 4: return cat("call", call);
  }
  return std::string(60 + call, 'y') + in.substr(0, 20);
}

void exec(const Plan &p, Ctx &c) {
  const std::string text = build(p);
  ptree doc;
  if (!parse(text, doc)) c.fail("harness", "generated text does not parse: " + text);
  size_t most = 0;
  int rounds = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &o = p.ops[i];
    if (o.code != ROUND) continue;
    c.op_index = (int)i;
    if (o.i(2)) {
      std::ostringstream os;
      boost::property_tree::write_xml(os, doc);
      ptree d2;
      if (!parse(os.str(), d2)) c.fail("document", "the rewritten document does not parse");
      if (dumped(d2) != dumped(doc)) {
        // only empty values and spaces inside attributes survive differently
        c.probe("reload changed the text");
      }
      doc.swap(d2);
      c.fired("crash-restart");
    }
    ptree &robot = *robot_of(doc);
    std::vector<ptree *> at = refs(robot);
    std::vector<std::string> old;
    for (ptree *x : at) old.push_back(x->data());
    std::vector<std::pair<std::string, std::string>> calls;  // argument, result
    const int f = (int)o.idx(0, 6);
    const long stop = o.i(1, -1);
    Outcome out;
    bool nomem;
    {
      AllocFault a(c, o);
      out = attempt([&] {
        lib::robot::transform_filenames(robot, [&](std::string in) {
          HarnessScope h;
          if ((long)calls.size() == stop) {
            calls.push_back(std::make_pair(in, std::string("<thrown>")));
            um::inject_tree((long)in.size() + stop);
          }
          std::string res = apply(f, in, calls.size());
          calls.push_back(std::make_pair(in, res));
          return res;
        });
      });
      nomem = a.end();
    }
    c.trace((int)out);
    const bool threw = stop >= 0 && (long)calls.size() == stop + 1;
    if (threw) c.fired("callback-throw");
    if (!nomem && out != (threw ? INJECTED : OK)) c.fail("outcome", cat("outcome ", out));
    if (!nomem && !threw && calls.size() != at.size()) c.fail("calls", cat(calls.size(), " calls for ", at.size(), " references\n", text));
    if (calls.size() > at.size()) c.fail("calls", cat(calls.size(), " calls for ", at.size(), " references\n", text));
    if (refs(robot) != at) c.fail("structure", "references appeared or disappeared");
    // Each call pairs with one reference: match multisets of (old, new) since the order is not promised.
    std::multiset<std::pair<std::string, std::string>> left(calls.begin(), calls.end());
    size_t untouched = 0;
    std::vector<std::string> keep;
    for (size_t k = 0; k < at.size(); ++k) {
      auto it = left.find(std::make_pair(old[k], at[k]->data()));
      if (it != left.end()) left.erase(it);
      else if (at[k]->data() == old[k]) ++untouched, keep.push_back(old[k]);
      else c.fail("stored", "reference \"" + old[k] + "\" became \"" + at[k]->data() + "\", which the function did not return for it\n" + text);
    }
    // what is left: calls whose result was not stored (throwing call, lack of memory)
    size_t allowed = threw || nomem ? 1 : 0;
    if (left.size() > allowed) c.fail("lost", cat(left.size(), " results were not stored, e.g. for \"", left.begin()->first, "\"\n", text));
    for (auto &l : left)
      if (std::find(keep.begin(), keep.end(), l.first) == keep.end()) c.fail("argument", "the function was called with \"" + l.first + "\", which is no reference");
    if (!nomem && !threw && untouched) c.fail("missed", "a reference was not rewritten");
    // nothing else changed
    {
      std::vector<std::string> now;
      for (size_t k = 0; k < at.size(); ++k) now.push_back(at[k]->data()), at[k]->data() = old[k];
      ptree d0 = doc;
      std::string back = dumped(doc);
      for (size_t k = 0; k < at.size(); ++k) at[k]->data() = now[k];
      static thread_local std::string orig;
      if (i && rounds && !o.i(2) && back != orig) c.fail("elsewhere", "something else in the document changed");
      if (!rounds && !o.i(2)) {
        ptree fresh;
        parse(text, fresh);
        if (back != dumped(fresh)) c.fail("elsewhere", "something else in the document changed");
      }
      orig = dumped(doc);
    }
    for (auto &k : calls) c.trace(k.first), c.trace(k.second);
    c.state(mix(at.size(), mix((u64)out, mix((u64)f, calls.size()))));
    most = std::max(most, calls.size());
    ++rounds;
  }
  if (most >= 2) c.nontrivial();
}
}  // namespace

namespace sim {
Scenario make_scenario() {
  Scenario s;
  s.id = "C19";
  s.rule =
      "One case is a generated document with references and look-alikes and up to five rewriting rounds, some throwing; "
      "non-trivial when a round called the function twice or more; distinct by hash of outcomes, arguments and results.";
  s.real = {"AL::urdf::robot::transform_filenames", "boost.property_tree"};
  s.stub = {"rewriting function (drawn, may throw)"};
  s.configs = {"no-fault", "throwing-function"};
  s.fault_kinds = {"callback-throw", "alloc-failure", "crash-restart"};
  s.state_measure = "number of references x outcome x function x number of calls";
  s.assumptions = {"a material holds at most one texture, as the URDF format says"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 32;
  s.quick_runs = 60000;
  s.thorough_runs = 4000000;
  s.quick_secs = 25;
  return s;
}
}  // namespace sim
