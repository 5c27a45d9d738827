// C12: animation documents under arbitrary edit histories, bad arguments and
// memory faults, against a reference model of the document.
#include <almath/scenegraph/qianim.h>
#include <boost/property_tree/xml_parser.hpp>
#include <climits>
#include <cstdlib>
#include <list>
#include <memory>
#include "sim/core.h"
using namespace sim;
namespace Q = AL::qianim;
namespace V2 = AL::qianim::V2;
using Q::ptree;

namespace {
// ---- reference model ---------------------------------------------------------
struct Node {
  std::string tag, text;
  std::vector<std::pair<std::string, std::string>> attrs;
  std::vector<std::unique_ptr<Node>> kids;
  const ptree *where = nullptr;  // identity of the element once it exists
  std::string *attr(const std::string &n) {
    for (auto &a : attrs)
      if (a.first == n) return &a.second;
    return nullptr;
  }
  void put(const std::string &n, const std::string &v) {
    if (auto *a = attr(n)) *a = v;
    else attrs.push_back({n, v});
  }
  std::vector<Node *> all(const char *t) {
    std::vector<Node *> r;
    for (auto &k : kids)
      if (k->tag == t) r.push_back(k.get());
    return r;
  }
};
std::unique_ptr<Node> read(const std::string &tag, const ptree &p) {
  std::unique_ptr<Node> n(new Node);
  n->tag = tag;
  n->text = p.data();
  n->where = &p;
  for (auto &c : p) {
    if (c.first == "<xmlattr>")
      for (auto &a : c.second) n->attrs.push_back({a.first, a.second.data()});
    else
      n->kids.push_back(read(c.first, c.second));
  }
  return n;
}
std::string diff(const Node &m, const Node &d, const std::string &path) {
  if (m.tag != d.tag) return path + ": element " + d.tag + " where " + m.tag + " is expected";
  if (m.text != d.text) return path + ": text '" + d.text + "', expected '" + m.text + "'";
  if (m.attrs != d.attrs) {
    std::string s = path + ": attributes";
    for (auto &a : d.attrs) s += " " + a.first + "=" + a.second;
    s += ", expected";
    for (auto &a : m.attrs) s += " " + a.first + "=" + a.second;
    return s;
  }
  if (m.where && m.where != d.where) return path + ": the element was replaced by another one";
  for (size_t i = 0; i < m.kids.size() && i < d.kids.size(); ++i) {
    std::string r = diff(*m.kids[i], *d.kids[i], path + "/" + m.kids[i]->tag + "[" + std::to_string(i) + "]");
    if (!r.empty()) return r;
  }
  if (m.kids.size() != d.kids.size()) return path + ": " + std::to_string(d.kids.size()) + " children, expected " + std::to_string(m.kids.size());
  return "";
}
bool to_int(const std::string *s, long &v) {
  if (!s || s->empty()) return false;
  char *e;
  v = strtol(s->c_str(), &e, 10);
  return !*e && v <= INT_MAX && v >= INT_MIN;
}
bool to_dbl(const std::string *s, double &v) {
  if (!s || s->empty()) return false;
  char *e;
  v = strtod(s->c_str(), &e);
  return !*e && std::isfinite(v);
}
long frame_of(Node *k) {
  long v = -1;
  to_int(k->attr("frame"), v);
  return v;
}
Node *tangent_of(Node *k, const char *side) {
  for (Node *t : k->all("Tangent"))
    if (t->attr("side") && *t->attr("side") == side) return t;
  return nullptr;
}
// documented validity of a sequence of keys
// a word which resembles s but is another one
std::string near_miss(const std::string &s, int mode) {
  std::string t = s;
  switch (mode % 10) {
    case 0: return t + "s";
    case 1: t[0] = (char)std::toupper(t[0]); return t == s ? t + t : t;
    case 2: return t.substr(0, t.size() - 1);
    case 3: return t + " ";
    case 4: return " " + t;
    case 5: return "";
    case 6: return t + t;
    case 7: return t.substr(1);
    case 8: return t + "0";
    default: return "feet";
  }
}

std::string curve_fault(Node *c) {
  auto keys = c->all("Key");
  for (size_t i = 0; i + 1 < keys.size(); ++i) {
    long a, b;
    if (!to_int(keys[i]->attr("frame"), a) || a < 0 || !to_int(keys[i + 1]->attr("frame"), b) || b < 0) return "frame";
    if (b <= a) return "order";
    double v, x;
    Node *r = tangent_of(keys[i], "right"), *l = tangent_of(keys[i + 1], "left");
    if (!r || !l) return "missing tangent";
    if (!to_dbl(keys[i]->attr("value"), v) || !to_dbl(keys[i + 1]->attr("value"), v)) return "value";
    if (!to_dbl(r->attr("ordinateParam"), v) || !to_dbl(l->attr("ordinateParam"), v)) return "ordinate";
    if (!to_dbl(r->attr("abscissaParam"), x)) return "abscissa";
    if (x < 0 || x > (double)(b - a)) return "right tangent out of bounds";
    if (!to_dbl(l->attr("abscissaParam"), x)) return "abscissa";
    if (x > 0 || x < -(double)(b - a)) return "left tangent out of bounds";
  }
  return "";
}
std::string animation_fault(Node *a) {
  std::string *v = a->attr("typeVersion");
  if (!v || *v != "2.0") return "version";
  for (Node *c : a->all("ActuatorCurve")) {
    if (!c->attr("actuator")) return "actuator";
    long f;
    if (!to_int(c->attr("fps"), f) || f <= 0) return "fps";
    std::string *u = c->attr("unit");
    if (!u || (*u != "dimensionless" && *u != "radian" && *u != "degree" && *u != "meter")) return "unit";
    std::string e = curve_fault(c);
    if (!e.empty()) return e;
  }
  return "";
}

// ---- plan --------------------------------------------------------------------
enum { START = 1, CURVE, PROP, KEY, VALUE, RTAN, PTAN, ETAN, LABELS, LFPS, LABEL, FOREIGN, LOOKUP, VERDICT, ANIM, TANPUT, COMPLETE, REFRAME, PSIDE, LFRAME };
const char *const names[] = {"HeadYaw", "HeadPitch", "LHand", "", "R\xc3\xa9 & <x>", "HeadYaw ", "headyaw", "LHAND"};
const char *const units[] = {"dimensionless", "radian", "degree", "meter"};

double frame_arg(Rng &r, bool bad) {
  if (bad && r.chance(0.1)) return r.chance(0.5) ? -1 : -(double)r.below(1000) - 1;
  double k = r.u();
  if (k < 0.75) return (double)r.below(14);
  if (k < 0.95) return (double)r.below(4000);
  return r.chance(0.5) ? 2147483647.0 - r.below(3) : 16777216.0 + r.below(5);
}
double value_arg(Rng &r) {
  double k = r.u();
  if (k < 0.5) return (double)r.range(-20, 20) / 4;
  if (k < 0.9) return r.uni(-10, 10);
  if (k < 0.97) return r.uni(-1, 1) * std::pow(10.0, r.range(-30, 30));
  return r.chance(0.5) ? -0.0 : 1e300;
}
Plan gen(Rng &r, int cfg) {
  Plan p;
  const bool bad = cfg == 1;
  // the starting document: 0 empty root, 1 textual document
  Op st(START, {(double)r.chance(0.6), (double)r.below(1000000), (double)r.range(0, 3)});
  p.ops.push_back(st);
  int n = r.chance(0.1) ? r.range(40, 120) : r.range(3, 40);
  for (int i = 0; i < n; ++i) {
    double k = r.u();
    Op o;
    const double c = (double)r.below(4), ky = (double)r.below(12);
    if (k < 0.02) o = Op(ANIM);
    else if (k < 0.12) o = Op(CURVE, {(double)r.below(8)});
    else if (k < 0.22) {
      o = Op(PROP, {c, (double)r.below(4), r.chance(0.2) ? std::floor(std::pow(10, r.uni(1, 9.3))) : (double)r.below(6)});  // curve, which, value
      if (o.i(1) == 1) o.n[2] = bad && r.chance(0.2) ? -(double)r.below(3) : (double)r.range(1, 100);
    } else if (k < 0.45) o = Op(KEY, {c, frame_arg(r, bad)});
    else if (k < 0.52) o = Op(VALUE, {c, ky, value_arg(r), (double)r.chance(0.3)});
    else if (k < 0.56) o = Op(RTAN, {c, ky, (double)r.chance(0.5)});
    else if (k < 0.64) o = Op(PTAN, {c, ky, (double)r.chance(0.5), value_arg(r), value_arg(r), (double)r.chance(0.3)});
    else if (k < 0.66) o = Op(TANPUT, {c, ky, (double)r.chance(0.5), (double)r.below(2), value_arg(r)});
    else if (k < 0.70) o = Op(ETAN, {c, ky, (double)r.chance(0.5)});
    else if (k < 0.72) o = Op(LABELS);
    else if (k < 0.74) o = Op(LFPS, {(double)r.below(2), bad && r.chance(0.2) ? -(double)r.below(3) : r.chance(0.2) ? std::floor(std::pow(10, r.uni(2, 9.3))) : (double)r.range(1, 100)});
    else if (k < 0.84) o = Op(LABEL, {(double)r.below(2), frame_arg(r, bad)}, {r.chance(0.1) ? "" : r.chance(0.5) ? "a" : "l" + std::to_string(r.below(1000))});
    else if (k < 0.90) o = Op(FOREIGN, {(double)r.below(5), c, (double)r.below(20), (double)r.below(4)});
    else if (k < 0.92) o = Op(LOOKUP, {c, frame_arg(r, false)});
    else if (k < 0.935) o = Op(REFRAME, {c, ky, bad && r.chance(0.4) ? -1 - (double)r.below(9) : r.u()});
    else if (k < 0.94) o = Op(PSIDE, {c, ky, (double)r.chance(0.5)});
    else if (k < 0.95) o = Op(LFRAME, {(double)r.below(2), (double)r.below(8), bad && r.chance(0.4) ? -1 - (double)r.below(9) : r.u()});
    else if (k < 0.97) o = Op(COMPLETE, {c, (double)r.below(1000000)});
    else o = Op(VERDICT, {(double)r.below(14), c, (double)(ky * 10 + r.below(10)), (double)r.below(4)});
    if (bad && r.chance(0.25)) o.f.push_back(Fault{"alloc", (long)r.below(r.chance(0.3) ? 60 : 12)});
    p.ops.push_back(o);
  }
  return p;
}

std::string start_text(u64 seed, int style) {
  Rng r(seed);
  std::ostringstream s;
  auto junk = [&](const char *pad) {
    if (style == 0 || !r.chance(0.3)) return;
    double k = r.u();
    if (k < 0.4) s << pad << "<!-- Key " << r.below(100) << " -->\n";
    else if (k < 0.7) s << pad << "<Foreign frame=\"" << r.below(10) << "\"/>\n";
    else s << pad << "<Extra><Key frame=\"1\"/></Extra>\n";
  };
  s << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
  if (style == 3) s << "<!-- made by hand -->\n";
  s << "<Animation xmlns:editor=\"x\" typeVersion=\"2.0\">\n";
  int nc = r.range(0, 3);
  for (int c = 0; c < nc; ++c) {
    junk("  ");
    s << "  <ActuatorCurve fps=\"" << r.range(1, 50) << "\" actuator=\"" << (c == 0 ? "HeadYaw" : c == 1 ? "LHand" : "RHand")
      << "\" mute=\"" << r.pick({"false", "true", "0", "1"}) << "\" unit=\"" << units[r.below(4)] << "\">\n";
    int nk = r.range(0, 6), f = 0;
    for (int k = 0; k < nk; ++k) {
      junk("    ");
      f += r.range(k ? 1 : 0, 5);
      s << "    <Key value=\"" << r.range(-9, 9) << "\" frame=\"" << f << "\">\n";
      for (int side = 0; side < 2; ++side)
        for (int copies = style >= 2 && r.chance(0.15) ? r.range(2, 4) : r.chance(0.6); copies > 0; --copies)
          s << "      <Tangent side=\"" << (side ? "right" : "left") << "\" abscissaParam=\"" << (side ? 0.25 : -0.25)
            << "\" ordinateParam=\"0\"/>\n";
      junk("      ");
      s << "    </Key>\n";
    }
    junk("    ");
    s << "  </ActuatorCurve>\n";
  }
  if (r.chance(0.5)) {
    s << "  <Labels fps=\"25\">\n";
    int nl = r.range(0, 4), f = 0;
    for (int k = 0; k < nl; ++k) {
      junk("    ");
      f += r.range(0, 4);
      s << "    <Label frame=\"" << f << "\">t" << k << "</Label>\n";
    }
    s << "  </Labels>\n";
  }
  junk("  ");
  s << "</Animation>\n";
  return s.str();
}

struct World {
  Ctx &c;
  ptree root;
  std::unique_ptr<Node> m;  // model of root
  explicit World(Ctx &cc) : c(cc) {}
  Node *anim() {
    for (auto &k : m->kids)
      if (k->tag == "Animation") return k.get();
    return nullptr;
  }
  // the ptree element of a model node
  ptree &at(Node *n) { return *const_cast<ptree *>(n->where); }
  void compare(const char *cls, const std::string &what) {
    auto d = read("", root);
    std::string e = diff(*m, *d, "");
    if (!e.empty()) c.fail(cls, what + ": " + e);
    // new model elements learn their identity
    adopt(*m, *d);
  }
  void adopt(Node &a, Node &d) {
    a.where = d.where;
    for (size_t i = 0; i < a.kids.size(); ++i) adopt(*a.kids[i], *d.kids[i]);
  }
  void resync() { m = read("", root); }
};
Node *child(Node *n, const char *tag) {
  Node *k = new Node;
  k->tag = tag;
  (void)n;
  return k;
}
template <class T>
bool text_is(const std::string &s, T v) {
  char *e;
  T g = sizeof(T) == 4 ? (T)strtof(s.c_str(), &e) : (T)strtod(s.c_str(), &e);
  return !*e && !s.empty() && g == v && std::signbit(g) == std::signbit(v);
}

void exec(const Plan &p, Ctx &c) {
  World w(c);
  w.resync();
  bool touched = false;
  for (size_t oi = 0; oi < p.ops.size(); ++oi) {
    const Op &o = p.ops[oi];
    c.op_index = (int)oi;
    if (o.code == START) {
      if (oi != 0 || !o.i(0)) continue;
      std::istringstream in(start_text((u64)o.i(1), (int)o.i(2)));
      try {
        boost::property_tree::read_xml(in, w.root, boost::property_tree::xml_parser::trim_whitespace);
      } catch (const std::exception &e) {
        c.fail("harness", e.what());
      }
      w.resync();
      continue;
    }
    std::string err;
    Node *an = w.anim();
    if (o.code == ANIM || !an) {
      ptree *got = nullptr;
      AllocFault a(c, o);
      Outcome r = attempt([&] { got = &V2::require_animation(w.root); }, &err);
      bool fired = a.end();
      if (r != OK) {
        if (!fired) c.fail("refused", "require_animation: " + err);
        w.compare("not-atomic", "after a failed require_animation");
        continue;
      }
      if (!an) {
        Node *n = child(w.m.get(), "Animation");
        n->put("typeVersion", "2.0");
        w.m->kids.emplace_back(n);
      }
      w.compare("document", "after require_animation");
      c.check(got == w.anim()->where, "reference", "require_animation returned another element");
      an = w.anim();
      if (o.code == ANIM) continue;
    }
    ptree &A = w.at(an);
    auto curves = an->all("ActuatorCurve");
    auto labels = an->all("Labels");
    Node *cv = nullptr, *key = nullptr;
    if (!curves.empty()) {
      cv = curves[o.idx(o.code == FOREIGN ? 1 : o.code == VERDICT ? 1 : 0, curves.size())];
      auto ks = cv->all("Key");
      if (!ks.empty()) key = ks[o.code == VERDICT ? (size_t)(o.i(2) / 10) % ks.size() : o.idx(1, ks.size())];
    }
    const Q::Side side = o.i(2) ? Q::Side::right : Q::Side::left;
    const char *sname = o.i(2) ? "right" : "left";
    c.trace(o.code);
    switch (o.code) {
      case CURVE: {
        const std::string name = names[o.idx(0, 8)];
        Node *want = nullptr;
        for (Node *x : curves)
          if (x->attr("actuator") && *x->attr("actuator") == name) {
            want = x;
            break;
          }
        ptree *got = nullptr;
        AllocFault a(c, o);
        Outcome r = attempt([&] { got = &V2::Animation::require_actuatorcurve(A, name); }, &err);
        bool fired = a.end();
        if (r != OK) {
          if (!fired) c.fail("refused", "require_actuatorcurve(" + name + "): " + err);
          w.compare("not-atomic", "after a failed require_actuatorcurve(" + name + ")");
          break;
        }
        Node *added = nullptr;
        if (!want) {
          added = child(an, "ActuatorCurve");
          added->put("actuator", name);
          an->kids.emplace_back(added);
        }
        w.compare("document", "after require_actuatorcurve(" + name + ")");
        c.check(got == (want ? want : added)->where, "reference", "require_actuatorcurve(" + name + ") returned another element");
        touched = true;
        break;
      }
      case PROP: {
        if (!cv) break;
        ptree &P = w.at(cv);
        static const char *const an_[] = {"unit", "fps", "mute", "actuator"};
        const int which = (int)o.idx(1, 4);
        std::string nv;
        bool bad = false;
        AllocFault a(c, o);
        Outcome r;
        if (which == 0) {
          static const Q::Unit us[] = {Q::Unit::dimensionless, Q::Unit::radian, Q::Unit::degree, Q::Unit::meter};
          { HarnessScope h; nv = units[o.idx(2, 4)]; }
          r = attempt([&] { V2::ActuatorCurve::put_unit(P, us[o.idx(2, 4)]); }, &err);
        } else if (which == 1) {
          const int f = (int)o.i(2);
          bad = f <= 0;
          { HarnessScope h; nv = std::to_string(f); }
          r = attempt([&] { V2::ActuatorCurve::put_fps(P, f); }, &err);
        } else if (which == 2) {
          const bool b = o.i(2) & 1;
          { HarnessScope h; nv = b ? "true" : "false"; }
          r = attempt([&] { V2::ActuatorCurve::put_mute(P, b); }, &err);
        } else {
          // give the curve a name no other curve has
          std::string name;
          { HarnessScope h; name = "N" + std::to_string(oi); nv = name; }
          r = attempt([&] { V2::ActuatorCurve::put_actuator(P, name); }, &err);
        }
        bool fired = a.end();
        const char *at = an_[which];
        if (r == OK) {
          c.check(!bad, "accepted", cat("fps ", o.i(2), " accepted"));
          if (which == 2) {
            // any spelling that reads back
            std::string *now = nullptr;
            auto d = read("", P);
            now = d->attr("mute");
            c.check(now && (*now == nv || *now == (nv == "true" ? "1" : "0")), "value", "mute written as " + (now ? *now : std::string("nothing")));
            nv = *now;
          }
          cv->put(at, nv);
          w.compare("document", cat("after setting ", at, " to ", nv));
          bool readok = false;
          Outcome q = attempt([&] {
            if (which == 0) readok = (int)V2::ActuatorCurve::get_unit(P) == (int)(o.idx(2, 4) == 0 ? Q::Unit::dimensionless : o.idx(2, 4) == 1 ? Q::Unit::radian : o.idx(2, 4) == 2 ? Q::Unit::degree : Q::Unit::meter);
            else if (which == 1) readok = V2::ActuatorCurve::get_fps(P) == (int)o.i(2);
            else if (which == 2) readok = V2::ActuatorCurve::get_mute(P) == (bool)(o.i(2) & 1);
            else readok = V2::ActuatorCurve::get_actuator(P) == nv;
          }, &err);
          c.check(q == OK && readok, "lookup", cat(at, " does not read back as ", nv, ": ", err));
        } else if (bad) {
          c.rejected("fps");
          c.check(r == THROWN || fired, "outcome", "bad fps");
          w.compare("not-atomic", "after a rejected fps");
        } else {
          if (!fired) c.fail("refused", cat("setting ", at, " to ", nv, ": ", err));
          // the attribute itself may be created empty, nothing else may change
          auto d = read("", P);
          std::string *now = d->attr(at), *old = cv->attr(at);
          const bool okv = old ? now && (*now == *old || *now == nv) : !now || now->empty() || *now == nv;
          c.check(okv, "not-atomic", cat(at, " became ", now ? *now : std::string("nothing"), " when memory ran out"));
          if (now) {
            cv->put(at, *now);
            if (now->empty()) c.probe("attribute left empty for lack of memory");
          }
          w.compare("not-atomic", cat("after a failed setting of ", at));
          if (now && now->empty()) {  // repaired by trying again
            attempt([&] {
              if (which == 3) V2::ActuatorCurve::put_actuator(P, nv);
              else if (which == 2) V2::ActuatorCurve::put_mute(P, nv == "true");
              else if (which == 1) V2::ActuatorCurve::put_fps(P, (int)o.i(2));
              else V2::ActuatorCurve::put_unit(P, Q::Unit::meter);
            });
            w.resync();
          }
        }
        touched = true;
        break;
      }
      case KEY: {
        if (!cv) break;
        ptree &P = w.at(cv);
        const int f = (int)o.i(1);
        size_t pos = cv->kids.size();
        Node *have = nullptr;
        for (size_t i = 0; i < cv->kids.size(); ++i)
          if (cv->kids[i]->tag == "Key" && frame_of(cv->kids[i].get()) >= f) {
            pos = i;
            if (frame_of(cv->kids[i].get()) == f) have = cv->kids[i].get();
            break;
          }
        ptree *got = nullptr;
        AllocFault a(c, o);
        Outcome r = attempt([&] { got = &V2::ActuatorCurve::require_key(P, f); }, &err);
        bool fired = a.end();
        if (r != OK) {
          if (f < 0) c.rejected("negative frame");
          else if (!fired) c.fail("refused", cat("require_key(", f, "): ", err));
          w.compare("not-atomic", cat("after a failed require_key(", f, ")"));
          break;
        }
        c.check(f >= 0, "accepted", cat("require_key(", f, ") accepted"));
        Node *added = nullptr;
        if (!have) {
          added = child(cv, "Key");
          added->put("frame", std::to_string(f));
          cv->kids.emplace(cv->kids.begin() + (long)pos, added);
          if (pos < cv->kids.size() - 1) c.probe("key inserted before others");
        } else
          c.probe("key already there");
        w.compare("document", cat("after require_key(", f, ")"));
        c.check(got == (have ? have : added)->where, "reference", cat("require_key(", f, ") returned another element"));
        touched = true;
        break;
      }
      case VALUE:
      case TANPUT: {
        if (!key) break;
        Node *el = key;
        const char *at = "value";
        double v = o.num(2);
        bool single = o.i(3);
        if (o.code == TANPUT) {
          el = tangent_of(key, sname);
          if (!el) break;
          at = o.i(3) ? "ordinateParam" : "abscissaParam";
          v = o.num(4);
          single = false;
        }
        if (single && std::fabs(v) > 1e30) v = 1;
        ptree &P = w.at(el);
        AllocFault a(c, o);
        Outcome r = attempt([&] {
          if (o.code == VALUE) {
            if (single) V2::Key::put_value<float>(P, (float)v);
            else V2::Key::put_value<double>(P, v);
          } else if (o.i(3)) V2::Tangent::put_ordinate<double>(P, v);
          else V2::Tangent::put_abscissa<double>(P, v);
        }, &err);
        bool fired = a.end();
        auto d = read("", P);
        std::string *now = d->attr(at), *old = el->attr(at);
        if (r == OK) {
          c.check(now && (single ? text_is<float>(*now, (float)v) : text_is<double>(*now, v)), "value",
                  cat(at, " set to ", hexf(v), " is stored as ", now ? *now : std::string("nothing")));
          el->put(at, *now);
          w.compare("document", cat("after setting ", at));
          if (o.code == VALUE) {
            double g = 0;
            float gf = 0;
            Outcome q = attempt([&] { if (single) gf = V2::Key::get_value<float>(P); else g = V2::Key::get_value<double>(P); }, &err);
            c.check(q == OK && (single ? gf == (float)v : g == v), "lookup", cat("value reads back ", single ? gf : g, " instead of ", v, " ", err));
          }
        } else {
          if (!fired) c.fail("refused", cat("setting ", at, ": ", err));
          const bool okv = old ? now && *now == *old : !now || now->empty();
          c.check(okv || (now && text_is<double>(*now, v)), "not-atomic", cat(at, " became ", now ? *now : std::string("nothing"), " when memory ran out"));
          if (now) el->put(at, *now);
          w.compare("not-atomic", cat("after a failed setting of ", at));
        }
        touched = true;
        break;
      }
      case RTAN:
      case PTAN: {
        if (!key) break;
        ptree &P = w.at(key);
        Node *have = tangent_of(key, sname);
        double x = o.num(3), y = o.num(4);
        const bool single = o.i(5);
        if (single && std::fabs(x) > 1e30) x = 1;
        if (single && std::fabs(y) > 1e30) y = 1;
        ptree *got = nullptr;
        AllocFault a(c, o);
        Outcome r = attempt([&] {
          if (o.code == RTAN) got = &V2::Key::require_tangent(P, side);
          else if (single) got = &V2::Key::put_tangent<float>(P, side, (float)x, (float)y);
          else got = &V2::Key::put_tangent<double>(P, side, x, y);
        }, &err);
        bool fired = a.end();
        if (r != OK && !fired) c.fail("refused", cat("tangent: ", err));
        auto d = read("", P);
        Node *now = tangent_of(d.get(), sname);
        if (r != OK && o.code == RTAN) {
          w.compare("not-atomic", "after a failed require_tangent");
          break;
        }
        if (!have && (r == OK || now)) {
          Node *n = child(key, "Tangent");
          n->put("side", sname);
          key->kids.emplace_back(n);
          have = n;
        }
        if (o.code == PTAN && have && now) {
          const char *at[] = {"abscissaParam", "ordinateParam"};
          for (int i = 0; i < 2; ++i) {
            std::string *nw = now->attr(at[i]), *old = have->attr(at[i]);
            const double v = i ? y : x;
            const bool isnew = nw && (single ? text_is<float>(*nw, (float)v) : text_is<double>(*nw, v));
            if (r == OK) c.check(isnew, "value", cat(at[i], " set to ", hexf(v), " is stored as ", nw ? *nw : std::string("nothing")));
            else
              c.check(isnew || (old ? nw && *nw == *old : !nw || nw->empty()), "not-atomic",
                      cat(at[i], " became ", nw ? *nw : std::string("nothing"), " when memory ran out"));
            if (nw) have->put(at[i], *nw);
          }
        }
        w.compare(r == OK ? "document" : "not-atomic", "after setting a tangent");
        if (r == OK) c.check(got == have->where, "reference", "another tangent was returned");
        touched = true;
        break;
      }
      case ETAN: {
        if (!key) break;
        ptree &P = w.at(key);
        ptree::size_type got = 0, want = 0;
        AllocFault a(c, o);
        Outcome r = attempt([&] { got = V2::Key::erase_tangent(P, side); }, &err);
        bool fired = a.end();
        if (r != OK) {
          if (!fired) c.fail("refused", "erase_tangent: " + err);
          w.compare("not-atomic", "after a failed erase_tangent");
          break;
        }
        for (size_t i = 0; i < key->kids.size();) {
          Node *k = key->kids[i].get();
          if (k->tag == "Tangent" && k->attr("side") && *k->attr("side") == sname) {
            key->kids.erase(key->kids.begin() + (long)i);
            ++want;
          } else
            ++i;
        }
        w.compare("document", "after erase_tangent");
        c.check(got == want, "lookup", cat("erase_tangent reported ", got, ", erased ", want));
        c.check(!V2::Key::get_tangent_optional(P, side), "lookup", "erased tangent is still found");
        touched = true;
        break;
      }
      case REFRAME:
      case LFRAME: {  // move a key or a label in time, between its neighbours
        std::vector<Node *> row;
        size_t at = 0;
        if (o.code == REFRAME) {
          if (!key) break;
          row = cv->all("Key");
          at = o.idx(1, row.size());
        } else {
          if (labels.empty()) break;
          row = labels[o.idx(0, labels.size())]->all("Label");
          if (row.empty()) break;
          at = o.idx(1, row.size());
        }
        long lo = at ? frame_of(row[at - 1]) : -1, hi = at + 1 < row.size() ? frame_of(row[at + 1]) : frame_of(row[at]) + 10;
        long f = -1;
        if (o.num(2) < 0) f = o.i(2);
        else if (o.code == REFRAME) {
          if (hi - lo < 2 || hi > 2000000000) break;
          f = lo + 1 + (long)(o.num(2) * (double)(hi - lo - 1));
        } else {
          if (hi > 2000000000) break;
          f = std::max(lo, 0L) + (long)(o.num(2) * (double)(hi - std::max(lo, 0L)));
        }
        Node *el = row[at];
        ptree &P = w.at(el);
        AllocFault a(c, o);
        Outcome r = attempt([&] {
          if (o.code == REFRAME) V2::Key::put_frame(P, (int)f);
          else V2::Label::put_frame(P, (int)f);
        }, &err);
        bool fired = a.end();
        if (r == OK) {
          c.check(f >= 0, "accepted", cat("frame ", f, " accepted"));
          el->put("frame", std::to_string(f));
          w.compare("document", cat("after put_frame(", f, ")"));
          c.probe("frame moved");
        } else if (f < 0) {
          c.rejected("negative frame");
          w.compare("not-atomic", cat("after a rejected put_frame(", f, ")"));
        } else {
          if (!fired) c.fail("refused", cat("put_frame(", f, "): ", err));
          w.compare("not-atomic", cat("after a failed put_frame(", f, ")"));
        }
        break;
      }
      case PSIDE: {  // turn a tangent over
        if (!key) break;
        Node *t = tangent_of(key, sname);
        const char *other = o.i(2) ? "left" : "right";
        if (!t || tangent_of(key, other)) break;
        ptree &P = w.at(t);
        AllocFault a(c, o);
        Outcome r = attempt([&] { V2::Tangent::put_side(P, o.i(2) ? Q::Side::left : Q::Side::right); }, &err);
        bool fired = a.end();
        if (r != OK && !fired) c.fail("refused", "put_side: " + err);
        if (r == OK) t->put("side", other);
        w.compare(r == OK ? "document" : "not-atomic", "after put_side");
        break;
      }
      case LABELS: {
        if (labels.size() >= 3) break;
        ptree *got = nullptr;
        AllocFault a(c, o);
        Outcome r = attempt([&] { got = &V2::Animation::add_labels(A); }, &err);
        bool fired = a.end();
        if (r != OK) {
          if (!fired) c.fail("refused", "add_labels: " + err);
          w.compare("not-atomic", "after a failed add_labels");
          break;
        }
        an->kids.emplace_back(child(an, "Labels"));
        w.compare("document", "after add_labels");
        c.check(got == an->kids.back()->where, "reference", "add_labels returned another element");
        break;
      }
      case LFPS: {
        if (labels.empty()) break;
        Node *lb = labels[o.idx(0, labels.size())];
        const int f = (int)o.i(1);
        Outcome r = attempt([&] { V2::Labels::put_fps(w.at(lb), f); }, &err);
        c.check((r == OK) == (f > 0), "accepted", cat("labels fps ", f, ": outcome ", r));
        if (r == OK) lb->put("fps", std::to_string(f));
        w.compare(r == OK ? "document" : "not-atomic", "after setting the fps of labels");
        if (r == OK) c.check(V2::Labels::get_fps(w.at(lb)) == f, "lookup", "labels fps");
        break;
      }
      case LABEL: {
        if (labels.empty()) break;
        Node *lb = labels[o.idx(0, labels.size())];
        const int f = (int)o.i(1);
        const std::string text = o.str(0);
        size_t pos = lb->kids.size();
        for (size_t i = 0; i < lb->kids.size(); ++i)
          if (lb->kids[i]->tag == "Label" && frame_of(lb->kids[i].get()) > f) {
            pos = i;
            break;
          }
        ptree *got = nullptr;
        AllocFault a(c, o);
        Outcome r = attempt([&] { got = &V2::Labels::add_label(w.at(lb), f, text); }, &err);
        bool fired = a.end();
        if (r != OK) {
          if (f < 0) c.rejected("negative frame");
          else if (!fired) c.fail("refused", cat("add_label(", f, "): ", err));
          w.compare("not-atomic", cat("after a failed add_label(", f, ")"));
          break;
        }
        c.check(f >= 0, "accepted", cat("add_label(", f, ") accepted"));
        Node *n = child(lb, "Label");
        n->put("frame", std::to_string(f));
        n->text = text;
        lb->kids.emplace(lb->kids.begin() + (long)pos, n);
        w.compare("document", cat("after add_label(", f, ")"));
        c.check(got == n->where, "reference", "add_label returned another element");
        c.check(V2::Label::get_frame(*got) == f && V2::Label::get_value(*got) == text, "lookup", "label does not read back");
        touched = true;
        break;
      }
      case FOREIGN: {  // another tool adds an element or a comment
        Node *par = an;
        const int where = (int)o.idx(0, 5);
        if (where == 1 || where == 2) par = cv ? cv : an;
        if (where == 3) par = key ? key : an;
        if (where == 4) par = labels.empty() ? an : labels[0];
        ptree &P = w.at(par);
        size_t pos = o.idx(2, par->kids.size() + 1);
        Node *n = child(par, o.i(3) == 0 ? "<xmlcomment>" : o.i(3) == 1 ? "Foreign" : o.i(3) == 2 ? "Keys" : "tangent");
        ptree v;
        if (o.i(3) == 0) {
          v.data() = "note";
          n->text = "note";
        } else {
          v.put("<xmlattr>.frame", 3);
          n->put("frame", "3");
        }
        auto it = P.begin();
        size_t k = 0;
        while (it != P.end()) {
          if (it->first != "<xmlattr>") {
            if (k == pos) break;
            ++k;
          }
          ++it;
        }
        P.insert(it, std::make_pair(n->tag, v));
        par->kids.emplace(par->kids.begin() + (long)pos, n);
        w.compare("harness", "after a foreign insertion");
        c.probe("foreign element");
        break;
      }
      case LOOKUP: {
        if (!cv) break;
        const int f = (int)o.i(1);
        Node *want = nullptr;
        for (Node *k : cv->all("Key"))
          if (frame_of(k) == f) want = k;
        ptree &P = w.at(cv);
        const ptree *got = nullptr, *got2 = nullptr, *got3 = nullptr;
        AllocFault a(c, o);
        Outcome r = attempt([&] {
          auto x = V2::ActuatorCurve::get_key_optional((const ptree &)P, f);
          if (x) got = &*x;
          auto y = V2::ActuatorCurve::get_key_optional(P, f);
          if (y) got2 = &*y;
        }, &err);
        bool fired = a.end();
        if (r != OK && !fired) c.fail("refused", cat("lookup of ", f, ": ", err));
        if (r == OK) {
          c.check(got == (want ? want->where : nullptr) && got2 == got, "lookup", cat("frame ", f, want ? " not found" : " found but absent"));
          Outcome q = attempt([&] { got3 = &V2::ActuatorCurve::get_key((const ptree &)P, f); });
          c.check((q == OK) == (want != nullptr) && (!want || got3 == want->where), "lookup", "get_key disagrees");
        }
        w.compare("not-atomic", "after a lookup");
        break;
      }
      case COMPLETE: {  // an author finishes the curve so that it is valid
        if (!cv) break;
        ptree &P = w.at(cv);
        Rng r((u64)o.i(1));
        auto ks = cv->all("Key");
        V2::ActuatorCurve::put_fps(P, r.range(1, 50));
        V2::ActuatorCurve::put_unit(P, Q::Unit::radian);
        for (size_t i = 0; i < ks.size(); ++i) {
          ptree &K = w.at(ks[i]);
          V2::Key::put_value<double>(K, r.uni(-1, 1));
          double d0 = i ? (double)(frame_of(ks[i]) - frame_of(ks[i - 1])) : 1, d1 = i + 1 < ks.size() ? (double)(frame_of(ks[i + 1]) - frame_of(ks[i])) : 1;
          double f0 = r.chance(0.2) ? 0 : r.chance(0.2) ? 1 : r.u(), f1 = r.chance(0.2) ? 0 : r.chance(0.2) ? 1 : r.u();
          V2::Key::put_tangent<double>(K, Q::Side::left, -d0 * f0, r.uni(-1, 1));
          V2::Key::put_tangent<double>(K, Q::Side::right, d1 * f1, r.uni(-1, 1));
        }
        w.resync();
        c.check(curve_fault(w.anim()->all("ActuatorCurve")[o.idx(0, curves.size())]).empty(), "verdict", "completed curve is not valid: tangents or values were not stored");
        c.probe("curve completed");
        touched = true;
        break;
      }
      case VERDICT: {  // damage one thing, ask for the verdict, restore
        const int what = (int)o.idx(0, 14);
        ptree *el = nullptr;
        std::string path, bad;
        if (what == 0) { el = &A; path = "typeVersion"; bad = near_miss("2.0", (int)o.i(2)); }
        else if (what == 1) { el = &A; path = "typeVersion"; bad = ""; }
        else if (what == 2 && cv) { el = &w.at(cv); path = "fps"; bad = "0"; }
        else if (what == 3 && cv) { el = &w.at(cv); path = "fps"; bad = "x"; }
        else if (what == 4 && cv) { el = &w.at(cv); path = "unit"; bad = near_miss(std::vector<std::string>{"dimensionless", "radian", "degree", "meter"}[o.idx(3, 4)], (int)o.i(2)); }
        else if (what == 5 && key) { el = &w.at(key); path = "frame"; bad = "-1"; }
        else if (what == 6 && key) { el = &w.at(key); path = "frame"; bad = "7"; }
        else if (what == 7 && key) { el = &w.at(key); path = "value"; bad = "abc"; }
        else if (what == 8 && key && tangent_of(key, "left")) { el = &w.at(tangent_of(key, "left")); path = "abscissaParam"; bad = o.i(2) % 3 == 0 ? "1e-12" : "0.001"; }
        else if (what == 9 && key && tangent_of(key, "left")) { el = &w.at(tangent_of(key, "left")); path = "abscissaParam"; bad = "-3000000000"; }
        else if (what == 10 && key && tangent_of(key, "right")) { el = &w.at(tangent_of(key, "right")); path = "abscissaParam"; bad = o.i(2) % 3 == 0 ? "-1e-12" : "-0.001"; }
        else if (what == 11 && key && tangent_of(key, "right")) { el = &w.at(tangent_of(key, "right")); path = "abscissaParam"; bad = "3000000000"; }
        else if (what == 12 && key && tangent_of(key, "right")) { el = &w.at(tangent_of(key, "right")); path = "ordinateParam"; bad = "nan?"; }
        if ((what == 9 || what == 11) && el && o.i(2) % 2) {  // on the bound, or just beyond it
          auto ks = cv->all("Key");
          for (size_t q = 0; q < ks.size(); ++q) {
            if (ks[q] != key) continue;
            long d = what == 9 ? (q ? frame_of(ks[q]) - frame_of(ks[q - 1]) : 1) : (q + 1 < ks.size() ? frame_of(ks[q + 1]) - frame_of(ks[q]) : 1);
            std::ostringstream t;
            t.precision(17);
            t << (what == 9 ? -1 : 1) * (double)d * (o.i(2) % 4 == 1 ? 1 + 1e-9 : 1);
            bad = t.str();
            c.probe("tangent on its bound");
          }
        }
        ptree saved;
        if (el) {
          saved = *el;
          el->put("<xmlattr>." + path, bad);
        }
        auto d = read("", w.root);
        Node *da = nullptr;
        for (auto &k : d->kids)
          if (k->tag == "Animation") da = k.get();
        const std::string fault = animation_fault(da);
        AllocFault a(c, o);
        Outcome r = attempt([&] { V2::Animation::check_all(A); }, &err);
        bool fired = a.end();
        if (r == OK || !fired) {
          c.check((r == OK) == fault.empty(), "verdict",
                  fault.empty() ? "valid animation refused: " + err : "invalid animation accepted: " + fault);
          c.probe(fault.empty() ? "valid verdict" : "invalid verdict");
          const std::string *v = da->attr("typeVersion");
          Outcome q = attempt([&] { V2::get_animation((const ptree &)w.root); });
          c.check((q == OK) == (v && *v == "2.0"), "verdict", "get_animation and the version disagree");
          for (Node *x : da->all("ActuatorCurve")) {
            Outcome q2 = attempt([&] { V2::ActuatorCurve::check_cubic_bezier<double>(*x->where); }, &err);
            c.check((q2 == OK) == curve_fault(x).empty(), "verdict", "check_cubic_bezier: " + (q2 == OK ? "accepted, " + curve_fault(x) : err));
          }
        }
        if (el) *el = saved;
        w.resync();  // the restored element has new children
        break;
      }
    }
    // invariants at every moment
    an = w.anim();
    if (an) {
      std::vector<std::string> seen;
      ptree &A2 = w.at(an);
      auto cs = an->all("ActuatorCurve");
      size_t ci = 0;
      u64 st = 7;
      for (const ptree &x : V2::Animation::get_actuatorcurves((const ptree &)A2)) {
        c.check(ci < cs.size() && &x == cs[ci]->where, "range", "get_actuatorcurves");
        Node *n = cs[ci++];
        if (n->attr("actuator")) {
          for (auto &s : seen) c.check(s != *n->attr("actuator"), "duplicate", "two curves for " + s);
          seen.push_back(*n->attr("actuator"));
        }
        if (const std::string *mu = n->attr("mute"))
          if (*mu == "0" || *mu == "1" || *mu == "true" || *mu == "false")
            c.check(V2::ActuatorCurve::get_mute(x) == (*mu == "1" || *mu == "true"), "value", "a curve with mute \"" + *mu + "\" is read wrong");
        auto ks = n->all("Key");
        size_t ki = 0;
        long last = -1;
        for (const ptree &k : V2::ActuatorCurve::get_keys(x)) {
          c.check(ki < ks.size() && &k == ks[ki]->where, "range", "get_keys");
          ++ki;
          int f = V2::Key::get_frame(k);
          c.check(f > last, "order", cat("key frame ", f, " after ", last));
          last = f;
          auto g = V2::ActuatorCurve::get_key_optional(x, f);
          c.check(g && &*g == &k, "lookup", cat("key ", f, " is not found"));
          for (int sd = 0; sd < 2; ++sd) {
            Node *t = tangent_of(ks[ki - 1], sd ? "right" : "left");
            auto gt = V2::Key::get_tangent_optional(k, sd ? Q::Side::right : Q::Side::left);
            c.check((gt ? &*gt : nullptr) == (t ? t->where : nullptr), "lookup", "tangent lookup");
          }
          st = mix(st, (u64)f);
        }
        c.check(ki == ks.size(), "range", "get_keys is incomplete");
        if (ks.size() > 2) c.nontrivial();
      }
      c.check(ci == cs.size(), "range", "get_actuatorcurves is incomplete");
      for (const ptree &l : V2::Animation::get_labels((const ptree &)A2)) {
        long last = -1;
        for (const ptree &x : V2::Labels::get_labels(l)) {
          int f = V2::Label::get_frame(x);
          c.check(f >= last, "order", cat("label frame ", f, " after ", last));
          last = f;
          st = mix(st, (u64)f + 1000003);
        }
        if (last > 0) c.nontrivial();
      }
      c.state(st);
      c.trace(st);
    }
  }
  (void)touched;
}
}  // namespace

Scenario sim::make_scenario() {
  Scenario s;
  s.id = "C12";
  s.rule = "3-120 edits on an animation document started empty or from text with foreign elements; non-trivial: a curve holds 3 keys or labels were placed";
  s.real = {"qianim.cpp/qianim.h editing, lookup and checking", "boost property_tree"};
  s.stub = {"global allocator (fails on request)", "the other tool that adds foreign elements"};
  s.configs = {"edits only", "bad arguments and memory faults"};
  s.fault_kinds = {"alloc-failure"};
  s.state_measure = "hash of key and label frames in document order";
  s.assumptions = {"tangent sides in the starting documents are well formed"};
  s.gen = gen;
  s.exec = exec;
  s.quick_runs = 60000;
  s.quick_secs = 25;
  return s;
}
