// C15: text output of values on shared, reformatted and failing streams, and
// conversions from and to vectors of any length.
#include <almath/tools/almathio.h>
#include <cstdio>
#include <iostream>
#include <locale>
#include <streambuf>
#include "sim/core.h"
using namespace sim;
using namespace AL::Math;

namespace {
// ---- seam: output devices ----------------------------------------------------
struct Device : std::streambuf {
  std::string got;
  long room = -1;    // bytes accepted before the failure; -1 never fails
  int kind = 0;      // 0 refuse, 1 throw, 2 refuse once then accept again
  bool sync_fails = false;
  bool broken = false, fired = false;
  bool refuse() {
    if (room < 0 || (long)got.size() < room) return false;
    if (kind == 2 && broken) return false;
    HarnessScope h;
    broken = fired = true;
    if (kind == 1) throw InjectedError();
    return true;
  }
  int_type overflow(int_type ch) override {
    HarnessScope h;
    if (traits_type::eq_int_type(ch, traits_type::eof())) return traits_type::not_eof(ch);
    if (refuse()) return traits_type::eof();
    got.push_back((char)ch);
    return ch;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    HarnessScope h;
    std::streamsize i = 0;
    for (; i < n; ++i) {
      if (refuse()) break;
      got.push_back(s[i]);
    }
    return i;
  }
  int sync() override {
    if (!sync_fails) return 0;
    fired = true;
    return -1;
  }
};
struct Comma : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
};

// ---- reference text ----------------------------------------------------------
struct Fmt {
  std::ios::fmtflags flags;
  std::streamsize prec;
  bool comma;
};
std::string number(float v, const Fmt &f) {
  char buf[600];
  const std::ios::fmtflags ff = f.flags & std::ios::floatfield;
  const bool up = f.flags & std::ios::uppercase;
  if (ff == std::ios::floatfield) snprintf(buf, sizeof buf, up ? "%+#A" : "%+#a", (double)v);
  else if (ff == std::ios::fixed) snprintf(buf, sizeof buf, "%+#.*f", (int)f.prec, (double)v);  // as libstdc++ does
  else if (ff == std::ios::scientific) snprintf(buf, sizeof buf, up ? "%+#.*E" : "%+#.*e", (int)f.prec, (double)v);
  else snprintf(buf, sizeof buf, up ? "%+#.*G" : "%+#.*g", (int)f.prec, (double)v);
  std::string s = buf;
  if (f.comma)
    for (char &c : s)
      if (c == '.') c = ',';
  return s;
}
enum { T_POSE2D, T_POS2D, T_POS3D, T_POS6D, T_PAV, T_ROT, T_ROT3D, T_TF, T_TFV, T_QUAT, T_VEL3D, T_VEL6D, N_TYPES };
const int comps[] = {3, 2, 3, 6, 2, 9, 3, 12, 18, 4, 3, 6};
const char *const tname[] = {"Pose2D", "Position2D", "Position3D", "Position6D", "PositionAndVelocity", "Rotation",
                             "Rotation3D", "Transform", "TransformAndVelocity6D", "Quaternion", "Velocity3D", "Velocity6D"};
// pieces of text in front of each component, then the end
std::vector<std::string> pieces(int t) {
  switch (t) {
    case T_POSE2D: return {"{x: ", ", y:", ", theta:", "}"};
    case T_POS2D: return {"{x: ", ", y:", "}"};
    case T_POS3D: return {"{x: ", ", y:", ", z:", "}"};
    case T_POS6D: return {"{x: ", ", y: ", ", z: ", ", wx: ", ", wy: ", ", wz: ", "}"};
    case T_PAV: return {"{q: ", ", dq: ", "}"};
    case T_ROT: return {"", " ", " ", "\n", " ", " ", "\n", " ", " ", "\n"};
    case T_ROT3D: return {"{wx: ", " ,wy: ", " ,wz: ", "}"};
    case T_TF: return {"", " ", " ", " ", "\n", " ", " ", " ", "\n", " ", " ", " ", "\n0.0 0.0 0.0 1.0\n"};
    case T_TFV:
      return {"", " ", " ", " ", "\n", " ", " ", " ", "\n", " ", " ", " ", "\n0.0 0.0 0.0 1.0\n{xd: ", " ,yd: ", " ,zd: ",
              " ,wxd: ", " ,wyd: ", " ,wzd: ", "}"};
    case T_QUAT: return {"{w: ", ", x:", ", y:", ", z:", "}"};
    case T_VEL3D: return {"{xd: ", ", yd:", ", zd:", "}"};
    default: return {"{xd: ", " ,yd: ", " ,zd: ", " ,wxd: ", " ,wyd: ", " ,wzd: ", "}"};
  }
}
std::string text_of(int t, const float *v, const Fmt &f, std::streamsize width, char fill) {
  auto p = pieces(t);
  std::string s;
  bool first = true;
  for (int i = 0; i <= comps[t]; ++i) {
    std::vector<std::string> two = {p[i]};
    if (i < comps[t]) two.push_back(number(v[i], f));
    for (auto &x : two) {
      if (x.empty()) continue;
      s += x;
      if (first && (std::streamsize)x.size() < width) s.append((size_t)width - x.size(), fill);
      first = false;
    }
  }
  return s;
}
Transform tf_of(const float *v) {
  Transform t;
  t.r1_c1 = v[0]; t.r1_c2 = v[1]; t.r1_c3 = v[2]; t.r1_c4 = v[3];
  t.r2_c1 = v[4]; t.r2_c2 = v[5]; t.r2_c3 = v[6]; t.r2_c4 = v[7];
  t.r3_c1 = v[8]; t.r3_c2 = v[9]; t.r3_c3 = v[10]; t.r3_c4 = v[11];
  return t;
}
Velocity6D v6_of(const float *v) { return Velocity6D(v[0], v[1], v[2], v[3], v[4], v[5]); }
Rotation rot_of(const float *v) {
  Rotation r;
  r.r1_c1 = v[0]; r.r1_c2 = v[1]; r.r1_c3 = v[2];
  r.r2_c1 = v[3]; r.r2_c2 = v[4]; r.r2_c3 = v[5];
  r.r3_c1 = v[6]; r.r3_c2 = v[7]; r.r3_c3 = v[8];
  return r;
}
void print(std::ostream &o, int t, const float *v) {
  std::ostream *back = nullptr;
  switch (t) {
    case T_POSE2D: back = &(o << Pose2D(v[0], v[1], v[2])); break;
    case T_POS2D: back = &(o << Position2D(v[0], v[1])); break;
    case T_POS3D: back = &(o << Position3D(v[0], v[1], v[2])); break;
    case T_POS6D: back = &(o << Position6D(v[0], v[1], v[2], v[3], v[4], v[5])); break;
    case T_PAV: back = &(o << PositionAndVelocity(v[0], v[1])); break;
    case T_ROT: back = &(o << rot_of(v)); break;
    case T_ROT3D: back = &(o << Rotation3D(v[0], v[1], v[2])); break;
    case T_TF: back = &(o << tf_of(v)); break;
    case T_TFV: {
      TransformAndVelocity6D x;
      x.T = tf_of(v);
      x.V = v6_of(v + 12);
      back = &(o << x);
      break;
    }
    case T_QUAT: back = &(o << Quaternion(v[0], v[1], v[2], v[3])); break;
    case T_VEL3D: back = &(o << Velocity3D(v[0], v[1], v[2])); break;
    default: back = &(o << v6_of(v)); break;
  }
  if (back != &o) throw std::logic_error("another stream was returned");
}
std::string spaced(int t, const float *v, bool &has) {
  has = true;
  switch (t) {
    case T_POS3D: return toSpaceSeparated(Position3D(v[0], v[1], v[2]));
    case T_POS6D: return toSpaceSeparated(Position6D(v[0], v[1], v[2], v[3], v[4], v[5]));
    case T_ROT3D: return toSpaceSeparated(Rotation3D(v[0], v[1], v[2]));
    case T_TF: return toSpaceSeparated(tf_of(v));
    case T_QUAT: return toSpaceSeparated(Quaternion(v[0], v[1], v[2], v[3]));
    case T_VEL6D: return toSpaceSeparated(v6_of(v));
  }
  has = false;
  return "";
}

// ---- plan --------------------------------------------------------------------
enum { PRINT = 1, MANIP, STRING, VECTOR, DEVICE, REPAIR, USER, MARK };
float component(Rng &r) {
  double k = r.u();
  if (k < 0.3) return (float)(r.range(-40, 40) / 8.0);
  if (k < 0.8) return (float)r.uni(-10, 10);
  if (k < 0.95) return (float)(r.uni(-1, 1) * std::pow(10.0, r.range(-38, 38)));
  static const float s[] = {0.f, -0.f, INFINITY, -INFINITY, NAN, 1e-45f, 3.4e38f};
  return r.pick(s);
}
Plan gen(Rng &r, int cfg) {
  Plan p;
  p.set("mask", cfg == 1 ? r.range(0, 2) : 0);
  int n = r.range(2, 25);
  for (int i = 0; i < n; ++i) {
    double k = r.u();
    Op o;
    if (k < 0.45) {
      o = Op(PRINT, {(double)r.below(N_TYPES)});
      for (int j = 0; j < 18; ++j) o.n.push_back(component(r));
    } else if (k < 0.62) o = Op(MANIP, {(double)r.below(19), (double)r.below(20)});
    else if (k < 0.70) {
      o = Op(STRING, {(double)r.below(N_TYPES)});
      for (int j = 0; j < 18; ++j) o.n.push_back(component(r));
      if (cfg == 1 && r.chance(0.5)) o.f.push_back(Fault{"alloc", (long)r.below(8)});
    } else if (k < 0.90) {
      const int t = (int)r.below(N_TYPES);
      double len = r.chance(0.5) ? comps[t] : r.chance(0.3) ? 12 + 4 * (double)r.below(2) : (double)r.below(20);
      o = Op(VECTOR, {(double)t, len, (double)r.below(1000000), (double)r.below(20)});
      if (cfg == 1 && r.chance(0.3)) o.f.push_back(Fault{"alloc", (long)r.below(4)});
    } else if (k < 0.95 && cfg == 1) o = Op(DEVICE, {(double)r.below(160), (double)r.below(3), (double)r.chance(0.2)});
    else if (k < 0.965) o = Op(MARK, {(double)r.below(3)});
    else if (k < 0.985) o = Op(REPAIR);
    else o = Op(USER, {component(r)});
    p.ops.push_back(o);
  }
  return p;
}
struct Quiet {  // warnings go to a device of the simulation
  Device d;
  std::streambuf *e, *o;
  Quiet() : e(nullptr), o(nullptr) {
    if (sim::g_shared_process) return;
    e = std::cerr.rdbuf(&d);
    o = std::cout.rdbuf(&d);
  }
  ~Quiet() {
    if (!e) return;
    std::cerr.rdbuf(e);
    std::cout.rdbuf(o);
    std::cerr.clear();
    std::cout.clear();
  }
};

template <class T>
void vec_check(Ctx &c, const Op &o, int t, const std::vector<float> &in, const std::vector<float> &want, bool near_only) {
  const std::string who = cat(tname[t], " from ", in.size(), " floats");
  std::vector<float> out, dirty((size_t)o.i(3) % 20, 7.f);
  const std::vector<float> before = dirty;
  AllocFault a(c, o);
  Outcome r = attempt([&] {
    T x(in);
    out = x.toVector();
    x.toVector(dirty);
  });
  bool fired = a.end();
  if (r == NOMEM && fired) {
    c.check(dirty == before || dirty.size() == want.size(), "vector", who + ": output vector damaged for lack of memory");
    return;
  }
  c.check(r == OK, "vector", who + ": exception");
  auto same = [&](const std::vector<float> &v) {
    if (v.size() != want.size()) return false;
    for (size_t i = 0; i < v.size(); ++i)
      if (near_only ? !close(v[i], want[i], 1e-5) : !same_bits(v[i], want[i]) && !(std::isnan(v[i]) && std::isnan(want[i]))) return false;
    return true;
  };
  auto show = [](const std::vector<float> &v) {
    std::string s;
    for (float x : v) s += cat(x, " ");
    return s;
  };
  c.check(same(out), "vector", who + ": toVector gives " + show(out) + ", expected " + show(want));
  c.check(same(dirty), "vector", who + ": toVector(v) gives " + show(dirty) + ", expected " + show(want));
}
template <class T>
void write_check(Ctx &c, int t, const std::vector<float> &in, const std::vector<float> &want) {
  T x(in);
  std::vector<float> big(want.size() + 6, 5.f);
  auto it = big.begin() + 3;
  x.writeToVector(it);
  c.check(it == big.begin() + 3 + (long)want.size(), "vector", cat(tname[t], "::writeToVector moved the iterator by ", it - big.begin() - 3));
  for (size_t i = 0; i < big.size(); ++i) {
    const bool in_range = i >= 3 && i < 3 + want.size();
    float w = in_range ? want[i - 3] : 5.f;
    c.check(same_bits(big[i], w) || (std::isnan(w) && std::isnan(big[i])), "vector", cat(tname[t], "::writeToVector wrote ", big[i], " at ", i));
  }
}

void exec(const Plan &p, Ctx &c) {
  Quiet quiet;
  Device dev;
  std::ostream os(&dev);
  const int mask = (int)p.knob("mask") % 3;
  bool comma = false;
  if (mask == 1) os.exceptions(std::ios::badbit);
  if (mask == 2) os.exceptions(std::ios::badbit | std::ios::failbit);
  size_t checked = 0;
  for (size_t oi = 0; oi < p.ops.size(); ++oi) {
    const Op &o = p.ops[oi];
    c.op_index = (int)oi;
    c.trace(o.code);
    float v[18];
    for (int i = 0; i < 18; ++i) v[i] = o.flt((size_t)i + 1);
    const std::ios::fmtflags f0 = os.flags();
    const std::streamsize p0 = os.precision(), w0 = os.width();
    const char fill0 = os.fill();
    const bool good0 = os.good();
    const std::ios::iostate state0 = os.rdstate();
    switch (o.code) {
      case MANIP:
        switch (o.idx(0, 19)) {
          case 0: os.precision(o.i(1)); break;
          case 1: os.setf(std::ios::fixed, std::ios::floatfield); break;
          case 2: os.setf(std::ios::scientific, std::ios::floatfield); break;
          case 3: os.setf(std::ios::fixed | std::ios::scientific, std::ios::floatfield); break;
          case 4: os.unsetf(std::ios::floatfield); break;
          case 5: os.setf(std::ios::uppercase); break;
          case 6: os.unsetf(std::ios::uppercase); break;
          case 7: os.setf(std::ios::right, std::ios::adjustfield); break;
          case 8: os.setf(std::ios::internal, std::ios::adjustfield); break;
          case 9: os.setf(std::ios::left, std::ios::adjustfield); break;
          case 10: os.width(o.i(1)); break;
          case 11: os.fill("*.0 "[o.idx(1, 4)]); break;
          case 12: os.setf(std::ios::showpos); break;
          case 13: os.unsetf(std::ios::showpos | std::ios::showpoint); break;
          case 14: os.setf(std::ios::hex, std::ios::basefield); break;
          case 15: os.setf(std::ios::boolalpha | std::ios::showbase); break;
          case 16: os.flags(std::ios::skipws | std::ios::dec); break;
          case 17: os.setf(std::ios::showpoint); break;
          case 18:
            comma = o.i(1) % 2;
            os.imbue(comma ? std::locale(std::locale::classic(), new Comma) : std::locale::classic());
            break;
        }
        break;
      case DEVICE:
        dev.room = (long)dev.got.size() + o.i(0);
        dev.kind = (int)o.idx(1, 3);
        dev.sync_fails = o.i(2);
        dev.broken = false;
        break;
      case REPAIR:
        dev.room = -1;
        dev.sync_fails = false;
        dev.broken = false;
        os.clear();
        break;
      case MARK: {  // the user of the stream declares a failure
        Outcome r = attempt([&] { os.setstate(std::vector<std::ios::iostate>{std::ios::failbit, std::ios::eofbit, std::ios::badbit}[o.idx(0, 3)]); });
        (void)r;
        c.probe("stream marked as failed by its user");
        break;
      }
      case USER: {
        Outcome r = attempt([&] { os << o.flt(0) << ' ' << 42 << '\n'; });
        (void)r;
        break;
      }
      case PRINT: {
        const int t = (int)o.idx(0, N_TYPES);
        Fmt f = {f0, p0, comma};
        const std::string want = text_of(t, v, f, w0, fill0);
        const size_t start = dev.got.size();
        dev.fired = false;
        std::string err;
        Outcome r = attempt([&] { print(os, t, v); }, &err);
        const std::string got = dev.got.substr(start);
        if (dev.fired) c.fired(dev.kind == 1 ? "device-throws" : dev.sync_fails ? "device-flush-fails" : dev.kind == 2 ? "device-refuses-once" : "device-refuses");
        if (r == THROWN && err.find("another stream") != std::string::npos) c.fail("stream", err);
        if (good0 && r == OK && os.good()) {
          c.check(got == want, "text", cat(tname[t], " printed as\n", got, "\nexpected\n", want));
          c.check(os.width() == 0, "format", cat(tname[t], ": width is ", os.width(), " afterwards"));
          ++checked;
          c.state(mix((u64)t, (u64)f0));
          if (f0 & std::ios::floatfield) c.nontrivial();
        } else {
          c.check(good0 ? dev.fired : true, "stream", cat(tname[t], ": the stream failed without reason ", err));
          c.check(want.compare(0, got.size(), got) == 0, "text", cat(tname[t], " on a failing stream printed\n", got, "\nwhich does not start\n", want));
          c.check(!good0 ? got.empty() : true, "text", "output to a failed stream");
          c.check((os.rdstate() & state0) == state0 && !os.good(), "stream", cat(tname[t], ": the failure of the stream was forgotten"));
          c.nontrivial();
          c.probe("print on failing stream");
        }
        if (good0 && dev.fired && mask) c.check(r != OK, "stream", "the failure was not reported by an exception");
        c.check(os.flags() == f0, "format", cat(tname[t], " left flags ", (long)os.flags(), " instead of ", (long)f0));
        c.check(os.precision() == p0 && os.fill() == fill0, "format", cat(tname[t], " changed precision or fill"));
        break;
      }
      case STRING: {
        const int t = (int)o.idx(0, N_TYPES);
        bool has = false;
        std::string got;
        AllocFault a(c, o);
        Outcome r = attempt([&] { got = spaced(t, v, has); });
        bool fired = a.end();
        if (r == OK && has) {
          Fmt f = {std::ios::skipws | std::ios::dec, 6, false};
          const std::string want = text_of(t, v, f, 0, ' ');
          c.check(got == want, "text", cat("toSpaceSeparated(", tname[t], ") is\n", got, "\nexpected\n", want));
          ++checked;
        }
        c.check(r == OK || fired, "text", "toSpaceSeparated threw");
        break;
      }
      case VECTOR: {
        const int t = (int)o.idx(0, N_TYPES);
        if (t == T_PAV || t == T_TFV) {
          if (t == T_PAV) {
            Rng r((u64)o.i(2));
            PositionAndVelocity x(component(r), component(r));
            std::vector<float> d((size_t)o.i(3) % 9, 3.f), w = {x.q, x.dq};
            x.toVector(d);
            auto e = x.toVector();
            c.check(d.size() == 2 && e.size() == 2 && same_bits(d[0], x.q) && same_bits(d[1], x.dq) && same_bits(e[0], x.q) && same_bits(e[1], x.dq),
                    "vector", "PositionAndVelocity::toVector");
          }
          break;
        }
        Rng r((u64)o.i(2));
        size_t len = o.idx(1, 20);
        std::vector<float> in;
        for (size_t i = 0; i < len; ++i) in.push_back(component(r));
        if (t == T_TF && (len == 12 || len == 16)) {
          // a rigid transform, possibly with a rotation part far from rigid
          double a = r.uni(-3, 3), b = r.uni(-3, 3);
          double R[9] = {std::cos(a), -std::sin(a) * std::cos(b), std::sin(a) * std::sin(b), std::sin(a), std::cos(a) * std::cos(b),
                         -std::cos(a) * std::sin(b), 0, std::sin(b), std::cos(b)};
          for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) in[(size_t)(4 * i + j)] = (float)R[3 * i + j];
          for (int i = 0; i < 3; ++i) in[(size_t)(4 * i + 3)] = (float)r.uni(-5, 5);
          if (r.chance(0.4)) {
            const float s = (float)r.uni(1.05, 3);
            for (int i = 0; i < 3; ++i)
              for (int j = 0; j < 3; ++j) in[(size_t)(4 * i + j)] *= s;
            c.probe("scaled rotation part");
          }
          std::vector<float> want;
          for (int i = 0; i < 3; ++i) {
            for (int j = 0; j < 3; ++j) want.push_back((float)R[3 * i + j]);
            want.push_back(in[(size_t)(4 * i + 3)]);
          }
          for (float x : {0.f, 0.f, 0.f, 1.f}) want.push_back(x);
          vec_check<Transform>(c, o, t, in, want, true);
          float det = determinant(in);
          double m = in[0] / (R[0] == 0 ? 1 : R[0]);
          if (std::fabs(R[0]) > 0.1) c.check(close(det, m * m * m, 1e-3 * (1 + std::fabs(m * m * m))), "vector", cat("determinant ", det, " expected ", m * m * m));
          auto w2 = transformToFloatVector(Transform(in));
          c.check(w2.size() == 12 && close(w2[7], want[7], 1e-5) && close(w2[8], want[8], 1e-5), "vector", "transformToFloatVector");
          ++checked;
          break;
        }
        std::vector<float> want;
        const bool right = (int)len == comps[t] || (t == T_ROT && (len == 12 || len == 16));
        if (right) {
          if (t == T_ROT && len != 9)
            for (int i = 0; i < 3; ++i)
              for (int j = 0; j < 3; ++j) want.push_back(in[(size_t)(4 * i + j)]);
          else
            want = in;
        } else {
          c.rejected("vector size");
          want.assign((size_t)(t == T_TF ? 16 : comps[t]), 0.f);
          if (t == T_QUAT) want[0] = 1;
          if (t == T_ROT) want[0] = want[4] = want[8] = 1;
          if (t == T_TF) want[0] = want[5] = want[10] = want[15] = 1;
        }
        switch (t) {
          case T_POSE2D: vec_check<Pose2D>(c, o, t, in, want, false); write_check<Pose2D>(c, t, in, want); break;
          case T_POS2D: vec_check<Position2D>(c, o, t, in, want, false); write_check<Position2D>(c, t, in, want); break;
          case T_POS3D: vec_check<Position3D>(c, o, t, in, want, false); write_check<Position3D>(c, t, in, want); break;
          case T_POS6D: vec_check<Position6D>(c, o, t, in, want, false); write_check<Position6D>(c, t, in, want); break;
          case T_ROT: vec_check<Rotation>(c, o, t, in, want, false); break;
          case T_ROT3D: vec_check<Rotation3D>(c, o, t, in, want, false); break;
          case T_TF: vec_check<Transform>(c, o, t, in, want, false); write_check<Transform>(c, t, in, want); break;
          case T_QUAT: vec_check<Quaternion>(c, o, t, in, want, false); break;
          case T_VEL3D: vec_check<Velocity3D>(c, o, t, in, want, false); write_check<Velocity3D>(c, t, in, want); break;
          case T_VEL6D: vec_check<Velocity6D>(c, o, t, in, want, false); write_check<Velocity6D>(c, t, in, want); break;
        }
        ++checked;
        break;
      }
    }
    if (o.code != PRINT && o.code != MANIP && o.code != USER)
      c.check(os.flags() == f0 && os.precision() == p0 && os.width() == w0, "format", "an unrelated stream was reformatted");
    c.check((std::cerr.flags() & ~std::ios::unitbuf) == (std::ios::skipws | std::ios::dec), "format", "std::cerr was reformatted");
    c.trace((u64)dev.got.size());
  }
  c.trace(dev.got);
  if (checked > 3) c.nontrivial();
}
}  // namespace

Scenario sim::make_scenario() {
  Scenario s;
  s.id = "C15";
  s.rule = "2-25 prints, stream manipulations, device failures, vector conversions on one shared stream; non-trivial: more than 3 values compared or a print met a failure";
  s.real = {"almathio.cpp printers", "vector constructors and conversions of almath/types", "libstdc++ streams"};
  s.stub = {"output device (accepts, refuses, throws, refuses once, fails to flush)", "global allocator (fails on request)", "std::cerr's device"};
  s.configs = {"healthy devices", "failing devices and memory"};
  s.fault_kinds = {"device-refuses", "device-throws", "device-refuses-once", "device-flush-fails", "alloc-failure"};
  s.state_measure = "(type printed, stream format flags)";
  s.assumptions = {"wrong-size default: identity for Quaternion, Rotation, Transform, zero otherwise"};
  s.gen = gen;
  s.exec = exec;
  s.quick_runs = 300000;
  s.quick_secs = 20;
  return s;
}
