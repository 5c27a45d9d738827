// C04: histories of scene builders (add, copy, assign, export, failures).
#include <almath/geometrics/shapes3d.h>
#include <almath/scenegraph/colladascenebuilder.h>
#include <almath/scenegraph/mesh.h>
#include <almath/scenegraph/meshfactory.h>
#include <almath/types/altransform.h>
#include <memory>
#include "sim/colladacheck.h"
#include "sim/core.h"
using namespace sim;
using AL::ColladaSceneBuilder;
using AL::Mesh;

namespace {
enum { ADD, ADD_TEX, SHAPE, COPY, ASSIGN, EXPORT, FRESH, BIG, MANY };
const int NC = 3;

void tf_nums(Rng &r, Op &o) {
  double a = r.uni(-3.14, 3.14), b = r.uni(-1.5, 1.5);
  double ca = std::cos(a), sa = std::sin(a), cb = std::cos(b), sb = std::sin(b);
  double s = r.chance(0.2) ? r.uni(0.001, 1000) : 1;
  double m[12] = {ca * cb, -sa, ca * sb, r.uni(-5, 5) * s, sa * cb, ca, sa * sb, r.uni(-5, 5) * s, -sb, 0, cb, r.uni(-5, 5) * s};
  if (r.chance(0.2)) for (double &x : m) x = r.uni(-2, 2);
  for (double x : m) o.n.push_back((float)x);
}

Plan gen(Rng &r, int cfg) {
  Plan p;
  const bool faults = cfg == 1;
  const double af = faults ? r.uni(0, 0.35) : 0;
  const double w_copy = r.uni(0, 0.3);
  int n = r.range(3, 14);
  const u64 rare = r.below(12000);
  bool big = rare == 77, many = rare < 8;
  if (big || many) n = 3;
  for (int i = 0; i < n; ++i) {
    double c = r.range(0, NC - 1);
    Op o;
    double k = r.u();
    if (k < w_copy) {
      o = Op(r.chance(0.5) ? COPY : ASSIGN, {c, (double)r.range(0, NC - 1)});
    } else if (k < w_copy + 0.1) {
      o = Op(EXPORT, {c});
    } else if (k < w_copy + 0.17) {
      o = Op(FRESH, {c});
      for (int j = 0; j < 4; ++j) o.n.push_back(r.chance(0.25) ? (double)r.range(0, 1) : r.chance(0.1) ? (double)(float)r.uni(1, 3) : (double)(float)r.u());
      o.n.push_back(r.chance(0.8) ? r.range(0, 1) : r.range(2, 3));
    } else {
      int w = r.range(0, 9);
      int code = w < 5 ? ADD : w < 7 ? ADD_TEX : SHAPE;
      if ((big || many) && i == 1) code = big ? BIG : MANY;
      o = Op(code, {c, (double)r.range(0, 1), (double)(float)std::fabs(r.uni(0.01, 3)), (double)(float)r.uni(0.01, 3),
                    (double)(float)r.uni(0.01, 1), (double)r.below(1000000)});
      tf_nums(r, o);
    }
    if (o.code != EXPORT && o.code != BIG && o.code != MANY && r.chance(af)) {
      long k = (long)std::pow(2, r.uni(0, 9));  // spread over the whole call
      o.f.push_back(Fault{"alloc", k - 1});
    }
    p.ops.push_back(o);
  }
  return p;
}

Mesh random_mesh(u64 seed, bool tex) {
  Rng r(seed);
  Mesh m(tex);
  int np = r.range(1, 12), nn = r.range(1, 6), nt = r.range(1, 4);
  double amp = std::pow(10, r.uni(-4, 5));
  for (int i = 0; i < np; ++i) m.position((float)r.uni(-amp, amp), (float)r.uni(-amp, amp), (float)r.uni(-amp, amp));
  for (int i = 0; i < nn; ++i) {
    double a = r.uni(0, 6.28), b = std::acos(r.uni(-1, 1));
    m.normal((float)(std::sin(b) * std::cos(a)), (float)(std::sin(b) * std::sin(a)), (float)std::cos(b));
  }
  if (tex)
    for (int i = 0; i < nt; ++i) m.texCoord((float)r.u(), (float)r.u());
  int ng = r.range(0, 5);
  for (int g = 0; g < ng; ++g) {
    int mode = r.range(0, 2);
    int cnt = mode == 0 ? r.range(3, 7) : (mode == 1 ? 3 : 4) * r.range(1, 3);
    m.begin((Mesh::Mode)mode);
    for (int i = 0; i < cnt; ++i) {
      if (r.chance(0.5)) m.normal((size_t)r.below(nn));
      m.vertex((size_t)r.below(np));
    }
    m.end();
  }
  return m;
}

// A builder written by a user: it keeps what it is given.
class UserBuilder : public AL::SceneBuilder {
 public:
  explicit UserBuilder(const Config &g) : AL::SceneBuilder(g) {}
  std::vector<SceneItem> got;

 protected:
  void xAddMesh(const Mesh &mesh, const Eigen::Affine3f &tf) {
    SceneItem it;
    it.take(mesh);
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 4; ++j) it.tf[4 * i + j] = tf.matrix()(i, j);
    got.push_back(it);
  }
};

bool same_item(const SceneItem &a, const SceneItem &b) {
  if (a.pos != b.pos || a.nor != b.nor || a.ver != b.ver || a.cnt != b.cnt) return false;
  for (int i = 0; i < 12; ++i)
    if (a.tf[i] != b.tf[i]) return false;
  return true;
}

void exec(const Plan &p, Ctx &c) {
  std::unique_ptr<ColladaSceneBuilder> b[NC];
  std::unique_ptr<UserBuilder> u[NC];
  for (auto &x : u) x.reset(new UserBuilder(AL::SceneBuilder::Config()));
  SceneModel m[NC];
  for (auto &x : b) x.reset(new ColladaSceneBuilder());
  auto text = [&](size_t k) {
    std::ostringstream os;
    os << *b[k];
    if (!os) c.fail("export-stream", "export to a healthy stream failed");
    return os.str();
  };
  auto config = [&](size_t k) {
    for (const AL::SceneBuilder *q : {(const AL::SceneBuilder *)b[k].get(), (const AL::SceneBuilder *)u[k].get()}) {
      const AL::SceneBuilder::Config &g = q->getConfig();
      if (g.color.r != m[k].rgba[0] || g.color.g != m[k].rgba[1] || g.color.b != m[k].rgba[2] ||
          g.color.a != m[k].rgba[3] || g.nbArcVertices != m[k].arc)
        c.fail("scene-config", cat(q == u[k].get() ? "user builder " : "builder ", k, " configuration changed"));
    }
    if (u[k]->got.size() != m[k].items.size()) c.fail("scene-user", cat("user builder ", k, " was given ", u[k]->got.size(), " meshes of ", m[k].items.size()));
    if (!m[k].items.empty() && !same_item(u[k]->got.back(), m[k].items.back())) c.fail("scene-user", cat("user builder ", k, " was given another mesh or placement"));
  };
  auto verify = [&](size_t k, const std::string &t) {
    config(k);
    SceneReader rd;
    std::string e = rd.check(t, m[k]);
    if (!e.empty()) c.fail("scene-export", cat("builder ", k, ": ", e));
  };
  int added = 0, other = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &o = p.ops[i];
    c.op_index = (int)i;
    size_t k = o.idx(0, NC);
    SceneItem it;
    for (int j = 0; j < 12; ++j) it.tf[j] = o.flt(6 + j, (j % 5) == 0 ? 1.f : 0.f);
    Eigen::Affine3f af3(Eigen::Map<const Eigen::Matrix<float, 3, 4, Eigen::RowMajor>>(it.tf));
    AL::Math::Transform tf;
    tf.r1_c1 = it.tf[0], tf.r1_c2 = it.tf[1], tf.r1_c3 = it.tf[2], tf.r1_c4 = it.tf[3];
    tf.r2_c1 = it.tf[4], tf.r2_c2 = it.tf[5], tf.r2_c3 = it.tf[6], tf.r2_c4 = it.tf[7];
    tf.r3_c1 = it.tf[8], tf.r3_c2 = it.tf[9], tf.r3_c3 = it.tf[10], tf.r3_c4 = it.tf[11];
    const bool overload = o.i(1) != 0;
    std::string before[NC];
    bool has_fault = o.fault("alloc") >= 0;
    const bool watch = has_fault || o.code == ADD_TEX || (o.code == SHAPE && o.idx(5, 7) > 2) || o.code == COPY || o.code == ASSIGN;
    const bool all = has_fault && (i & 1);  // the uninvolved builders too
    if (watch)
      for (size_t j = 0; j < NC; ++j)
        if (all || j == k || ((o.code == ASSIGN || o.code == COPY) && j == o.idx(1, NC))) before[j] = text(j);
    Outcome r = OK;
    bool injected = false, must_fail = false;
    switch (o.code) {
      case ADD:
      case ADD_TEX: {
        Mesh mesh = random_mesh((u64)o.i(5) * 7919 + 13, o.code == ADD_TEX);
        must_fail = o.code == ADD_TEX;
        it.take(mesh);
        AllocFault f(c, o);
        AL::SceneBuilder &base = *b[k];
        r = attempt([&] {
          if (overload) base.add(mesh, tf);
          else base.add(mesh, af3);
        });
        injected = f.end();
        if (r == OK && !must_fail) static_cast<AL::SceneBuilder &>(*u[k]).add(mesh, af3);
        break;
      }
      case BIG: {
        Mesh mesh;
        mesh.normal(0, 0, 1);
        size_t last = 0;
        for (int q = 0; q < 1000003; ++q) last = mesh.position(1, 2, 3);
        mesh.begin(Mesh::TRIANGLES);
        mesh.vertex(last), mesh.vertex(last - 1), mesh.vertex((size_t)0);
        mesh.end();
        it.take(mesh);
        AL::SceneBuilder &base = *b[k];
        r = attempt([&] { base.add(mesh, af3); });
        if (r == OK) u[k]->got.push_back(it);
        c.probe("mesh with more than a million positions");
        break;
      }
      case MANY: {
        Mesh mesh;
        it.take(mesh);
        AL::SceneBuilder &base = *b[k];
        r = OK;
        for (int q = 0; q < 300 && r == OK; ++q) {
          r = attempt([&] { base.add(mesh, af3); });
          if (r != OK) break;
          u[k]->got.push_back(it);
          if (q < 299) m[k].items.push_back(it);
        }
        c.probe("hundreds of meshes in a scene");
        break;
      }
      case SHAPE: {
        float x = std::fabs(o.flt(2, 1)) + 1e-3f, y = std::fabs(o.flt(3, 1)) + 1e-3f, z = std::fabs(o.flt(4, 1)) + 1e-3f;
        int kind = (int)o.idx(5, 7);
        std::unique_ptr<AL::Math::Shape3D> s;
        int arc = m[k].arc;
        switch (kind) {
          case 0: s.reset(new AL::Math::Sphere(z)); it.take(AL::createRoundedBoxMesh(0, 0, 0, z, arc)); break;
          case 1: s.reset(new AL::Math::RoundedRectangle(x, y, z)); it.take(AL::createRoundedBoxMesh(x, y, 0, z, arc)); break;
          case 2: s.reset(new AL::Math::Pill(x, z)); it.take(AL::createRoundedBoxMesh(0, 0, x, z, arc)); break;
          case 3: s.reset(new AL::Math::Plane()); break;
          case 4: s.reset(new AL::Math::HalfSpace()); break;
          case 5: s.reset(new AL::Math::Rectangle(x, y)); break;
          default: s.reset(new AL::Math::HalfLine()); break;
        }
        must_fail = kind > 2;
        AllocFault f(c, o);
        AL::SceneBuilder &base = *b[k];
        r = attempt([&] {
          if (overload || kind > 2) base.add(*s, tf);
          else if (kind == 0) base.add(static_cast<AL::Math::Sphere &>(*s), tf);
          else if (kind == 1) base.add(static_cast<AL::Math::RoundedRectangle &>(*s), tf);
          else base.add(static_cast<AL::Math::Pill &>(*s), tf);
        });
        injected = f.end();
        if (r == OK && !must_fail) u[k]->add(*s, tf);
        break;
      }
      case COPY: {
        size_t j = o.idx(1, NC);
        std::unique_ptr<ColladaSceneBuilder> n;
        {
          AllocFault f(c, o);
          r = attempt([&] { n.reset(new ColladaSceneBuilder(*b[k])); });
          injected = f.end();
        }
        if (r == OK) {
          b[j] = std::move(n);
          std::unique_ptr<UserBuilder> un(new UserBuilder(*u[k]));
          u[j] = std::move(un);
          m[j] = m[k];
          config(j);
          if (text(j) != before[k]) c.fail("scene-copy", "a copy exports something else than the original");
          ++other;
        }
        break;
      }
      case ASSIGN: {
        size_t j = o.idx(1, NC);
        {
          AllocFault f(c, o);
          r = attempt([&] { *b[j] = *b[k]; });
          injected = f.end();
        }
        if (r == OK) {
          *u[j] = *u[k];
          m[j] = m[k];
          config(j);
          if (text(j) != before[k]) c.fail("scene-copy", "an assigned builder exports something else than the original");
          ++other;
        }
        break;
      }
      case EXPORT:
        verify(k, text(k));
        break;
      case FRESH: {
        AL::SceneBuilder::Config g;
        SceneModel nm;
        for (int j = 0; j < 4; ++j) nm.rgba[j] = o.flt(1 + j, .5f);
        g.color.r = nm.rgba[0], g.color.g = nm.rgba[1], g.color.b = nm.rgba[2], g.color.a = nm.rgba[3];
        g.nbArcVertices = nm.arc = (int)o.idx(5, 4);
        std::unique_ptr<ColladaSceneBuilder> n;
        {
          AllocFault f(c, o);
          r = attempt([&] { n.reset(new ColladaSceneBuilder(g)); });
          injected = f.end();
        }
        if (r == OK) {
          b[k] = std::move(n);
          u[k].reset(new UserBuilder(g));
          m[k] = nm;
        }
        break;
      }
    }
    if (!injected && (r == OK) == must_fail) c.fail("scene-outcome", cat("operation ", o.code, " outcome ", r));
    if (injected && r == OK && !must_fail) {
      // the allocation failure was absorbed: the result must then be complete (checked below)
      c.probe("allocation failure absorbed");
    }
    if (r == OK && (o.code == ADD || o.code == SHAPE || o.code == BIG || o.code == MANY || o.code == ADD_TEX)) {
      m[k].items.push_back(it);
      ++added;
    }
    if (r != OK) {
      c.rejected(must_fail ? "unsupported" : "no memory");
      for (size_t j = 0; j < NC; ++j)
        if (!before[j].empty() && text(j) != before[j]) c.fail("scene-failed-op", cat("a failed operation ", o.code, " changed the export of builder ", j));
      const AL::SceneBuilder::Config &g = b[k]->getConfig();
      if (g.color.r != m[k].rgba[0] || g.nbArcVertices != m[k].arc) c.fail("scene-failed-op", "a failed operation changed the configuration");
    }
    c.trace((int)r);
    c.state(mix(mix(m[0].items.size(), m[1].items.size()), mix(m[2].items.size(), (u64)o.code * 8 + (u64)r)));
  }
  c.op_index = (int)p.ops.size();
  for (size_t k = 0; k < NC; ++k) {
    std::string t = text(k);
    verify(k, t);
    c.trace(t);
  }
  if (added && other) c.nontrivial();
}
}  // namespace

namespace sim {
Scenario make_scenario() {
  Scenario s;
  s.id = "C04";
  s.rule =
      "One case is a history of up to 14 add/copy/assign/export operations on three scene builders; "
      "non-trivial when at least one mesh is added and one copy or assignment succeeds; distinct by "
      "hash of outcomes and exported texts.";
  s.real = {"AL::SceneBuilder", "AL::ColladaSceneBuilder", "AL::ColladaBuilder", "AL::Mesh", "shapes", "boost.property_tree"};
  s.stub = {"memory allocator (failures injected)"};
  s.configs = {"fault-free", "memory-faults"};
  s.fault_kinds = {"alloc-failure"};
  s.state_measure = "number of meshes in each builder x operation x outcome";
  s.assumptions = {"the XML reader of boost is trusted to read the export back"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 16;
  s.quick_runs = 24000;
  s.thorough_runs = 900000;
  s.quick_secs = 60;
  s.cpu_limit = 60;
  return s;
}
}  // namespace sim
