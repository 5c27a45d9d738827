// C03: mesh construction protocol under misuse and allocation failures.
#include <almath/scenegraph/mesh.h>
#include <almath/scenegraph/meshfactory.h>
#include <algorithm>
#include <map>
#include <memory>
#include "sim/core.h"
#include "sim/meshmodel.h"
using namespace sim;
using AL::Mesh;

namespace {
enum { POSITION, NORMAL, NORMAL_I, TEX, TEX_I, BEGIN, VERTEX_I, VERTEX_XYZ, END, COPY, BOX, RBOX, FRESH };
const int NC = 3;

Plan gen(Rng &r, int cfg) {
  Plan p;
  const bool faults = cfg == 1;
  const double misuse = faults ? r.uni(0, 0.25) : r.uni(0, 0.05);
  const double allocf = faults ? r.uni(0, 0.25) : 0;
  const double factory = r.chance(0.4) ? r.uni(0, 0.12) : 0;
  p.set("tex", (double)r.below(8));
  int n = r.range(5, 90);
  struct Sim {
    int pos = 0, nor = 0, tex = 0, mode = -1, cnt = 0;
  } st[NC];
  double focus = r.chance(0.5) ? r.range(0, NC - 1) : -1;
  for (int i = 0; i < n; ++i) {
    int c = focus >= 0 && r.chance(0.85) ? (int)focus : r.range(0, NC - 1);
    Sim &s = st[c];
    Op o;
    auto v3 = [&] {
      return std::vector<double>{(double)c, (double)(float)r.uni(-2, 2), (double)(float)r.uni(-2, 2),
                                 (double)(float)r.uni(-2, 2)};
    };
    double k = r.u();
    if (k < misuse) {
      int w = r.range(0, 8);
      switch (w) {
        case 0: o = Op(NORMAL_I, {(double)c, (double)(s.nor + r.range(0, 2))}); break;
        case 1: o = Op(TEX_I, {(double)c, (double)(s.tex + r.range(0, 2))}); break;
        case 2: o = Op(VERTEX_I, {(double)c, (double)(s.pos + r.range(0, 2))}); break;
        case 3: o = Op(BEGIN, {(double)c, (double)r.range(0, 2)}); break;
        case 4: o = Op(END, {(double)c}); s.mode = -1; break;
        case 5: o = Op(VERTEX_XYZ, v3()); break;
        case 6: o = Op(VERTEX_I, {(double)c, -1.0}); break;
        case 7: o = Op(NORMAL_I, {(double)c, -1.0}); break;
        default: o = Op(VERTEX_I, {(double)c, 0.0}); break;
      }
    } else if (r.chance(factory)) {
      if (r.chance(0.4))
        o = Op(BOX, {(double)c, (double)(float)r.uni(0, 2), (double)(float)r.uni(0, 2), (double)(float)r.uni(0, 2), 0., 0., (double)r.below(2)});
      else {
        o = Op(RBOX, {(double)c});
        for (int j = 0; j < 3; ++j) o.n.push_back(r.chance(0.35) ? 0.0 : (double)(float)r.uni(0.01, 2));
        o.n.push_back(r.chance(0.1) ? 0.0 : (double)(float)r.uni(0.01, 1));
        o.n.push_back(r.range(0, 3));
        o.n.push_back((double)r.below(2));
      }
      if (r.chance(0.4)) {  // some sides much shorter than others, other sizes
        double size = std::pow(10, r.uni(-3, 3));
        for (int j = 1; j <= 4; ++j)
          o.n[j] = (double)(float)(o.n[j] * size * (r.chance(0.4) ? std::pow(10, r.uni(-5, 0)) : 1));
      }
      s.pos += 8;
      s.nor += 6;
    } else if (s.mode < 0 && r.chance(0.25)) {
      o = Op(BEGIN, {(double)c, (double)(s.mode = r.range(0, 2))});
      s.cnt = 0;
    } else if (s.mode >= 0 && s.cnt > 2 && r.chance(0.25)) {
      o = Op(END, {(double)c});
      int m = s.mode == 1 ? 3 : s.mode == 2 ? 4 : 1;
      if (s.cnt % m == 0) s.mode = -1;
    } else if (s.mode >= 0 && r.chance(0.6)) {
      if (s.pos && r.chance(0.6))
        o = Op(VERTEX_I, {(double)c, (double)r.below(s.pos)});
      else {
        o = Op(VERTEX_XYZ, v3());
        ++s.pos;
      }
      ++s.cnt;
    } else {
      int w = r.range(0, 9);
      if (w < 3) {
        o = Op(POSITION, v3());
        ++s.pos;
      } else if (w < 5) {
        double a = r.uni(0, 6.28), b = std::acos(r.uni(-1, 1));
        o = Op(NORMAL, {(double)c, (double)(float)(std::sin(b) * std::cos(a)),
                        (double)(float)(std::sin(b) * std::sin(a)), (double)(float)std::cos(b)});
        ++s.nor;
      } else if (w < 6 && s.nor)
        o = Op(NORMAL_I, {(double)c, (double)r.below(s.nor)});
      else if (w < 8) {
        o = Op(TEX, {(double)c, (double)(float)r.u(), (double)(float)r.u()});
        ++s.tex;
      } else if (w < 9 && s.tex)
        o = Op(TEX_I, {(double)c, (double)r.below(s.tex)});
      else if (r.chance(0.3))
        o = Op(COPY, {(double)c, (double)r.range(0, NC - 1)});
      else {
        o = Op(POSITION, v3());
        ++s.pos;
      }
    }
    if (r.chance(allocf))
      o.f.push_back(Fault{"alloc", (long)(o.code >= BOX ? r.below(40) : r.below(2))});
    p.ops.push_back(o);
  }
  return p;
}

void exec(const Plan &p, Ctx &c) {
  std::unique_ptr<Mesh> m[NC];
  MeshModel mm[NC];
  int tex = (int)p.knob("tex");
  auto fresh = [&](size_t k) {
    bool t = (tex >> k) & 1;
    m[k].reset(new Mesh(t));
    mm[k] = MeshModel(t);
  };
  for (size_t k = 0; k < NC; ++k) fresh(k);
  int accepted = 0, rejected = 0;
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op &o = p.ops[i];
    c.op_index = (int)i;
    size_t k = o.idx(0, NC);
    Mesh &M = *m[k];
    MeshModel &X = mm[k];
    size_t idx = o.i(1) < 0 ? Mesh::NO_INDEX : (size_t)o.i(1);
    float x = o.flt(1), y = o.flt(2), z = o.flt(3);
    if (o.code == NORMAL) {
      double l = std::sqrt((double)x * x + (double)y * y + (double)z * z);
      if (!(l > 0.5 && l < 2)) x = 0, y = 0, z = 1, l = 1;
      x = (float)(x / l), y = (float)(y / l), z = (float)(z / l);
    }
    bool has_ret = false;
    size_t ret = 0;
    Outcome r = OK;
    const char *why = X.refuses(o.code == NORMAL_I   ? MeshModel::NORMAL_I
                                : o.code == TEX_I    ? MeshModel::TEX_I
                                : o.code == BEGIN    ? MeshModel::BEGIN
                                : o.code == VERTEX_I ? MeshModel::VERTEX_I
                                : o.code == VERTEX_XYZ ? MeshModel::VERTEX_XYZ
                                : o.code == END      ? MeshModel::END
                                                     : MeshModel::OTHER,
                                idx);
    bool injected = false;
    if (o.code == BOX || o.code == RBOX) {
      std::vector<float> op = M.positions(), on = M.normals(), ot = M.texCoords();
      std::vector<size_t> ov = M.vertices(), oc = M.polygonVerticesCounts();
      float e[3] = {std::fabs(o.flt(1, 1)), std::fabs(o.flt(2, 1)), std::fabs(o.flt(3, 1))};
      float rad = o.code == BOX ? 0.f : std::fabs(o.flt(4));
      int arc = (int)o.idx(5, 5);
      {
        AllocFault af(c, o);
        r = attempt([&] {
          bool fresh = !X.tex && op.empty() && on.empty() && ot.empty() && ov.empty() && X.mode < 0 && o.idx(6, 2);
          if (fresh) M = o.code == BOX ? AL::createBoxMesh(e[0], e[1], e[2]) : AL::createRoundedBoxMesh(e[0], e[1], e[2], rad, arc);
          else if (o.code == BOX) AL::addBoxMesh(e[0], e[1], e[2], M);
          else AL::addRoundedBoxMesh(e[0], e[1], e[2], rad, arc, M);
        });
        injected = af.end();
      }
      bool should_fail = X.mode >= 0 || (X.tex && X.cur_tex == Mesh::NO_INDEX);
      if (!injected && (r == OK) == should_fail)
        c.fail("factory-outcome", cat("factory outcome ", r, " in a mesh ", should_fail ? "that cannot take it" : "that can take it"));
      // what was there is still there
      if (M.positions().size() < op.size() || !std::equal(op.begin(), op.end(), M.positions().begin()) ||
          M.normals().size() < on.size() || !std::equal(on.begin(), on.end(), M.normals().begin()) ||
          M.vertices().size() < ov.size() || !std::equal(ov.begin(), ov.end(), M.vertices().begin()) ||
          M.polygonVerticesCounts().size() < oc.size() ||
          !std::equal(oc.begin(), oc.end(), M.polygonVerticesCounts().begin()) || M.texCoords() != ot)
        c.fail("factory-altered-mesh", "the factory changed existing data");
      std::string bad = mesh_references_ok(M);
      if (!bad.empty()) c.fail("mesh-reference", bad);
      if (r == OK) {
        c.probe(o.code == BOX || rad == 0 ? "box appended" : "rounded box appended");
        bad = surface_ok(M, op.size() / 3, on.size() / 3, oc.size(), ov.size(), e, rad);
        if (!bad.empty()) c.fail("factory-surface", cat(bad, " (extents ", e[0], " ", e[1], " ", e[2], " radius ", rad, " arc ", arc, ")"));
        X.sync(M);
        M.normal(M.normalsNb() - 1);
        X.cur_norm = M.normalsNb() - 1;
        ++accepted;
      } else
        fresh(k);
      c.trace((u64)m[k]->verticesNb());
      continue;
    }
    if (o.code == COPY) {
      size_t j = o.idx(1, NC);
      if (j != k) {
        m[j].reset(new Mesh(M));
        mm[j] = X;
      }
      continue;
    }
    if (o.code == FRESH) {
      fresh(k);
      continue;
    }
    {
      AllocFault af(c, o);
      r = attempt([&] {
        switch (o.code) {
          case POSITION: ret = M.position(x, y, z); has_ret = true; break;
          case NORMAL: ret = M.normal(x, y, z); has_ret = true; break;
          case NORMAL_I: M.normal(idx); break;
          case TEX: ret = M.texCoord(x, y); has_ret = true; break;
          case TEX_I: M.texCoord(idx); break;
          case BEGIN: M.begin((Mesh::Mode)o.idx(1, 3)); break;
          case VERTEX_I: M.vertex(idx); break;
          case VERTEX_XYZ: M.vertex(x, y, z); break;
          case END: M.end(); break;
        }
      });
      injected = af.end();
    }
    c.trace((int)r);
    if (!injected && (r == OK) != (why == nullptr))
      c.fail("mesh-protocol", cat("call ", o.code, " outcome ", r, why ? cat(", should be rejected: ", why) : std::string(", should be accepted")));
    if (injected && why == nullptr && r == OK) c.fail("mesh-swallowed-failure", "an allocation failure was swallowed");
    if (r == OK) {
      ++accepted;
      size_t want = 0;
      switch (o.code) {
        case POSITION: want = X.position(x, y, z); break;
        case NORMAL: want = X.normal(x, y, z); break;
        case NORMAL_I: X.cur_norm = idx; break;
        case TEX: want = X.texcoord(x, y); break;
        case TEX_I: X.cur_tex = idx; break;
        case BEGIN: X.mode = (int)o.idx(1, 3); X.count = 0; break;
        case VERTEX_I: X.vertex(idx); break;
        case VERTEX_XYZ: X.vertex(X.position(x, y, z)); break;
        case END: X.end(); break;
      }
      if (has_ret && ret != want) c.fail("mesh-index", cat("returned index ", ret, " expected ", want));
    } else {
      ++rejected;
      c.rejected(why ? "out of protocol" : "no memory");
    }
    std::string d = X.diff(M);
    if (!d.empty()) c.fail("mesh-content", cat("after call ", o.code, " (outcome ", r, "): ", d));
    std::string bad = mesh_references_ok(M);
    if (!bad.empty()) c.fail("mesh-reference", bad);
    if (X.mode < 0) {
      size_t sum = 0;
      for (size_t v : M.polygonVerticesCounts()) sum += v;
      if (sum != M.verticesNb()) c.fail("mesh-counts", cat("polygon counts sum to ", sum, " for ", M.verticesNb(), " vertices"));
    }
    c.trace((u64)(M.positionsNb() * 31 + M.normalsNb() * 7 + M.verticesNb()));
    c.state(mix(mix((u64)X.mode + 1, X.count % 12 + 16 * (u64)std::min<size_t>(X.pos.size() / 3, 6)),
                (u64)o.code * 8 + (u64)r + 64 * (X.cur_norm == Mesh::NO_INDEX) + 128 * (X.cur_tex == Mesh::NO_INDEX) + 256 * X.tex));
  }
  if (accepted > 4) c.nontrivial();
}
}  // namespace

namespace sim {
Scenario make_scenario() {
  Scenario s;
  s.id = "C03";
  s.rule =
      "One case is a history of up to 90 builder and factory calls on three meshes, in and out of "
      "protocol; non-trivial when more than four calls are accepted; distinct by hash of outcomes and sizes.";
  s.real = {"AL::Mesh", "AL::addBoxMesh, addRoundedBoxMesh, createBoxMesh, createRoundedBoxMesh"};
  s.stub = {"memory allocator (failures injected)"};
  s.configs = {"mostly in protocol", "misuse-and-memory-faults"};
  s.fault_kinds = {"alloc-failure"};
  s.state_measure = "mode, vertices in the open polygon, cursor defined or not, size class x call x outcome";
  s.assumptions = {"normals given to the builder are unit vectors", "factory extents and radius are non-negative"};
  s.gen = gen;
  s.exec = exec;
  s.batch = 128;
  s.quick_runs = 500000;
  s.thorough_runs = 20000000;
  s.quick_secs = 30;
  return s;
}
}  // namespace sim
