// Independent reading of an exported COLLADA scene.
#ifndef VERIF_SIM_COLLADACHECK_H
#define VERIF_SIM_COLLADACHECK_H
#include <almath/scenegraph/mesh.h>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <cstdlib>
#include <map>
#include <sstream>
#include "sim/core.h"
namespace sim {
typedef boost::property_tree::ptree PT;

inline bool parse_numbers(const std::string &s, std::vector<double> &out) {
  const char *p = s.c_str();
  for (;;) {
    while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p;
    if (!*p) return true;
    char *e;
    double d = strtod(p, &e);
    if (e == p) return false;
    out.push_back(d);
    p = e;
  }
}

struct SceneItem {
  std::vector<float> pos, nor;
  std::vector<size_t> ver, cnt;
  float tf[12];
  void take(const AL::Mesh &m) {
    pos = m.positions(), nor = m.normals(), ver = m.vertices(), cnt = m.polygonVerticesCounts();
  }
};
struct SceneModel {
  float rgba[4] = {.5f, .5f, .5f, .5f};
  int arc = 2;
  std::vector<SceneItem> items;
};

class SceneReader {
  std::map<std::string, const PT *> ids_;
  std::string err_;
  void collect(const PT &t) {
    for (auto &x : t) {
      if (x.first == "<xmlattr>") {
        if (auto id = x.second.get_optional<std::string>("id")) {
          if (ids_.count(*id)) err_ = "duplicate id " + *id;
          ids_[*id] = &t;
        }
      } else
        collect(x.second);
    }
  }
  void refs(const PT &t) {
    for (auto &x : t) {
      if (x.first == "<xmlattr>") {
        for (auto &a : x.second)
          if ((a.first == "url" || a.first == "source" || a.first == "target") && !a.second.data().empty()) {
            const std::string &v = a.second.data();
            if (v[0] != '#' || !ids_.count(v.substr(1))) err_ = "unresolved reference " + v;
          }
      } else
        refs(x.second);
    }
  }
  const PT *follow(const PT &t, const char *attr) {
    std::string v = t.get<std::string>(std::string("<xmlattr>.") + attr, "");
    if (v.empty() || v[0] != '#') return nullptr;
    auto it = ids_.find(v.substr(1));
    return it == ids_.end() ? nullptr : it->second;
  }
  static bool same_floats(const std::vector<double> &a, const std::vector<float> &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
      if (!close(a[i], b[i], 6e-6 * std::fabs(b[i]) + 1e-37)) return false;
    return true;
  }
  static bool same_ints(const std::vector<double> &a, const std::vector<size_t> &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
      if (a[i] != (double)b[i]) return false;
    return true;
  }
  std::string read_source(const PT *src, const std::vector<float> &want, const char *what) {
    if (!src) return cat(what, ": no source");
    const PT *acc = nullptr;
    if (auto a = src->get_child_optional("technique_common.accessor")) acc = &*a;
    if (!acc) return cat(what, ": no accessor");
    const PT *arr = follow(*acc, "source");
    if (!arr) return cat(what, ": no array");
    std::vector<double> v;
    if (!parse_numbers(arr->data(), v)) return cat(what, ": not numbers");
    if (!same_floats(v, want)) return cat(what, ": values differ (", v.size(), " read, ", want.size(), " given)");
    if (arr->get<size_t>("<xmlattr>.count", 0) != want.size()) return cat(what, ": array count");
    if (acc->get<size_t>("<xmlattr>.count", 0) != want.size() / 3) return cat(what, ": accessor count");
    if (acc->get<int>("<xmlattr>.stride", 0) != 3) return cat(what, ": accessor stride");
    std::string names;
    for (auto &x : *acc)
      if (x.first == "param") {
        names += x.second.get<std::string>("<xmlattr>.name", "?");
        if (x.second.get<std::string>("<xmlattr>.type", "") != "float") return cat(what, ": param type");
      }
    if (names != "XYZ") return cat(what, ": params ", names);
    return "";
  }

 public:
  // Empty string when the text is a faithful export of the model.
  std::string check(const std::string &text, const SceneModel &m) {
    PT root;
    try {
      std::istringstream is(text);
      boost::property_tree::read_xml(is, root, boost::property_tree::xml_parser::trim_whitespace);
    } catch (const std::exception &e) {
      return cat("not well-formed: ", e.what());
    }
    if (root.size() != 1 || root.front().first != "COLLADA") return "root element";
    const PT &c = root.front().second;
    if (c.get<std::string>("<xmlattr>.version", "") != "1.4.1") return "version attribute";
    collect(c);
    refs(c);
    if (!err_.empty()) return err_;
    const PT *scene = nullptr;
    if (auto x = c.get_child_optional("scene.instance_visual_scene")) scene = follow(*x, "url");
    if (!scene) return "no visual scene instantiated";
    size_t ngeo = 0;
    std::vector<const PT *> geos;
    if (auto x = c.get_child_optional("library_geometries"))
      for (auto &g : *x)
        if (g.first == "geometry") {
          ++ngeo;
          geos.push_back(&g.second);
        }
    if (ngeo != m.items.size()) return cat(ngeo, " geometries for ", m.items.size(), " added meshes");
    size_t k = 0;
    for (auto &n : *scene) {
      if (n.first != "node") continue;
      if (k >= m.items.size()) return cat("more nodes than the ", m.items.size(), " added meshes");
      const SceneItem &it = m.items[k];
      std::string w = cat("mesh ", k, ": ");
      std::vector<double> mat;
      if (!parse_numbers(n.second.get<std::string>("matrix", ""), mat) || mat.size() != 16) return w + "matrix";
      for (int i = 0; i < 16; ++i) {
        double want = i < 12 ? it.tf[i] : (i == 15 ? 1 : 0);
        if (!close(mat[i], want, 6e-6 * std::fabs(want) + 1e-37)) return cat(w, "matrix element ", i, " is ", mat[i], ", given ", want);
      }
      const PT *inst = nullptr;
      for (auto &x : n.second)
        if (x.first == "instance_geometry") {
          if (inst) return w + "two geometries in a node";
          inst = &x.second;
        }
      if (!inst) return w + "no geometry in the node";
      const PT *g = follow(*inst, "url");
      if (!g || g != geos[k]) return w + "node bound to another geometry";
      const PT *mesh = nullptr, *poly = nullptr;
      if (auto x = g->get_child_optional("mesh")) mesh = &*x;
      if (!mesh) return w + "no mesh";
      if (auto x = mesh->get_child_optional("polylist")) poly = &*x;
      if (!poly) return w + "no polylist";
      const PT *vs = nullptr, *ns = nullptr;
      std::map<std::string, int> off;
      for (auto &x : *poly)
        if (x.first == "input") {
          std::string sem = x.second.get<std::string>("<xmlattr>.semantic", "");
          off[sem] = x.second.get<int>("<xmlattr>.offset", -1);
          if (sem == "VERTEX") vs = follow(x.second, "source");
          if (sem == "NORMAL") ns = follow(x.second, "source");
        }
      if (off.size() != 2 || !vs || !ns) return w + "polylist inputs";
      if (!((off["VERTEX"] == 0 && off["NORMAL"] == 1) || (off["VERTEX"] == 1 && off["NORMAL"] == 0))) return w + "input offsets";
      const PT *ps = nullptr;
      for (auto &x : *vs)
        if (x.first == "input" && x.second.get<std::string>("<xmlattr>.semantic", "") == "POSITION") ps = follow(x.second, "source");
      std::string e = read_source(ps, it.pos, "positions");
      if (e.empty()) e = read_source(ns, it.nor, "normals");
      if (!e.empty()) return w + e;
      if (poly->get<size_t>("<xmlattr>.count", 999999) != it.cnt.size()) return w + "polygon count";
      std::vector<double> vc, p;
      if (!parse_numbers(poly->get<std::string>("vcount", ""), vc) || !same_ints(vc, it.cnt)) return w + "vcount";
      if (!parse_numbers(poly->get<std::string>("p", ""), p) || p.size() != it.ver.size()) return w + "vertex indexes count";
      for (size_t i = 0; i + 1 < p.size(); i += 2)
        if (p[i + off["VERTEX"]] != (double)it.ver[i] || p[i + off["NORMAL"]] != (double)it.ver[i + 1])
          return cat(w, "vertex ", i / 2, " is ", p[i + off["VERTEX"]], "/", p[i + off["NORMAL"]], ", given ", it.ver[i], "/", it.ver[i + 1]);
      // material
      const PT *im = nullptr;
      if (auto x = inst->get_child_optional("bind_material.technique_common.instance_material")) im = &*x;
      if (!im) return w + "no material bound";
      if (im->get<std::string>("<xmlattr>.symbol", "?") != poly->get<std::string>("<xmlattr>.material", "??")) return w + "material symbol";
      const PT *mat_e = follow(*im, "target");
      if (!mat_e) return w + "material target";
      const PT *fx = nullptr;
      if (auto x = mat_e->get_child_optional("instance_effect")) fx = follow(*x, "url");
      if (!fx) return w + "effect";
      std::vector<double> col;
      parse_numbers(fx->get<std::string>("profile_COMMON.technique.phong.diffuse.color", ""), col);
      if (!same_floats(col, std::vector<float>(m.rgba, m.rgba + 4))) return w + "colour differs from the configuration";
      ++k;
    }
    if (k != m.items.size()) return cat(k, " nodes for ", m.items.size(), " added meshes");
    // the material exists even for an empty scene
    size_t nm = 0;
    if (auto x = c.get_child_optional("library_materials"))
      for (auto &g : *x) nm += g.first == "material";
    if (nm != 1) return cat(nm, " materials");
    return "";
  }
};
}  // namespace sim
#endif
