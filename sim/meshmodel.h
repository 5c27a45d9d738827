// Reference model of Mesh and geometric checks of closed surfaces.
#ifndef VERIF_SIM_MESHMODEL_H
#define VERIF_SIM_MESHMODEL_H
#include <almath/scenegraph/mesh.h>
#include <map>
#include <set>
#include "sim/core.h"
namespace sim {
struct MeshModel {
  enum What { OTHER, NORMAL_I, TEX_I, BEGIN, VERTEX_I, VERTEX_XYZ, END };
  bool tex;
  std::vector<float> pos, nor, tc;
  std::vector<size_t> ver, cnt;
  int mode = -1;
  size_t count = 0, cur_norm = AL::Mesh::NO_INDEX, cur_tex = AL::Mesh::NO_INDEX;
  explicit MeshModel(bool t = false) : tex(t) {}
  const char *refuses(What w, size_t i) const {
    switch (w) {
      case NORMAL_I: return i < nor.size() / 3 ? nullptr : "normal index out of range";
      case TEX_I: return i < tc.size() / 2 ? nullptr : "texture coordinate index out of range";
      case BEGIN: return mode < 0 ? nullptr : "begin inside begin/end";
      case VERTEX_I:
      case VERTEX_XYZ:
        if (mode < 0) return "vertex outside begin/end";
        if (w == VERTEX_I && i >= pos.size() / 3) return "position index out of range";
        if (cur_norm == AL::Mesh::NO_INDEX) return "no current normal";
        if (tex && cur_tex == AL::Mesh::NO_INDEX) return "no current texture coordinate";
        return nullptr;
      case END:
        if (mode < 0) return "end without begin";
        if (mode == AL::Mesh::TRIANGLES && count % 3) return "incomplete triangle";
        if (mode == AL::Mesh::QUADS && count % 4) return "incomplete quad";
        return nullptr;
      default: return nullptr;
    }
  }
  size_t position(float x, float y, float z) {
    pos.push_back(x), pos.push_back(y), pos.push_back(z);
    return pos.size() / 3 - 1;
  }
  size_t normal(float x, float y, float z) {
    nor.push_back(x), nor.push_back(y), nor.push_back(z);
    return cur_norm = nor.size() / 3 - 1;
  }
  size_t texcoord(float x, float y) {
    tc.push_back(x), tc.push_back(y);
    return cur_tex = tc.size() / 2 - 1;
  }
  void vertex(size_t i) {
    ver.push_back(i);
    ver.push_back(cur_norm);
    if (tex) ver.push_back(cur_tex);
    ++count;
  }
  void end() {
    if (mode == AL::Mesh::POLYGON) {
      if (count) cnt.push_back(count);
    } else
      for (size_t n = mode == AL::Mesh::TRIANGLES ? 3 : 4, i = 0; i < count / n; ++i) cnt.push_back(n);
    mode = -1;
    count = 0;
  }
  void sync(const AL::Mesh &m) {
    pos = m.positions(), nor = m.normals(), tc = m.texCoords();
    ver = m.vertices(), cnt = m.polygonVerticesCounts();
  }
  std::string diff(const AL::Mesh &m) const {
    if (m.withTexCoords() != tex || m.verticesStride() != (tex ? 3u : 2u)) return "stride";
    if (m.positions() != pos) return cat("positions: ", m.positions().size(), " numbers, expected ", pos.size(), " or different values");
    if (m.normals() != nor) return cat("normals: ", m.normals().size(), " numbers, expected ", nor.size());
    if (m.texCoords() != tc) return cat("texture coordinates: ", m.texCoords().size(), " numbers, expected ", tc.size());
    if (m.vertices() != ver) return cat("vertices: ", m.vertices().size(), " indexes, expected ", ver.size());
    if (m.polygonVerticesCounts() != cnt) return cat("polygon counts: ", m.polygonVerticesCounts().size(), " expected ", cnt.size());
    if (m.positionsNb() != pos.size() / 3 || m.normalsNb() != nor.size() / 3 || m.texCoordsNb() != tc.size() / 2 ||
        m.polygonsNb() != cnt.size() || m.verticesNb() != ver.size() / (tex ? 3 : 2))
      return "element counts";
    for (size_t i = 0; i < m.positionsNb(); ++i)
      if (m.positionPtrAt(i) != &m.positions()[3 * i]) return "positionPtrAt";
    for (size_t i = 0; i < m.normalsNb(); ++i)
      if (m.normalPtrAt(i) != &m.normals()[3 * i]) return "normalPtrAt";
    for (size_t i = 0; i < m.texCoordsNb(); ++i)
      if (m.texCoordPtrAt(i) != &m.texCoords()[2 * i]) return "texCoordPtrAt";
    for (size_t i = 0; i < m.verticesNb(); ++i)
      if (m.vertexPtrAt(i) != &m.vertices()[(tex ? 3 : 2) * i]) return "vertexPtrAt";
    for (size_t i = 0; i < m.polygonsNb(); ++i)
      if (m.polygonVerticesCountAt(i) != cnt[i]) return "polygonVerticesCountAt";
    return "";
  }
};

inline std::string mesh_references_ok(const AL::Mesh &m) {
  const std::vector<size_t> &v = m.vertices();
  size_t st = m.verticesStride();
  if (v.size() % st) return "vertices buffer is not a whole number of vertices";
  if (m.positions().size() % 3 || m.normals().size() % 3 || m.texCoords().size() % 2) return "a buffer holds a partial element";
  for (size_t i = 0; i < v.size(); i += st) {
    if (v[i + AL::Mesh::positionOffset] >= m.positionsNb()) return "dangling position index";
    if (v[i + AL::Mesh::normalOffset] >= m.normalsNb()) return "dangling normal index";
    if (st == 3 && v[i + AL::Mesh::texCoordOffset] >= m.texCoordsNb()) return "dangling texture coordinate index";
  }
  return "";
}

// Checks the surface appended after (p0, n0, polygon c0, vertex index entry v0).
inline std::string surface_ok(const AL::Mesh &m, size_t p0, size_t n0, size_t c0, size_t v0, const float *e,
                              float rad) {
  const std::vector<size_t> &v = m.vertices();
  const std::vector<size_t> &cn = m.polygonVerticesCounts();
  size_t st = m.verticesStride();
  if (cn.size() <= c0) return "no polygon was added";
  const double ext = e[0] + e[1] + e[2] + rad;
  double lo[3] = {1e30, 1e30, 1e30}, hi[3] = {-1e30, -1e30, -1e30};
  std::map<std::pair<size_t, size_t>, int> edges;
  double volume = 0;
  size_t at = v0;
  for (size_t q = c0; q < cn.size(); ++q) {
    size_t n = cn[q];
    if (n < 3) return "a polygon has fewer than three vertices";
    if (at + n * st > v.size()) return "polygon counts exceed the vertices";
    double N[3] = {0, 0, 0}, S[3] = {0, 0, 0};
    double P0[3];
    for (size_t i = 0; i < n; ++i) {
      size_t a = v[at + i * st], b = v[at + ((i + 1) % n) * st], na = v[at + i * st + 1];
      if (a < p0 || na < n0) return "a vertex uses data which was there before";
      const float *A = m.positionPtrAt(a), *B = m.positionPtrAt(b), *NA = m.normalPtrAt(na);
      double ln = 0;
      for (int d = 0; d < 3; ++d) {
        lo[d] = std::min<double>(lo[d], A[d]);
        hi[d] = std::max<double>(hi[d], A[d]);
        ln += (double)NA[d] * NA[d];
        S[d] += NA[d];
        if (i == 0) P0[d] = A[d];
      }
      if (!close(ln, 1, 1e-4)) return "a normal is not a unit vector";
      double cl[3], dist = 0, dot = 0;
      for (int d = 0; d < 3; ++d) {
        cl[d] = std::max<double>(-e[d], std::min<double>(e[d], A[d]));
        dist += (A[d] - cl[d]) * (A[d] - cl[d]);
        dot += (A[d] - cl[d]) * NA[d];
      }
      dist = std::sqrt(dist);
      if (!close(dist, rad, 2e-6 * ext + 1e-30)) return cat("a vertex is at distance ", dist, " of the inner box, not ", rad);
      if (rad > 1e-3 * ext && !close(dot, rad, 2e-3 * rad + 2e-6 * ext)) return "a normal does not point away from the surface";
      if (a != b) edges[std::make_pair(a, b)]++;
      N[0] += ((double)A[1] - B[1]) * ((double)A[2] + B[2]);
      N[1] += ((double)A[2] - B[2]) * ((double)A[0] + B[0]);
      N[2] += ((double)A[0] - B[0]) * ((double)A[1] + B[1]);
    }
    double orient = N[0] * S[0] + N[1] * S[1] + N[2] * S[2];
    double area = std::sqrt(N[0] * N[0] + N[1] * N[1] + N[2] * N[2]);
    double ls = std::sqrt(S[0] * S[0] + S[1] * S[1] + S[2] * S[2]);
    if (area > 1e-4 * ext * ext && orient < 0.2 * area * ls) return cat("polygon ", q - c0, " is not counter-clockwise seen from outside");
    volume += (N[0] * P0[0] + N[1] * P0[1] + N[2] * P0[2]) / 6;
    at += n * st;
  }
  if (at != v.size()) return "vertices without polygon";
  for (auto &x : edges) {
    if (x.second != 1) return "an edge is used twice in the same direction";
    if (!edges.count(std::make_pair(x.first.second, x.first.first))) return "the surface is not closed";
  }
  for (int d = 0; d < 3; ++d)
    if (!close(hi[d], e[d] + rad, 1e-3 * rad + 2e-6 * ext + 1e-30) || !close(lo[d], -(e[d] + rad), 1e-3 * rad + 2e-6 * ext + 1e-30))
      return cat("extent along axis ", d, " is [", lo[d], ", ", hi[d], "], requested ", e[d] + rad);
  double inner = 8.0 * e[0] * e[1] * e[2];
  double outer = 8.0 * (e[0] + rad) * (e[1] + rad) * (e[2] + rad);
  if (volume < inner - 1e-3 * ext * ext * ext || volume > outer + 1e-3 * ext * ext * ext) return cat("enclosed volume ", volume);
  return "";
}
}  // namespace sim
#endif
