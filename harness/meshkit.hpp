// An independent, deliberately naive description of mesh topology.
#ifndef VERIF_MESHKIT_HPP
#define VERIF_MESHKIT_HPP
#include <Omega_h_adj.hpp>
#include <Omega_h_build.hpp>
#include <Omega_h_mesh.hpp>
#include "osh.hpp"

namespace mk {
using VV = std::vector<std::vector<int>>;

// boundary templates: [dim][bdry_dim] -> list of vertex lists
inline VV const& down_template(bool simplex, int dim, int bdry) {
  static const VV s21 = {{0, 1}, {1, 2}, {2, 0}};
  static const VV s31 = {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}};
  static const VV s32 = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}};
  static const VV h21 = {{0, 1}, {1, 2}, {2, 3}, {3, 0}};
  static const VV h31 = {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 4}, {1, 5}, {2, 6}, {3, 7},
      {4, 5}, {5, 6}, {6, 7}, {7, 4}};
  static const VV h32 = {{1, 0, 3, 2}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}, {4, 5, 6, 7}};
  static const VV v2 = {{0}, {1}}, v3 = {{0}, {1}, {2}}, v4 = {{0}, {1}, {2}, {3}},
                  v8 = {{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}};
  if (bdry == 0) {
    if (dim == 1) return v2;
    if (dim == 2) return simplex ? v3 : v4;
    return simplex ? v4 : v8;
  }
  if (dim == 2) return simplex ? s21 : h21;
  if (bdry == 1) return simplex ? s31 : h31;
  return simplex ? s32 : h32;
}
inline int degree(bool simplex, int dim) {
  if (dim <= 1) return dim + 1;
  return simplex ? dim + 1 : (dim == 2 ? 4 : 8);
}
inline std::vector<int> sorted(std::vector<int> v) {
  std::sort(v.begin(), v.end());
  return v;
}
inline std::vector<int> align(std::vector<int> const& in, int code) {
  size_t n = in.size();
  size_t rot = size_t((code >> 1) & 3);
  std::vector<int> out(n);
  for (size_t j = 0; j < n; ++j) out[(j + rot) % n] = in[j];
  if (code & 1) {
    if (n == 3) std::swap(out[1], out[2]);
    if (n == 4) std::swap(out[1], out[3]);
  }
  return out;
}
// all orderings of an element's vertices that describe the same element with
// the same orientation
inline VV const& rotations(bool simplex, int dim) {
  static std::map<std::pair<bool, int>, VV> cache;
  auto& r = cache[{simplex, dim}];
  if (!r.empty()) return r;
  int n = degree(simplex, dim);
  if (dim == 1) {
    r = {{0, 1}};
    return r;
  }
  // generate by closing under generators
  VV gens;
  if (dim == 2 && simplex) gens = {{1, 2, 0}};
  if (dim == 2 && !simplex) gens = {{1, 2, 3, 0}};
  if (dim == 3 && simplex) gens = {{1, 2, 0, 3}, {0, 2, 3, 1}};
  if (dim == 3 && !simplex) gens = {{1, 2, 3, 0, 5, 6, 7, 4}, {3, 2, 6, 7, 0, 1, 5, 4}};
  std::vector<int> id;
  for (int i = 0; i < n; ++i) id.push_back(i);
  std::set<std::vector<int>> seen = {id};
  VV todo = {id};
  while (!todo.empty()) {
    auto p = todo.back();
    todo.pop_back();
    for (auto& g : gens) {
      std::vector<int> q;
      for (int i : g) q.push_back(p[size_t(i)]);
      if (seen.insert(q).second) todo.push_back(q);
    }
  }
  r.assign(seen.begin(), seen.end());
  return r;
}

struct Soup {
  bool simplex = true;
  int dim = 2;
  int nverts = 0;
  VV elems;
  std::string text() const {
    return std::string(simplex ? "simplex" : "hypercube") + std::to_string(dim) + " nv=" + std::to_string(nverts) +
           " " + str(elems);
  }
  uint64_t hash() const {
    mc::Hash h;
    h.add(simplex).add(dim).add(nverts);
    for (auto& e : elems)
      for (int v : e) h.add(v);
    return h.h;
  }
  oh::LOs ev2v() const {
    std::vector<LO> v;
    for (auto& e : elems)
      for (int x : e) v.push_back(x);
    return arr(v);
  }
  Omega_h_Family family() const { return simplex ? OMEGA_H_SIMPLEX : OMEGA_H_HYPERCUBE; }
  // unique entities (sorted vertex lists) of a dimension
  std::set<std::vector<int>> ents(int d) const {
    std::set<std::vector<int>> s;
    if (d == dim) {
      for (auto& e : elems) s.insert(sorted(e));
    } else if (d == 0) {
      for (int v = 0; v < nverts; ++v) s.insert({v});
    } else {
      for (auto& e : elems)
        for (auto& t : down_template(simplex, dim, d)) {
          std::vector<int> q;
          for (int i : t) q.push_back(e[size_t(i)]);
          s.insert(sorted(q));
        }
    }
    return s;
  }
};

// vertex lists of the entities of a dimension of a mesh
inline VV verts_of(oh::Mesh& m, int d) {
  VV r;
  if (d == 0) {
    for (LO v = 0; v < m.nverts(); ++v) r.push_back({v});
    return r;
  }
  auto ev = m.ask_verts_of(d);
  int n = degree(m.family() == OMEGA_H_SIMPLEX, d);
  if (ev.size() != m.nents(d) * n) throw mc::Failure{"sizes", "vertex list of the wrong length"};
  for (LO e = 0; e < m.nents(d); ++e) {
    r.push_back({});
    for (int j = 0; j < n; ++j) r.back().push_back(ev[e * n + j]);
  }
  return r;
}

#define MKREQ(cond, key, ...)                                  \
  do {                                                         \
    if (!(cond)) mk::bad(key, __VA_ARGS__);                    \
  } while (0)
__attribute__((format(printf, 2, 3))) [[noreturn]] inline void bad(char const* key, char const* fmt, ...) {
  char buf[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw mc::Failure{key, buf};
}

inline void check_down(oh::Mesh& m, int high, int low, VV const& hv, VV const& lv) {
  bool s = m.family() == OMEGA_H_SIMPLEX;
  auto a = m.ask_down(high, low);
  auto& t = down_template(s, high, low);
  int deg = int(t.size());
  MKREQ(a.ab2b.size() == LO(hv.size()) * deg, "down-size", "down %d->%d has %d entries for %zu entities", high, low,
      a.ab2b.size(), hv.size());
  for (size_t h = 0; h < hv.size(); ++h)
    for (int j = 0; j < deg; ++j) {
      auto l = a.ab2b[LO(h) * deg + j];
      MKREQ(l >= 0 && l < LO(lv.size()), "down-range", "down %d->%d: index %d out of range", high, low, l);
      std::vector<int> want;
      for (int i : t[size_t(j)]) want.push_back(hv[h][size_t(i)]);
      auto got = lv[size_t(l)];
      if (low > 0) got = align(got, a.codes[LO(h) * deg + j]);
      MKREQ(got == want, low ? "down-aligned" : "down-verts",
          "down %d->%d: entity %zu %s position %d is %s after alignment, expected %s", high, low, h,
          str(hv[h]).c_str(), j, str(got).c_str(), str(want).c_str());
      if (low > 0)
        MKREQ((a.codes[LO(h) * deg + j] >> 3) == 0, "down-code", "a downward code has a position part: %d",
            int(a.codes[LO(h) * deg + j]));
    }
}
inline void check_up(oh::Mesh& m, int low, int high, VV const& hv, VV const& lv) {
  bool s = m.family() == OMEGA_H_SIMPLEX;
  auto a = m.ask_up(low, high);
  auto& t = down_template(s, high, low);
  std::map<std::vector<int>, int> find;
  for (size_t l = 0; l < lv.size(); ++l) find[sorted(lv[l])] = int(l);
  std::vector<std::vector<std::array<int, 2>>> want(lv.size());
  for (size_t h = 0; h < hv.size(); ++h)
    for (size_t j = 0; j < t.size(); ++j) {
      std::vector<int> q;
      for (int i : t[j]) q.push_back(hv[h][size_t(i)]);
      want[size_t(find.at(sorted(q)))].push_back({{int(h), int(j)}});
    }
  MKREQ(a.a2ab.size() == LO(lv.size()) + 1, "up-size", "up %d->%d offsets", low, high);
  for (size_t l = 0; l < lv.size(); ++l) {
    auto& w = want[l];
    auto b = a.a2ab[LO(l)];
    MKREQ(a.a2ab[LO(l) + 1] - b == LO(w.size()), "up-count", "up %d->%d: entity %zu has %d upward, expected %zu", low,
        high, l, a.a2ab[LO(l) + 1] - b, w.size());
    for (size_t k = 0; k < w.size(); ++k) {
      int code = a.codes[b + LO(k)];
      MKREQ(a.ab2b[b + LO(k)] == w[k][0], "up-order", "up %d->%d: entity %zu entry %zu is %d, expected %d", low, high,
          l, k, a.ab2b[b + LO(k)], w[k][0]);
      MKREQ((code >> 3) == w[k][1], "up-which", "up %d->%d: entity %zu entry %zu position %d, expected %d", low, high,
          l, k, code >> 3, w[k][1]);
      if (low > 0) {
        std::vector<int> q;
        for (int i : t[size_t(w[k][1])]) q.push_back(hv[size_t(w[k][0])][size_t(i)]);
        MKREQ(align(lv[l], code) == q, "up-aligned", "up %d->%d: entity %zu entry %zu alignment %d", low, high, l, k,
            code);
      }
    }
  }
}
inline std::vector<std::multiset<int>> graph_sets(oh::Graph g, size_t n, char const* what) {
  std::vector<std::multiset<int>> r(n);
  MKREQ(g.a2ab.size() == LO(n) + 1, "graph-size", "%s: offsets", what);
  for (size_t i = 0; i < n; ++i)
    for (LO k = g.a2ab[LO(i)]; k < g.a2ab[LO(i) + 1]; ++k) r[i].insert(g.ab2b[k]);
  return r;
}
inline std::string str_set(std::multiset<int> const& s) { return str(std::vector<int>(s.begin(), s.end())); }

inline void check_star(oh::Mesh& m, int d, std::vector<VV> const& v) {
  auto got = graph_sets(m.ask_star(d), v[size_t(d)].size(), "star");
  bool s = m.family() == OMEGA_H_SIMPLEX;
  std::vector<std::multiset<int>> want(got.size());
  std::map<std::vector<int>, int> find;
  for (size_t l = 0; l < v[size_t(d)].size(); ++l) find[sorted(v[size_t(d)][l])] = int(l);
  if (d == 0) {
    for (auto& e : v[1]) {
      want[size_t(e[0])].insert(e[1]);
      want[size_t(e[1])].insert(e[0]);
    }
  } else {
    // other edges of the same triangles and the opposite edges of the same tets
    for (int hd = 2; hd <= m.dim(); ++hd)
      for (auto& e : v[size_t(hd)]) {
        std::vector<int> es;
        for (auto& t : down_template(s, hd, 1)) es.push_back(find.at(sorted({e[size_t(t[0])], e[size_t(t[1])]})));
        for (size_t i = 0; i < es.size(); ++i)
          for (size_t j = 0; j < es.size(); ++j) {
            if (i == j) continue;
            auto& a = v[1][size_t(es[i])];
            auto& b = v[1][size_t(es[j])];
            bool share = a[0] == b[0] || a[0] == b[1] || a[1] == b[0] || a[1] == b[1];
            if ((hd == 2) == share) want[size_t(es[i])].insert(es[j]);
          }
      }
  }
  for (size_t i = 0; i < got.size(); ++i)
    MKREQ(got[i] == want[i], "star", "star of %d-entity %zu is %s, expected %s", d, i, str_set(got[i]).c_str(),
        str_set(want[i]).c_str());
}
inline bool manifold(std::vector<VV> const& v, bool s, int dim) {
  std::map<std::vector<int>, int> n;
  for (auto& e : v[size_t(dim)])
    for (auto& t : down_template(s, dim, dim - 1)) {
      std::vector<int> q;
      for (int i : t) q.push_back(e[size_t(i)]);
      if (++n[sorted(q)] > 2) return false;
    }
  return true;
}
inline void check_dual(oh::Mesh& m, std::vector<VV> const& v) {
  bool s = m.family() == OMEGA_H_SIMPLEX;
  int dim = m.dim();
  auto& ev = v[size_t(dim)];
  auto got = graph_sets(m.ask_dual(), ev.size(), "dual");
  std::map<std::vector<int>, std::vector<int>> side;
  for (size_t e = 0; e < ev.size(); ++e)
    for (auto& t : down_template(s, dim, dim - 1)) {
      std::vector<int> q;
      for (int i : t) q.push_back(ev[e][size_t(i)]);
      side[sorted(q)].push_back(int(e));
    }
  std::vector<std::multiset<int>> want(ev.size());
  for (auto& p : side)
    if (p.second.size() == 2) {
      want[size_t(p.second[0])].insert(p.second[1]);
      want[size_t(p.second[1])].insert(p.second[0]);
    }
  for (size_t i = 0; i < got.size(); ++i)
    MKREQ(got[i] == want[i], "dual", "dual neighbors of element %zu are %s, expected %s", i, str_set(got[i]).c_str(),
        str_set(want[i]).c_str());
}
inline std::vector<VV> all_verts(oh::Mesh& m) {
  std::vector<VV> v;
  for (int d = 0; d <= m.dim(); ++d) v.push_back(verts_of(m, d));
  return v;
}
// every derived adjacency of the mesh against the naive reference; returns the
// vertex lists per dimension
inline std::vector<VV> check_adjacencies(oh::Mesh& m, bool stars = true) {
  auto v = all_verts(m);
  int dim = m.dim();
  bool s = m.family() == OMEGA_H_SIMPLEX;
  for (int h = 1; h <= dim; ++h)
    for (int l = 0; l < h; ++l) {
      check_down(m, h, l, v[size_t(h)], v[size_t(l)]);
      check_up(m, l, h, v[size_t(h)], v[size_t(l)]);
      auto g = m.ask_graph(h, l);
      auto d = m.ask_down(h, l);
      int deg = int(down_template(s, h, l).size());
      MKREQ(g.a2ab.size() == m.nents(h) + 1 && g.ab2b.size() == d.ab2b.size(), "graph", "ask_graph(%d,%d) sizes", h, l);
      for (LO i = 0; i <= m.nents(h); ++i) MKREQ(g.a2ab[i] == i * deg, "graph", "ask_graph(%d,%d) offsets", h, l);
      for (LO i = 0; i < g.ab2b.size(); ++i) MKREQ(g.ab2b[i] == d.ab2b[i], "graph", "ask_graph(%d,%d) entries", h, l);
    }
  if (stars) {
    check_star(m, 0, v);
    if (dim >= 2 && s) {
      if (dim > 1) check_star(m, 1, v);
    }
    if (manifold(v, s, dim)) check_dual(m, v);
  }
  return v;
}
// entity sets are exactly those of the soup, each once
inline void check_entities(std::vector<VV> const& v, Soup const& s) {
  for (int d = 0; d <= s.dim; ++d) {
    std::set<std::vector<int>> got;
    for (auto& e : v[size_t(d)])
      MKREQ(got.insert(sorted(e)).second, "duplicate-entity", "%d-entity %s appears twice", d, str(e).c_str());
    auto want = s.ents(d);
    MKREQ(got == want, "entities", "the mesh has %zu %d-entities, expected %zu (or different ones)", got.size(), d,
        want.size());
  }
  for (size_t e = 0; e < s.elems.size(); ++e)
    MKREQ(v[size_t(s.dim)][e] == s.elems[e], "elem-verts", "element %zu has vertices %s, was built from %s", e,
        str(v[size_t(s.dim)][e]).c_str(), str(s.elems[e]).c_str());
}
inline oh::Mesh build(oh::Library& lib, Soup const& s) {
  oh::Mesh m(&lib);
  oh::build_from_elems2verts(&m, s.family(), s.dim, s.ev2v(), s.nverts);
  return m;
}
}  // namespace mk
#endif
