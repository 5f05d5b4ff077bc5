// Small classified meshes of an axis-aligned grid model, and the conditions
// every mesh of that model has to meet (checked on a Snap of all parts).
#ifndef VERIF_ADAPTKIT_HPP
#define VERIF_ADAPTKIT_HPP
#include <Omega_h_adapt.hpp>
#include <Omega_h_element.hpp>
#include "distkit.hpp"

namespace ak {
using std::vector;
using mk::Soup;
using mk::VV;
using dk::Snap;
using P3 = std::array<double, 3>;

// A model is a union of the cells of an axis-aligned grid (planes per axis),
// each cell being its own region; every grid plane between or around present
// cells belongs to the model.
struct Model {
  int dim = 2;
  vector<double> planes[3];
  std::set<std::array<int, 3>> cells;  // present cells (odd codes)
  // code of a coordinate on an axis: 2k on plane k, 2k+1 between planes
  int code1(int ax, double x) const {
    auto& p = planes[ax];
    for (size_t k = 0; k < p.size(); ++k) {
      if (x == p[k]) return int(2 * k);
      if (x < p[k]) return int(2 * k) - 1;
    }
    return int(2 * p.size()) - 1;
  }
  std::array<int, 3> code(P3 x) const {
    std::array<int, 3> c{{0, 0, 0}};
    for (int a = 0; a < dim; ++a) c[size_t(a)] = code1(a, x[size_t(a)]);
    return c;
  }
  // the model entity whose closure holds all these points; false if none does
  bool join(vector<std::array<int, 3>> const& cs, std::array<int, 3>& out) const {
    out = {{0, 0, 0}};
    for (int a = 0; a < dim; ++a) {
      int lo = 1000, hi = -1000;
      for (auto& c : cs) {
        lo = std::min(lo, c[size_t(a)]);
        hi = std::max(hi, c[size_t(a)]);
      }
      if (lo == hi) {
        out[size_t(a)] = lo;
        continue;
      }
      int l = lo & 1 ? lo : lo + 1, h = hi & 1 ? hi : hi - 1;
      if (l != h) return false;
      out[size_t(a)] = l;
    }
    return present(out);
  }
  int cdim(std::array<int, 3> c) const {
    int n = 0;
    for (int a = 0; a < dim; ++a) n += c[size_t(a)] & 1;
    return n;
  }
  vector<std::array<int, 3>> cells_around(std::array<int, 3> c) const {
    vector<std::array<int, 3>> r;
    for (int m = 0; m < (1 << dim); ++m) {
      auto q = c;
      bool skip = false;
      for (int a = 0; a < dim; ++a) {
        if (c[size_t(a)] & 1) {
          if (m >> a & 1) skip = true;
        } else {
          q[size_t(a)] += (m >> a & 1) ? 1 : -1;
        }
      }
      if (!skip && cells.count(q)) r.push_back(q);
    }
    return r;
  }
  bool present(std::array<int, 3> c) const { return !cells_around(c).empty(); }
  static int id(std::array<int, 3> c) { return 1 + c[0] + 16 * c[1] + 256 * c[2]; }
  vector<std::array<int, 3>> all(int d) const {
    vector<std::array<int, 3>> r;
    int n[3] = {1, 1, 1};
    for (int a = 0; a < dim; ++a) n[a] = int(2 * planes[a].size()) - 1;
    for (int x = 0; x < n[0]; ++x)
      for (int y = 0; y < n[1]; ++y)
        for (int z = 0; z < n[2]; ++z) {
          std::array<int, 3> c{{x, y, z}};
          if (cdim(c) == d && present(c)) r.push_back(c);
        }
    return r;
  }
  double measure(std::array<int, 3> c) const {
    double m = 1;
    for (int a = 0; a < dim; ++a)
      if (c[size_t(a)] & 1) m *= planes[a][size_t(c[size_t(a)] / 2 + 1)] - planes[a][size_t(c[size_t(a)] / 2)];
    return m;
  }
};

struct Start {
  std::string name;
  Model model;
  Soup s;
  vector<P3> x;
};

inline double volume(int dim, vector<P3> const& p) {
  double e[3][3];
  for (int i = 0; i < dim; ++i)
    for (int a = 0; a < 3; ++a) e[i][a] = p[size_t(i + 1)][size_t(a)] - p[0][size_t(a)];
  if (dim == 1) return e[0][0];
  if (dim == 2) return (e[0][0] * e[1][1] - e[0][1] * e[1][0]) / 2;
  return (e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0]) +
             e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0])) / 6;
}
// unsigned measure of a simplex of any dimension in 3-space
inline double measure(int d, vector<P3> const& p) {
  auto sub = [&](int i) { return P3{{p[size_t(i)][0] - p[0][0], p[size_t(i)][1] - p[0][1], p[size_t(i)][2] - p[0][2]}}; };
  if (d == 0) return 1;
  P3 a = sub(1);
  if (d == 1) return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
  P3 b = sub(2);
  P3 c{{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}};
  if (d == 2) return std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]) / 2;
  P3 e = sub(3);
  return std::fabs(c[0] * e[0] + c[1] * e[1] + c[2] * e[2]) / 6;
}

// a grid of (nx,ny,nz) mesh cells over a model: each square in two triangles
// (diagonal by `diag`), each cube in six tetrahedra
inline Start grid(std::string name, Model m, std::array<int, 3> per, int diag = 0) {
  Start st;
  st.name = name;
  st.model = m;
  int dim = m.dim;
  vector<double> lines[3];
  int n[3] = {0, 0, 0};
  for (int a = 0; a < 3; ++a) {
    if (a >= dim) {
      lines[a] = {0};
      continue;
    }
    auto& p = m.planes[a];
    for (size_t k = 0; k + 1 < p.size(); ++k)
      for (int i = 0; i < per[size_t(a)]; ++i) lines[a].push_back(p[k] + (p[k + 1] - p[k]) * i / per[size_t(a)]);
    lines[a].push_back(p.back());
    n[a] = int(lines[a].size()) - 1;
  }
  std::map<std::array<int, 3>, int> vid;
  auto vert = [&](int i, int j, int k) {
    std::array<int, 3> key{{i, j, k}};
    auto it = vid.find(key);
    if (it != vid.end()) return it->second;
    int id = int(st.x.size());
    vid[key] = id;
    st.x.push_back({{lines[0][size_t(i)], lines[1][size_t(j)], lines[2][size_t(k)]}});
    return id;
  };
  st.s.simplex = true;
  st.s.dim = dim;
  auto has = [&](int i, int j, int k) {
    std::array<int, 3> c{{0, 0, 0}};
    int ijk[3] = {i, j, k};
    for (int a = 0; a < dim; ++a) c[size_t(a)] = 2 * (ijk[a] / per[size_t(a)]) + 1;
    return m.cells.count(c) > 0;
  };
  for (int k = 0; k < std::max(1, n[2]); ++k)
    for (int j = 0; j < std::max(1, n[1]); ++j)
      for (int i = 0; i < n[0]; ++i) {
        if (!has(i, j, k)) continue;
        if (dim == 1) st.s.elems.push_back({vert(i, 0, 0), vert(i + 1, 0, 0)});
        if (dim == 2) {
          int a = vert(i, j, 0), b = vert(i + 1, j, 0), c = vert(i + 1, j + 1, 0), d = vert(i, j + 1, 0);
          if ((diag == 0) || (diag == 2 && (i + j) % 2)) {
            st.s.elems.push_back({a, b, c});
            st.s.elems.push_back({c, d, a});
          } else {
            st.s.elems.push_back({b, c, d});
            st.s.elems.push_back({d, a, b});
          }
        }
        if (dim == 3) {
          int o[3] = {0, 1, 2};
          do {
            int q[3] = {i, j, k};
            vector<int> e = {vert(q[0], q[1], q[2])};
            for (int t = 0; t < 3; ++t) {
              ++q[o[t]];
              e.push_back(vert(q[0], q[1], q[2]));
            }
            vector<P3> p;
            for (int v : e) p.push_back(st.x[size_t(v)]);
            if (volume(3, p) < 0) std::swap(e[1], e[2]);
            st.s.elems.push_back(e);
          } while (std::next_permutation(o, o + 3));
        }
      }
  st.s.nverts = int(st.x.size());
  return st;
}
inline Model box_model(int dim, vector<double> x, vector<double> y = {}, vector<double> z = {}) {
  Model m;
  m.dim = dim;
  m.planes[0] = x;
  m.planes[1] = y;
  m.planes[2] = z;
  int n[3] = {1, 1, 1};
  for (int a = 0; a < dim; ++a) n[a] = int(m.planes[a].size()) - 1;
  for (int i = 0; i < n[0]; ++i)
    for (int j = 0; j < n[1]; ++j)
      for (int k = 0; k < n[2]; ++k) m.cells.insert({{2 * i + 1, dim > 1 ? 2 * j + 1 : 0, dim > 2 ? 2 * k + 1 : 0}});
  return m;
}
// splits element e of the mesh at its centroid: an interior vertex
inline void poke(Start& st, int e, P3 w = {{1, 1, 1}}) {
  auto el = st.s.elems[size_t(e)];
  P3 c{{0, 0, 0}};
  double sum = 0;
  for (size_t i = 0; i < el.size(); ++i) sum += i < 3 ? w[i] : 1;
  for (size_t i = 0; i < el.size(); ++i)
    for (int a = 0; a < 3; ++a) c[size_t(a)] += st.x[size_t(el[i])][size_t(a)] * (i < 3 ? w[i] : 1) / sum;
  int v = int(st.x.size());
  st.x.push_back(c);
  st.s.nverts = v + 1;
  vector<vector<int>> out;
  for (size_t k = 0; k < st.s.elems.size(); ++k) {
    if (int(k) != e) {
      out.push_back(st.s.elems[k]);
      continue;
    }
    for (size_t i = 0; i < el.size(); ++i) {
      auto q = el;
      q[i] = v;
      out.push_back(q);
    }
  }
  st.s.elems = out;
}

inline Start const& start(std::string const& name) {
  static std::map<std::string, Start> all;
  if (all.empty()) {
    auto put = [&](Start s) { all[s.name] = s; };
    put(grid("line2", box_model(1, {0, 1, 2}), {{1, 0, 0}}));
    put(grid("line4", box_model(1, {0, 2}), {{4, 0, 0}}));
    put(grid("sq1", box_model(2, {0, 1}, {0, 1}), {{1, 1, 0}}));
    put(grid("sq2", box_model(2, {0, 1}, {0, 1}), {{2, 2, 0}}));
    put(grid("sq2x", box_model(2, {0, 1}, {0, 1}), {{2, 2, 0}}, 2));
    put(grid("sq3", box_model(2, {0, 1}, {0, 1}), {{3, 3, 0}}, 2));
    put(grid("flat", box_model(2, {0, 4}, {0, 1}), {{2, 1, 0}}, 2));
    put(grid("strip", box_model(2, {0, 2}, {0, 0.5}), {{4, 1, 0}}));
    put(grid("two", box_model(2, {0, 1, 2}, {0, 1}), {{1, 1, 0}}, 2));
    put(grid("two2", box_model(2, {0, 1, 2}, {0, 1}), {{2, 2, 0}}, 2));
    {
      auto m = box_model(2, {0, 1, 2}, {0, 1, 2});
      m.cells.erase({{3, 3, 0}});
      put(grid("ell", m, {{1, 1, 0}}));
      put(grid("ell2", m, {{2, 2, 0}}, 2));
    }
    {
      auto s = grid("poked", box_model(2, {0, 1}, {0, 1}), {{1, 1, 0}});
      poke(s, 0);
      poke(s, 3, {{1, 1, 8}});
      put(s);
    }
    put(grid("cube1", box_model(3, {0, 1}, {0, 1}, {0, 1}), {{1, 1, 1}}));
    put(grid("slab", box_model(3, {0, 2}, {0, 1}, {0, 1}), {{2, 1, 1}}));
    put(grid("cubes2", box_model(3, {0, 1, 2}, {0, 1}, {0, 1}), {{1, 1, 1}}));
    put(grid("cube2", box_model(3, {0, 1}, {0, 1}, {0, 1}), {{2, 2, 2}}));
    put(grid("thin", box_model(3, {0, 1}, {0, 1}, {0, 0.25}), {{2, 2, 1}}));
    {
      auto s = grid("pokedcube", box_model(3, {0, 1}, {0, 1}, {0, 1}), {{1, 1, 1}});
      poke(s, 0);
      poke(s, 6, {{1, 6, 1}});
      put(s);
    }
  }
  return all.at(name);
}

// classification of every entity of a mesh from the model (by its location)
inline void classify(oh::Mesh& m, Model const& model) {
  auto co = m.coords();
  int dim = m.dim();
  auto pt = [&](int v) {
    P3 p{{0, 0, 0}};
    for (int a = 0; a < dim; ++a) p[size_t(a)] = co[v * dim + a];
    return p;
  };
  for (int d = 0; d <= dim; ++d) {
    vector<I8> cd;
    vector<I32> ci;
    for (auto& e : mk::verts_of(m, d)) {
      vector<std::array<int, 3>> cs;
      for (int v : e) cs.push_back(model.code(pt(v)));
      std::array<int, 3> c;
      if (!model.join(cs, c)) abort();
      cd.push_back(I8(model.cdim(c)));
      ci.push_back(Model::id(c));
    }
    m.add_tag<I8>(d, "class_dim", 1, arr(cd));
    m.add_tag<I32>(d, "class_id", 1, arr(ci));
  }
}
inline vector<Real> coords_of(Start const& st, oh::GOs vg) {
  vector<Real> co;
  for (LO v = 0; v < vg.size(); ++v)
    for (int a = 0; a < st.model.dim; ++a) co.push_back(st.x[size_t(vg[v])][size_t(a)]);
  return co;
}
inline void dress(oh::Mesh& m, Start const& st) {
  m.add_tag<Real>(0, "coordinates", m.dim(), arr(coords_of(st, m.globals(0))));
  classify(m, st.model);
}

// ---- the global mesh that a Snap describes -------------------------------
struct GEnt {
  vector<GO> verts;
  GO global;
  int rank;
  std::map<std::string, vector<double>> tags;
};
struct Global {
  int dim;
  std::map<GO, P3> x;
  std::map<vector<GO>, GEnt> ents[4];  // by sorted vertices
  double vol(GEnt const& e) const {
    vector<P3> p;
    for (auto v : e.verts) p.push_back(x.at(v));
    return volume(dim, p);
  }
  vector<P3> pts(GEnt const& e) const {
    vector<P3> p;
    for (auto v : e.verts) p.push_back(x.at(v));
    return p;
  }
  uint64_t hash() const {
    mc::Hash h;
    for (int d = 0; d <= dim; ++d)
      for (auto& e : ents[d]) {
        for (auto v : e.second.verts) h.add(v);
        h.add(e.second.global);
      }
    for (auto& p : x) h.add(p.second);
    return h.h;
  }
};

// gathers the parts, checking that copies agree on vertices, numbers and tags
inline Global gather(Snap const& sn, int dim, std::set<std::string> const& loose = {}) {
  Global g;
  g.dim = dim;
  for (auto& r : sn.r) {
    if (!r.has) continue;
    for (int d = 0; d <= dim; ++d)
      for (size_t i = 0; i < r.ents[d].size(); ++i) {
        auto& e = r.ents[d][i];
        GEnt q;
        q.verts = e.verts;
        q.global = e.global;
        q.rank = e.orank;
        for (auto& t : r.tags[d]) q.tags[t.first] = t.second[i];
        auto it = g.ents[d].insert({dk::sortv(e.verts), q});
        if (it.second) continue;
        auto& f = it.first->second;
        MKREQ(f.verts == q.verts && f.global == q.global, "copies", "%s: copies of %d-entity %s differ in vertex order or number", sn.what.c_str(), d,
            str(it.first->first).c_str());
        for (auto& t : q.tags) {
          if (loose.count(t.first)) continue;
          MKREQ(f.tags.count(t.first), "copies-tags", "%s: tag %s of dimension %d is not on every rank", sn.what.c_str(), t.first.c_str(), d);
          auto& ft = f.tags.at(t.first);
          MKREQ(ft.size() == t.second.size() && !memcmp(ft.data(), t.second.data(), 8 * ft.size()), "copies-tag", "%s: copies of %d-entity %s have tag %s = %s and %s", sn.what.c_str(), d,
              str(it.first->first).c_str(), t.first.c_str(), str(ft).c_str(), str(t.second).c_str());
        }
      }
  }
  for (auto& v : g.ents[0]) {
    auto& c = v.second.tags.at("coordinates");
    P3 p{{0, 0, 0}};
    for (int a = 0; a < dim; ++a) p[size_t(a)] = c[size_t(a)];
    g.x[v.second.verts[0]] = p;
  }
  return g;
}
inline Soup soup_of(Global const& g) {
  Soup s;
  s.simplex = true;
  s.dim = g.dim;
  for (auto& e : g.ents[g.dim]) {
    s.elems.push_back({});
    for (auto v : e.second.verts) {
      s.elems.back().push_back(int(v));
      s.nverts = std::max(s.nverts, int(v) + 1);
    }
  }
  return s;
}

// the mesh is a valid, conforming, positively oriented mesh of the model with
// its classification
inline Global check_model_mesh(Snap const& sn, Model const& model, bool sorted_local = false, std::set<std::string> const& loose = {}) {
  int dim = model.dim;
  char const* w = sn.what.c_str();
  Global g = gather(sn, dim, loose);
  dk::Expect x;
  x.identity_tags = false;
  x.sorted_local = sorted_local;
  auto soup = soup_of(g);
  dk::check_global(sn, soup, x);
  for (int d = 0; d <= dim; ++d) {
    // numbered 0..n-1
    GO n = GO(g.ents[d].size());
    for (auto& e : g.ents[d])
      MKREQ(e.second.global >= 0 && e.second.global < n, "numbering", "%s: %d-entity %s has global number %lld of %lld", w, d, str(e.first).c_str(),
          (long long)e.second.global, (long long)n);
  }
  for (auto& v : g.ents[0]) MKREQ(v.second.verts[0] == v.second.global, "vertex-number", "%s", w);
  std::map<int, double> vol;
  for (auto& e : g.ents[dim]) {
    double v = g.vol(e.second);
    MKREQ(v > 0, "inverted", "%s: element %s has size %g", w, str(e.second.verts).c_str(), v);
    vol[int(e.second.tags.at("class_id")[0])] += v;
  }
  for (auto& c : model.all(dim)) {
    double want = model.measure(c);
    MKREQ(std::fabs(vol[Model::id(c)] - want) <= 1e-12 * want, "volume", "%s: the elements of region %d fill %.17g of %.17g", w, Model::id(c), vol[Model::id(c)], want);
  }
  // classification by location
  std::map<int, std::map<int, double>> cover;  // [dim][id] measure of the entities of that dimension
  for (int d = 0; d <= dim; ++d)
    for (auto& e : g.ents[d]) {
      vector<std::array<int, 3>> cs;
      for (auto v : e.second.verts) cs.push_back(model.code(g.x.at(v)));
      std::array<int, 3> c;
      MKREQ(model.join(cs, c), "outside", "%s: %d-entity %s crosses a model boundary", w, d, str(e.second.verts).c_str());
      auto cd = int(e.second.tags.at("class_dim")[0]), ci = int(e.second.tags.at("class_id")[0]);
      MKREQ(cd == model.cdim(c) && ci == Model::id(c), "classification", "%s: %d-entity %s lies on model entity (%d,%d) but is classified on (%d,%d)", w, d,
          str(e.second.verts).c_str(), model.cdim(c), Model::id(c), cd, ci);
      if (cd == d) cover[d][ci] += measure(d, g.pts(e.second));
    }
  for (int d = 0; d < dim; ++d)
    for (auto& c : model.all(d)) {
      double want = model.measure(c), got = cover[d][Model::id(c)];
      MKREQ(std::fabs(got - want) <= 1e-12 * want, "boundary", "%s: the mesh covers %.17g of %.17g of model entity (%d,%d)", w, got, want, d, Model::id(c));
    }
  // conformity: a side bounds one element on the outer boundary, else two
  std::map<vector<GO>, int> count;
  for (auto& e : g.ents[dim])
    for (auto& t : mk::down_template(true, dim, dim - 1)) {
      vector<GO> k;
      for (int i : t) k.push_back(e.second.verts[size_t(i)]);
      ++count[dk::sortv(k)];
    }
  for (auto& s : g.ents[dim - 1]) {
    vector<std::array<int, 3>> cs;
    for (auto v : s.second.verts) cs.push_back(model.code(g.x.at(v)));
    std::array<int, 3> c;
    model.join(cs, c);
    int want = model.cdim(c) == dim ? 2 : int(model.cells_around(c).size());
    int got = count[s.first];
    MKREQ(got == want, "conformity", "%s: side %s bounds %d elements, expected %d", w, str(s.second.verts).c_str(), got, want);
  }
  return g;
}
}  // namespace ak
#endif
