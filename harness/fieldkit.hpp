#pragma once
// Small simplex meshes with coordinates, and fields on their vertices computed
// over every distribution.
#include <Omega_h_migrate.hpp>
#include <cmath>
#include "worldkit.hpp"
using namespace wk;
using namespace minimpi;
using P3 = std::array<double, 3>;
struct Field {
  int nc;
  vector<double> v;
};
struct MeshCase {
  Soup s;
  vector<P3> x;
  vector<std::pair<int, int>> edges;
};
// a box of cells cut into simplices, deformed by `shape`
static MeshCase box_case(int dim, int nx, int ny, int nz, int shape) {
  MeshCase m;
  int n[3] = {nx, dim > 1 ? ny : 0, dim > 2 ? nz : 0};
  auto at = [&](int i, int j, int k) { return i + (n[0] + 1) * (j + (n[1] + 1) * k); };
  for (int k = 0; k <= n[2]; ++k)
    for (int j = 0; j <= n[1]; ++j)
      for (int i = 0; i <= n[0]; ++i) {
        P3 p{{double(i), double(j), double(k)}};
        if (shape == 1) {  // stretched and sheared
          p = {{3 * p[0] + 0.5 * p[1] - 0.2 * p[2], 0.4 * p[1] + 0.1 * p[2], 1.3 * p[2]}};
        } else if (shape == 2) {  // uneven
          p = {{p[0] + 0.17 * p[1] * p[0] + 0.06 * p[0] * p[0], p[1] - 0.11 * p[2] + 0.07 * p[0] * p[0], p[2] * 0.8 + 0.05 * p[0] * p[1]}};
        } else if (shape == 3) {  // far smaller
          for (auto& y : p) y *= 1e-3;
        }
        for (int d = dim; d < 3; ++d) p[size_t(d)] = 0;
        m.x.push_back(p);
      }
  VV ev;
  for (int k = 0; k < std::max(1, n[2]); ++k)
    for (int j = 0; j < std::max(1, n[1]); ++j)
      for (int i = 0; i < n[0]; ++i) {
        int perm[3] = {0, 1, 2};
        do {
          int c[3] = {i, j, k};
          vector<int> e = {at(c[0], c[1], c[2])};
          bool odd = false;
          for (int a = 0; a < dim; ++a) {
            ++c[perm[a]];
            e.push_back(at(c[0], c[1], c[2]));
            for (int b = 0; b < a; ++b) odd ^= perm[b] > perm[a];
          }
          if (odd) std::swap(e[size_t(dim) - 1], e[size_t(dim)]);
          ev.push_back(e);
        } while (std::next_permutation(perm, perm + dim));
      }
  m.s = soup(true, dim, ev);
  for (auto& k : m.s.ents(1)) m.edges.push_back({k[0], k[1]});
  return m;
}
static double dist_of(P3 const& a, P3 const& b) { return std::sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])); }
// the owners of the elements: every assignment of few, a pattern of many
static vector<int> owners_of(mc::Ctx& c, int nelems, int n) {
  vector<int> o(size_t(nelems), 0);
  if (n == 1) return o;
  if (nelems <= 4) {
    for (auto& x : o) x = c.choose(n);
  } else {
    int k = c.choose(5);
    for (int e = 0; e < nelems; ++e) o[size_t(e)] = k == 0 ? e * n / nelems : k == 1 ? e % n : k == 2 ? (e == nelems / 2) : k == 3 ? (e * e + 1) % n : n - 1;
  }
  return o;
}
static vector<double> local(oh::Mesh& m, Field const& f) {
  vector<double> r;
  for (auto g : vec(m.globals(0)))
    for (int k = 0; k < f.nc; ++k) r.push_back(f.v[size_t(g) * size_t(f.nc) + size_t(k)]);
  return r;
}
// the elements of a rank as the mesh lists them: element globals depend on
// the distribution
static vector<int> elems_of(oh::Mesh& m, MeshCase const& mcase) {
  std::map<vector<int>, int> id;
  for (size_t e = 0; e < mcase.s.elems.size(); ++e) {
    auto w = mcase.s.elems[e];
    std::sort(w.begin(), w.end());
    id[w] = int(e);
  }
  auto vg = vec(m.globals(0));
  vector<int> r;
  for (auto& ev : mk::verts_of(m, m.dim())) {
    vector<int> w;
    for (int v : ev) w.push_back(int(vg[size_t(v)]));
    std::sort(w.begin(), w.end());
    r.push_back(id.at(w));
  }
  return r;
}
// runs `body` on the ranks of one distribution; what it returns at each
// vertex of each rank, which all copies have to agree on, by vertex
template <class F>
static Field run_on(mc::Ctx& c, MeshCase const& mcase, int n, vector<int> const& owner, int parting, F body, bool moved = false, bool on_elems = false) {
  Options o;
  o.nranks = n;
  o.explore = false;
  vector<vector<double>> got(on_elems ? mcase.s.elems.size() : size_t(mcase.s.nverts));
  Field out;
  out.nc = 0;
  minimpi::run(c, o, [&](int) {
    oh::Library lib;
    auto world = lib.world();
    auto m = build_parted(lib, world, mcase.s, moved ? vector<int>(owner.size(), 0) : owner);
    if (moved) {
      vector<int> mine;
      for (size_t e = 0; e < owner.size(); ++e)
        if (owner[e] == world->rank()) mine.push_back(int(e));
      oh::migrate_mesh(&m, oh::Dist(world, oh::Remotes(arr(vector<int>(mine.size(), 0)), arr(mine)), m.nelems()), OMEGA_H_ELEM_BASED, false);
    }
    vector<double> x;
    for (auto g : vec(m.globals(0)))
      for (int d = 0; d < mcase.s.dim; ++d) x.push_back(mcase.x[size_t(g)][size_t(d)]);
    m.add_tag(0, "coordinates", mcase.s.dim, arr(x));
    part(m, parting);
    auto r = vec(body(m));
    vector<int> vg;
    if (on_elems) vg = elems_of(m, mcase);
    else for (auto g : vec(m.globals(0))) vg.push_back(int(g));
    if (vg.empty()) {
      minimpi::require(r.empty(), "size", "%zu values on a rank without any entity", r.size());
      return;
    }
    minimpi::require(r.size() % vg.size() == 0 && r.size() > 0, "size", "%zu values for %zu entities", r.size(), vg.size());
    size_t nc = r.size() / vg.size();
    out.nc = int(nc);
    for (size_t i = 0; i < vg.size(); ++i) {
      vector<double> w(r.begin() + long(i * nc), r.begin() + long((i + 1) * nc));
      auto& g = got[size_t(vg[i])];
      if (g.empty()) g = w;
      minimpi::require(g == w, "copies", "the copies of entity %d hold %s and %s", vg[i], ::str(g).c_str(), ::str(w).c_str());
    }
  });
  for (auto& g : got) out.v.insert(out.v.end(), g.begin(), g.end());
  return out;
}
