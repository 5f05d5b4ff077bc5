// C11: orders of points and entities.
#include <Omega_h_bbox.hpp>
#include <Omega_h_build.hpp>
#include <Omega_h_hilbert.hpp>
#include <Omega_h_mesh.hpp>
#include "worldkit.hpp"
using namespace wk;
using std::string;
using H = oh::hilbert::coord_t;

// position on the curve of 2^b cells per axis, as one number
template <int n>
static uint64_t place(oh::Vector<n> x, oh::Affine<n> a, int b) {
  auto y = oh::hilbert::from_spatial(a, b, x);
  uint64_t h = 0;
  for (int i = 0; i < n; ++i) {
    MKREQ(b >= 64 || y[i] < (H(1) << b), "curve", "position part %d is %llu, beyond %d bits", i, (unsigned long long)y[i], b);
    h = (h << b) | y[i];
  }
  return h;
}
// boxes of different sizes and places
template <int n>
static void boxes(int k, oh::Vector<n>& at, double& side) {
  static double const sides[] = {1.0, 0.3, 1e6};
  static double const places[] = {0.0, -0.7, 12345.0};
  side = sides[k % 3];
  for (int i = 0; i < n; ++i) at[i] = places[(k / 3 + i) % 3] * side;
}
template <int n>
static void curve(mc::Ctx& c, int maxbits) {
  int b = 1 + c.choose(maxbits);
  int k = c.choose(9);
  double off = c.choose(3) * 0.49;
  uint64_t cells = 1ull << (b * n);
  oh::Vector<n> at;
  double side;
  boxes<n>(k, at, side);
  if (c.describing()) c.note("%d dimensions, %d bits, box %d, points at %g in their cells", n, b, k, off + 0.01);
  oh::BBox<n> bb(at, at + oh::fill_vector<n>(side));
  auto a = oh::get_affine_from_bbox_into_unit(bb);
  vector<int64_t> who(cells, -1);
  for (uint64_t id = 0; id < cells; ++id) {
    oh::Vector<n> x;
    H X[n], Y[n];
    for (int i = 0; i < n; ++i) {
      auto ci = (id >> (b * i)) & ((1ull << b) - 1);
      X[i] = Y[i] = ci;
      x[i] = at[i] + side * ((double(ci) + off + 0.01) / double(1ull << b));
    }
    auto h = place<n>(x, a, b);
    MKREQ(who[h] == -1, "curve", "cells %lld and %llu have the same place %llu", (long long)who[h], (unsigned long long)id, (unsigned long long)h);
    who[h] = int64_t(id);
    oh::hilbert::AxestoTranspose(Y, b, n);
    oh::hilbert::TransposetoAxes(Y, b, n);
    for (int i = 0; i < n; ++i) MKREQ(X[i] == Y[i], "inverse", "cell %llu comes back as another one", (unsigned long long)id);
  }
  auto cell = [&](uint64_t h, int i) { return int64_t((uint64_t(who[h]) >> (b * i)) & ((1ull << b) - 1)); };
  for (uint64_t h = 0; h + 1 < cells; ++h) {
    int64_t d = 0;
    for (int i = 0; i < n; ++i) d += std::abs(cell(h + 1, i) - cell(h, i));
    MKREQ(d == 1, "curve", "%d dimensions, %d bits: places %llu and %llu are %lld cells apart", n, b, (unsigned long long)h, (unsigned long long)h + 1, (long long)d);
  }
  // every block of cells is one piece of the curve
  for (int level = 1; level < b; ++level)
    for (uint64_t h = 0; h < cells; ++h) {
      uint64_t first = h >> (level * n) << (level * n);
      for (int i = 0; i < n; ++i)
        MKREQ(cell(h, i) >> level == cell(first, i) >> level, "curve", "%d dimensions, %d bits: a block of level %d is left and entered again", n, b, level);
    }
  // points on and beyond the box belong to the nearest cell
  for (uint64_t id = 0; id < (1ull << n); ++id)
    for (double out : {0.0, 1e-12, 0.5, 1e10}) {
      oh::Vector<n> x, y;
      for (int i = 0; i < n; ++i) {
        bool hi = (id >> i) & 1;
        x[i] = hi ? at[i] + side * (1 + out) : at[i] - side * out;
        y[i] = at[i] + side * ((hi ? double((1ull << b) - 1) : 0.0) + 0.5) / double(1ull << b);
      }
      MKREQ(place<n>(x, a, b) == place<n>(y, a, b), "clamp", "a point %g beyond corner %llu is not in the corner's cell", out, (unsigned long long)id);
    }
  c.exec();
  c.state(mc::Hash().add(n).add(b).add(k).add(off).h);
}
// reference order: places computed at full depth by subdividing cells, with the
// orientation of each block found from an exhaustive small curve
template <int n>
static vector<int> curve_order(vector<std::array<double, 3>> const& x) {
  // level by level from the transposition itself on 16 bits (checked above)
  oh::Vector<n> lo, hi;
  for (int i = 0; i < n; ++i) {
    lo[i] = hi[i] = x[0][size_t(i)];
    for (auto& p : x) {
      lo[i] = std::min(lo[i], p[size_t(i)]);
      hi[i] = std::max(hi[i], p[size_t(i)]);
    }
  }
  double side = 0;
  for (int i = 0; i < n; ++i) side = std::max(side, hi[i] - lo[i]);
  vector<std::pair<uint64_t, int>> o;
  for (size_t v = 0; v < x.size(); ++v) {
    H X[n];
    for (int i = 0; i < n; ++i) {
      double u = (x[v][size_t(i)] - lo[i]) / side * 65536;
      X[i] = std::min<H>(65535, H(std::max(0.0, u)));
    }
    oh::hilbert::AxestoTranspose(X, 16, n);
    uint64_t h = 0;
    for (int bit = 15; bit >= 0; --bit)
      for (int i = 0; i < n; ++i) h = (h << 1) | ((X[i] >> bit) & 1);
    o.push_back({h, int(v)});
  }
  std::stable_sort(o.begin(), o.end());
  vector<int> r;
  for (auto& p : o) r.push_back(p.second);
  return r;
}
static vector<int> order_of(int n, vector<std::array<double, 3>> const& x) { return n == 1 ? curve_order<1>(x) : n == 2 ? curve_order<2>(x) : curve_order<3>(x); }

// lattices of points, given in any of several orders
template <int n>
static void points(mc::Ctx& c, int maxbits) {
  int b = 1 + c.choose(maxbits);
  int k = c.choose(9);
  int m = 1 << b;
  int total = 1;
  for (int i = 0; i < n; ++i) total *= m;
  int step = 1 + 2 * c.choose(4), rev = c.choose(2);
  oh::Vector<n> at;
  double side;
  boxes<n>(k, at, side);
  vector<int> ids;
  for (int i = 0; i < total; ++i) ids.push_back(int((int64_t(i) * step + 3 * step) % total));
  if (rev) std::reverse(ids.begin(), ids.end());
  if (c.describing()) c.note("%d dimensions, lattice of %d per axis, box %d, stride %d%s", n, m, k, step, rev ? ", reversed" : "");
  vector<Real> x;
  for (int id : ids)
    for (int i = 0; i < n; ++i) x.push_back(at[i] + side * double((id >> (b * i)) & (m - 1)) / double(m - 1));
  auto got = vec(oh::hilbert::sort_coords(arr(x), n));
  MKREQ(int(got.size()) == total, "sort", "%zu positions for %d points", got.size(), total);
  vector<int> seen(size_t(total), 0);
  for (int g : got) {
    MKREQ(g >= 0 && g < total && !seen[size_t(g)], "sort", "%s is no permutation", str(got).c_str());
    seen[size_t(g)] = 1;
  }
  for (int i = 0; i + 1 < total; ++i) {
    int a = ids[size_t(got[size_t(i)])], d = ids[size_t(got[size_t(i) + 1])], dist = 0;
    for (int j = 0; j < n; ++j) dist += std::abs(((a >> (b * j)) & (m - 1)) - ((d >> (b * j)) & (m - 1)));
    MKREQ(dist == 1, "sort", "points %d and %d of the order are %d steps apart", i, i + 1, dist);
  }
  c.exec();
  c.state(mc::Hash().add(n).add(b).add(k).add(step).add(rev).h);
}

// a small block of cells deep inside a large box
template <int n>
static void fine(mc::Ctx& c) {
  static int const depths[] = {8, 20, 31, 32, 33, 50, 52};
  int deep = depths[c.choose(7)], b = 1 + c.choose(2), m = 1 << b;
  double scale = c.flip() ? 1.0 : 4096.0;
  int total = 1, at[3] = {0, 0, 0};
  for (int i = 0; i < n; ++i) {
    total *= m;
    at[i] = c.choose(5);
  }
  if (c.describing()) c.note("%d dimensions, a block of %d cells of size 2^-%d per axis at %d %d %d, scale %g", n, m, deep, at[0], at[1], at[2], scale);
  auto first = [&](int i) {  // first cell of the block along axis i
    static double const where[] = {0.0, 0.25, 0.5, 0.7, 0.99};
    return uint64_t(where[at[i]] * double(1ull << (deep - b))) << b;
  };
  vector<Real> x;
  for (int q = 0; q < total; ++q)
    for (int i = 0; i < n; ++i) x.push_back(scale * double(first(i) + uint64_t((q >> (b * i)) & (m - 1))) / double(1ull << deep));
  for (int q = 0; q < 2; ++q)
    for (int i = 0; i < n; ++i) x.push_back(q * scale);
  auto got = vec(oh::hilbert::sort_coords(arr(x), n));
  vector<int> order;
  bool origin = true, end = true;
  for (int i = 0; i < n; ++i) {
    origin = origin && first(i) == 0;
    end = end && first(i) + uint64_t(m) == 1ull << deep;
  }
  size_t lo = 999, hi = 0;
  for (size_t i = 0; i < got.size(); ++i)
    if (got[i] < total) {
      order.push_back(got[i]);
      lo = std::min(lo, i);
      hi = i;
    }
  MKREQ(int(order.size()) == total, "fine", "%zu points of %d", order.size(), total);
  // only a corner of the box that shares a cell with a point may come between
  MKREQ(int(hi - lo) + 1 == total || ((origin || end) && int(hi - lo) == total), "fine", "the block is not one piece of the order: %s", str(got).c_str());
  for (int i = 0; i + 1 < total; ++i) {
    int dist = 0;
    for (int j = 0; j < n; ++j) dist += std::abs(((order[size_t(i)] >> (b * j)) & (m - 1)) - ((order[size_t(i) + 1] >> (b * j)) & (m - 1)));
    MKREQ(dist == 1, "fine", "points %d and %d of the block are %d steps apart: %s", i, i + 1, dist, str(got).c_str());
  }
  c.exec();
  c.state(mc::Hash().add(n).add(deep).add(b).add(scale).add(at[0]).add(at[1]).add(at[2]).h);
}

// ---- meshes
static vector<std::array<double, 3>> coords_of(mc::Ctx& c, int nverts, int dim, int how) {
  (void)c;
  vector<std::array<double, 3>> x;
  for (int v = 0; v < nverts; ++v) {
    std::array<double, 3> p{{0, 0, 0}};
    for (int i = 0; i < dim; ++i) {
      int q = how == 0 ? v * (3 + i) : how == 1 ? (v * 7 + i * 5) * (i + 1) : v * v + i * (nverts - v) + 2 * i * v * v * v;
      p[size_t(i)] = how == 3 ? double((v >> i) & 1) + 0.01 * v : double(q % 17) / 16 + 0.001 * v;
    }
    x.push_back(p);
  }
  return x;
}
static char const* names[] = {"strip4", "tets3", "edges4", "quads4", "fan4", "tetring4", "hexes2", "bowtie"};
static void check_order(oh::Mesh& m, Soup const& s, vector<int> const& vorder, bool by_verts) {
  // the same mesh under the new numbers of vertices
  vector<int> now(size_t(s.nverts));
  for (size_t i = 0; i < vorder.size(); ++i) now[size_t(vorder[i])] = int(i);
  auto gotx = m.get_array<LO>(0, "old");
  MKREQ(m.nverts() == s.nverts, "mesh", "%d vertices instead of %d", m.nverts(), s.nverts);
  for (LO i = 0; i < m.nverts(); ++i) MKREQ(gotx[i] == vorder[size_t(i)], "vertices", "vertex %d was vertex %d, expected %d (order %s)", i, gotx[i], vorder[size_t(i)], str(vorder).c_str());
  VV v[4];
  for (int d = 0; d <= s.dim; ++d) v[d] = mk::verts_of(m, d);
  for (int d = 0; d <= s.dim; ++d) {
    std::set<vector<int>> want, have;
    for (auto& e : s.ents(d)) {
      vector<int> k;
      for (int q : e) k.push_back(now[size_t(q)]);
      want.insert(sorted(k));
    }
    for (auto& e : v[d]) MKREQ(have.insert(sorted(e)).second, "mesh", "an entity of dimension %d twice", d);
    MKREQ(want == have, "mesh", "the entities of dimension %d are not those of the mesh", d);
  }
  for (int h = 1; h <= s.dim; ++h)
    for (int l = 0; l < h; ++l) {
      check_down(m, h, l, v[h], v[l]);
      check_up(m, l, h, v[h], v[l]);
    }
  for (int d = 0; d <= s.dim; ++d) {
    auto old = m.get_array<LO>(d, "verts");  // sum of powers of the old vertices
    auto g = m.globals(d);
    int w = degree(s.simplex, d);
    for (LO e = 0; e < m.nents(d); ++e) {
      vector<int> k, o;
      for (int j = 0; j < w; ++j) {
        o.push_back(old[e * w + j]);
        k.push_back(vorder[size_t(v[d][size_t(e)][size_t(j)])]);
      }
      MKREQ(k == o, "tags", "entity %d of dimension %d has the tag of %s, its vertices were %s", e, d, str(o).c_str(), str(k).c_str());
      if (by_verts) MKREQ(g[e] == e, "globals", "entity %d of dimension %d has global number %lld", e, d, (long long)g[e]);
      if (by_verts && e > 0) MKREQ(v[d][size_t(e) - 1][0] <= v[d][size_t(e)][0], "entities", "entities %d and %d of dimension %d do not follow the order of their first vertices", e - 1, e, d);
      if (!by_verts && e > 0) MKREQ(g[e - 1] < g[e], "globals", "the order of dimension %d does not follow global numbers", d);
    }
  }
}
static void add_old(oh::Mesh& m) {
  vector<LO> o;
  for (LO i = 0; i < m.nverts(); ++i) o.push_back(i);
  m.add_tag<LO>(0, "old", 1, arr(o));
  for (int d = 0; d <= m.dim(); ++d) {
    vector<LO> f;
    auto ev = mk::verts_of(m, d);
    for (auto& e : ev)
      for (int v : e) f.push_back(v);
    m.add_tag<LO>(d, "verts", oh::Int(ev.empty() ? 1 : ev[0].size()), arr(f));
  }
}
// ask for some adjacencies beforehand: they must not survive
static void touch(oh::Mesh& m, int how) {
  if (!how) return;
  for (int h = 1; h <= m.dim(); ++h)
    for (int l = 0; l < h; ++l) {
      m.ask_down(h, l);
      m.ask_up(l, h);
    }
  m.ask_dual();
  if (m.family() == OMEGA_H_SIMPLEX) m.ask_star(0);
}
static void by_hilbert(mc::Ctx& c) {
  int b = c.choose(8);
  auto s = base(names[b]).s;
  int how = c.choose(4), t = c.choose(2);
  // two vertices exchanged
  int i = c.choose(s.nverts), j = c.choose(s.nverts);
  if (j < i) c.prune();
  auto x = coords_of(c, s.nverts, s.dim, how);
  std::swap(x[size_t(i)], x[size_t(j)]);
  if (c.describing()) c.note("%s, coordinates %d, %d and %d exchanged, adjacencies %d", names[b], how, i, j, t);
  oh::Library lib;
  auto m = mk::build(lib, s);
  vector<Real> xx;
  for (auto& p : x)
    for (int q = 0; q < s.dim; ++q) xx.push_back(p[size_t(q)]);
  m.add_tag<Real>(0, "coordinates", oh::Int(s.dim), arr(xx));
  add_old(m);
  if (s.simplex) touch(m, t);
  oh::reorder_by_hilbert(&m);
  auto order = order_of(s.dim, x);
  check_order(m, s, order, true);
  auto nx = m.coords();
  for (LO v = 0; v < m.nverts(); ++v)
    for (int q = 0; q < s.dim; ++q) MKREQ(nx[v * s.dim + q] == x[size_t(order[size_t(v)])][size_t(q)], "coords", "the coordinates of vertex %d", v);
  c.exec();
  c.state(mc::Hash().add(b).add(how).add(t).add(i).add(j).h);
}
static void by_globals(mc::Ctx& c) {
  int b = c.choose(8);
  auto s = base(names[b]).s;
  int t = c.choose(2);
  c.split();
  oh::Library lib;
  auto m = mk::build(lib, s);
  // vertices: every permutation of the first five, spread by a stride; other
  // dimensions: a rotation
  vector<GO> g;
  vector<int> perm;
  int n = s.nverts, k = std::min(n, c.thorough() ? 6 : 5);
  vector<int> left;
  for (int i = 0; i < k; ++i) left.push_back(i);
  while (!left.empty()) {
    int q = c.choose(int(left.size()));
    perm.push_back(left[size_t(q)]);
    left.erase(left.begin() + q);
  }
  for (int i = k; i < n; ++i) perm.push_back(i);
  int stride = 1 + 2 * c.choose(2);
  vector<int> vorder(size_t(n), 0);
  for (int i = 0; i < n; ++i) {
    g.push_back(GO(perm[size_t(i)]) * stride);
    vorder[size_t(perm[size_t(i)])] = i;
  }
  int turn = c.choose(3);
  m.set_tag<GO>(0, "global", arr(g));
  for (int d = 1; d <= s.dim; ++d) {
    vector<GO> h;
    for (LO e = 0; e < m.nents(d); ++e) h.push_back(turn == 2 ? m.nents(d) - 1 - e : (e + turn * d) % m.nents(d));
    m.set_tag<GO>(d, "global", arr(h));
  }
  add_old(m);
  if (c.describing()) c.note("%s, vertices numbered %s, others turned by %d", names[b], str(g).c_str(), turn);
  vector<Real> xx;
  for (auto& p : coords_of(c, s.nverts, s.dim, 1))
    for (int q = 0; q < s.dim; ++q) xx.push_back(p[size_t(q)]);
  m.add_tag<Real>(0, "coordinates", oh::Int(s.dim), arr(xx));
  if (s.simplex) touch(m, t);
  oh::reorder_by_globals(&m);
  check_order(m, s, vorder, false);
  c.exec();
  c.state(mc::Hash().add(b).add(hash_of(g)).add(turn).add(t).h);
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C11",
      {
          {"curve1", [](mc::Ctx& c) { curve<1>(c, 8); }, 60, false, "every cell of every 1D grid to 8 bits"},
          {"curve2", [](mc::Ctx& c) { curve<2>(c, c.thorough() ? 10 : 8); }, 60, false, "every cell of every 2D grid to 8 (10) bits x 9 boxes x 3 places in the cell"},
          {"curve3", [](mc::Ctx& c) { curve<3>(c, c.thorough() ? 7 : 5); }, 60, false, "every cell of every 3D grid to 5 (7) bits x 9 boxes x 3 places in the cell"},
          {"points1", [](mc::Ctx& c) { points<1>(c, 6); }, 60, false, "every 1D lattice to 64 points in 8 orders"},
          {"points2", [](mc::Ctx& c) { points<2>(c, c.thorough() ? 6 : 5); }, 60, false, "every 2D lattice to 32 (64) points per axis in 8 orders x 9 boxes"},
          {"points3", [](mc::Ctx& c) { points<3>(c, c.thorough() ? 5 : 4); }, 60, false, "every 3D lattice to 16 (32) points per axis in 8 orders x 9 boxes"},
          {"fine2", fine<2>, 60, false, "blocks of 2-4 cells per axis at 25 places of grids of 2^8 to 2^52 cells per axis"},
          {"fine3", fine<3>, 60, false, "blocks of 2-4 cells per axis at 125 places of grids of 2^8 to 2^52 cells per axis"},
          {"by-hilbert", by_hilbert, 60, false, "8 meshes x 4 sets of coordinates x every exchange of two vertices"},
          {"by-globals", by_globals, 60, false, "8 meshes x every permutation of five (six) vertices x 2 strides x 3 numberings of the rest"},
      });
}
