// C31: sizes forced by thin parts of the domain: every bridge pattern on every
// simplex of a lattice, many simplices per mesh, judged by elementary geometry.
#include <Omega_h_build.hpp>
#include <Omega_h_confined.hpp>
#include <cmath>
#include "worldkit.hpp"
using namespace wk;
using oh::I8;
using oh::Reals;

static mc::Ctx* C;
#define REQ(cond, key, ...) do { if (!(cond)) C->fail(key, __VA_ARGS__); } while (0)
using P = std::array<double, 3>;
using PS = vector<P>;
static P operator-(P a, P b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
static P plus(P a, P b, double t) { return {{a[0] + t * b[0], a[1] + t * b[1], a[2] + t * b[2]}}; }
static double dot(P a, P b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static P vec_prod(P a, P b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static double len(P a) { return std::sqrt(dot(a, a)); }

// what a distance may be: NaN-free candidates; `sure` ones have to be counted,
// others (feet on a boundary, up to rounding) may
struct Near {
  double sure = -1, maybe = -1;
  static void take(double& r, double d) { r = r < 0 ? d : std::min(r, d); }
  // slack: how far inside
  void add(double d, double slack) {
    if (slack < -1e-9) return;
    take(maybe, d);
    if (slack > 1e-9) take(sure, d);
  }
  bool fits(double x) const {
    auto same = [&](double a, double b) { return a < 0 ? b == -1 : std::fabs(a - b) <= 1e-10 * (1 + a); };
    if (same(sure, x) || same(maybe, x)) return true;
    // any other choice among the unsure
    return maybe >= 0 && x >= maybe - 1e-10 && (sure < 0 || x <= sure);
  }
};
using Flags = std::function<bool(int, int)>;  // edge between two vertices of the element
static Near tri_dist(PS const& p, Flags f) {
  Near r;
  for (int v = 0; v < 3; ++v) {
    int a = (v + 1) % 3, b = (v + 2) % 3;
    if (!f(v, a) || !f(v, b)) continue;
    P ab = p[size_t(b)] - p[size_t(a)];
    double t = dot(p[size_t(v)] - p[size_t(a)], ab) / dot(ab, ab);
    r.add(len(p[size_t(v)] - plus(p[size_t(a)], ab, t)), std::min(t, 1 - t));
  }
  return r;
}
static Near tet_dist(PS const& p, Flags f) {
  Near r;
  int n = 0;
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < i; ++j) n += f(i, j);
  if (n == 4)
    for (int b = 1; b < 4; ++b) {
      int c = b == 1 ? 2 : 1, d = b == 3 ? 2 : 3;
      if (f(0, b) || f(c, d)) continue;
      // closest points of the lines 0b and cd
      P u = p[size_t(b)] - p[0], v = p[size_t(d)] - p[size_t(c)], w = p[0] - p[size_t(c)];
      double uu = dot(u, u), uv = dot(u, v), vv = dot(v, v), uw = dot(u, w), vw = dot(v, w), det = uu * vv - uv * uv;
      double s = (uv * vw - vv * uw) / det, t = (uu * vw - uv * uw) / det;
      r.add(len(plus(p[0], u, s) - plus(p[size_t(c)], v, t)), std::min(std::min(s, 1 - s), std::min(t, 1 - t)));
      return r;
    }
  for (int v = 0; v < 4; ++v) {
    vector<int> o;
    bool all = true;
    for (int i = 0; i < 4; ++i)
      if (i != v) {
        o.push_back(i);
        all = all && f(v, i);
      }
    if (!all) continue;
    P a = p[size_t(o[0])], ab = p[size_t(o[1])] - a, ac = p[size_t(o[2])] - a, av = p[size_t(v)] - a;
    P n2 = vec_prod(ab, ac);
    double q = dot(n2, n2), y = dot(vec_prod(av, ac), n2) / q, z = dot(vec_prod(ab, av), n2) / q;
    r.add(std::fabs(dot(av, n2)) / std::sqrt(q), std::min(1 - y - z, std::min(y, z)));
  }
  return r;
}
struct Many {
  int dim, sdim;
  vector<PS> simplices;
  oh::Mesh build(oh::Library& lib) const {
    vector<int> ev;
    vector<double> x;
    int n = 0;
    for (auto& s : simplices)
      for (auto& p : s) {
        ev.push_back(n++);
        for (int d = 0; d < sdim; ++d) x.push_back(p[size_t(d)]);
      }
    oh::Mesh m(&lib);
    oh::build_from_elems2verts(&m, OMEGA_H_SIMPLEX, dim, arr(ev), n);
    m.add_tag(0, "coordinates", sdim, arr(x));
    return m;
  }
};
// a lattice moved off itself a little, away from the origin
static P lattice(int k, int top, int dim, int shift) {
  P x = {{0, 0, 0}};
  static double const at[][3] = {{0, 0, 0}, {0.37, -2.25, 4.5}, {-3, 5, -0.125}};
  int kk = k;
  for (int d = 0; d < dim; ++d, k /= top + 1) x[size_t(d)] = k % (top + 1);
  P y = x;
  if (shift) y = {{x[0] + 0.11 * x[1] - 0.03 * x[2] * kk, x[1] + 0.07 * x[2] - 0.05 * x[0] * x[0], x[2] + 0.04 * x[0] * x[1]}};
  for (int d = 0; d < dim; ++d) y[size_t(d)] += at[shift][d];
  for (int d = dim; d < 3; ++d) y[size_t(d)] = 0;
  return y;
}
static double volume(PS const& p) { return dot(vec_prod(p[1] - p[0], p[2] - p[0]), p[3] - p[0]) / 6; }
static double area(PS const& p) { return vec_prod(p[1] - p[0], p[2] - p[0])[2] / 2; }
static vector<vector<int>> edges_of(oh::Mesh& m) { return mk::verts_of(m, 1); }

// one mesh with every position of the last vertex and every pattern
static void pads(mc::Ctx& c, int dim, int top, int thin) {
  C = &c;
  int per = 1;
  for (int d = 0; d < dim; ++d) per *= top + 1;
  int shift = c.choose(3);
  PS p;
  for (int i = 0; i < dim; ++i) {
    int k = c.choose(per);
    if (i == 0) c.split();
    if (i && thin > 1 && !c.thorough() && (k * 7 + i) % thin) c.prune();
    p.push_back(lattice(k, top, dim, shift));
  }
  Many all;
  all.dim = all.sdim = dim;
  vector<int> pattern;
  int np = dim == 2 ? 8 : 64;
  p.push_back(P());
  for (int k = 0; k < per; ++k) {
    p.back() = lattice(k, top, dim, shift);
    double v = dim == 3 ? volume(p) : area(p);
    if (!(v > 1e-3)) continue;
    for (int f = 0; f < np; ++f) {
      all.simplices.push_back(p);
      pattern.push_back(f);
    }
  }
  if (all.simplices.empty()) c.prune();
  oh::Library lib;
  auto m = all.build(lib);
  // the pattern is over vertex pairs in the order 01 02 12 03 13 23
  auto flag = [&](int f, int a, int b) { return bool(f >> (std::max(a, b) * (std::max(a, b) - 1) / 2 + std::min(a, b)) & 1); };
  vector<I8> bridge;
  int nvp = dim + 1;
  for (auto& e : edges_of(m)) bridge.push_back(flag(pattern[size_t(e[0] / nvp)], e[0] % nvp, e[1] % nvp));
  auto got1 = vec(oh::get_pad_dists(&m, 1, arr(bridge)));
  auto ev = edges_of(m);
  REQ(got1.size() == ev.size(), "edges", "%zu values for %zu edges", got1.size(), ev.size());
  for (size_t e = 0; e < ev.size(); ++e) {
    auto& s = all.simplices[size_t(ev[e][0] / nvp)];
    double w = bridge[e] ? len(s[size_t(ev[e][0] % nvp)] - s[size_t(ev[e][1] % nvp)]) : -1;
    REQ(std::fabs(got1[e] - w) <= 1e-13 * (1 + std::fabs(w)), "edges", "edge of length %.17g, %sa bridge, is given %.17g", w, bridge[e] ? "" : "not ", got1[e]);
  }
  auto got2 = vec(oh::get_pad_dists(&m, 2, arr(bridge)));
  auto fv = mk::verts_of(m, 2);
  REQ(got2.size() == fv.size(), "triangles", "%zu values for %zu triangles", got2.size(), fv.size());
  for (size_t t = 0; t < fv.size(); ++t) {
    size_t s = size_t(fv[t][0] / nvp);
    PS q;
    for (int v : fv[t]) q.push_back(all.simplices[s][size_t(v % nvp)]);
    auto w = tri_dist(q, [&](int a, int b) { return flag(pattern[s], fv[t][size_t(a)] % nvp, fv[t][size_t(b)] % nvp); });
    REQ(w.fits(got2[t]), "triangles", "triangle (%g %g %g) (%g %g %g) (%g %g %g) with bridges %d%d%d (ab, bc, ca) is given %.17g instead of %.17g", q[0][0], q[0][1], q[0][2], q[1][0], q[1][1], q[1][2], q[2][0], q[2][1], q[2][2],
        flag(pattern[s], fv[t][0] % nvp, fv[t][1] % nvp), flag(pattern[s], fv[t][1] % nvp, fv[t][2] % nvp), flag(pattern[s], fv[t][2] % nvp, fv[t][0] % nvp), got2[t], w.sure);
  }
  if (dim == 3) {
    auto got3 = vec(oh::get_pad_dists(&m, 3, arr(bridge)));
    auto tv = mk::verts_of(m, 3);
    REQ(got3.size() == tv.size(), "tets", "%zu values for %zu tetrahedra", got3.size(), tv.size());
    for (size_t t = 0; t < tv.size(); ++t) {
      size_t s = size_t(tv[t][0] / nvp);
      auto& q = all.simplices[s];
      auto w = tet_dist(q, [&](int a, int b) { return flag(pattern[s], a, b); });
      REQ(w.fits(got3[t]), "tets", "tetrahedron (%g %g %g) (%g %g %g) (%g %g %g) (%g %g %g) with bridges %d%d%d%d%d%d (01 02 12 03 13 23) is given %.17g instead of %.17g", q[0][0], q[0][1], q[0][2], q[1][0], q[1][1], q[1][2], q[2][0], q[2][1],
          q[2][2], q[3][0], q[3][1], q[3][2], pattern[s] & 1, pattern[s] >> 1 & 1, pattern[s] >> 2 & 1, pattern[s] >> 3 & 1, pattern[s] >> 4 & 1, pattern[s] >> 5 & 1, got3[t], w.sure);
    }
  }
  c.exec(long(all.simplices.size()));
  c.state(mc::Hash().add(dim).add(shift).add(int(all.simplices.size())).add(long(p[0][0] * 1000)).add(long(p[1][1] * 1000)).h);
}
static double angle(P a, P b) { return std::acos(std::max(-1.0, std::min(1.0, dot(a, b) / len(a) / len(b)))); }
// triangles with every classification of their vertices and edges, in the
// plane or in space
static void pinched_tris(mc::Ctx& c, int sdim) {
  C = &c;
  int top = 2, per = sdim == 2 ? 9 : 27;
  int shift = 1 + c.choose(2);
  PS p = {lattice(c.choose(per), top, sdim, shift)};
  c.split();
  for (int i = 0; i < 1; ++i) p.push_back(lattice(c.choose(per), top, sdim, shift));
  p.push_back(P());
  if (len(p[1] - p[0]) < 0.1) c.prune();
  Many all;
  all.dim = 2;
  all.sdim = sdim;
  vector<int> pat;
  for (int k = 0; k < per; ++k) {
    p[2] = lattice(k, top, sdim, shift);
    if (sdim == 2 ? !(area(p) > 1e-3) : len(vec_prod(p[1] - p[0], p[2] - p[0])) < 1e-3) continue;
    for (int f = 0; f < 27 * 8; ++f) {
      all.simplices.push_back(p);
      pat.push_back(f);
    }
  }
  if (all.simplices.empty()) c.prune();
  oh::Library lib;
  oh::Mesh m;
  if (sdim == 2) {
    m = all.build(lib);
  } else {
    // faces of tetrahedra whose last vertex lies far off
    Many tets;
    tets.dim = tets.sdim = 3;
    for (auto& s : all.simplices) {
      auto q = s;
      P n = vec_prod(s[1] - s[0], s[2] - s[0]);
      q.push_back(plus(s[0], n, 1));
      tets.simplices.push_back(q);
    }
    m = tets.build(lib);
  }
  int nvp = sdim + 1;
  auto ev = edges_of(m);
  vector<I8> vd, ed;
  auto vdim = [&](int v) { return v % nvp == 3 ? 0 : int(pat[size_t(v / nvp)] / 8 / (v % nvp == 0 ? 1 : v % nvp == 1 ? 3 : 9) % 3); };
  auto edim = [&](int a, int b) {
    int s = a % nvp + b % nvp;
    if (a % nvp == 3 || b % nvp == 3) return 2;
    return pat[size_t(a / nvp)] >> (s - 1) & 1 ? 1 : 2;
  };
  for (int v = 0; v < m.nverts(); ++v) vd.push_back(I8(vdim(v)));
  for (auto& e : ev) ed.push_back(I8(edim(e[0], e[1])));
  m.add_tag(0, "class_dim", 1, arr(vd));
  m.add_tag(1, "class_dim", 1, arr(ed));
  auto br = vec(oh::find_bridge_edges(&m));
  REQ(br.size() == ev.size(), "bridges", "%zu marks for %zu edges", br.size(), ev.size());
  for (size_t e = 0; e < ev.size(); ++e) {
    bool w = vd[size_t(ev[e][0])] != ed[e] && vd[size_t(ev[e][1])] != ed[e];
    REQ(bool(br[e]) == w, "bridges", "an edge on a %d-dimensional part between vertices on %d and %d is%s a bridge", ed[e], vd[size_t(ev[e][0])], vd[size_t(ev[e][1])], br[e] ? "" : " not");
  }
  auto got = vec(oh::get_pinched_angles(&m, 2));
  auto fv = mk::verts_of(m, 2);
  REQ(got.size() == fv.size(), "pinched-triangles", "%zu values for %zu triangles", got.size(), fv.size());
  for (size_t t = 0; t < fv.size(); ++t) {
    auto& f = fv[t];
    if (*std::max_element(f.begin(), f.end(), [&](int a, int b) { return a % nvp < b % nvp; }) % nvp == 3) continue;
    double w = -1;
    for (size_t i = 0; i < 3; ++i) {
      int a = f[i], b = f[(i + 1) % 3], d = f[(i + 2) % 3];
      if (vdim(a) != 0 || edim(a, b) != 1 || edim(a, d) != 1) continue;
      auto& s = all.simplices[size_t(a / nvp)];
      double x = angle(s[size_t(b % nvp)] - s[size_t(a % nvp)], s[size_t(d % nvp)] - s[size_t(a % nvp)]);
      w = w < 0 ? x : std::min(w, x);
    }
    REQ(std::fabs(got[t] - w) < 1e-7, "pinched-triangles", "pattern %d: angle %.17g instead of %.17g", pat[size_t(f[0] / nvp)], got[t], w);
  }
  c.exec(long(all.simplices.size()));
  c.state(mc::Hash().add(sdim).add(shift).add(long(p[0][0] * 1000)).add(long(p[1][1] * 1000)).add(long(p[1][0] * 1000)).h);
}
static void pinched_tets(mc::Ctx& c) {
  C = &c;
  int shift = 1 + c.choose(2), top = c.thorough() ? 2 : 1, per = c.thorough() ? 27 : 8;
  PS p;
  for (int i = 0; i < 4; ++i) {
    p.push_back(lattice(c.choose(per), top, 3, shift));
    if (i == 1) c.split();
  }
  if (!(volume(p) > 1e-3)) c.prune();
  Many all;
  all.dim = all.sdim = 3;
  for (int f = 0; f < 64 * 16; ++f) all.simplices.push_back(p);
  oh::Library lib;
  auto m = all.build(lib);
  auto on1 = [&](int t, int a, int b) { return bool(t >> (std::max(a, b) * (std::max(a, b) - 1) / 2 + std::min(a, b)) & 1); };
  auto on2 = [&](int t, int opposite) { return bool(t >> (6 + opposite) & 1); };
  vector<I8> ed, fd;
  for (auto& e : edges_of(m)) ed.push_back(on1(e[0] / 4, e[0] % 4, e[1] % 4) ? 1 : I8(2 + (e[0] / 4) % 2));
  for (auto& f : mk::verts_of(m, 2)) fd.push_back(on2(f[0] / 4, 6 - f[0] % 4 - f[1] % 4 - f[2] % 4) ? 2 : 3);
  m.add_tag(1, "class_dim", 1, arr(ed));
  m.add_tag(2, "class_dim", 1, arr(fd));
  auto got = vec(oh::get_pinched_angles(&m, 3));
  REQ(got.size() == 1024, "pinched-tets", "%zu values", got.size());
  auto tv = mk::verts_of(m, 3);
  for (size_t i = 0; i < tv.size(); ++i) {
    int t = tv[i][0] / 4;
    double w = -1;
    for (int b = 0; b < 4; ++b)
      for (int a = 0; a < b; ++a) {
        int o[2], n = 0;
        for (int k = 0; k < 4; ++k)
          if (k != a && k != b) o[n++] = k;
        if (!on1(t, a, b) || !on2(t, o[0]) || !on2(t, o[1])) continue;
        P e = p[size_t(b)] - p[size_t(a)], d0 = p[size_t(o[0])] - p[size_t(a)], d1 = p[size_t(o[1])] - p[size_t(a)];
        double x = angle(plus(d0, e, -dot(d0, e) / dot(e, e)), plus(d1, e, -dot(d1, e) / dot(e, e)));
        w = w < 0 ? x : std::min(w, x);
      }
    REQ(std::fabs(got[i] - w) < 1e-7, "pinched-tets", "pattern %d: angle %.17g instead of %.17g", t, got[i], w);
  }
  c.exec(1024);
  c.state(mc::Hash().add(shift).add(long(p[0][0] * 1000)).add(long(p[1][1] * 1000)).add(long(p[2][0] * 1000)).add(long(p[3][2] * 1000)).h);
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C31",
      {
          {"pads2", [](mc::Ctx& c) { pads(c, 2, 4, 1); }, 60, false, "every triangle on three 5x5 lattices with every pattern of bridges"},
          {"pads3", [](mc::Ctx& c) { pads(c, 3, 1, 1); }, 60, false, "every tetrahedron on three 2x2x2 lattices with every pattern of bridges"},
          {"pads3b", [](mc::Ctx& c) { pads(c, 3, 2, 5); }, 60, false, "every (25th) tetrahedron on three 3x3x3 lattices with every pattern of bridges"},
          {"pinched2", [](mc::Ctx& c) { pinched_tris(c, 2); }, 60, false, "every triangle on two 3x3 lattices with every classification"},
          {"pinched-tris", [](mc::Ctx& c) { pinched_tris(c, 3); }, 60, false, "every triangle on two 3x3x3 lattices with every classification"},
          {"pinched-tets", pinched_tets, 60, false, "every tetrahedron on two 2x2x2 (3x3x3) lattices with every classification"},
      });
}
