// C30: values carried between elements and vertices: gradients and Hessians,
// least squares recovery, averages and harmonic extension, judged by plain
// least squares and elimination, over every distribution.
#include <Omega_h_laplace.hpp>
#include <Omega_h_recover.hpp>
#include "fieldkit.hpp"
using oh::Reals;

static mc::Ctx* C;
#define REQ(cond, key, ...) do { if (!(cond)) C->fail(key, __VA_ARGS__); } while (0)

struct BoxOf {
  int dim, nx, ny, nz;
};
static vector<BoxOf> const boxes = {{1, 2, 0, 0}, {1, 5, 0, 0}, {2, 2, 2, 0}, {2, 3, 2, 0}, {2, 4, 3, 0}, {3, 2, 2, 2}, {3, 3, 2, 2}};

// vertices of no exposed side
static vector<int> inner(MeshCase const& m) {
  std::map<vector<int>, int> sides;
  for (auto& e : m.s.elems)
    for (size_t i = 0; i < e.size(); ++i) {
      auto s = e;
      s.erase(s.begin() + long(i));
      std::sort(s.begin(), s.end());
      ++sides[s];
    }
  vector<char> out(size_t(m.s.nverts), 0);
  for (auto& s : sides)
    if (s.second == 1)
      for (int v : s.first) out[size_t(v)] = 1;
  vector<int> r;
  for (int v = 0; v < m.s.nverts; ++v)
    if (!out[size_t(v)]) r.push_back(v);
  return r;
}
static P3 centroid(MeshCase const& m, vector<int> const& e) {
  P3 c{{0, 0, 0}};
  for (int v : e)
    for (size_t d = 0; d < 3; ++d) c[d] += m.x[size_t(v)][d] / double(e.size());
  return c;
}
using V = vector<double>;
using M = vector<V>;
static V solve(M a, V b) {
  size_t n = b.size();
  for (size_t k = 0; k < n; ++k) {
    size_t p = k;
    for (size_t i = k; i < n; ++i)
      if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i;
    std::swap(a[k], a[p]);
    std::swap(b[k], b[p]);
    for (size_t i = k + 1; i < n; ++i) {
      double f = a[i][k] / a[k][k];
      for (size_t j = k; j < n; ++j) a[i][j] -= f * a[k][j];
      b[i] -= f * b[k];
    }
  }
  V x(n);
  for (size_t k = n; k-- > 0;) {
    x[k] = b[k];
    for (size_t j = k + 1; j < n; ++j) x[k] -= a[k][j] * x[j];
    x[k] /= a[k][k];
  }
  return x;
}
static vector<std::set<int>> neighbours(MeshCase const& m) {
  vector<std::set<int>> r(size_t(m.s.nverts));
  for (auto& e : m.edges) {
    r[size_t(e.first)].insert(e.second);
    r[size_t(e.second)].insert(e.first);
  }
  return r;
}
// element values to vertices: least squares at the marked vertices, spread
// outward layer by layer by averaging polynomials
static Field fitted(MeshCase const& m, vector<char> const& mark, Field const& f) {
  size_t nv = size_t(m.s.nverts), k = size_t(m.s.dim) + 1;
  Field r;
  r.nc = f.nc;
  r.v.assign(nv * size_t(f.nc), 0);
  auto nb = neighbours(m);
  for (int comp = 0; comp < f.nc; ++comp) {
    vector<V> poly(nv);
    vector<char> known = mark;
    for (size_t v = 0; v < nv; ++v) {
      if (!mark[v]) continue;
      auto& o = m.x[v];
      M a(k, V(k, 0));
      V b(k, 0);
      for (size_t e = 0; e < m.s.elems.size(); ++e) {
        auto& ev = m.s.elems[e];
        if (std::find(ev.begin(), ev.end(), int(v)) == ev.end()) continue;
        auto x = centroid(m, ev);
        V row = {1};
        for (size_t d = 0; d + 1 < k; ++d) row.push_back(x[d] - o[d]);
        for (size_t i = 0; i < k; ++i) {
          for (size_t j = 0; j < k; ++j) a[i][j] += row[i] * row[j];
          b[i] += row[i] * f.v[e * size_t(f.nc) + size_t(comp)];
        }
      }
      // coefficients at the origin
      auto p = solve(a, b);
      for (size_t d = 0; d + 1 < k; ++d) p[0] -= p[d + 1] * o[d];
      poly[v] = p;
    }
    while (std::find(known.begin(), known.end(), 0) != known.end()) {
      auto now = known;
      auto next = poly;
      for (size_t v = 0; v < nv; ++v) {
        if (known[v]) continue;
        V sum(k, 0);
        int cnt = 0;
        for (int u : nb[v])
          if (known[size_t(u)]) {
            ++cnt;
            for (size_t i = 0; i < k; ++i) sum[i] += poly[size_t(u)][i];
          }
        if (!cnt) continue;
        for (auto& x : sum) x /= cnt;
        next[v] = sum;
        now[v] = 1;
      }
      poly = next;
      known = now;
    }
    for (size_t v = 0; v < nv; ++v) {
      double y = poly[v][0];
      for (size_t d = 0; d + 1 < k; ++d) y += poly[v][d + 1] * m.x[v][d];
      r.v[v * size_t(f.nc) + size_t(comp)] = y;
    }
  }
  return r;
}
static Field averaged(MeshCase const& m, Field const& f) {
  Field r;
  r.nc = f.nc;
  size_t nc = size_t(f.nc);
  r.v.assign(size_t(m.s.nverts) * nc, 0);
  V cnt(size_t(m.s.nverts), 0);
  for (size_t e = 0; e < m.s.elems.size(); ++e)
    for (int v : m.s.elems[e]) {
      ++cnt[size_t(v)];
      for (size_t k = 0; k < nc; ++k) r.v[size_t(v) * nc + k] += f.v[e * nc + k];
    }
  for (size_t i = 0; i < r.v.size(); ++i) r.v[i] /= cnt[i / nc];
  return r;
}
// the gradient of the linear function through the values at the vertices,
// of each component
static Field gradients(MeshCase const& m, Field const& f) {
  size_t d = size_t(m.s.dim), nc = size_t(f.nc);
  Field r;
  r.nc = int(d * nc);
  for (auto& e : m.s.elems)
    for (size_t c = 0; c < nc; ++c) {
      M a;
      V b;
      for (size_t i = 1; i <= d; ++i) {
        V row;
        for (size_t j = 0; j < d; ++j) row.push_back(m.x[size_t(e[i])][j] - m.x[size_t(e[0])][j]);
        a.push_back(row);
        b.push_back(f.v[size_t(e[i]) * nc + c] - f.v[size_t(e[0]) * nc + c]);
      }
      auto g = solve(a, b);
      r.v.insert(r.v.end(), g.begin(), g.end());
    }
  return r;
}
static double biggest(V const& v) {
  double r = 0;
  for (double x : v) r = std::max(r, std::fabs(x));
  return r;
}
static void compare(Field const& got, Field const& want, double tol, char const* key, double scale = 0) {
  REQ(got.nc == want.nc && got.v.size() == want.v.size(), key, "%d components, %zu values instead of %d and %zu", got.nc, got.v.size(), want.nc, want.v.size());
  double s = std::max(scale, biggest(want.v)) + 1e-12;
  for (size_t i = 0; i < want.v.size(); ++i)
    REQ(std::fabs(got.v[i] - want.v[i]) <= tol * s, key, "value %zu of entity %zu is %.17g instead of %.17g", i % size_t(want.nc), i / size_t(want.nc), got.v[i], want.v[i]);
}
// symmetric tensors of full ones: a mixed term between the two it may be
static void compare_sym(Field const& got, Field const& want, int dim, double tol, char const* key, double scale = 0) {
  size_t n = size_t(dim), nc = n * (n + 1) / 2, nn = n * n;
  REQ(got.nc == int(nc) && want.nc == int(nn) && got.v.size() * nn == want.v.size() * nc, key, "%d components, %zu values", got.nc, got.v.size());
  double s = std::max(scale, biggest(want.v)) + 1e-12;
  for (size_t i = 0; i * nn < want.v.size(); ++i)
    for (size_t p = 0; p < n; ++p)
      for (size_t q = 0; q <= p; ++q) {
        size_t k = p == q ? p : n == 2 ? 2 : p == 1 ? 3 : q == 1 ? 4 : 5;
        double g = got.v[i * nc + k], a = want.v[i * nn + p * n + q], b = want.v[i * nn + q * n + p];
        REQ(g >= std::min(a, b) - tol * s && g <= std::max(a, b) + tol * s, key, "term %zu %zu of entity %zu is %.17g instead of %.17g or %.17g", p, q, i, g, a, b);
      }
}
static V elems_local(oh::Mesh& m, MeshCase const& mc, Field const& f) {
  V r;
  for (int g : elems_of(m, mc))
    for (int k = 0; k < f.nc; ++k) r.push_back(f.v[size_t(g) * size_t(f.nc) + size_t(k)]);
  return r;
}
static void classify(oh::Mesh& m, vector<char> const& mark) {
  vector<oh::I8> d;
  for (auto g : vec(m.globals(0))) d.push_back(oh::I8(mark[size_t(g)] ? m.dim() : m.dim() - 1 - (g % 2 && m.dim() > 1)));
  m.add_tag(0, "class_dim", 1, arr(d));
}
static double noise(int i) { return std::sin(12.9898 * (i + 1)) * 43.7585 - std::floor(std::sin(12.9898 * (i + 1)) * 43.7585) - 0.3; }
static double linear(P3 const& x, int c) { return 0.3 + 0.7 * c + (1.1 - c) * x[0] + (0.4 + c) * x[1] - (0.9 + 0.5 * c) * x[2]; }
static double quad(P3 const& x, int k) {
  static double const q[][9] = {{1, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 1, 0, 0, 0, 1, 0}, {2, -1, 0.5, 1.5, -0.7, 0.3, 1, 2, -3}};
  return q[k][0] * x[0] * x[0] + q[k][1] * x[1] * x[1] + q[k][2] * x[2] * x[2] + q[k][3] * x[0] * x[1] + q[k][4] * x[1] * x[2] + q[k][5] * x[0] * x[2] + q[k][6] * x[0] + q[k][7] * x[1] + q[k][8] * x[2];
}
struct Chosen {
  MeshCase m;
  vector<char> mark;  // vertices taken for interior
  int n, parting;
  vector<int> owner;
  bool moved;
};
static vector<char> choose_marks(mc::Ctx& c, MeshCase const& m) {
  auto in = inner(m);
  vector<char> r(size_t(m.s.nverts), 0);
  if (in.size() <= 4) {
    int bits = 1 + c.choose((1 << in.size()) - 1);
    for (size_t i = 0; i < in.size(); ++i) r[size_t(in[i])] = char(bits >> i & 1);
  } else {
    int k = c.choose(int(in.size()) + 3);  // one, all, every second, all but the first
    for (int i = 0; i < int(in.size()); ++i) r[size_t(in[size_t(i)])] = k < int(in.size()) ? i == k : k == int(in.size()) ? 1 : k == int(in.size()) + 1 ? i % 2 == 0 : i > 0;
  }
  return r;
}
static Chosen choose_case(mc::Ctx& c, int which) {
  Chosen r;
  auto& b = boxes[size_t(which)];
  int shape = c.choose(4);
  r.m = box_case(b.dim, b.nx, b.ny, b.nz, shape);
  r.mark = choose_marks(c, r.m);
  c.split();
  r.n = 1 + c.choose(3);
  r.parting = r.n == 1 ? c.choose(2) : 1 + c.choose(3);
  r.owner = owners_of(c, int(r.m.s.elems.size()), r.n);
  r.moved = r.n > 1 && c.flip();
  if (c.describing()) {
    std::string s;
    for (size_t v = 0; v < r.mark.size(); ++v)
      if (r.mark[v]) s += " " + std::to_string(v);
    c.note("shape %d, interior vertices%s, on %d ranks %s, %s%s", shape, s.c_str(), r.n, ::str(r.owner).c_str(), parting_name[r.parting], r.moved ? ", migrated" : "");
  }
  c.state(mc::Hash().add(which).add(shape).add(hash_of(r.owner)).add(r.n).add(r.parting).add(r.moved).h);
  return r;
}
template <class F>
static Field on_verts(mc::Ctx& c, Chosen const& k, F body) {
  return run_on(c, k.m, k.n, k.owner, k.parting, [&](oh::Mesh& m) {
    classify(m, k.mark);
    return body(m);
  }, k.moved);
}
template <class F>
static Field on_elements(mc::Ctx& c, Chosen const& k, F body) {
  return run_on(c, k.m, k.n, k.owner, k.parting, body, k.moved, true);
}

static void projections(mc::Ctx& c, int which) {
  C = &c;
  auto k = choose_case(c, which);
  auto ne = int(k.m.s.elems.size());
  // one component for every element (up to 8 of them), that is 1 there alone,
  // one linear, one arbitrary
  Field f;
  int spikes = std::min(ne, c.thorough() ? 60 : 8), first = ne > spikes ? c.choose(2) * (ne - spikes) : 0;
  f.nc = spikes + 2;
  for (int e = 0; e < ne; ++e) {
    for (int s = 0; s < spikes; ++s) f.v.push_back(e == first + s);
    f.v.push_back(linear(centroid(k.m, k.m.s.elems[size_t(e)]), 0));
    f.v.push_back(noise(e));
  }
  auto fit = on_verts(c, k, [&](oh::Mesh& m) {
    minimpi::require(oh::has_interior_verts(&m), "has-interior", "no interior vertex is found");
    return oh::project_by_fit(&m, arr(elems_local(m, k.m, f)));
  });
  auto want = fitted(k.m, k.mark, f);
  compare(fit, want, 1e-9, "fit");
  // linear data come back exactly, also on the boundary
  double big = 0;
  for (auto& x : k.m.x) big = std::max(big, std::fabs(linear(x, 0)));
  for (size_t v = 0; v < k.m.x.size(); ++v) {
    double g = fit.v[v * size_t(f.nc) + size_t(spikes)], w = linear(k.m.x[v], 0);
    REQ(std::fabs(g - w) < 1e-9 * big, "fit-linear", "a linear field is %.17g at vertex %zu instead of %.17g", g, v, w);
  }
  compare(on_verts(c, k, [&](oh::Mesh& m) { return oh::project_by_average(&m, arr(elems_local(m, k.m, f))); }), averaged(k.m, f), 1e-12, "average");
  vector<char> none(k.mark.size(), 0);
  auto k2 = k;
  k2.mark = none;
  on_verts(c, k2, [&](oh::Mesh& m) {
    minimpi::require(!oh::has_interior_verts(&m), "has-interior", "an interior vertex is found where there is none");
    return m.coords();
  });
  c.exec();
}
static void derivatives(mc::Ctx& c, int which) {
  C = &c;
  auto k = choose_case(c, which);
  int nv = k.m.s.nverts, dim = k.m.s.dim;
  int spikes = c.thorough() ? nv : 3;
  int kind = c.choose(5 + spikes);  // linear, 3 quadratics, arbitrary, 1 at a vertex
  int at = kind < 5 ? -1 : c.thorough() ? kind - 5 : (kind - 5) * (nv - 1) / 2;
  Field u, g;
  u.nc = 1;
  g.nc = dim;
  for (int v = 0; v < nv; ++v) {
    auto& x = k.m.x[size_t(v)];
    u.v.push_back(kind == 0 ? linear(x, 0) : kind < 4 ? quad(x, kind - 1) : kind == 4 ? noise(v) : v == at);
  }
  for (int v = 0; v < nv; ++v)
    for (int d = 0; d < dim; ++d) g.v.push_back(kind == 0 ? linear(k.m.x[size_t(v)], d) : kind < 5 ? noise(v * dim + d) : v == at && d == v % dim);
  if (c.describing()) c.note("field %d", kind);
  // what rounding in the values may make of derivatives: their size over the
  // mesh size, and over its square
  double h = std::fabs(k.m.x[0][0] - k.m.x[1][0]) + std::fabs(k.m.x[0][1] - k.m.x[1][1]);
  double s1 = biggest(u.v) / h, s2 = s1 / h, t2 = biggest(g.v) / h;
  auto eg = gradients(k.m, u), eh = gradients(k.m, g);
  compare(on_elements(c, k, [&](oh::Mesh& m) { return oh::derive_element_gradients(&m, arr(local(m, u))); }), eg, 1e-10, "element-gradients", biggest(u.v) / h);
  compare_sym(on_elements(c, k, [&](oh::Mesh& m) { return oh::derive_element_hessians(&m, arr(local(m, g))); }), eh, dim, 1e-10, "element-hessians", biggest(g.v) / h);
  auto rg = fitted(k.m, k.mark, eg), rh = fitted(k.m, k.mark, eh);
  auto got_g = on_verts(c, k, [&](oh::Mesh& m) { return oh::recover_gradients(&m, arr(local(m, u))); });
  compare(got_g, rg, 1e-9, "gradients", s1);
  auto got_h = on_verts(c, k, [&](oh::Mesh& m) { return oh::recover_hessians_from_gradients(&m, arr(local(m, g))); });
  compare_sym(got_h, rh, dim, 1e-8, "hessians-of-gradients", t2);
  auto rrh = fitted(k.m, k.mark, gradients(k.m, rg));
  compare_sym(on_verts(c, k, [&](oh::Mesh& m) { return oh::recover_hessians(&m, arr(local(m, u))); }), rrh, dim, 1e-7, "hessians", s2);
  if (kind == 0) {
    for (int v = 0; v < nv; ++v)
      for (int d = 0; d < dim; ++d) {
        double w = d == 0 ? 1.1 : d == 1 ? 0.4 : -0.9;
        REQ(std::fabs(got_g.v[size_t(v * dim + d)] - w) < 1e-9, "gradient-linear", "the gradient of a linear function is off at vertex %d", v);
      }
  }
  c.exec();
}
static void harmonic(mc::Ctx& c, int which) {
  C = &c;
  auto k = choose_case(c, which);
  int nv = k.m.s.nverts;
  Field u;
  int kind = c.choose(3);
  u.nc = c.thorough() ? 1 + c.choose(3) : 1 + kind % 2;
  for (int v = 0; v < nv; ++v)
    for (int d = 0; d < u.nc; ++d) u.v.push_back(kind == 0 ? 2.5 + d : kind == 1 ? linear(k.m.x[size_t(v)], d) : noise(v * 3 + d));
  int t = c.choose(2);
  double tol = t ? 1e-2 : 1e-12, floor = t ? 1e-3 : 1e-12;
  if (c.describing()) c.note("%d components of kind %d, tolerance %g", u.nc, kind, tol);
  auto nb = neighbours(k.m);
  auto got = on_verts(c, k, [&](oh::Mesh& m) { return oh::solve_laplacian(&m, arr(local(m, u)), u.nc, tol, floor); });
  REQ(got.nc == u.nc, "harmonic", "%d components", got.nc);
  for (int d = 0; d < u.nc; ++d) {
    // all at once
    M a(size_t(nv), V(size_t(nv), 0));
    V b(size_t(nv), 0);
    for (size_t v = 0; v < size_t(nv); ++v) {
      a[v][v] = 1;
      if (!k.mark[v]) b[v] = u.v[v * size_t(u.nc) + size_t(d)];
      else for (int w : nb[v]) a[v][size_t(w)] = -1.0 / double(nb[v].size());
    }
    auto exact = solve(a, b);
    double s = biggest(exact) + 1e-3;
    for (size_t v = 0; v < size_t(nv); ++v) {
      double g = got.v[v * size_t(u.nc) + size_t(d)];
      if (!k.mark[v]) REQ(g == b[v], "harmonic-fixed", "vertex %zu, outside, changed from %.17g to %.17g", v, b[v], g);
      else if (t == 0) REQ(std::fabs(g - exact[v]) < 1e-9 * s, "harmonic", "vertex %zu has %.17g instead of %.17g", v, g, exact[v]);
    }
  }
  // a loose tolerance stops where one more sweep would change nothing beyond
  // it, and not before or later than sweeps over plain arrays do
  V now = u.v;
  auto close = [&](double x, double y, double slack) {
    double m = std::max(std::fabs(x), std::fabs(y));
    if (m < floor) return true;
    return std::fabs(x - y) / m <= tol * slack;
  };
  size_t nc = size_t(u.nc);
  V tight, loose;  // the states at which a slightly looser or tighter rule stops
  for (int it = 0; it < 20000 && tight.empty(); ++it) {
    V next = now;
    for (size_t v = 0; v < size_t(nv); ++v)
      if (k.mark[v])
        for (size_t d = 0; d < nc; ++d) {
          double s = 0;
          for (int w : nb[v]) s += now[size_t(w) * nc + d];
          next[v * nc + d] = s / double(nb[v].size());
        }
    bool al = true, at = true;
    for (size_t i = 0; i < now.size(); ++i) {
      al = al && close(now[i], next[i], 1.001);
      at = at && close(now[i], next[i], 0.999);
    }
    now = next;
    if (al && loose.empty()) loose = now;
    if (at) tight = now;
  }
  if (t && !tight.empty() && tight == loose) {
    Field w;
    w.nc = u.nc;
    w.v = tight;
    compare(got, w, 1e-10, "harmonic-stop");
  }
  c.exec();
}

int main(int argc, char** argv) {
  auto p = [](int w) { return [w](mc::Ctx& c) { projections(c, w); }; };
  auto d = [](int w) { return [w](mc::Ctx& c) { derivatives(c, w); }; };
  auto h = [](int w) { return [w](mc::Ctx& c) { harmonic(c, w); }; };
  return mc::main(argc, argv, "C30",
      {
          {"project-line2", p(0), 60, false, "2 edges"},
          {"project-line5", p(1), 60, false, "5 edges"},
          {"project-square", p(2), 60, false, "2x2 cells"},
          {"project-rect", p(3), 60, false, "3x2 cells"},
          {"project-wide", p(4), 60, false, "4x3 cells"},
          {"project-cube", p(5), 60, false, "2x2x2 cells"},
          {"project-bar", p(6), 60, true, "3x2x2 cells"},
          {"derive-line2", d(0), 60, false, "2 edges"},
          {"derive-line5", d(1), 60, true, "5 edges"},
          {"derive-square", d(2), 60, false, "2x2 cells"},
          {"derive-rect", d(3), 60, true, "3x2 cells"},
          {"derive-wide", d(4), 60, true, "4x3 cells"},
          {"derive-cube", d(5), 60, false, "2x2x2 cells"},
          {"derive-bar", d(6), 60, true, "3x2x2 cells"},
          {"harmonic-line2", h(0), 60, false, "2 edges"},
          {"harmonic-line5", h(1), 60, true, "5 edges"},
          {"harmonic-square", h(2), 60, false, "2x2 cells"},
          {"harmonic-rect", h(3), 60, false, "3x2 cells"},
          {"harmonic-wide", h(4), 60, false, "4x3 cells"},
          {"harmonic-cube", h(5), 60, false, "2x2x2 cells"},
          {"harmonic-bar", h(6), 60, true, "3x2x2 cells"},
      });
}
