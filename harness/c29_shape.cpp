// C29: the geometry of simplices: every small simplex on a lattice, judged by
// elementary geometry in plain loops.
#include <Omega_h_affine.hpp>
#include <Omega_h_bbox.hpp>
#include <Omega_h_quality.hpp>
#include <Omega_h_r3d.hpp>
#include <Omega_h_shape.hpp>
#include <cmath>
#include "worldkit.hpp"
using namespace wk;
using oh::Few;
using oh::Int;
using oh::Matrix;
using oh::Real;
using oh::Reals;
using oh::Tensor;
using oh::Vector;

static mc::Ctx* C;
#define REQ(cond, key, ...) do { if (!(cond)) C->fail(key, __VA_ARGS__); } while (0)
using P = std::array<double, 3>;
using PS = vector<P>;

static P operator-(P a, P b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
static P operator+(P a, P b) { return {{a[0] + b[0], a[1] + b[1], a[2] + b[2]}}; }
static P times(P a, double s) { return {{a[0] * s, a[1] * s, a[2] * s}}; }
static double dot(P a, P b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static P vec_prod(P a, P b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static double len(P a) { return std::sqrt(dot(a, a)); }
// signed where dimensions agree
static double size_of(int dim, PS const& p) {
  if (p.size() == 2) return dim == 1 ? std::abs(p[1][0] - p[0][0]) : len(p[1] - p[0]);
  P n = vec_prod(p[1] - p[0], p[2] - p[0]);
  if (p.size() == 3) return dim == 2 ? n[2] / 2 : len(n) / 2;
  return dot(n, p[3] - p[0]) / 6;
}
static std::string str(PS const& p) {
  std::string s;
  char b[100];
  for (auto& x : p) {
    snprintf(b, sizeof b, "(%.12g %.12g %.12g)", x[0], x[1], x[2]);
    s += b;
  }
  return s;
}
template <Int n>
static Vector<n> to(P const& p) {
  Vector<n> v;
  for (Int i = 0; i < n; ++i) v[i] = p[size_t(i)];
  return v;
}
template <Int n>
static P from(Vector<n> const& v) {
  P p = {{0, 0, 0}};
  for (Int i = 0; i < n; ++i) p[size_t(i)] = v[i];
  return p;
}
template <Int sdim, Int n>
static Few<Vector<sdim>, n> few(PS const& p) {
  Few<Vector<sdim>, n> f;
  for (Int i = 0; i < n; ++i) f[i] = to<sdim>(p[size_t(i)]);
  return f;
}
static bool near(double a, double b, double tol) { return std::abs(a - b) <= tol * (1 + std::max(std::abs(a), std::abs(b))); }

// metrics to measure in, as full matrices
template <Int dim>
static vector<Tensor<dim>> metrics() {
  vector<Tensor<dim>> r;
  for (int k = 0; k < 5; ++k) {
    double l[3] = {1, k < 1 ? 1 : k < 2 ? 4 : k < 3 ? 100 : k < 4 ? 144 : 1e-2, k < 2 ? 1 : k < 3 ? 9 : 1e4};
    double t = k * 0.7, cs = std::cos(t), sn = std::sin(t);
    double q[3][3] = {{cs, sn, 0}, {-sn * cs, cs * cs, sn}, {sn * sn, -sn * cs, cs}};
    Tensor<dim> m;
    double q2[2][2] = {{cs, sn}, {-sn, cs}};
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j) {
        m(i, j) = 0;
        for (int a = 0; a < dim; ++a) m(i, j) += l[a] * (dim == 3 ? q[a][i] * q[a][j] : dim == 2 ? q2[a][i] * q2[a][j] : 1);
      }
    r.push_back(m);
  }
  return r;
}
template <Int dim>
static double metric_square(Tensor<dim> const& m, P v) {
  double s = 0;
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j) s += v[size_t(i)] * m(i, j) * v[size_t(j)];
  return s;
}
template <Int dim>
static double det(Tensor<dim> const& m) {
  if (dim == 1) return m(0, 0);
  if (dim == 2) return m(0, 0) * m(dim > 1 ? 1 : 0, dim > 1 ? 1 : 0) - m(0, dim > 1 ? 1 : 0) * m(dim > 1 ? 1 : 0, 0);
  double d = 0;
  for (int i = 0; i < 3 && dim == 3; ++i) d += m(0, i) * (m(1 % dim, (i + 1) % 3 % dim) * m(2 % dim, (i + 2) % 3 % dim) - m(1 % dim, (i + 2) % 3 % dim) * m(2 % dim, (i + 1) % 3 % dim));
  return d;
}

// ---- every simplex of full dimension on a lattice
template <Int dim>
static void simplex(mc::Ctx& c, int top) {
  C = &c;
  static double const scales[] = {1, 1e-3, 1e4};
  PS p;
  int per = 1;
  for (int d = 0; d < dim; ++d) per *= top + 1;
  int sc = c.choose(3);
  for (int i = 0; i <= dim; ++i) {
    int k = c.choose(per);
    if (i == 0) c.split();
    P x = {{0, 0, 0}};
    for (int d = 0; d < dim; ++d, k /= top + 1) x[size_t(d)] = (k % (top + 1)) * scales[sc];
    p.push_back(x);
  }
  if (c.describing()) c.note("%s", str(p).c_str());
  double h = scales[sc];
  auto f = few<dim, dim + 1>(p);
  double want = size_of(dim, p), unit = dim == 3 ? h * h * h : dim == 2 ? h * h : h;
  if (std::abs(want) < 1e-9 * unit) want = 0;
  double size = oh::real_simplex_size<dim, dim>(f);
  REQ(std::abs(size - want) <= 1e-14 * unit, "size", "%s has size %.17g, expected %.17g", str(p).c_str(), size, want);
  // edges
  auto b = oh::simplex_basis<dim, dim>(f);
  auto ev = oh::element_edge_vectors(f, b);
  REQ(int(ev.size()) == dim * (dim + 1) / 2, "edges", "%d edges", int(ev.size()));
  double longest = 0, sum2 = 0;
  for (int e = 0; e < int(ev.size()); ++e) {
    int v0 = dim == 1 ? 0 : oh::simplex_down_template(dim, 1, e, 0), v1 = dim == 1 ? 1 : oh::simplex_down_template(dim, 1, e, 1);
    P want_e = p[size_t(v1)] - p[size_t(v0)];
    REQ(from(ev[e]) == want_e, "edges", "edge %d of %s differs", e, str(p).c_str());
    longest = std::max(longest, len(want_e));
    sum2 += dot(want_e, want_e);
  }
  REQ(near(oh::max_simplex_edge_length<dim>(f) / h, longest / h, 1e-14), "longest", "the longest edge of %s is %.17g, expected %.17g", str(p).c_str(), oh::max_simplex_edge_length<dim>(f), longest);
  REQ(near(oh::mean_squared_real_length(ev) / h / h, sum2 / ev.size() / h / h, 1e-14), "mean-length", "mean squared length of %s", str(p).c_str());
  // outward sides, each as large as the side, together closed
  P sum = {{0, 0, 0}};
  for (int s = 0; s <= dim; ++s) {
    PS sp;
    vector<bool> in(dim + 1, false);
    for (int i = 0; i < dim; ++i) {
      int v = oh::simplex_down_template(dim, dim - 1, s, i);
      in[size_t(v)] = true;
      sp.push_back(p[size_t(v)]);
    }
    int opp = int(std::find(in.begin(), in.end(), false) - in.begin());
    // the gradient of the size by the opposite vertex: size is linear in it
    auto g = from(oh::get_size_gradient<dim>(f, opp));
    P n = {{0, 0, 0}};
    if (dim == 1) n[0] = opp == 1 ? 1 : -1;
    if (dim == 2) {
      P e = p[size_t((opp + 2) % 3)] - p[size_t((opp + 1) % 3)];
      n = {{-e[1] / 2, e[0] / 2, 0}};
    }
    if (dim == 3) {
      static int const o[4][3] = {{1, 3, 2}, {0, 2, 3}, {0, 3, 1}, {0, 1, 2}};
      n = times(vec_prod(p[size_t(o[opp][1])] - p[size_t(o[opp][0])], p[size_t(o[opp][2])] - p[size_t(o[opp][0])]), 1.0 / 6);
    }
    REQ(len(g - n) <= 1e-14 * unit / h, "gradient", "the size of %s changes with vertex %d by %s, expected %s", str(p).c_str(), opp, str(PS{g}).c_str(), str(PS{n}).c_str());
    auto all = oh::get_size_gradients<dim>(f);
    REQ(from(all[opp]) == g, "gradients", "gradient %d of %s", opp, str(p).c_str());
    sum = sum + g;
    // the plane of the side
    if (want != 0) {
      auto pl = oh::get_side_plane(f, s);
      auto np = oh::normalize(pl);
      REQ(near(len(from(np.n)), 1, 1e-14), "plane", "normal of side %d of %s", s, str(p).c_str());
      for (int i = 0; i <= dim; ++i) {
        double d = oh::distance(np, f[i]);
        double w = i == opp ? -dim * want / (dim == 1 ? 1 : size_of(3, sp)) : 0;
        if (dim == 1) w = i == opp ? -std::abs(p[1][0] - p[0][0]) : 0;
        if (dim == 1 && p[1][0] < p[0][0]) continue;
        REQ(std::abs(d - w) <= 1e-13 * (h + std::abs(w)), "plane", "vertex %d of %s is %.17g from side %d, expected %.17g", i, str(p).c_str(), d, s, w);
      }
    }
  }
  REQ(len(sum) <= 1e-13 * unit / h, "closed", "the size gradients of %s add up to %s", str(p).c_str(), str(PS{sum}).c_str());
  // quality in every metric
  bool neg = want < 0;
  if (dim > 1 && want != 0) {
    double eq = dim == 3 ? std::sqrt(2.0) / 12 : std::sqrt(3.0) / 4;
    for (auto& m : metrics<dim>()) {
      double q = oh::metric_element_quality(f, m), s = want * std::sqrt(det(m)), msl = 0;
      for (int e = 0; e < int(ev.size()); ++e) msl += metric_square(m, from(ev[e])) / ev.size();
      double wq = neg ? s : std::pow(s / eq, 2.0 / dim) / msl;
      REQ(std::abs(q - wq) <= 1e-6 * std::abs(wq), "quality", "%s has quality %.17g, expected %.17g", str(p).c_str(), q, wq);
      REQ(q <= 1 + 1e-6 && (q < 0) == neg, "quality-range", "%s has quality %.17g", str(p).c_str(), q);
      REQ(near(oh::metric_size<dim>(want, m) / unit, s / unit, 1e-6), "metric-size", "%s has size %.17g in a metric, expected %.17g", str(p).c_str(), oh::metric_size<dim>(want, m), s);
    }
    for (double l : {1.0, 1e-4, 9.0}) {
      double q = oh::metric_element_quality(f, oh::matrix_1x1(l));
      double wq = neg ? want * std::pow(l, dim / 2.0) : std::pow(want / eq, 2.0 / dim) / (sum2 / ev.size());
      REQ(std::abs(q - wq) <= 1e-12 * std::abs(wq), "quality-iso", "%s has quality %.17g at %g, expected %.17g", str(p).c_str(), q, l, wq);
    }
  }
  if (want != 0) {
    // every edge is of unit length in the implied metric
    auto im = oh::element_implied_metric(f);
    for (int e = 0; e < int(ev.size()); ++e) {
      double l2 = metric_square<dim>(im, from(ev[e]));
      REQ(near(l2, 1, 1e-8), "implied", "edge %d of %s has squared length %.17g in its implied metric", e, str(p).c_str(), l2);
    }
    if (!neg && dim > 1) REQ(near(oh::metric_element_quality(f, im), 1, 1e-8), "implied-quality", "%s has quality %.17g in its implied metric", str(p).c_str(), oh::metric_element_quality(f, im));
    // the map from the reference simplex, and back
    auto a = oh::simplex_affine<dim>(f);
    auto ia = oh::invert(a);
    static double const xs[] = {0, 0.25, 1, -0.5};
    int n = 1;
    for (int d = 0; d < dim; ++d) n *= 4;
    for (int k = 0; k < n; ++k) {
      Vector<dim> r;
      bool inside = true;
      double rest = 1;
      for (int d = 0, t = k; d < dim; ++d, t /= 4) {
        r[d] = xs[t % 4];
        rest -= r[d];
        inside &= r[d] >= 0;
      }
      inside &= rest >= 0;
      P w = p[0];
      for (int d = 0; d < dim; ++d) w = w + times(p[size_t(d) + 1] - p[0], r[d]);
      auto x = a * r;
      REQ(len(from(x) - w) <= 1e-13 * h, "affine", "%s", str(p).c_str());
      auto back = ia * x;
      double cond = unit * std::pow(longest / h, 2 * dim) / std::abs(want);
      for (int d = 0; d < dim; ++d) REQ(std::abs(back[d] - r[d]) <= 1e-14 * cond, "affine-back", "%s: %.17g for %.17g", str(p).c_str(), back[d], r[d]);
      auto bc = oh::barycentric_from_global<dim, dim>(x, f);
      for (int d = 0; d <= dim; ++d) REQ(std::abs(bc[d] - (d ? r[d ? d - 1 : 0] : rest)) <= 1e-14 * cond, "barycentric", "coordinate %d in %s is %.17g, expected %.17g", d, str(p).c_str(), bc[d], d ? r[d ? d - 1 : 0] : rest);
      auto fb = oh::form_barycentric(r);
      REQ(fb[0] == rest || std::abs(fb[0] - rest) < 1e-15, "form-barycentric", "%g for %g", fb[0], rest);
      REQ(oh::is_barycentric_inside(fb) == inside, "inside", "%g %g %g of the reference", r[0], dim > 1 ? r[dim > 1 ? 1 : 0] : 0, dim > 2 ? r[dim > 2 ? 2 : 0] : 0);
    }
    // the inscribed ball touches every side from the inside
    if (!neg && (dim > 1 || p[1][0] > p[0][0])) {
      auto ball = oh::get_inball<dim>(f);
      double surface = 0;
      for (int s = 0; s <= dim; ++s) {
        auto np = oh::normalize(oh::get_side_plane(f, s));
        double d = -oh::distance(np, ball.c);
        REQ(std::abs(d - ball.r) <= 1e-12 * longest, "inball", "side %d of %s is %.17g from the center of the ball of radius %.17g", s, str(p).c_str(), d, ball.r);
        PS sp;
        for (int i = 0; i < dim; ++i) sp.push_back(p[size_t(oh::simplex_down_template(dim, dim - 1, s, i))]);
        surface += dim == 1 ? 1 : size_of(3, sp);
      }
      REQ(std::abs(ball.r - dim * want / surface) <= 1e-12 * longest, "inball-radius", "%s has radius %.17g, expected %.17g", str(p).c_str(), ball.r, dim * want / surface);
    }
  }
  c.exec();
  c.state(mc::Hash().add(dim).add(str(p)).h);
}
// ---- every triangle in space
static void flat(mc::Ctx& c, int top) {
  C = &c;
  PS p;
  int per = (top + 1) * (top + 1) * (top + 1);
  for (int i = 0; i < 3; ++i) {
    int k = c.choose(per);
    if (i == 0) c.split();
    p.push_back({{double(k % (top + 1)), double(k / (top + 1) % (top + 1)), double(k / (top + 1) / (top + 1))}});
  }
  if (c.describing()) c.note("%s", str(p).c_str());
  auto f = few<3, 3>(p);
  double want = size_of(3, p);
  REQ(near(oh::real_simplex_size<3, 2>(f), want, 1e-14), "area", "%s has area %.17g, expected %.17g", str(p).c_str(), oh::real_simplex_size<3, 2>(f), want);
  REQ(near(oh::real_simplex_size<3, 1>(few<3, 2>(p)), len(p[1] - p[0]), 1e-14), "length", "%s", str(p).c_str());
  REQ(near(oh::real_simplex_size<2, 1>(few<2, 2>(p)), std::hypot(p[1][0] - p[0][0], p[1][1] - p[0][1]), 1e-14), "length2", "%s", str(p).c_str());
  auto n = from(oh::get_triangle_normal<3>(f[0], f[1], f[2]));
  REQ(n == vec_prod(p[1] - p[0], p[2] - p[0]), "normal", "%s", str(p).c_str());
  if (want > 0) {
    P o = p[0] + from(oh::get_circumcenter_vector(oh::simplex_basis<3, 2>(f)));
    double r = len(o - p[0]);
    REQ(near(len(o - p[1]), r, 1e-12) && near(len(o - p[2]), r, 1e-12) && std::abs(dot(o - p[0], n)) < 1e-11 * (1 + r * len(n)), "circumcenter", "%s has circumcenter %s", str(p).c_str(), str(PS{o}).c_str());
    static double const xs[] = {0, 0.25, 1, -0.5};
    for (double a : xs)
      for (double b : xs)
        for (double off : {0.0, 0.7}) {  // a point off the plane is projected
          P x = p[0] + times(p[1] - p[0], a) + times(p[2] - p[0], b) + times(n, off);
          auto bc = oh::barycentric_from_global<3, 2>(to<3>(x), f);
          double w[3] = {1 - a - b, a, b};
          for (int d = 0; d < 3; ++d) REQ(std::abs(bc[d] - w[d]) < 1e-10, "barycentric3", "coordinate %d in %s is %.17g, expected %.17g", d, str(p).c_str(), bc[d], w[d]);
        }
  }
  c.exec();
  c.state(mc::Hash().add(str(p)).h);
}
// ---- edge lengths in metrics that change along the edge
static void lengths(mc::Ctx& c) {
  C = &c;
  static double const ls[] = {1e-4, 0.05, 0.3, 0.9985, 0.9995, 1, 1.0005, 1.0015, 1.007, 1.03, 1.08, 1.2, 1.4142, 7, 300};
  double a = ls[c.choose(15)], b = ls[c.choose(15)];
  c.split();
  if (c.describing()) c.note("%g and %g", a, b);
  auto want = [](double x, double y) {  // the integral of the inverse of a geometric size
    if (x == y) return x;
    double t = std::log(x / y);
    return std::abs(t) < 1e-4 ? (x + y) / 2 * (1 - t * t / 12 * 1) + 0 * t : (x - y) / t;
  };
  double l = oh::anisotropic_edge_length(a, b);
  REQ(std::abs(l - want(a, b)) <= 1e-6 * l + (std::max(a, b) < 2e-3 ? 1e-3 : 0), "edge-length", "%.17g between %g and %g, expected %.17g", l, a, b, want(a, b));
  REQ(std::abs(oh::anisotropic_edge_length(b, a) - l) <= 1e-11 * l, "edge-length-turned", "%.17g", l);
  REQ(l >= std::min(a, b) * (1 - 1e-14) && l <= std::max(a, b) * (1 + 1e-14), "edge-length-between", "%.17g between %g and %g", l, a, b);
  auto m2 = metrics<2>();
  auto m3 = metrics<3>();
  for (size_t i = 0; i < m3.size(); ++i)
    for (size_t j = 0; j < m3.size(); ++j)
      for (int k = 0; k < 13; ++k) {
        P d = {{double(k % 3 - 1), double(k / 3 % 3 - 1), double(k / 9 % 3 - 1)}};
        if (k == 4) d = {{0, 0, 1}};
        PS p = {{{0.3, 0.2, 0.1}}, P{{0.3, 0.2, 0.1}} + times(d, a)};
        if (std::abs(d[0]) + std::abs(d[1]) > 0) {
          PS q = {{{p[0][0], p[0][1], 0}}, {{p[1][0], p[1][1], 0}}};
          Few<Tensor<2>, 2> ms;
          ms[0] = m2[i];
          ms[1] = oh::operator*(m2[j], b);
          double x = std::sqrt(metric_square(m2[i], q[1] - q[0])), y = std::sqrt(b * metric_square(m2[j], q[1] - q[0]));
          double got = oh::metric_edge_length<2, 2>(few<2, 2>(q), ms);
          REQ(std::abs(got - oh::anisotropic_edge_length(x, y)) <= 1e-9 * got + 1e-12, "edge-length2", "%.17g", got);
        }
        Few<Tensor<3>, 2> ms;
        ms[0] = m3[i];
        ms[1] = oh::operator*(m3[j], b);
        double x = std::sqrt(metric_square(m3[i], p[1] - p[0])), y = std::sqrt(b * metric_square(m3[j], p[1] - p[0]));
        double got = oh::metric_edge_length<3, 3>(few<3, 2>(p), ms);
        REQ(std::abs(got - oh::anisotropic_edge_length(x, y)) <= 1e-9 * got + 1e-12, "edge-length3", "%.17g", got);
      }
  c.exec();
  c.state(mc::Hash().add(a).add(b).h);
}

// ---- intersections of simplices
// a convex region: what satisfies every n.x + d >= 0
struct Half {
  P n;
  double d;
};
static vector<Half> halves_of(int dim, PS const& p) {
  vector<Half> r;
  P mid = {{0, 0, 0}};
  for (auto& x : p) mid = mid + times(x, 1.0 / double(p.size()));
  for (size_t o = 0; o < p.size(); ++o) {
    PS s;
    for (size_t i = 0; i < p.size(); ++i)
      if (i != o) s.push_back(p[i]);
    P n = dim == 1 ? P{{1, 0, 0}} : dim == 2 ? P{{-(s[1] - s[0])[1], (s[1] - s[0])[0], 0}} : vec_prod(s[1] - s[0], s[2] - s[0]);
    n = times(n, 1 / len(n));
    double d = -dot(n, s[0]);
    if (dot(n, mid) + d < 0) {
      n = times(n, -1);
      d = -d;
    }
    bool dup = false;
    for (auto& h : r) dup |= len(h.n - n) < 1e-9 && std::abs(h.d - d) < 1e-9;
    if (!dup) r.push_back({n, d});
  }
  return r;
}
static void add_half(vector<Half>& r, Half h) {
  for (auto& x : r)
    if (len(x.n - h.n) < 1e-9 && std::abs(x.d - h.d) < 1e-9) return;
  r.push_back(h);
}
static bool within(vector<Half> const& hs, P x) {
  for (auto& h : hs)
    if (dot(h.n, x) + h.d < -1e-9) return false;
  return true;
}
static void corner(PS& v, P x) {
  for (auto& y : v)
    if (len(x - y) < 1e-8) return;
  v.push_back(x);
}
// a polygon in the plane of normal n, in order around its middle
static PS ordered(PS v, P n) {
  P mid = {{0, 0, 0}};
  for (auto& x : v) mid = mid + times(x, 1.0 / double(v.size()));
  P u = v[0] - mid;
  u = times(u, 1 / len(u));
  P w = vec_prod(n, u);
  std::sort(v.begin(), v.end(), [&](P a, P b) { return std::atan2(dot(a - mid, w), dot(a - mid, u)) < std::atan2(dot(b - mid, w), dot(b - mid, u)); });
  return v;
}
// integrals of 1, x, y, z, xx, xy, xz, yy, yz, zz (1, x, y, xx, xy, yy) over a simplex
static void integrate_simplex(int dim, PS const& p, vector<double>& m) {
  double s = std::abs(size_of(dim, p));
  int n = dim + 1;
  size_t k = 0;
  m[k++] += s;
  for (int i = 0; i < dim; ++i, ++k)
    for (auto& x : p) m[k] += s * x[size_t(i)] / n;
  for (int i = 0; i < dim; ++i)
    for (int j = i; j < dim; ++j, ++k) {
      double si = 0, sj = 0, sij = 0;
      for (auto& x : p) {
        si += x[size_t(i)];
        sj += x[size_t(j)];
        sij += x[size_t(i)] * x[size_t(j)];
      }
      m[k] += s * (si * sj + sij) / (n * (n + 1));
    }
}
static vector<double> region(int dim, vector<Half> const& hs) {
  vector<double> m(dim == 3 ? 10 : dim == 2 ? 6 : 3, 0);
  PS v;
  size_t n = hs.size();
  for (size_t i = 0; i < n; ++i) {
    if (dim == 1) {
      P x = times(hs[i].n, -hs[i].d);
      if (within(hs, x)) corner(v, x);
      continue;
    }
    for (size_t j = 0; j < i; ++j) {
      P t = vec_prod(hs[i].n, hs[j].n);
      if (dim == 2) {
        if (std::abs(t[2]) < 1e-9) continue;
        P x = {{(-hs[i].d * hs[j].n[1] + hs[j].d * hs[i].n[1]) / t[2], (-hs[j].d * hs[i].n[0] + hs[i].d * hs[j].n[0]) / t[2], 0}};
        if (within(hs, x)) corner(v, x);
        continue;
      }
      for (size_t k = 0; k < j; ++k) {
        double d = dot(t, hs[k].n);
        if (std::abs(d) < 1e-9) continue;
        P x = times(vec_prod(hs[j].n, hs[k].n), -hs[i].d) + times(vec_prod(hs[k].n, hs[i].n), -hs[j].d) + times(t, -hs[k].d);
        x = times(x, 1 / d);
        if (within(hs, x)) corner(v, x);
      }
    }
  }
  if (int(v.size()) <= dim) return m;
  if (dim == 1) {
    integrate_simplex(1, v, m);
  } else if (dim == 2) {
    v = ordered(v, {{0, 0, 1}});
    for (size_t i = 1; i + 1 < v.size(); ++i) integrate_simplex(2, {v[0], v[i], v[i + 1]}, m);
  } else {
    P mid = {{0, 0, 0}};
    for (auto& x : v) mid = mid + times(x, 1.0 / double(v.size()));
    for (auto& h : hs) {
      PS on;
      for (auto& x : v)
        if (std::abs(dot(h.n, x) + h.d) < 1e-8) on.push_back(x);
      if (on.size() < 3) continue;
      on = ordered(on, h.n);
      for (size_t i = 1; i + 1 < on.size(); ++i) integrate_simplex(3, {mid, on[0], on[i], on[i + 1]}, m);
    }
  }
  return m;
}
template <Int dim>
static r3d::Few<r3d::Vector<dim>, dim + 1> r3(PS const& p) {
  auto f = few<dim, dim + 1>(p);
  auto r = oh::to_r3d(f);
  auto back = oh::from_r3d(r);
  for (Int i = 0; i <= dim; ++i) REQ(from(back[i]) == from(f[i]), "r3d-convert", "point %d", i);
  return r;
}
static vector<double> moments(r3d::Polytope<2> const& p) {
  vector<double> m(6, 0);
  r3d::reduce<2>(p, m.data());
  r3d::Polynomial<2, 1> q{{0.5, -2, 3}};
  double w = 0.5 * m[0] - 2 * m[1] + 3 * m[2], g = r3d::integrate(p, q);
  REQ(near(g, w, 1e-10) && near(r3d::measure(p), m[0], 1e-12), "r3d-integrate", "%.17g, expected %.17g", g, w);
  return m;
}
static vector<double> moments(r3d::Polytope<3> const& p) {
  vector<double> m(10, 0);
  r3d::reduce<2>(p, m.data());
  r3d::Polynomial<3, 1> q{{0.5, -2, 3, 1}};
  double w = 0.5 * m[0] - 2 * m[1] + 3 * m[2] + m[3], g = r3d::integrate(p, q);
  REQ(near(g, w, 1e-10) && near(r3d::measure(p), m[0], 1e-12), "r3d-integrate", "%.17g, expected %.17g", g, w);
  return m;
}
static vector<double> moments(r3d::Polytope<1> const& p) { return {r3d::measure(p)}; }
static bool same(vector<double> const& a, vector<double> const& b, double tol) {
  for (size_t i = 0; i < std::min(a.size(), b.size()); ++i)
    if (!(std::abs(a[i] - b[i]) <= tol)) return false;
  return true;
}
static std::string str(vector<double> const& a) {
  std::string s;
  char b[40];
  for (double x : a) {
    snprintf(b, sizeof b, " %.12g", x);
    s += b;
  }
  return s;
}
// the simplices of positive size on a lattice, each from one first vertex on
static vector<PS> const& lattice(int dim, int top, double shift) {
  static std::map<std::tuple<int, int, double>, vector<PS>> all;
  auto& r = all[std::make_tuple(dim, top, shift)];
  if (!r.empty()) return r;
  int per = 1;
  for (int d = 0; d < dim; ++d) per *= top + 1;
  vector<int> k(size_t(dim) + 1, 0);
  for (;;) {
    PS p;
    bool first = true;
    for (int x : k) {
      first &= k[0] <= x;
      P q = {{0, 0, 0}};
      for (int d = 0; d < dim; ++d, x /= top + 1) q[size_t(d)] = x % (top + 1) + shift * (d + 1);
      p.push_back(q);
    }
    if (first && size_of(dim, p) > 0 && (dim > 1 || p[1][0] > p[0][0])) {
      bool even = dim < 3 || k[1] == *std::min_element(k.begin() + 1, k.end());
      if (even) r.push_back(p);
    }
    size_t i = 0;
    while (i < k.size() && ++k[i] == per) k[i++] = 0;
    if (i == k.size()) break;
  }
  return r;
}
template <Int dim>
static void clipping(mc::Ctx& c, int top, int top2, double shift, size_t stride = 1) {
  C = &c;
  auto &all = lattice(dim, top, 0), &other = lattice(dim, top2, shift);
  size_t i = size_t(c.choose(int(all.size())));
  c.split();
  size_t j = size_t(c.choose(int((other.size() + stride - 1) / stride)));
  j = (j * stride + (stride > 1 ? i : 0)) % other.size();
  auto const &p = all[i], &q = other[j];
  if (c.describing()) c.note("%s and %s", str(p).c_str(), str(q).c_str());
  auto hs = halves_of(dim, p);
  for (auto& h : halves_of(dim, q)) add_half(hs, h);
  auto want = region(dim, hs);
  r3d::Polytope<dim> x, y;
  r3d::intersect_simplices(x, r3<dim>(p), r3<dim>(q));
  r3d::intersect_simplices(y, r3<dim>(q), r3<dim>(p));
  double tol = 1e-9;
  REQ(same(moments(x), want, tol), "intersection", "%s and %s share%s, expected%s", str(p).c_str(), str(q).c_str(), str(moments(x)).c_str(), str(want).c_str());
  REQ(same(moments(y), want, tol), "intersection-turned", "%s and %s share%s, expected%s", str(q).c_str(), str(p).c_str(), str(moments(y)).c_str(), str(want).c_str());
  REQ((want[0] > 1e-7) <= (x.nverts > dim), "intersection-empty", "%d corners of %.12g", x.nverts, want[0]);
  // the rest of the first: clip by each side in turn, keeping the outside
  auto sides = r3d::faces_from_verts(r3<dim>(q));
  r3d::Polytope<dim> in;
  r3d::init(in, r3<dim>(p));
  auto total = moments(in);
  auto parts = moments(x);
  for (int s = 0; s <= dim && dim > 1; ++s) {
    auto out = in;
    r3d::Plane<dim> back;
    back.n = -sides[s].n;
    back.d = -sides[s].d;
    if (out.nverts) r3d::clip(out, back);
    auto m = moments(out);
    for (size_t k = 0; k < parts.size(); ++k) parts[k] += m[k];
    r3d::clip(in, sides[s]);
  }
  if (dim > 1) REQ(same(parts, total, tol), "pieces", "%s cut by %s adds up to%s, expected%s", str(p).c_str(), str(q).c_str(), str(parts).c_str(), str(total).c_str());
  c.exec();
  c.state(mc::Hash().add(str(p)).add(str(q)).h);
}
// general polyhedra, from their faces
static void solids(mc::Ctx& c) {
  C = &c;
  int which = c.choose(5);
  int cut = c.choose(27 * 5);
  c.split();
  PS v;
  vector<vector<int>> fs;
  if (which == 0 || which == 1) {  // a box, or a skewed one
    for (int k = 0; k < 8; ++k) v.push_back({{double(k & 1) + (which ? 0.3 * (k >> 2) : 0), double(k >> 1 & 1), double(k >> 2) + (which ? 0.2 * (k & 1) : 0)}});
    fs = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}};
  } else if (which == 2) {  // an octahedron: four faces meet at each vertex
    v = {{{1, 0, 0}}, {{-1, 0, 0}}, {{0, 1, 0}}, {{0, -1, 0}}, {{0, 0, 1}}, {{0, 0, -1}}};
    fs = {{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}};
  } else if (which == 3) {  // a pyramid
    v = {{{0, 0, 0}}, {{1, 0, 0}}, {{1, 1, 0}}, {{0, 1, 0}}, {{0.4, 0.3, 1}}};
    fs = {{0, 3, 2, 1}, {0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}};
  } else {  // a prism
    v = {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}, {{1, 0, 1}}, {{0, 1, 1}}};
    fs = {{0, 2, 1}, {3, 4, 5}, {0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}};
  }
  if (c.describing()) c.note("solid %d, cut %d", which, cut);
  vector<r3d::Vector<3>> rv;
  for (auto& x : v) rv.push_back(r3d::vector_3(x[0], x[1], x[2]));
  vector<int*> fp;
  vector<int> fn;
  for (auto& f : fs) {
    fp.push_back(f.data());
    fn.push_back(int(f.size()));
  }
  r3d::Polytope<3> poly;
  r3d::init_poly(poly, rv.data(), int(v.size()), fp.data(), fn.data(), int(fs.size()));
  vector<r3d::Plane<3>> planes(fs.size());
  r3d::poly_faces_from_verts(planes.data(), rv.data(), fp.data(), fn.data(), int(fs.size()));
  vector<Half> hs;
  for (size_t i = 0; i < fs.size(); ++i) {
    P n = vec_prod(v[size_t(fs[i][1])] - v[size_t(fs[i][0])], v[size_t(fs[i][2])] - v[size_t(fs[i][0])]);
    n = times(n, 1 / len(n));
    Half h = {times(n, -1), dot(n, v[size_t(fs[i][0])])};
    hs.push_back(h);
    P rn = {{planes[i].n[0], planes[i].n[1], planes[i].n[2]}};
    REQ(len(rn - n) < 1e-12 && std::abs(planes[i].d + dot(n, v[size_t(fs[i][0])])) < 1e-12, "solid-planes", "face %zu of solid %d", i, which);
  }
  auto want = region(3, hs);
  REQ(same(moments(poly), want, 1e-10), "solid", "solid %d has%s, expected%s", which, str(moments(poly)).c_str(), str(want).c_str());
  P n = {{double(cut % 3 - 1), double(cut / 3 % 3 - 1), double(cut / 9 % 3 - 1)}};
  if (len(n) > 0) {
    n = times(n, 1 / len(n));
    Half h = {n, -0.9 + 0.45 * (cut / 27)};
    auto b = poly;
    r3d::Plane<3> pl;
    pl.n = r3d::vector_3(n[0], n[1], n[2]);
    pl.d = h.d;
    r3d::clip(b, pl);
    add_half(hs, h);
    want = region(3, hs);
    REQ(same(moments(b), want, 1e-10), "solid-cut", "solid %d cut by %s has%s, expected%s", which, str(PS{n}).c_str(), str(moments(b)).c_str(), str(want).c_str());
  }
  c.exec();
  c.state(mc::Hash().add(which).add(cut).h);
}
static void polygons(mc::Ctx& c) {
  C = &c;
  int n = 3 + c.choose(6);
  int cut = c.choose(24 * 5);
  c.split();
  PS v;
  for (int i = 0; i < n; ++i) v.push_back({{std::cos(i * 6.283185307179586 / n) * 1.5, std::sin(i * 6.283185307179586 / n) + 0.2, 0}});
  vector<r3d::Vector<2>> rv;
  for (auto& x : v) rv.push_back(r3d::vector_2(x[0], x[1]));
  r3d::Polytope<2> poly;
  r3d::init_poly(poly, rv.data(), n);
  vector<Half> hs;
  for (int i = 0; i < n; ++i) {
    P e = v[size_t((i + 1) % n)] - v[size_t(i)];
    P m = {{-e[1], e[0], 0}};
    m = times(m, 1 / len(m));
    hs.push_back({m, -dot(m, v[size_t(i)])});
  }
  REQ(same(moments(poly), region(2, hs), 1e-10), "polygon", "%d corners", n);
  double t = (cut % 24) * 6.283185307179586 / 24;
  P m = {{std::cos(t), std::sin(t), 0}};
  Half h = {m, -1 + 0.5 * (cut / 24)};
  r3d::Plane<2> pl;
  pl.n = r3d::vector_2(m[0], m[1]);
  pl.d = h.d;
  r3d::clip(poly, pl);
  add_half(hs, h);
  REQ(same(moments(poly), region(2, hs), 1e-10), "polygon-cut", "%d corners, cut %d: %s, expected%s", n, cut, str(moments(poly)).c_str(), str(region(2, hs)).c_str());
  c.exec();
  c.state(mc::Hash().add(n).add(cut).h);
}

// ---- whole meshes: every list of entities, every kind of metric
static void meshes(mc::Ctx& c) {
  C = &c;
  int dim = 1 + c.choose(3);
  int mk = c.choose(3);  // isotropic, tensors, the tag
  int shape = c.choose(3);
  c.split();
  oh::Library lib;
  auto m = oh::build_box(lib.world(), OMEGA_H_SIMPLEX, 2, dim > 1 ? 1.5 : 0, dim > 2 ? 1 : 0, 2, dim > 1 ? 2 : 0, dim > 2 ? 1 : 0);
  auto x = vec(m.coords());
  PS pts;
  for (int v = 0; v < m.nverts(); ++v) {
    P p = {{0, 0, 0}};
    for (int d = 0; d < dim; ++d) p[size_t(d)] = x[size_t(v * dim + d)];
    if (shape) p = {{p[0] + 0.2 * p[0] * p[0] * shape, p[1] + 0.3 * p[0], p[2] + 0.1 * p[1]}};
    for (int d = dim; d < 3; ++d) p[size_t(d)] = 0;
    pts.push_back(p);
    for (int d = 0; d < dim; ++d) x[size_t(v * dim + d)] = p[size_t(d)];
  }
  m.set_coords(arr(x));
  int md = mk == 0 || dim == 1 ? 1 : dim;
  auto m2 = metrics<2>();
  auto m3 = metrics<3>();
  vector<double> mv;
  auto at = [&](int v, int i, int j) { return md == 1 ? 1.0 + v % 3 : md == 2 ? m2[size_t(v) % 5](i, j) : m3[size_t(v) % 5](i, j); };
  for (int v = 0; v < m.nverts(); ++v) {
    for (int i = 0; i < md; ++i) mv.push_back(at(v, i, i));
    if (md == 2) mv.push_back(at(v, 0, 1));
    if (md == 3)
      for (int i = 0; i < 3; ++i) mv.push_back(at(v, i, (i + 1) % 3));
  }
  Reals met = arr(mv);
  if (mk == 2) m.add_tag<Real>(0, "metric", oh::symm_ncomps(md), met);
  for (int d = 1; d <= dim; ++d) {
    auto ev = mk::verts_of(m, d);
    vector<vector<int>> lists = {{}, {0}, {int(ev.size()) - 1, 0}, {}};
    for (size_t e = 0; e < ev.size(); ++e) lists[3].push_back(int(e));
    for (auto& l : lists) {
      auto got = vec(oh::measure_ents_real(&m, d, arr(l), m.coords()));
      REQ(got.size() == l.size(), "mesh-sizes", "%zu sizes of %zu", got.size(), l.size());
      auto q = d == dim ? (mk == 2 ? vec(oh::measure_qualities(&m, arr(l))) : vec(oh::measure_qualities(&m, arr(l), met))) : vector<double>();
      auto el = d == 1 ? (mk == 2 ? vec(oh::measure_edges_metric(&m, arr(l))) : vec(oh::measure_edges_metric(&m, arr(l), met))) : vector<double>();
      auto er = d == 1 ? vec(oh::measure_edges_real(&m, arr(l))) : vector<double>();
      auto sz = d == dim ? vec(oh::measure_elements_real(&m, arr(l))) : vector<double>();
      if (&l == &lists[3]) {
        if (d == 1) {
          REQ(vec(oh::measure_edges_real(&m)) == er, "mesh-all", "edges");
          REQ((mk == 2 ? vec(oh::measure_edges_metric(&m)) : vec(oh::measure_edges_metric(&m, met))) == el, "mesh-all", "edges in the metric");
        }
        if (d == dim) {
          REQ(vec(oh::measure_elements_real(&m)) == sz, "mesh-all", "elements");
          REQ((mk == 2 ? vec(oh::measure_qualities(&m)) : vec(oh::measure_qualities(&m, met))) == q, "mesh-all", "qualities");
        }
      }
      for (size_t i = 0; i < l.size(); ++i) {
        PS p;
        auto& e = ev[size_t(l[i])];
        for (int v : e) p.push_back(pts[size_t(v)]);
        REQ(near(got[i], size_of(dim, p), 1e-13), "mesh-size", "entity %d of dimension %d has size %.17g, expected %.17g", l[i], d, got[i], size_of(dim, p));
        if (d == dim) REQ(sz[i] == got[i], "mesh-size", "element %d", l[i]);
        auto sq = [&](int v, P y) {
          double s = 0;
          for (int a = 0; a < dim; ++a)
            for (int b = 0; b < dim; ++b) s += md == 1 ? (a == b) * at(v, 0, 0) * y[size_t(a)] * y[size_t(b)] : at(v, a, b) * y[size_t(a)] * y[size_t(b)];
          return s;
        };
        if (d == 1) {
          double a = std::sqrt(sq(e[0], p[1] - p[0])), b = std::sqrt(sq(e[1], p[1] - p[0]));
          REQ(near(er[i], len(p[1] - p[0]), 1e-13), "mesh-edge", "edge %d is %.17g long", l[i], er[i]);
          REQ(near(el[i], oh::anisotropic_edge_length(a, b), 1e-10), "mesh-metric-edge", "edge %d is %.17g long in the metric, expected %.17g", l[i], el[i], oh::anisotropic_edge_length(a, b));
        }
        if (d == dim) {
          double wq = 1;
          if (dim > 1) {
            // in the metric of the vertex where it is finest
            int best = e[0];
            auto det_at = [&](int v) { return md == 1 ? at(v, 0, 0) : md == 2 ? det(m2[size_t(v) % 5]) : det(m3[size_t(v) % 5]); };
            for (int v : e)
              if (det_at(v) > det_at(best) * (1 + 1e-9)) best = v;
            double msl = 0, ne = 0;
            for (size_t a = 0; a < p.size(); ++a)
              for (size_t b = 0; b < a; ++b, ++ne) msl += sq(best, p[a] - p[b]);
            msl /= ne;
            double s = size_of(dim, p) * std::pow(det_at(best), 0.5 * (md == 1 ? dim : 1)), eq = dim == 3 ? std::sqrt(2.0) / 12 : std::sqrt(3.0) / 4;
            wq = std::pow(s / eq, 2.0 / dim) / msl;
          }
          REQ(near(q[i], wq, 1e-9), "mesh-quality", "element %d has quality %.17g, expected %.17g", l[i], q[i], wq);
        }
      }
    }
  }
  c.exec();
  c.state(mc::Hash().add(dim).add(mk).add(shape).h);
}

// bounding boxes, of points and of distributed meshes
template <int dim>
static void boxes(mc::Ctx& c) {
  C = &c;
  World w(base(dim == 1 ? "edges4" : dim == 2 ? "strip4" : "tets3").s);
  int n = 1 + c.choose(c.thorough() ? 4 : 3), pattern = c.choose(5);
  vector<int> owner;
  for (size_t e = 0; e < w.s.elems.size(); ++e) owner.push_back(c.choose(n));
  c.split();
  int how = n > 1 ? c.choose(3) : 0;
  auto at = [&](int v, int d) {
    double x = ((v * (d + 2) + d) % 7) * 0.75 + 0.1 * v;
    return pattern == 0 ? x : pattern == 1 ? -5 - x : pattern == 2 ? x - 2 : pattern == 3 ? 1e-9 * x + 1 : (v == 0 ? -1e9 : x);
  };
  auto box_of = [&](vector<int> const& vs) {
    oh::BBox<dim> b;
    for (int d = 0; d < dim; ++d) {
      b.min[d] = DBL_MAX;
      b.max[d] = -DBL_MAX;
      for (int v : vs) {
        b.min[d] = std::min(b.min[d], at(v, d));
        b.max[d] = std::max(b.max[d], at(v, d));
      }
    }
    return b;
  };
  if (c.describing()) c.note("dimension %d, elements on %s of %d ranks, parting %d, points %d", dim, str(owner).c_str(), n, how, pattern);
  vector<int> every;
  for (size_t v = 0; v < w.ents[0].size(); ++v) every.push_back(int(v));
  auto want = box_of(every);
  minimpi::Options o;
  o.nranks = n;
  o.explore = false;
  minimpi::run(c, o, [&](int) {
    oh::Library lib;
    auto m = build_parted(lib, lib.world(), w.s, owner);
    m.set_parting(how == 0 ? OMEGA_H_ELEM_BASED : how == 1 ? OMEGA_H_GHOSTED : OMEGA_H_VERT_BASED);
    auto vg = vec(m.globals(0));
    vector<double> x;
    vector<int> mine;
    for (auto g : vg) {
      mine.push_back(int(g));
      for (int d = 0; d < dim; ++d) x.push_back(at(int(g), d));
    }
    if (m.has_tag(0, "coordinates")) m.set_coords(arr(x));
    else m.add_tag(0, "coordinates", dim, arr(x));
    auto b = oh::get_bounding_box<dim>(&m);
    auto l = oh::find_bounding_box<dim>(arr(x));
    auto lw = box_of(mine);
    auto e = oh::make_equilateral(want);
    auto f = oh::get_affine_from_bbox_into_unit(want);
    double longest = 0;
    for (int d = 0; d < dim; ++d) longest = std::max(longest, want.max[d] - want.min[d]);
    for (int d = 0; d < dim; ++d) {
      minimpi::require(b.min[d] == want.min[d] && b.max[d] == want.max[d], "box", "the mesh extends from %.17g to %.17g along %d, expected %.17g to %.17g", b.min[d], b.max[d], d, want.min[d], want.max[d]);
      minimpi::require(l.min[d] == lw.min[d] && l.max[d] == lw.max[d], "box", "the points extend from %.17g to %.17g along %d, expected %.17g to %.17g", l.min[d], l.max[d], d, lw.min[d], lw.max[d]);
      minimpi::require(e.min[d] == want.min[d] && e.max[d] == want.min[d] + longest, "equilateral", "the cube extends from %.17g to %.17g along %d", e.min[d], e.max[d], d);
      auto lo = f * want.min, hi = f * want.max;
      minimpi::require(std::fabs(lo[d]) < 1e-6 && std::fabs(hi[d] - 1) < 1e-6, "unit", "the box is mapped to %.17g .. %.17g", lo[d], hi[d]);
    }
  });
  c.exec();
  c.state(mc::Hash().add(dim).add(n).add(pattern).add(how).add(str(owner)).h);
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C29",
      {
          {"edges", [](mc::Ctx& c) { simplex<1>(c, 6); }, 60, false, "every edge on 7 points in 3 scales"},
          {"triangles", [](mc::Ctx& c) { simplex<2>(c, c.thorough() ? 6 : 5); }, 60, false, "every triangle on the 6x6 (7x7) lattice in 3 scales"},
          {"tets", [](mc::Ctx& c) { simplex<3>(c, 1); }, 60, false, "every tetrahedron on the 2x2x2 lattice in 3 scales"},
          {"tets2", [](mc::Ctx& c) { simplex<3>(c, 2); }, 60, false, "every tetrahedron on the 3x3x3 lattice in 3 scales"},
          {"flat", [](mc::Ctx& c) { flat(c, c.thorough() ? 3 : 2); }, 60, false, "every triangle on the 3x3x3 (4x4x4) lattice"},
          {"lengths", lengths, 60, false, "every pair of 11 lengths; 5x5 metrics in 13 directions"},
          {"clip1", [](mc::Ctx& c) { clipping<1>(c, 6, 6, 0); }, 60, false, "every pair of edges on 7 points"},
          {"clip2", [](mc::Ctx& c) { clipping<2>(c, 3, 3, 0); }, 60, false, "every pair of triangles on the 4x4 lattice"},
          {"clip2b", [](mc::Ctx& c) { clipping<2>(c, c.thorough() ? 4 : 2, 3, 0.375); }, 60, false, "every pair of triangles on a 3x3 (5x5) and a shifted 4x4 lattice"},
          {"clip3", [](mc::Ctx& c) { clipping<3>(c, 1, 1, 0); }, 60, false, "every pair of tetrahedra on the 2x2x2 lattice"},
          {"clip3b", [](mc::Ctx& c) { clipping<3>(c, 1, 1, 0.25); }, 60, false, "every pair of tetrahedra on two 2x2x2 lattices, one shifted"},
          {"clip3c", [](mc::Ctx& c) { clipping<3>(c, 1, 2, -0.375); }, 60, false, "every tetrahedron on the 2x2x2 lattice with every one on a shifted 3x3x3 lattice"},
          {"clip3d", [](mc::Ctx& c) { clipping<3>(c, 2, 2, 0, 101); }, 60, true, "every tetrahedron on the 3x3x3 lattice with one in 101 of them"},
          {"solids", solids, 60, false, "5 polyhedra, whole and cut by 130 planes"},
          {"polygons", polygons, 60, false, "6 polygons, whole and cut by 120 lines"},
          {"meshes", meshes, 60, false, "boxes of 1-3 dimensions in 3 shapes with 3 kinds of metric, 4 lists of entities of each dimension"},
          {"boxes1", boxes<1>, 60, false, "bounding boxes of 4 edges in every distribution over up to 3 (4) ranks x 3 partings x 5 sets of points"},
          {"boxes2", boxes<2>, 60, false, "the same of 4 triangles"},
          {"boxes3", boxes<3>, 60, false, "the same of 3 tetrahedra"},
      });
}
