// C28: metric tensors: families of small metrics judged by the definition of
// each operation, and size fields of small meshes over every distribution.
#include <Omega_h_adapt.hpp>
#include <Omega_h_metric.hpp>
#include <Omega_h_migrate.hpp>
#include <Omega_h_metric_intersect.hpp>
#include <Omega_h_shape.hpp>
#include <Omega_h_surface.hpp>
#include <cmath>
#include "fieldkit.hpp"
using namespace wk;
using namespace minimpi;
using oh::Few;
using oh::Int;
using oh::Real;
using oh::Reals;
using oh::Tensor;
using oh::Vector;
using std::string;

static mc::Ctx* C;
#define REQ(cond, key, ...) do { if (!(cond)) C->fail(key, __VA_ARGS__); } while (0)

// ---- plain symmetric algebra, independent of the library
struct Sym {
  int n;
  double a[3][3];
  explicit Sym(int n_) : n(n_) {
    for (auto& r : a)
      for (auto& x : r) x = 0;
  }
};
static Sym operator-(Sym const& x, Sym const& y) {
  Sym z(x.n);
  for (int i = 0; i < x.n; ++i)
    for (int j = 0; j < x.n; ++j) z.a[i][j] = x.a[i][j] - y.a[i][j];
  return z;
}
static Sym operator+(Sym const& x, Sym const& y) {
  Sym z(x.n);
  for (int i = 0; i < x.n; ++i)
    for (int j = 0; j < x.n; ++j) z.a[i][j] = x.a[i][j] + y.a[i][j];
  return z;
}
static Sym operator*(Sym const& x, Sym const& y) {  // a general matrix
  Sym z(x.n);
  for (int i = 0; i < x.n; ++i)
    for (int j = 0; j < x.n; ++j)
      for (int k = 0; k < x.n; ++k) z.a[i][j] += x.a[i][k] * y.a[k][j];
  return z;
}
static Sym scaled(Sym x, double f) {
  for (auto& r : x.a)
    for (auto& y : r) y *= f;
  return x;
}
static double big(Sym const& x) {
  double m = 0;
  for (int i = 0; i < x.n; ++i)
    for (int j = 0; j < x.n; ++j) {
      double y = std::fabs(x.a[i][j]);
      if (!(y <= m)) m = y == y ? y : INFINITY;
    }
  return m;
}
struct Eig {
  double l[3];
  double q[3][3];  // q[k] is the k-th vector
};
static Eig eig(Sym s) {
  Eig e;
  int n = s.n;
  double v[3][3];
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) v[i][j] = i == j;
  for (int sweep = 0; sweep < 40; ++sweep) {
    bool any = false;
    for (int p = 0; p < n; ++p)
      for (int q = p + 1; q < n; ++q) {
        if (!(std::fabs(s.a[p][q]) > 1e-300)) continue;
        any = true;
        double th = (s.a[q][q] - s.a[p][p]) / (2 * s.a[p][q]);
        double t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), cs = 1 / std::sqrt(t * t + 1), sn = t * cs;
        for (int k = 0; k < n; ++k) {
          double x = s.a[k][p], y = s.a[k][q];
          s.a[k][p] = cs * x - sn * y;
          s.a[k][q] = sn * x + cs * y;
        }
        for (int k = 0; k < n; ++k) {
          double x = s.a[p][k], y = s.a[q][k];
          s.a[p][k] = cs * x - sn * y;
          s.a[q][k] = sn * x + cs * y;
        }
        for (int k = 0; k < n; ++k) {
          double x = v[k][p], y = v[k][q];
          v[k][p] = cs * x - sn * y;
          v[k][q] = sn * x + cs * y;
        }
      }
    if (!any) break;
  }
  for (int i = 0; i < n; ++i) {
    e.l[i] = s.a[i][i];
    for (int k = 0; k < n; ++k) e.q[i][k] = v[k][i];
  }
  return e;
}
template <class F>
static Sym apply(Sym const& s, F f) {
  auto e = eig(s);
  Sym z(s.n);
  for (int k = 0; k < s.n; ++k)
    for (int i = 0; i < s.n; ++i)
      for (int j = 0; j < s.n; ++j) z.a[i][j] += f(e.l[k]) * e.q[k][i] * e.q[k][j];
  return z;
}
static double least(Sym const& s) {
  auto e = eig(s);
  double m = e.l[0];
  for (int i = 1; i < s.n; ++i) m = std::min(m, e.l[i]);
  return m;
}
static double most(Sym const& s) { return -least(scaled(s, -1)); }
static double prod(Sym const& s) {
  auto e = eig(s);
  double m = 1;
  for (int i = 0; i < s.n; ++i) m *= e.l[i];
  return m;
}
static string str(Sym const& s) {
  string r = "[";
  char b[40];
  for (int i = 0; i < s.n; ++i)
    for (int j = 0; j < s.n; ++j) {
      snprintf(b, sizeof b, "%.15g%s", s.a[i][j], j + 1 < s.n ? " " : i + 1 < s.n ? "; " : "]");
      r += b;
    }
  return r;
}
template <Int n>
static Tensor<n> lib_of(Sym const& s) {
  Tensor<n> t;
  for (Int i = 0; i < n; ++i)
    for (Int j = 0; j < n; ++j) t(i, j) = s.a[i][j];
  return t;
}
template <Int n>
static Sym of(Tensor<n> const& t) {
  Sym s(n);
  for (Int i = 0; i < n; ++i)
    for (Int j = 0; j < n; ++j) s.a[i][j] = t(i, j);
  return s;
}
static int comps(int n) { return n * (n + 1) / 2; }
// the library's packing: the diagonal, then (1,0), (2,1), (2,0)
static int slot(int n, int i, int j) {
  if (i == j) return i;
  if (i < j) std::swap(i, j);
  return i - j == 2 ? 5 : n + j;
}
static void pack(vector<double>& v, Sym const& s) {
  size_t at = v.size();
  v.resize(at + size_t(comps(s.n)));
  for (int i = 0; i < s.n; ++i)
    for (int j = 0; j <= i; ++j) v[at + size_t(slot(s.n, i, j))] = s.a[i][j];
}
static Sym unpack(vector<double> const& v, int n, size_t k) {
  Sym s(n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) s.a[i][j] = v[k * size_t(comps(n)) + size_t(slot(n, i, j))];
  return s;
}

// ---- families of metrics
static double const PI = 3.14159265358979323846;
// the frame number k (of frames(n)): exact axes first
static int frames(int n, bool deep) { return n == 1 ? 1 : n == 2 ? 12 : deep ? 40 : 20; }
static void frame(int n, int k, double (&q)[3][3]) {
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) q[i][j] = i == j;
  if (n == 2) {
    double t = k * PI / 12;
    q[0][0] = std::cos(t);
    q[0][1] = std::sin(t);
    q[1][0] = -q[0][1];
    q[1][1] = q[0][0];
  }
  if (n == 3 && k > 0) {
    static int const axes[13][3] = {{0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {1, 1, 0}, {1, -1, 0}, {1, 0, 1}, {1, 0, -1}, {0, 1, 1}, {0, 1, -1}, {1, 1, 1}, {1, 1, -1}, {1, -1, 1}, {-1, 1, 1}};
    auto& x = axes[(k - 1) % 13];
    double l = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]), u[3] = {x[0] / l, x[1] / l, x[2] / l};
    double t = (k - 1) / 13 == 0 ? PI / 4 : (k - 1) / 13 == 1 ? PI / 6 : 1.1, cs = std::cos(t), sn = std::sin(t);
    double K[3][3] = {{0, -u[2], u[1]}, {u[2], 0, -u[0]}, {-u[1], u[0], 0}};
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) q[i][j] = cs * (i == j) + sn * K[j][i] + (1 - cs) * u[i] * u[j];
  }
}
// non-decreasing n-tuples of values, by number
static vector<vector<double>> tuples(int n, vector<double> const& vals) {
  vector<vector<double>> r = {{}};
  for (int i = 0; i < n; ++i) {
    vector<vector<double>> w;
    for (auto& t : r)
      for (double x : vals)
        if (t.empty() || x >= t.back()) {
          w.push_back(t);
          w.back().push_back(x);
        }
    r = w;
  }
  return r;
}
// every metric with these eigenvalues in the first nf frames, once each
static vector<Sym> family(int n, vector<double> const& vals, int nf) {
  vector<Sym> r;
  std::set<vector<long long>> seen;
  for (auto& t : tuples(n, vals))
    for (int k = 0; k < nf; ++k) {
      double q[3][3];
      frame(n, k, q);
      Sym s(n);
      for (int m = 0; m < n; ++m)
        for (int i = 0; i < n; ++i)
          for (int j = 0; j < n; ++j) s.a[i][j] += t[size_t(m)] * q[m][i] * q[m][j];
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j) s.a[i][j] = s.a[j][i];
      vector<long long> key;
      for (int i = 0; i < n; ++i)
        for (int j = 0; j <= i; ++j) key.push_back((long long)std::llround(s.a[i][j] * 1e6));
      if (seen.insert(key).second) r.push_back(s);
    }
  return r;
}
static bool sym_ok(Sym const& s, double tol) {
  for (int i = 0; i < s.n; ++i)
    for (int j = 0; j < i; ++j)
      if (!(std::fabs(s.a[i][j] - s.a[j][i]) <= tol)) return false;
  return true;
}

// ---- intersection
static void check_intersection(Sym const& m1, Sym const& m2, Sym const& got, double tol, char const* what) {
  double sc = std::max(big(m1), big(m2));
  // the eigenvalues of one in terms of the other are found to within 5e-5 of the largest
  if (least(m1) > 1e-10 && least(m2) > 1e-10) {
    auto to = [](Sym const& a, Sym const& b) {
      auto r = apply(a, [](double l) { return 1 / std::sqrt(l); });
      return 6e-5 * most(r * b * r) * big(a);
    };
    tol += std::max(to(m1, m2), to(m2, m1)) / sc;
  }
  if (sc == 0) {
    REQ(big(got) == 0, "intersect", "%s: the intersection of nothing is %s", what, str(got).c_str());
    return;
  }
  tol *= sc;
  REQ(big(got) < INFINITY && sym_ok(got, tol), "intersect", "%s of %s and %s is %s", what, str(m1).c_str(), str(m2).c_str(), str(got).c_str());
  auto d1 = got - m1, d2 = got - m2;
  REQ(least(d1) >= -tol && least(d2) >= -tol, "intersect-covers", "%s of %s and %s is %s, which allows longer edges than one of them (by %g, %g)", what, str(m1).c_str(), str(m2).c_str(),
      str(got).c_str(), least(d1), least(d2));
  // no smaller metric will do: what it adds to each has nothing in common
  auto sum = m1 + m2;
  double top = most(sum);
  auto inv = apply(sum, [&](double l) { return l > 1e-9 * top ? 1 / l : 0.0; });
  auto none = d1 * inv * d2;
  REQ(big(none) <= tol, "intersect-minimal", "%s of %s and %s is %s, more than they ask for (%g)", what, str(m1).c_str(), str(m2).c_str(), str(got).c_str(), big(none));
  auto null = apply(sum, [&](double l) { return l > 1e-9 * top ? 0.0 : 1; });
  REQ(big(got * null) <= tol, "intersect-null", "%s of %s and %s is %s, which bounds a direction neither bounds", what, str(m1).c_str(), str(m2).c_str(), str(got).c_str());
}
template <Int n>
static void intersections(mc::Ctx& c, bool degenerate) {
  C = &c;
  vector<double> vals = {0.25, 1, 4};
  if (degenerate) vals.insert(vals.begin(), 0.0);
  if (c.thorough() && !degenerate) vals.push_back(300);
  if (n < 3 || !degenerate) vals.insert(vals.begin() + degenerate, 1e-3);
  static vector<Sym> fam[2];
  auto& f = fam[degenerate];
  if (f.empty()) {
    f = family(n, vals, n == 3 && degenerate && !c.thorough() ? 14 : frames(n, c.thorough()));
    if (degenerate) {
      vector<Sym> w;
      for (auto& s : f)
        if (least(s) < 1e-11) w.push_back(s);
      f = w;
    }
  }
  int i = c.choose(int(f.size()));
  double fac = std::pow(100.0, c.choose(3) - 1);
  c.split();
  auto m1 = scaled(f[size_t(i)], fac);
  if (c.describing()) c.note("first metric %s", str(m1).c_str());
  for (auto& g : f) {
    auto m2 = scaled(g, fac);
    auto x = of<n>(oh::intersect_metrics(lib_of<n>(m1), lib_of<n>(m2)));
    check_intersection(m1, m2, x, 1e-6, "the intersection");
  }
  c.exec(f.size());
  c.state(mc::Hash().add(i).add(fac).add(degenerate).h);
}

// ---- functions of one metric
template <Int n>
static void singles(mc::Ctx& c) {
  C = &c;
  static vector<Sym> f;
  if (f.empty()) f = family(n, {0.01, 0.04, 1, 4, 100}, frames(n, c.thorough()));
  int i = c.choose(int(f.size()));
  double fac = std::pow(1000.0, c.choose(3) - 1);
  c.split();
  auto s = scaled(f[size_t(i)], fac);
  if (c.describing()) c.note("metric %s", str(s).c_str());
  double sc = big(s);
  auto m = lib_of<n>(s);
  auto e = eig(s);
  // lengths
  for (int k = 0; k < 13; ++k) {
    double q[3][3];
    frame(n, k % frames(n, false), q);
    Vector<n> v;
    double len = 0;
    for (Int a = 0; a < n; ++a) v[a] = q[0][a] * (k + 1);
    for (Int a = 0; a < n; ++a)
      for (Int b = 0; b < n; ++b) len += v[a] * s.a[a][b] * v[b];
    double tol = 1e-12 * sc * (k + 1) * (k + 1);
    REQ(std::fabs(oh::metric_product(m, v) - len) <= tol, "product", "the metric product is %.17g, expected %.17g", oh::metric_product(m, v), len);
    REQ(std::fabs(oh::metric_length(m, v) - std::sqrt(len)) <= tol / std::sqrt(len), "length", "the metric length is %.17g, expected %.17g", oh::metric_length(m, v), std::sqrt(len));
    REQ(std::fabs(oh::metric_desired_length(m, v) * std::sqrt(len) - 1) <= tol / len, "desired", "the desired length is %.17g, expected %.17g", oh::metric_desired_length(m, v), 1 / std::sqrt(len));
  }
  // lengths and directions
  auto dd = oh::decompose_metric(m);
  for (Int k = 0; k < n; ++k) {
    double h = dd.l[k];
    for (Int a = 0; a < n; ++a) {
      double x = 0;
      for (Int b = 0; b < n; ++b) x += s.a[a][b] * dd.q[k][b];
      REQ(std::fabs(x - dd.q[k][a] / (h * h)) <= 1e-8 * sc, "decompose", "direction %d of %s with length %.17g is not principal (%g)", k, str(s).c_str(), h, x - dd.q[k][a] / (h * h));
    }
  }
  auto back = of<n>(oh::compose_metric(dd.q, dd.l));
  REQ(big(back - s) <= 1e-8 * sc, "compose", "composing the decomposition of %s gives %s", str(s).c_str(), str(back).c_str());
  // logarithms
  auto lg = of<n>(oh::linearize_metric(m));
  auto want = apply(s, [](double l) { return std::log(l); });
  double spread = most(s) / least(s);
  REQ(big(lg - want) <= 1e-11 * spread + 1e-8, "linearize", "the logarithm of %s is %s, expected %s", str(s).c_str(), str(lg).c_str(), str(want).c_str());
  auto ex = of<n>(oh::delinearize_metric(lib_of<n>(want)));
  REQ(big(ex - s) <= 1e-8 * sc, "delinearize", "the exponential of the logarithm of %s is %s", str(s).c_str(), str(ex).c_str());
  // bounds
  static double const hs[] = {1e-3, 0.02, 0.4, 1, 7, 300};
  for (double lo : hs)
    for (double hi : hs) {
      if (lo > hi) continue;
      auto cl = of<n>(oh::clamp_metric(m, lo, hi));
      double a = 1 / (hi * hi), b = 1 / (lo * lo);
      auto w = apply(s, [&](double l) { return std::min(std::max(l, a), b); });
      double tol = 1e-8 * std::max(std::min(sc, b), a);
      REQ(big(cl - w) <= std::max(tol, 1e-13 * sc), "clamp", "%s with lengths from %g to %g is %s, expected %s", str(s).c_str(), lo, hi, str(cl).c_str(), str(w).c_str());
    }
  // isotropy
  vector<double> packed;
  pack(packed, s);
  auto len = vec(oh::apply_isotropy(1, arr(packed), OMEGA_H_ISO_LENGTH));
  auto siz = vec(oh::apply_isotropy(1, arr(packed), OMEGA_H_ISO_SIZE));
  auto non = vec(oh::apply_isotropy(1, arr(packed), OMEGA_H_ANISOTROPIC));
  REQ(non == packed, "anisotropic", "an anisotropic metric is not kept");
  REQ(len.size() == 1 && std::fabs(len[0] - most(s)) <= 1e-7 * sc, "iso-length", "%s has isotropic length %s, expected %.17g", str(s).c_str(), str(len).c_str(), most(s));
  double root = std::pow(prod(s), 1.0 / n);
  REQ(siz.size() == 1 && std::fabs(std::pow(siz[0], n) - std::pow(root, n)) <= 1e-13 * std::pow(sc, n), "iso-size", "%s has isotropic size %s, expected %.17g", str(s).c_str(), str(siz).c_str(), root);
  // hessians and gradients
  for (double eps : {1e-3, 0.5, 20.0}) {
    auto hm = vec(oh::get_hessian_metrics(n, arr(packed), eps));
    auto neg = packed;
    for (auto& x : neg) x = -x;
    auto hn = vec(oh::get_hessian_metrics(n, arr(neg), eps));
    double f2 = n * n / (2.0 * (n + 1) * (n + 1) * eps);
    for (size_t k = 0; k < packed.size(); ++k)
      REQ(std::fabs(hm[k] - f2 * packed[k]) <= 1e-8 * f2 * sc && std::fabs(hn[k] - f2 * packed[k]) <= 1e-8 * f2 * sc, "hessian", "the Hessian %s with eps %g gives component %zu %.17g (%.17g when negated), expected %.17g",
          str(s).c_str(), eps, k, hm[k], hn[k], f2 * packed[k]);
    vector<double> g;
    double gl = 0;
    for (Int a = 0; a < n; ++a) {
      g.push_back(std::sqrt(e.l[0]) * e.q[0][a]);
      gl += g.back() * g.back();
    }
    auto gm = unpack(vec(oh::get_gradient_metrics(n, arr(g), eps)), n, 0);
    double f1 = n * n / (4.0 * (n + 1) * (n + 1) * eps * eps);
    for (Int a = 0; a < n; ++a)
      for (Int b = 0; b < n; ++b) {
        double w = f1 * g[size_t(a)] * g[size_t(b)];
        REQ(std::fabs(gm.a[a][b] - w) <= 1e-9 * f1 * gl + 1e-10, "gradient", "a gradient %s with eps %g gives %s", str(g).c_str(), eps, str(gm).c_str());
      }
  }
  c.exec();
  c.state(mc::Hash().add(i).add(fac).h);
}
// mixed Hessians: both signs in one
template <Int n>
static void hessians(mc::Ctx& c) {
  C = &c;
  static vector<Sym> f;
  if (f.empty()) f = family(n, {-3, -0.5, 0, 0.5, 2}, frames(n, c.thorough()));
  int i = c.choose(int(f.size()));
  if (i % 8 == 0) c.split();
  auto s = f[size_t(i)];
  vector<double> p;
  pack(p, s);
  for (double eps : {1e-2, 2.0}) {
    auto got = unpack(vec(oh::get_hessian_metrics(n, arr(p), eps)), n, 0);
    double f2 = n * n / (2.0 * (n + 1) * (n + 1) * eps);
    auto want = apply(s, [&](double l) { return f2 * std::fabs(l); });
    REQ(big(got - want) <= 1e-8 * f2 * (1 + big(s)), "hessian", "the Hessian %s with eps %g gives %s, expected %s", str(s).c_str(), eps, str(got).c_str(), str(want).c_str());
  }
  c.exec();
  c.state(mc::Hash().add(i).h);
}
// ---- several metrics
template <Int n>
static void sets(mc::Ctx& c) {
  C = &c;
  static vector<Sym> f;
  if (f.empty()) {
    f = family(n, {0.01, 1, 25}, n == 3 ? (c.thorough() ? 14 : 6) : frames(n, false));
    f.push_back(Sym(n));
  }
  auto log_of = [](Sym const& s) { return apply(s, [](double l) { return std::log(l); }); };
  auto exp_of = [](Sym const& s) { return apply(s, [](double l) { return std::exp(l); }); };
  int i = c.choose(int(f.size())), j = c.choose(int(f.size()));
  if (j % 8 == 0) c.split();
  int k = (i * 7 + j * 3) % int(f.size()), l = (i + 5 * j + 11) % int(f.size());
  Few<Tensor<n>, 4> ms;
  int ids[4] = {i, j, k, l};
  for (Int a = 0; a < 4; ++a) ms[a] = lib_of<n>(f[size_t(ids[a])]);
  bool degen = false;
  Sym sum(n);
  int good = 0;
  double top = 0, topdet = -1;
  int det_at = 0;
  for (int a = 0; a < 4; ++a) {
    auto& s = f[size_t(ids[a])];
    double d = big(s) == 0 ? 0 : prod(s);
    if (d > topdet * (1 + 1e-9) + 1e-12) {
      topdet = d;
      det_at = a;
    }
    if (big(s) == 0) {
      degen = true;
      continue;
    }
    sum = sum + log_of(s);
    ++good;
    top = std::max(top, big(s));
  }
  auto want = good ? exp_of(scaled(sum, 1.0 / good)) : Sym(n);
  for (int perm = 0; perm < 4; ++perm) {
    Few<Tensor<n>, 4> q;
    for (Int a = 0; a < 4; ++a) q[a] = ms[(a + perm) % 4];
    auto got = of<n>(oh::average_metric(q, true));
    REQ(big(got - want) <= 1e-7 * top, "average", "the average of metrics %s is %s, expected %s", str(vector<int>(ids, ids + 4)).c_str(), str(got).c_str(), str(want).c_str());
    if (!degen) {
      got = of<n>(oh::average_metric(q, false));
      REQ(big(got - want) <= 1e-7 * top, "average", "the average of metrics %s is %s, expected %s", str(vector<int>(ids, ids + 4)).c_str(), str(got).c_str(), str(want).c_str());
    }
  }
  auto md = of<n>(oh::maxdet_metric(ms));
  double mdd = big(md) == 0 ? 0 : prod(md);
  bool one = false;
  for (int a = 0; a < 4; ++a) one |= big(md - f[size_t(ids[a])]) == 0;
  REQ(one && std::fabs(mdd - topdet) <= 1e-9 * topdet, "maxdet", "of metrics %s the one of least volume is not %s (%d)", str(vector<int>(ids, ids + 4)).c_str(), str(md).c_str(), det_at);
  // arrays
  vector<double> pa, pb, all;
  vector<int> in;
  for (int a = 0; a < 3; ++a) {
    if (big(f[size_t(ids[a])]) == 0 || big(f[size_t(ids[a + 1])]) == 0) continue;
    pack(pa, f[size_t(ids[a])]);
    pack(pb, f[size_t(ids[a + 1])]);
    in.push_back(a);
  }
  LO cnt = LO(in.size());
  REQ(cnt == 0 || oh::get_metrics_dim(cnt, arr(pa)) == n, "metrics-dim", "dimension %d", oh::get_metrics_dim(cnt, arr(pa)));
  REQ(oh::get_metric_dim(comps(n)) == n, "metric-dim", "dimension %d", oh::get_metric_dim(comps(n)));
  auto lin = vec(oh::linearize_metrics(cnt, arr(pa)));
  auto del = vec(oh::delinearize_metrics(cnt, arr(lin)));
  auto inter = vec(oh::intersect_metrics(cnt, arr(pa), arr(pb)));
  auto cl = vec(oh::clamp_metrics(cnt, arr(pa), 0.3, 2.0));
  REQ(lin.size() == pa.size() && del.size() == pa.size() && inter.size() == pa.size() && cl.size() == pa.size(), "array-size", "a result has the wrong size");
  for (size_t a = 0; a < in.size(); ++a) {
    auto &x = f[size_t(ids[in[a]])], &y = f[size_t(ids[in[a] + 1])];
    REQ(big(unpack(lin, n, a) - log_of(x)) <= 1e-7, "linearize-array", "item %zu", a);
    REQ(big(unpack(del, n, a) - x) <= 1e-7 * big(x), "delinearize-array", "item %zu", a);
    check_intersection(x, y, unpack(inter, n, a), 1e-7, "the intersection in an array");
    auto w = apply(x, [](double l) { return std::min(std::max(l, 0.25), 1 / 0.09); });
    REQ(big(unpack(cl, n, a) - w) <= 1e-7 * 25, "clamp-array", "item %zu is %s, expected %s", a, str(unpack(cl, n, a)).c_str(), str(w).c_str());
  }
  for (double t : {0.0, 0.25, 0.5, 1.0}) {
    auto between = vec(oh::interpolate_between_metrics(cnt, arr(pa), arr(pb), t));
    for (size_t a = 0; a < in.size(); ++a) {
      auto &x = f[size_t(ids[in[a]])], &y = f[size_t(ids[in[a] + 1])];
      auto w = exp_of(scaled(log_of(x), 1 - t) + scaled(log_of(y), t));
      REQ(big(unpack(between, n, a) - w) <= 1e-6 * std::max(big(x), big(y)), "between", "at %g between %s and %s is %s, expected %s", t, str(x).c_str(), str(y).c_str(), str(unpack(between, n, a)).c_str(), str(w).c_str());
    }
  }
  // sizes
  vector<double> h;
  for (int a = 0; a < 4; ++a) h.push_back(0.1 * (1 + ids[a]));
  auto iso = vec(oh::isos_from_lengths(arr(h)));
  auto hb = vec(oh::lengths_from_isos(arr(iso)));
  auto full = vec(oh::metrics_from_isos(n, arr(iso)));
  REQ(iso.size() == 4 && hb.size() == 4 && full.size() == size_t(4 * comps(n)), "isos", "sizes");
  for (size_t a = 0; a < 4; ++a) {
    REQ(std::fabs(iso[a] * h[a] * h[a] - 1) < 1e-13 && std::fabs(hb[a] - h[a]) < 1e-13 * h[a], "isos", "length %g becomes %.17g and back %.17g", h[a], iso[a], hb[a]);
    auto s = unpack(full, n, a);
    for (int p = 0; p < n; ++p)
      for (int q = 0; q < n; ++q) REQ(s.a[p][q] == (p == q ? iso[a] : 0), "metrics-from-isos", "iso %g gives %s", iso[a], str(s).c_str());
  }
  for (int a : {1, 2, 3}) REQ(std::fabs(oh::get_metric_scalar_for_nelems(a, h[0], h[1]) - std::pow(h[1] / h[0], 2.0 / a)) <= 1e-12 * std::pow(h[1] / h[0], 2.0 / a), "scalar", "dimension %d", a);
  c.exec();
  c.state(mc::Hash().add(i).add(j).h);
}

// ---- size fields of meshes
static Sym sym_at(Field const& f, int dim, int v) { return unpack(f.v, f.nc == 1 ? 1 : dim, size_t(v)); }
static Field field_of(vector<Sym> const& s) {
  Field f;
  f.nc = comps(s[0].n);
  for (auto& x : s) pack(f.v, x);
  return f;
}
static Sym log_of(Sym const& s) { return apply(s, [](double l) { return std::log(l); }); }
static Sym exp_of(Sym const& s) { return apply(s, [](double l) { return std::exp(l); }); }
static double volume(MeshCase const& m, vector<int> const& e) {
  auto& a = m.x[size_t(e[0])];
  double b[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  for (int i = 0; i < m.s.dim; ++i)
    for (int j = 0; j < 3; ++j) b[i][j] = m.x[size_t(e[size_t(i) + 1])][size_t(j)] - a[size_t(j)];
  double det = 0;
  for (int i = 0; i < 3; ++i) det += b[0][i] * (b[1][(i + 1) % 3] * b[2][(i + 2) % 3] - b[1][(i + 2) % 3] * b[2][(i + 1) % 3]);
  return det / (m.s.dim == 3 ? 6 : m.s.dim == 2 ? 2 : 1);
}
static double const typical[] = {0, 1, 0.377645136635, 0.0838934100219};
static vector<Sym> elem_metrics(MeshCase const& m, vector<Sym> const& v) {
  vector<Sym> r;
  for (auto& e : m.s.elems) {
    Sym s(v[0].n);
    for (int i : e) s = s + log_of(v[size_t(i)]);
    r.push_back(exp_of(scaled(s, 1.0 / double(e.size()))));
  }
  return r;
}
static vector<Sym> vert_metrics(MeshCase const& m, vector<Sym> const& e) {
  vector<Sym> r(size_t(m.s.nverts), Sym(e[0].n));
  vector<int> cnt(size_t(m.s.nverts), 0);
  for (size_t i = 0; i < e.size(); ++i)
    for (int v : m.s.elems[i]) {
      r[size_t(v)] = r[size_t(v)] + log_of(e[i]);
      ++cnt[size_t(v)];
    }
  for (size_t v = 0; v < r.size(); ++v) r[v] = exp_of(scaled(r[v], 1.0 / cnt[v]));
  return r;
}
static vector<double> complexities(MeshCase const& m, vector<Sym> const& v) {
  auto em = elem_metrics(m, v);
  vector<double> r;
  for (size_t e = 0; e < em.size(); ++e) r.push_back(volume(m, m.s.elems[e]) * std::pow(prod(em[e]), 0.5 * m.s.dim / v[0].n));
  return r;
}
static double total(vector<double> const& v) {
  double s = 0;
  for (double x : v) s += x;
  return s;
}
// the metric in which all edges of an element have unit length
static Sym implied(MeshCase const& m, vector<int> const& e) {
  int n = m.s.dim, k = comps(n);
  double a[6][7] = {};
  int row = 0;
  for (size_t i = 0; i < e.size(); ++i)
    for (size_t j = 0; j < i; ++j, ++row) {
      double d[3];
      for (int t = 0; t < 3; ++t) d[t] = m.x[size_t(e[i])][size_t(t)] - m.x[size_t(e[j])][size_t(t)];
      for (int p = 0; p < n; ++p)
        for (int q = 0; q <= p; ++q) a[row][slot(n, p, q)] = d[p] * d[q] * (p == q ? 1 : 2);
      a[row][6] = 1;
    }
  for (int p = 0; p < k; ++p) {
    int best = p;
    for (int r = p; r < k; ++r)
      if (std::fabs(a[r][p]) > std::fabs(a[best][p])) best = r;
    std::swap(a[p], a[best]);
    for (int r = 0; r < k; ++r)
      if (r != p) {
        double f = a[r][p] / a[p][p];
        for (int t = 0; t < 7; ++t) a[r][t] -= f * a[p][t];
      }
  }
  vector<double> x;
  for (int p = 0; p < k; ++p) x.push_back(a[p][6] / a[p][p]);
  return unpack(x, n, 0);
}
static double equilateral(int n) { return n == 3 ? std::sqrt(2.0) / 12 : n == 2 ? std::sqrt(3.0) / 4 : 1; }
static void compare(Field const& got, vector<Sym> const& want, double tol, char const* key) {
  REQ(got.nc == comps(want[0].n), key, "%d components, expected %d", got.nc, comps(want[0].n));
  for (size_t v = 0; v < want.size(); ++v) {
    auto g = unpack(got.v, want[v].n, v);
    REQ(big(g - want[v]) <= tol * big(want[v]), key, "vertex %zu has %s, expected %s", v, str(g).c_str(), str(want[v]).c_str());
  }
}
// vertex metrics number `k`: combinations of sizes and directions
static vector<Sym> some_metrics(MeshCase const& m, int k, bool iso) {
  vector<Sym> r;
  double sc = dist_of(m.x[0], m.x[1]);
  for (int v = 0; v < m.s.nverts; ++v) {
    int n = iso ? 1 : m.s.dim;
    double q[3][3];
    frame(n, iso ? 0 : (v * (k % 5) + k) % frames(n, false), q);
    Sym s(n);
    for (int a = 0; a < n; ++a) {
      double h = sc * (0.4 + 0.35 * ((v * (k + 1) + a * (k % 3)) % 4));
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) s.a[i][j] += q[a][i] * q[a][j] / (h * h);
    }
    r.push_back(s);
  }
  return r;
}

struct Boxes {
  int dim, nx, ny, nz;
};
static vector<Boxes> const boxes = {{1, 3, 0, 0}, {2, 1, 1, 0}, {2, 2, 1, 0}, {2, 2, 2, 0}, {3, 1, 1, 1}, {3, 2, 1, 1}};

static void densities(mc::Ctx& c, int which) {
  C = &c;
  auto& b = boxes[size_t(which)];
  int shape = c.choose(4);
  auto m = box_case(b.dim, b.nx, b.ny, b.nz, shape);
  int k = c.choose(c.thorough() ? 12 : 4);
  bool iso = c.flip();
  int n = 1 + c.choose(3);
  c.split();
  int parting = c.choose(4);
  auto owner = owners_of(c, int(m.s.elems.size()), n);
  if (c.describing()) c.note("shape %d, metrics %d %s, on %d ranks %s, %s", shape, k, iso ? "isotropic" : "full", n, ::str(owner).c_str(), parting_name[parting]);
  auto v = some_metrics(m, k, iso);
  auto f = field_of(v);
  auto want = complexities(m, v);
  double all = total(want);
  // one rank decides the exact value
  static std::map<vector<int>, double> alone;
  double* exact = nullptr;
  vector<int> key = {which, shape, k, iso};
  if (!alone.count(key)) alone[key] = NAN;
  exact = &alone[key];
  auto body = [&](oh::Mesh& mesh) -> Reals {
    auto lv = local(mesh, f);
    minimpi::require(mesh.nverts() == 0 || oh::get_metrics_dim(mesh.nverts(), arr(lv)) == v[0].n, "metrics-dim", "dimension");
    auto ce = vec(oh::get_complexity_per_elem(&mesh, arr(lv)));
    auto ne = vec(oh::get_nelems_per_elem(&mesh, arr(lv)));
    auto ev = mk::verts_of(mesh, mesh.dim());
    auto vg = vec(mesh.globals(0));
    minimpi::require(ce.size() == ev.size() && ne.size() == ev.size(), "complexity-size", "%zu values for %zu elements", ce.size(), ev.size());
    std::map<vector<int>, size_t> id;
    for (size_t e = 0; e < m.s.elems.size(); ++e) {
      auto w = m.s.elems[e];
      std::sort(w.begin(), w.end());
      id[w] = e;
    }
    for (size_t e = 0; e < ev.size(); ++e) {
      vector<int> w;
      for (int i : ev[e]) w.push_back(int(vg[size_t(i)]));
      std::sort(w.begin(), w.end());
      double x = want[id.at(w)];
      minimpi::require(std::fabs(ce[e] - x) <= 1e-7 * x && std::fabs(ne[e] * typical[b.dim] - x) <= 1e-7 * x, "complexity", "element %s has complexity %.17g and %.17g elements, expected %.17g", ::str(w).c_str(), ce[e],
          ne[e], x);
    }
    double t = oh::get_complexity(&mesh, arr(lv)), en = oh::get_expected_nelems(&mesh, arr(lv));
    minimpi::require(std::fabs(t - all) <= 1e-7 * all, "complexity-sum", "the complexity is %.17g, expected %.17g", t, all);
    minimpi::require(std::fabs(en * typical[b.dim] - all) <= 1e-7 * all, "expected-nelems", "%.17g elements expected, not %.17g", en, all / typical[b.dim]);
    minimpi::require(en == oh::get_expected_nelems_from_complexity(t, b.dim), "expected-nelems", "two answers");
    if (std::isnan(*exact)) *exact = t;
    minimpi::require(t == *exact, "complexity-distribution", "the complexity is %.17g, %.17g in another distribution", t, *exact);
    for (double target : {3.0, 1000.0}) {
      double sc = oh::get_metric_scalar_for_nelems(&mesh, arr(lv), target);
      auto more = lv;
      for (auto& x : more) x *= sc;
      double now = oh::get_expected_nelems(&mesh, arr(more));
      minimpi::require(std::fabs(now - target) <= 1e-7 * target, "target", "scaled to %g elements the metrics expect %.17g", target, now);
    }
    return arr(lv);
  };
  run_on(c, m, n, owner, parting, body);
  // interpolated to entities
  if (n == 1) {
    auto ents = [&](oh::Mesh& mesh) -> Reals {
      auto lv = local(mesh, f);
      for (int d : {1, b.dim}) {
        auto got = vec(oh::get_mident_metrics(&mesh, d, arr(lv)));
        auto ev = mk::verts_of(mesh, d);
        auto some = vec(oh::get_mident_metrics(&mesh, d, arr(vector<LO>{mesh.nents(d) - 1, 0}), arr(lv), true));
        minimpi::require(got.size() == ev.size() * size_t(f.nc) && some.size() == 2 * size_t(f.nc), "mident-size", "sizes");
        for (size_t e = 0; e < ev.size(); ++e) {
          Sym s(v[0].n);
          for (int i : ev[e]) s = s + log_of(v[size_t(i)]);
          s = exp_of(scaled(s, 1.0 / double(ev[e].size())));
          minimpi::require(big(unpack(got, s.n, e) - s) <= 1e-7 * big(s), "mident", "entity %zu of dimension %d has %s, expected %s", e, d, str(unpack(got, s.n, e)).c_str(), str(s).c_str());
          if (e == 0 || e + 1 == ev.size()) {
            auto t = unpack(some, s.n, e == 0);
            minimpi::require(big(t - s) <= 1e-7 * big(s), "mident-some", "entity %zu of dimension %d of a list has %s, expected %s", e, d, str(t).c_str(), str(s).c_str());
          }
        }
      }
      return arr(lv);
    };
    run_on(c, m, 1, owner, 0, ents);
  }
  c.exec();
  c.state(mc::Hash().add(which).add(shape).add(k).add(iso).add(n).add(parting).add(hash_of(owner)).h);
}
static void projections(mc::Ctx& c, int which) {
  C = &c;
  auto& b = boxes[size_t(which)];
  int shape = c.choose(4);
  auto m = box_case(b.dim, b.nx, b.ny, b.nz, shape);
  int k = c.choose(c.thorough() ? 12 : 4);
  int n = 1 + c.choose(3);
  c.split();
  int parting = 1 + c.choose(c.thorough() ? 3 : 2);
  auto owner = owners_of(c, int(m.s.elems.size()), n);
  if (c.describing()) c.note("shape %d, metrics %d, on %d ranks %s, %s", shape, k, n, ::str(owner).c_str(), parting_name[parting]);
  vector<Sym> em;
  for (auto& e : m.s.elems) em.push_back(implied(m, e));
  auto pure = vert_metrics(m, em);
  double f2 = std::pow(typical[b.dim] / equilateral(b.dim), 2.0 / b.dim);
  vector<Sym> sized, isos, pisos;
  for (auto& s : pure) {
    sized.push_back(scaled(s, f2));
    Sym i(1);
    i.a[0][0] = std::pow(prod(s), 1.0 / b.dim);
    pisos.push_back(i);
    isos.push_back(scaled(i, f2));
  }
  compare(run_on(c, m, n, owner, parting, [&](oh::Mesh& x) { return oh::get_pure_implied_metrics(&x); }), pure, 1e-7, "pure-implied");
  compare(run_on(c, m, n, owner, parting, [&](oh::Mesh& x) { return oh::get_implied_metrics(&x); }), sized, 1e-7, "implied");
  compare(run_on(c, m, n, owner, parting, [&](oh::Mesh& x) { return oh::get_pure_implied_isos(&x); }), pisos, 1e-7, "pure-implied-isos");
  compare(run_on(c, m, n, owner, parting, [&](oh::Mesh& x) { return oh::get_implied_isos(&x); }), isos, 1e-7, "implied-isos");
  auto tags = [&](bool full, bool target) {
    return [full, target](oh::Mesh& x) -> Reals {
      if (target) {
        x.add_tag<Real>(0, "target_metric", full ? oh::symm_ncomps(x.dim()) : 1, Reals(x.nverts() * (full ? oh::symm_ncomps(x.dim()) : 1), 1.0));
        oh::add_implied_metric_based_on_target(&x);
      } else if (full)
        oh::add_implied_metric_tag(&x);
      else
        oh::add_implied_isos_tag(&x);
      minimpi::require(oh::get_metric_dim(&x) == (full || x.nverts() == 0 ? x.get_tagbase(0, "metric")->ncomps() == 1 ? 1 : x.dim() : 1), "metric-dim", "dimension");
      return x.get_array<Real>(0, "metric");
    };
  };
  compare(run_on(c, m, n, owner, parting, tags(true, false)), sized, 1e-7, "implied-tag");
  compare(run_on(c, m, n, owner, parting, tags(false, false)), isos, 1e-7, "implied-isos-tag");
  compare(run_on(c, m, n, owner, parting, tags(true, true)), sized, 1e-7, "implied-target");
  if (b.dim > 1) compare(run_on(c, m, n, owner, parting, tags(false, true)), isos, 1e-7, "implied-isos-target");
  for (bool iso : {false, true}) {
    auto v = some_metrics(m, k, iso);
    auto f = field_of(v);
    auto w = vert_metrics(m, elem_metrics(m, v));
    compare(run_on(c, m, n, owner, parting, [&](oh::Mesh& x) { return oh::smooth_metric_once(&x, arr(local(x, f))); }), w, 1e-7, "smooth");
    // some vertices without a metric
    auto hole = v;
    for (size_t i = 0; i < hole.size(); ++i)
      if ((i + size_t(k)) % 3 == 0) hole[i] = Sym(v[0].n);
    vector<Sym> he;
    for (auto& e : m.s.elems) {
      Sym s(v[0].n);
      int cnt = 0;
      for (int i : e)
        if (big(hole[size_t(i)]) > 0) {
          s = s + log_of(hole[size_t(i)]);
          ++cnt;
        }
      he.push_back(cnt ? exp_of(scaled(s, 1.0 / cnt)) : s);
    }
    vector<Sym> hv;
    for (int i = 0; i < m.s.nverts; ++i) {
      Sym s(v[0].n);
      int cnt = 0;
      for (size_t e = 0; e < he.size(); ++e)
        if (std::count(m.s.elems[e].begin(), m.s.elems[e].end(), i) && big(he[e]) > 0) {
          s = s + log_of(he[e]);
          ++cnt;
        }
      hv.push_back(cnt ? exp_of(scaled(s, 1.0 / cnt)) : s);
    }
    auto hf = field_of(hole);
    compare(run_on(c, m, n, owner, parting, [&](oh::Mesh& x) { return oh::smooth_metric_once(&x, arr(local(x, hf)), true); }), hv, 1e-7, "smooth-holes");
  }
  c.exec();
  c.state(mc::Hash().add(which).add(shape).add(k).add(n).add(parting).add(hash_of(owner)).h);
}
// ---- limiting how fast sizes change
static vector<double> graded(MeshCase const& m, vector<double> h, double rate) {
  for (bool any = true; any;) {
    any = false;
    for (auto& e : m.edges) {
      double d = rate * dist_of(m.x[size_t(e.first)], m.x[size_t(e.second)]);
      auto relax = [&](int a, int b) {
        if (h[size_t(a)] + d < h[size_t(b)] * (1 - 1e-14)) {
          h[size_t(b)] = h[size_t(a)] + d;
          any = true;
        }
      };
      relax(e.first, e.second);
      relax(e.second, e.first);
    }
  }
  return h;
}
static void gradations(mc::Ctx& c, int which) {
  C = &c;
  auto& b = boxes[size_t(which)];
  int shape = c.choose(4);
  auto m = box_case(b.dim, b.nx, b.ny, b.nz, shape);
  double sc = shape == 3 ? 1e-3 : 1;
  static double const rates[] = {0.1, 0.7, 3.0};
  double rate = rates[c.choose(3)];
  int kind = c.choose(b.dim > 1 ? 3 : 1);  // isotropic, isotropic tensors, tensors
  c.split();
  int n = 1 + c.choose(3);
  int parting = 1 + c.choose(3);
  // sizes: small ones at up to two vertices, or a pattern
  int v1 = c.choose(m.s.nverts);
  int v2 = c.thorough() || m.s.nverts <= 6 ? c.choose(m.s.nverts) : (v1 + c.choose(2) * (m.s.nverts / 2)) % m.s.nverts;
  vector<int> owner(m.s.elems.size(), 0);
  if (n > 1) {
    int k = c.choose(c.thorough() ? 4 : 2);
    int ne = int(owner.size());
    for (int e = 0; e < ne; ++e) owner[size_t(e)] = k == 0 ? e * n / ne : k == 1 ? e % n : k == 2 ? (e == ne / 2) : (e * e + 1) % n;
  }
  if (c.describing()) c.note("shape %d, rate %g, kind %d, small at %d and %d, on %d ranks %s, %s", shape, rate, kind, v1, v2, n, ::str(owner).c_str(), parting_name[parting]);
  vector<double> h(size_t(m.s.nverts), 5 * sc);
  h[size_t(v1)] = 0.05 * sc;
  h[size_t(v2)] = 0.3 * sc;
  vector<Sym> v;
  for (int i = 0; i < m.s.nverts; ++i) {
    int nn = kind == 0 ? 1 : b.dim;
    Sym s(nn);
    double q[3][3];
    frame(nn, kind == 2 ? i % frames(nn, false) : 0, q);
    for (int a = 0; a < nn; ++a)
      for (int p = 0; p < nn; ++p)
        for (int r = 0; r < nn; ++r) s.a[p][r] += q[a][p] * q[a][r] / (h[size_t(i)] * h[size_t(i)]) * (kind == 2 && a == 0 ? 0.25 : 1);
    v.push_back(s);
  }
  auto f = field_of(v);
  double tol = kind == 2 ? 1e-4 : 1e-12;
  auto got = run_on(c, m, n, owner, parting, [&](oh::Mesh& x) { return oh::limit_metric_gradation(&x, arr(local(x, f)), rate, tol, false); }, true);
  if (kind < 2) {
    auto w = graded(m, h, rate);
    vector<Sym> want;
    for (double x : w) {
      Sym s(v[0].n);
      for (int a = 0; a < s.n; ++a) s.a[a][a] = 1 / (x * x);
      want.push_back(s);
    }
    compare(got, want, kind == 0 ? 1e-10 : 1e-4, "gradation");
  } else {
    for (int i = 0; i < m.s.nverts; ++i) {
      auto g = sym_at(got, b.dim, i);
      REQ(least(g - v[size_t(i)]) >= -1e-3 * big(g), "gradation-covers", "vertex %d has %s, coarser than the %s it had", i, str(g).c_str(), str(v[size_t(i)]).c_str());
    }
    for (auto& e : m.edges)
      for (int way = 0; way < 2; ++way) {
        int a = way ? e.first : e.second, t = way ? e.second : e.first;
        auto ga = sym_at(got, b.dim, a), gt = sym_at(got, b.dim, t);
        double len = 0;
        for (int p = 0; p < b.dim; ++p)
          for (int q = 0; q < b.dim; ++q) len += ga.a[p][q] * (m.x[size_t(a)][size_t(p)] - m.x[size_t(t)][size_t(p)]) * (m.x[size_t(a)][size_t(q)] - m.x[size_t(t)][size_t(q)]);
        double fac = 1 / ((1 + rate * std::sqrt(len)) * (1 + rate * std::sqrt(len)));
        REQ(least(gt - scaled(ga, fac)) >= -1e-3 * big(gt), "graded", "vertex %d has %s next to vertex %d with %s", t, str(gt).c_str(), a, str(ga).c_str());
      }
    // from one rank alone
    static std::map<vector<int>, Field> alone;
    vector<int> key = {which, shape, int(rate * 100), v1, v2};
    if (!alone.count(key)) {
      if (alone.size() > 2000) alone.clear();
      alone[key] = run_on(c, m, 1, vector<int>(m.s.elems.size(), 0), parting, [&](oh::Mesh& x) { return oh::limit_metric_gradation(&x, arr(local(x, f)), rate, tol, false); }, true);
    }
    auto& one = alone[key];
    for (size_t i = 0; i < one.v.size(); ++i)
      REQ(std::fabs(one.v[i] - got.v[i]) <= 1e-9 * big(sym_at(one, b.dim, int(i) / one.nc)), "gradation-distribution", "component %zu is %.17g, on one rank %.17g", i, got.v[i], one.v[i]);
  }
  c.exec();
  c.state(mc::Hash().add(which).add(shape).add(rate).add(kind).add(v1).add(v2).add(n).add(parting).add(hash_of(owner)).h);
}
// ---- whole size fields from sources and limits
static Sym intersection_of(Sym const& a, Sym const& b) {
  auto r = apply(a, [](double l) { return std::sqrt(l); }), i = apply(a, [](double l) { return 1 / std::sqrt(l); });
  return r * apply(i * b * i, [](double l) { return std::max(l, 1.0); }) * r;
}
static void generated(mc::Ctx& c, int which) {
  C = &c;
  auto& b = boxes[size_t(which)];
  int shape = c.choose(3);
  auto m = box_case(b.dim, b.nx, b.ny, b.nz, shape);
  vector<Sym> em;
  for (auto& e : m.s.elems) em.push_back(implied(m, e));
  auto impl = vert_metrics(m, em);
  for (auto& s : impl) s = scaled(s, std::pow(typical[b.dim] / equilateral(b.dim), 2.0 / b.dim));
  auto given = some_metrics(m, 2 + shape, false);
  oh::MetricInput in;
  in.verbose = false;
  // one or two sources
  int ns = 1 + c.flip();
  vector<vector<Sym>> src;
  vector<bool> scales;
  int mdim = 1;
  string what;
  for (int i = 0; i < ns; ++i) {
    int type = c.choose(3);
    static double const knobs[] = {1, 0.3, 2};
    double knob = knobs[(i && !c.thorough() ? type % 2 : c.choose(2)) + i];
    auto iso = Omega_h_Isotropy(OMEGA_H_ANISOTROPIC + (type == 0 ? 0 : c.choose(i && !c.thorough() ? 2 : 3)));
    bool sc = c.flip();
    if (i == 0) c.split();
    oh::MetricSource s{type == 0 ? OMEGA_H_CONSTANT : type == 1 ? OMEGA_H_GIVEN : OMEGA_H_IMPLIED, knob, "given"};
    s.isotropy = iso;
    s.scales = sc ? OMEGA_H_SCALES : OMEGA_H_ABSOLUTE;
    in.add_source(s);
    vector<Sym> f;
    if (type == 0) {
      Sym z(1);
      z.a[0][0] = 1 / (knob * knob);
      f.assign(size_t(m.s.nverts), z);
    } else {
      f = type == 1 ? given : impl;
      for (auto& z : f) {
        z = scaled(z, 1 / (knob * knob));
        if (iso != OMEGA_H_ANISOTROPIC) {
          Sym y(1);
          y.a[0][0] = iso == OMEGA_H_ISO_LENGTH ? most(z) : std::pow(prod(z), 1.0 / z.n);
          z = y;
        }
      }
    }
    if (f[0].n == b.dim) mdim = b.dim;
    src.push_back(f);
    scales.push_back(sc);
    what += string(i ? ", " : "") + (type == 0 ? "constant" : type == 1 ? "given" : "implied") + " x " + std::to_string(knob) + (iso == OMEGA_H_ANISOTROPIC ? "" : iso == OMEGA_H_ISO_LENGTH ? " by length" : " by size") + (sc ? " scaled" : "");
  }
  for (auto& f : src)
    for (auto& z : f)
      if (z.n < mdim) {
        Sym y(mdim);
        for (int a = 0; a < mdim; ++a) y.a[a][a] = z.a[0][0];
        z = y;
      }
  bool lengths = c.flip(), count = false;
  if (lengths) {
    in.should_limit_lengths = true;
    in.min_length = 0.5;
    in.max_length = 1.1;
  } else {  // meaningless unless lengths are limited
    in.min_length = 3;
    in.max_length = 2;
  }
  double lo = 0, hi = 0;
  if (!lengths && std::count(scales.begin(), scales.end(), true) == ns) {
    int k = c.choose(4);
    count = k > 0;
    lo = k == 1 ? 0.9 : k == 2 ? 900 : 5.1;
    hi = k == 1 ? 3.7 : k == 2 ? 2000 : 60;
  }
  if (count) {
    in.should_limit_element_count = true;
    in.min_element_count = lo;
    in.max_element_count = hi;
  }
  in.nsmoothing_steps = c.choose(2) * (c.thorough() ? 1 + c.choose(2) : 1);
  bool grade = mdim == 1 && c.flip();
  if (grade) {
    in.should_limit_gradation = true;
    in.max_gradation_rate = 0.25;
    in.gradation_convergence_tolerance = 1e-12;
  }
  int n = 1 + c.choose(2);
  int parting = 2;
  auto owner = vector<int>(m.s.elems.size(), 0);
  for (size_t e = 0; e < owner.size(); ++e) owner[e] = int(e % size_t(n));
  if (c.describing())
    c.note("shape %d, %s%s%s, %d smoothings%s, on %d ranks", shape, what.c_str(), lengths ? ", lengths limited" : "", count ? (", " + std::to_string(lo) + " to " + std::to_string(hi) + " elements").c_str() : "", in.nsmoothing_steps,
        grade ? ", graded" : "", n);
  // the same by definition
  double scalar = 1;
  vector<Sym> want;
  for (int it = 0;; ++it) {
    REQ(it < 200, "harness", "the count does not converge");
    for (int i = 0; i < ns; ++i)
      for (size_t v = 0; v < src[size_t(i)].size(); ++v) {
        auto z = src[size_t(i)][v];
        if (scales[size_t(i)]) z = scaled(z, scalar);
        if (lengths) z = apply(z, [](double l) { return std::min(std::max(l, 1 / 1.21), 4.0); });
        if (i == 0 && v == 0) want.clear();
        if (i)
          want[v] = intersection_of(want[v], z);
        else
          want.push_back(z);
      }
    for (int s = 0; s < in.nsmoothing_steps; ++s) want = vert_metrics(m, elem_metrics(m, want));
    if (grade) {
      vector<double> h;
      for (auto& z : want) h.push_back(1 / std::sqrt(z.a[0][0]));
      h = graded(m, h, 0.25);
      for (size_t v = 0; v < h.size(); ++v) want[v].a[0][0] = 1 / (h[v] * h[v]);
    }
    if (!count) break;
    double ne = total(complexities(m, want)) / typical[b.dim];
    if (ne > hi)
      scalar *= std::pow(hi / ne, 2.0 / b.dim) / 1.1;
    else if (ne < lo)
      scalar *= std::pow(lo / ne, 2.0 / b.dim) * 1.1;
    else
      break;
  }
  auto gf = field_of(given);
  for (int how = 0; how < 3; ++how) {
    auto got = run_on(c, m, n, owner, parting, [&](oh::Mesh& x) {
      x.add_tag<Real>(0, "given", gf.nc, arr(local(x, gf)));
      if (how == 1) {
        oh::generate_metric_tag(&x, in);
        return x.get_array<Real>(0, "metric");
      }
      if (how == 2) {
        oh::generate_target_metric_tag(&x, in);
        return x.get_array<Real>(0, "target_metric");
      }
      return oh::generate_metrics(&x, in);
    });
    compare(got, want, 2e-4, how == 0 ? "generated" : "generated-tag");
  }
  c.exec();
  c.state(mc::Hash().add(which).add(shape).add(what).add(lengths).add(lo).add(in.nsmoothing_steps).add(grade).add(n).h);
}
// ---- curvature: turning, scaling and renumbering the mesh does the same to its metric
static void turned(double const (&q)[3][3], P3& p) {
  P3 r{{0, 0, 0}};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r[size_t(i)] += q[i][j] * p[size_t(j)];
  p = r;
}
static MeshCase curved(int dim, int k, int shape, vector<vector<int>>& cdim) {
  MeshCase m = box_case(dim, k, k, dim == 3 ? 2 : 0, 0);
  // classification of the box
  int top[3] = {k, k, 2};
  auto m0 = m;
  for (int d = 0; d <= dim; ++d) {
    vector<int> cd;
    for (auto& e : m.s.ents(d)) {
      int sides = 0;
      for (int a = 0; a < dim; ++a) {
        bool lo = true, hi = true;
        for (int v : e) {
          lo &= m0.x[size_t(v)][size_t(a)] == 0;
          hi &= m0.x[size_t(v)][size_t(a)] == top[a];
        }
        sides += lo || hi;
      }
      cd.push_back(dim - sides);
    }
    cdim.push_back(cd);
  }
  for (auto& p : m.x) {
    double u = p[0] / k - 0.5, v = p[1] / k - 0.5, w = p[2] / 2;
    if (shape == 0) {
      p = {{u, v, w}};
    } else if (shape == 1 && dim == 3) {  // a bent slab, curved along x + y/2
      double t = u + 0.5 * v, r = 2 + w;
      p = {{r * std::sin(t), 2 * v, r * std::cos(t)}};
    } else if (shape == 2 && dim == 3) {  // a saddle
      p = {{u, v, w + 0.7 * u * v + 0.3 * u * u}};
    } else if (shape == 3 && dim == 3) {
      double r = 3 + w;
      p = {{r * std::sin(u) * std::cos(v), r * std::sin(v), r * std::cos(u) * std::cos(v)}};
    } else if (shape == 1) {
      double r = 2 + v, t = 0.8 * u;
      p = {{r * std::sin(t), r * std::cos(t), 0}};
    } else if (shape == 2) {
      p = {{u + 0.1 * v * v, v + 0.3 * u * u * u - 0.2 * u, 0}};
    } else {
      double l = std::max(std::fabs(u), std::fabs(v)), g = std::sqrt(u * u + v * v);
      p = {{g > 0 ? u * l / g : 0, g > 0 ? v * l / g : 0, 0}};
    }
  }
  return m;
}
static void curvatures(mc::Ctx& c, int dim) {
  C = &c;
  int shape = c.choose(4);
  int k = 2 + c.choose(c.thorough() && dim == 2 ? 5 : 3);
  int turn = c.choose(c.thorough() ? 27 : 9);
  double sc = c.flip() ? 100 : 1;
  c.split();
  int n = 1 + c.choose(2);
  int renumber = c.choose(2);
  vector<vector<int>> cdim;
  auto m = curved(dim, k, shape, cdim);
  if (c.describing()) c.note("shape %d of %d cells, turn %d, scaled by %g, on %d ranks%s", shape, k, turn, sc, n, renumber ? ", renumbered" : "");
  std::map<vector<int>, int> cd;
  for (int d = 0; d <= dim; ++d) {
    int i = 0;
    for (auto& e : m.s.ents(d)) cd[vector<int>(e.begin(), e.end())] = cdim[size_t(d)][size_t(i++)];
  }
  double q[3][3];
  if (dim == 3)
    frame(3, turn, q);
  else {
    frame(2, turn, q);
    q[2][0] = q[2][1] = q[0][2] = q[1][2] = 0;
    q[2][2] = 1;
  }
  auto body = [&](std::map<vector<int>, int> const& cls) {
    return [&cls](oh::Mesh& x) -> Reals {
      auto vg = vec(x.globals(0));
      for (int d = 0; d <= x.dim(); ++d) {
        vector<oh::I8> a;
        for (auto& e : mk::verts_of(x, d)) {
          vector<int> w;
          for (int i : e) w.push_back(int(vg[size_t(i)]));
          std::sort(w.begin(), w.end());
          a.push_back(oh::I8(cls.at(w)));
        }
        x.add_tag<oh::I8>(d, "class_dim", 1, arr(a));
      }
      return oh::get_curvature_metrics(&x, 0.5);
    };
  };
  static std::map<vector<int>, Field> plain;
  vector<int> key = {dim, shape, k};
  if (!plain.count(key)) plain[key] = run_on(c, m, 1, vector<int>(m.s.elems.size(), 0), 2, body(cd));
  auto& base = plain[key];
  auto t = m;
  auto tcd = cd;
  vector<int> to;
  int nv = m.s.nverts;
  for (int v = 0; v < nv; ++v) to.push_back(renumber ? (v * 5 + 3) % nv : v);
  if (renumber) {
    std::set<int> s(to.begin(), to.end());
    if (int(s.size()) != nv)
      for (int v = 0; v < nv; ++v) to[size_t(v)] = nv - 1 - v;
    for (auto& e : t.s.elems)
      for (int& v : e) v = to[size_t(v)];
    std::reverse(t.s.elems.begin(), t.s.elems.end());
    for (int v = 0; v < nv; ++v) t.x[size_t(to[size_t(v)])] = m.x[size_t(v)];
    tcd.clear();
    for (auto& p : cd) {
      vector<int> w;
      for (int v : p.first) w.push_back(to[size_t(v)]);
      std::sort(w.begin(), w.end());
      tcd[w] = p.second;
    }
  }
  for (auto& p : t.x) {
    turned(q, p);
    for (auto& y : p) y *= sc;
  }
  vector<int> owner;
  for (size_t e = 0; e < t.s.elems.size(); ++e) owner.push_back(int(e * size_t(n) / t.s.elems.size()));
  auto got = run_on(c, t, n, owner, 2, body(tcd));
  REQ(got.nc == comps(dim) && base.nc == comps(dim), "curvature-size", "%d components", got.nc);
  double top = 0;
  for (int v = 0; v < nv; ++v) top = std::max(top, big(sym_at(base, dim, v)));
  for (int v = 0; v < nv; ++v) {
    auto a = sym_at(base, dim, v), g = sym_at(got, dim, to[size_t(v)]);
    Sym w(dim);
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j)
        for (int x = 0; x < dim; ++x)
          for (int y = 0; y < dim; ++y) w.a[i][j] += q[i][x] * a.a[x][y] * q[j][y] / (sc * sc);
    REQ(big(g - w) <= 1e-6 * (top + 1e-6) / (sc * sc), "curvature-turned", "vertex %d has %s, expected %s", v, str(g).c_str(), str(w).c_str());
    REQ(least(a) >= -1e-9 * top, "curvature-definite", "vertex %d has %s", v, str(a).c_str());
    if (shape == 0) REQ(big(a) < 1e-12, "curvature-flat", "vertex %d of a flat box has %s", v, str(a).c_str());
  }
  c.exec();
  c.state(mc::Hash().add(dim).add(shape).add(k).add(turn).add(sc).add(n).add(renumber).h);
}

// ---- curvature of what is inscribed in a circle or a sphere, where the discrete one is exact
static void inscribed(mc::Ctx& c, int dim) {
  C = &c;
  MeshCase m;
  VV ev;
  vector<int> corner;  // vertices classified on a point
  string what;
  if (dim == 2) {
    int n = 3 + c.choose(c.thorough() ? 6 : 3);
    vector<int> step;
    int sum = 0;
    for (int i = 0; i < n; ++i) {
      step.push_back(1 + c.choose(2));
      sum += step.back();
      what += char('0' + step.back());
    }
    c.split();
    int at = 0;
    for (int s : step) {
      if (2 * s >= sum) return;
      double t = 2 * M_PI * at / sum;
      m.x.push_back({{std::cos(t), std::sin(t), 0}});
      at += s;
    }
    m.x.push_back({{0.1, -0.15, 0}});
    for (int i = 0; i < n; ++i) ev.push_back({n, i, (i + 1) % n});
    corner.assign(size_t(n) + 1, 0);
    int k = c.choose(n);
    if (k) corner[0] = corner[size_t(k)] = 1;
    if (k) what += " with corners 0 and " + std::to_string(k);
  } else {
    int base = c.choose(5);
    int bent = c.choose(c.thorough() ? 12 : 5);
    c.split();
    auto& x = m.x;
    double g = (1 + std::sqrt(5.0)) / 2;
    if (base == 0)
      x = {P3{{1, 1, 1}}, P3{{1, -1, -1}}, P3{{-1, 1, -1}}, P3{{-1, -1, 1}}};
    else if (base == 1)
      for (int a = 0; a < 3; ++a)
        for (int s : {1, -1}) {
          P3 p{{0, 0, 0}};
          p[size_t(a)] = s;
          x.push_back(p);
        }
    else if (base == 2)
      for (int a = 0; a < 3; ++a)
        for (int s : {1, -1})
          for (int t : {1, -1}) {
            P3 p{{0, 0, 0}};
            p[size_t(a)] = s;
            p[size_t(a + 1) % 3] = t * g;
            x.push_back(p);
          }
    else {
      int n = base == 3 ? 3 : 5;
      for (int i = 0; i < n; ++i) x.push_back({{std::cos(2 * M_PI * i / n), std::sin(2 * M_PI * i / n), 0}});
      x.push_back({{0, 0, 1}});
      x.push_back({{0, 0, -1}});
    }
    auto unit = [](P3& p) {
      double l = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
      for (auto& y : p) y /= l;
    };
    for (auto& p : x) unit(p);
    // the faces of the hull
    int n = int(x.size());
    auto det = [](P3 const& a, P3 const& b, P3 const& d) { return a[0] * (b[1] * d[2] - b[2] * d[1]) - a[1] * (b[0] * d[2] - b[2] * d[0]) + a[2] * (b[0] * d[1] - b[1] * d[0]); };
    auto sub = [](P3 const& a, P3 const& b) { return P3{{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; };
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        for (int k = 0; k < n; ++k) {
          if (j <= i || k <= i || j == k) continue;
          bool hull = true;
          for (int l = 0; l < n && hull; ++l)
            if (l != i && l != j && l != k) hull = det(sub(x[size_t(j)], x[size_t(i)]), sub(x[size_t(k)], x[size_t(i)]), sub(x[size_t(l)], x[size_t(i)])) < 0;
          if (hull) ev.push_back({n, i, j, k});
        }
    // bent on the sphere
    for (auto& p : x) {
      p[0] *= 1 + 0.1 * (bent % 4);
      p[1] *= 1 - 0.07 * (bent / 2 % 3);
      p[2] += 0.05 * (bent % 5) + 0.03 * p[0] * (bent % 3);
      p[1] += 0.04 * (bent % 3) * p[2];
      unit(p);
    }
    x.push_back({{0.03, -0.02, 0.04}});
    corner.assign(size_t(n) + 1, 0);
    if (base && c.flip()) corner[0] = 1;
    what = "polyhedron " + std::to_string(base) + " bent " + std::to_string(bent) + (corner[0] ? " with a corner" : "");
  }
  m.s = soup(true, dim, ev);
  int nv = m.s.nverts, centre = nv - 1;
  REQ(nv == int(m.x.size()), "inscribed", "%d vertices are used of %zu", nv, m.x.size());
  int turn = c.choose(c.thorough() ? 9 : 3);
  double radius = c.flip() ? 100 : 1;
  int ranks = 1 + c.choose(2);
  double angle = c.flip() ? 0.25 : 0.5;
  double q[3][3];
  frame(dim, turn, q);
  if (dim == 2) {
    q[2][0] = q[2][1] = q[0][2] = q[1][2] = 0;
    q[2][2] = 1;
  }
  for (auto& p : m.x) {
    turned(q, p);
    for (auto& y : p) y *= radius;
  }
  if (c.describing()) c.note("%s inscribed in a sphere of radius %g, turn %d, on %d ranks, angle %g", what.c_str(), radius, turn, ranks, angle);
  vector<int> owner;
  for (size_t e = 0; e < m.s.elems.size(); ++e) owner.push_back(int(e * size_t(ranks) / m.s.elems.size()));
  for (int which = 0; which < 2; ++which) {
    auto got = run_on(c, m, ranks, owner, 2, [&](oh::Mesh& x) -> Reals {
      auto vg = vec(x.globals(0));
      for (int d = 0; d <= dim; ++d) {
        vector<oh::I8> a;
        for (auto& e : mk::verts_of(x, d)) {
          bool inner = d == dim;
          for (int i : e) inner |= vg[size_t(i)] == centre;
          a.push_back(oh::I8(inner ? dim : d == 0 && corner[size_t(vg[size_t(e[0])])] ? 0 : dim - 1));
        }
        x.add_tag<oh::I8>(d, "class_dim", 1, arr(a));
      }
      if (which == 0) return oh::get_curvature_metrics(&x, angle);
      return oh::get_vert_curvatures(&x, oh::get_surface_info(&x));
    });
    REQ(got.nc == (which == 0 ? comps(dim) : 1), "inscribed-size", "%d components", got.nc);
    for (int v = 0; v < nv; ++v) {
      double k = v == centre || corner[size_t(v)] ? 0 : 1 / radius;
      // only edges that end at corners: one of their two tangents is their own direction
      if (dim == 2 && v != centre && corner[size_t((v + 1) % centre)] && corner[size_t((v + centre - 1) % centre)]) k /= 2;
      if (which == 1) {
        REQ(std::fabs(got.v[size_t(v)] - k) <= 1e-8 / radius, "inscribed-curvature", "vertex %d has curvature %g, expected %g", v, got.v[size_t(v)], k);
        continue;
      }
      Sym w(dim);
      auto p = m.x[size_t(v)];
      double f = k * k / (angle * angle);
      for (int i = 0; i < dim; ++i)
        for (int j = 0; j < dim; ++j) w.a[i][j] = f * ((i == j) - p[size_t(i)] * p[size_t(j)] / (radius * radius));
      auto g = sym_at(got, dim, v);
      REQ(big(g - w) <= 1e-8 / (radius * radius), "inscribed-metric", "vertex %d has %s, expected %s", v, str(g).c_str(), str(w).c_str());
    }
  }
  c.exec();
  c.state(mc::Hash().add(what).add(turn).add(radius).add(ranks).add(angle).h);
}

// the rims of a cylinder: curves of a solid; its flat caps have none
static void rims(mc::Ctx& c) {
  C = &c;
  int n = 3 + c.choose(c.thorough() ? 4 : 2);
  vector<int> step;
  int sum = 0;
  string what;
  for (int i = 0; i < n; ++i) {
    step.push_back(1 + c.choose(2));
    sum += step.back();
    what += char('0' + step.back());
  }
  c.split();
  MeshCase m;
  for (int lid = 0; lid < 2; ++lid) {
    int at = 0;
    for (int s : step) {
      if (2 * s >= sum) return;
      double t = 2 * M_PI * at / sum;
      m.x.push_back({{std::cos(t), std::sin(t), double(lid)}});
      at += s;
    }
  }
  for (int lid = 0; lid < 2; ++lid) m.x.push_back({{0.1, -0.15, double(lid)}});
  VV ev;
  auto up = [&](int v) { return v < n ? v + n : 2 * n + 1; };
  for (int i = 0; i < n; ++i) {
    vector<int> b = {i, (i + 1) % n, 2 * n};
    std::sort(b.begin(), b.end());
    for (auto& e : VV{{b[0], b[1], b[2], up(b[2])}, {b[0], b[1], up(b[1]), up(b[2])}, {b[0], up(b[0]), up(b[1]), up(b[2])}}) {
      auto t = e;
      double d[3][3];
      for (int k = 0; k < 3; ++k)
        for (int a = 0; a < 3; ++a) d[k][a] = m.x[size_t(t[size_t(k) + 1])][size_t(a)] - m.x[size_t(t[0])][size_t(a)];
      double det = d[0][0] * (d[1][1] * d[2][2] - d[1][2] * d[2][1]) - d[0][1] * (d[1][0] * d[2][2] - d[1][2] * d[2][0]) + d[0][2] * (d[1][0] * d[2][1] - d[1][1] * d[2][0]);
      if (det < 0) std::swap(t[2], t[3]);
      ev.push_back(t);
    }
  }
  m.s = soup(true, 3, ev);
  int nv = m.s.nverts;
  vector<P3> axis_x = m.x;
  int turn = c.choose(c.thorough() ? 9 : 3);
  double radius = c.flip() ? 100 : 1;
  int ranks = 1 + c.choose(2);
  double q[3][3];
  frame(3, turn, q);
  for (auto& p : m.x) {
    turned(q, p);
    for (auto& y : p) y *= radius;
  }
  if (c.describing()) c.note("cylinder over %s, radius %g, turn %d, on %d ranks", what.c_str(), radius, turn, ranks);
  vector<int> owner;
  for (size_t e = 0; e < m.s.elems.size(); ++e) owner.push_back(int(e * size_t(ranks) / m.s.elems.size()));
  auto got = run_on(c, m, ranks, owner, 2, [&](oh::Mesh& x) -> Reals {
    auto vg = vec(x.globals(0));
    for (int d = 0; d <= 3; ++d) {
      vector<oh::I8> a;
      for (auto& e : mk::verts_of(x, d)) {
        vector<int> v;
        for (int i : e) v.push_back(int(vg[size_t(i)]));
        // on the lids: no vertex of the other; on the side: no centre, and neighbours along the rim
        bool lid[2] = {true, true}, side = true;
        for (int i : v) lid[i < 2 * n ? i < n : i == 2 * n] = false, side &= i < 2 * n;
        vector<int> cols;
        for (int i : v) cols.push_back(i % n);
        std::sort(cols.begin(), cols.end());
        cols.erase(std::unique(cols.begin(), cols.end()), cols.end());
        if (side && cols.size() == 2) side = (cols[0] + 1) % n == cols[1] || (cols[1] + 1) % n == cols[0];
        side &= cols.size() <= 2;
        int k = 3 - int(side) - int(lid[0] || lid[1]);
        a.push_back(oh::I8(k));
      }
      x.add_tag<oh::I8>(d, "class_dim", 1, arr(a));
    }
    return oh::get_curvature_metrics(&x, 0.5);
  });
  for (int v = 0; v < nv; ++v) {
    Sym w(3);
    if (v < 2 * n) {
      P3 t{{-axis_x[size_t(v)][1], axis_x[size_t(v)][0], 0}};
      turned(q, t);
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) w.a[i][j] = t[size_t(i)] * t[size_t(j)] / (radius * radius * 0.25);
    }
    auto g = sym_at(got, 3, v);
    REQ(big(g - w) <= 1e-8 / (radius * radius), "rim-metric", "vertex %d has %s, expected %s", v, str(g).c_str(), str(w).c_str());
  }
  c.exec();
  c.state(mc::Hash().add(what).add(turn).add(radius).add(ranks).h);
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C28",
      {
          {"intersect1", [](mc::Ctx& c) { intersections<1>(c, false); }, 60, false, "pairs of 1x1"},
          {"intersect2", [](mc::Ctx& c) { intersections<2>(c, false); }, 60, false, "every pair of definite 2x2 metrics of 4 (5) eigenvalues in 12 orientations, in 3 scales"},
          {"intersect3", [](mc::Ctx& c) { intersections<3>(c, false); }, 60, false, "every pair of definite 3x3 metrics of 4 (5) eigenvalues in 20 (40) orientations, in 3 scales"},
          {"degenerate2", [](mc::Ctx& c) { intersections<2>(c, true); }, 60, false, "every pair of degenerate 2x2 metrics of 5 eigenvalues in 12 orientations, in 3 scales"},
          {"degenerate3", [](mc::Ctx& c) { intersections<3>(c, true); }, 60, false, "every pair of degenerate 3x3 metrics of 4 eigenvalues in 14 (40) orientations, in 3 scales"},
          {"singles1", singles<1>, 60, false, "5 eigenvalues in 3 scales"},
          {"singles2", singles<2>, 60, false, "metrics of 5 eigenvalues in 12 orientations, in 3 scales"},
          {"singles3", singles<3>, 60, false, "metrics of 5 eigenvalues in 20 (40) orientations, in 3 scales"},
          {"hessians1", hessians<1>, 60, false, "5 curvatures"},
          {"hessians2", hessians<2>, 60, false, "5 curvatures in 12 orientations"},
          {"hessians3", hessians<3>, 60, false, "5 curvatures in 20 (40) orientations"},
          {"sets1", sets<1>, 60, false, "pairs, triples and quadruples of metrics of 3 eigenvalues, and none"},
          {"sets2", sets<2>, 60, false, "pairs, triples and quadruples of metrics of 3 eigenvalues in 12 orientations, and none"},
          {"sets3", sets<3>, 60, false, "pairs, triples and quadruples of metrics of 3 eigenvalues in 6 (14) orientations, and none"},
          {"densities-line", [](mc::Ctx& c) { densities(c, 0); }, 60, false, "4 shapes x 4 (12) metrics, isotropic or not, on 1-3 ranks over every (5) assignments in every parting"},
          {"densities-square", [](mc::Ctx& c) { densities(c, 1); }, 60, false, "4 shapes x 4 (12) metrics, isotropic or not, on 1-3 ranks over every (5) assignments in every parting"},
          {"densities-tris4", [](mc::Ctx& c) { densities(c, 2); }, 60, false, "4 shapes x 4 (12) metrics, isotropic or not, on 1-3 ranks over every (5) assignments in every parting"},
          {"densities-tris8", [](mc::Ctx& c) { densities(c, 3); }, 60, false, "4 shapes x 4 (12) metrics, isotropic or not, on 1-3 ranks over every (5) assignments in every parting"},
          {"densities-cube", [](mc::Ctx& c) { densities(c, 4); }, 60, false, "4 shapes x 4 (12) metrics, isotropic or not, on 1-3 ranks over every (5) assignments in every parting"},
          {"densities-cubes2", [](mc::Ctx& c) { densities(c, 5); }, 60, false, "4 shapes x 4 (12) metrics, isotropic or not, on 1-3 ranks over every (5) assignments in every parting"},
          {"projections-line", [](mc::Ctx& c) { projections(c, 0); }, 60, false, "4 shapes x 4 (12) metrics on 1-3 ranks over every (5) assignments in 2 (3) partings"},
          {"projections-square", [](mc::Ctx& c) { projections(c, 1); }, 60, false, "4 shapes x 4 (12) metrics on 1-3 ranks over every (5) assignments in 2 (3) partings"},
          {"projections-tris4", [](mc::Ctx& c) { projections(c, 2); }, 60, false, "4 shapes x 4 (12) metrics on 1-3 ranks over every (5) assignments in 2 (3) partings"},
          {"projections-tris8", [](mc::Ctx& c) { projections(c, 3); }, 60, false, "4 shapes x 4 (12) metrics on 1-3 ranks over every (5) assignments in 2 (3) partings"},
          {"projections-cube", [](mc::Ctx& c) { projections(c, 4); }, 60, false, "4 shapes x 4 (12) metrics on 1-3 ranks over every (5) assignments in 2 (3) partings"},
          {"projections-cubes2", [](mc::Ctx& c) { projections(c, 5); }, 60, false, "4 shapes x 4 (12) metrics on 1-3 ranks over every (5) assignments in 2 (3) partings"},
          {"gradations-line", [](mc::Ctx& c) { gradations(c, 0); }, 60, false, "4 shapes x 3 rates x 3 kinds of metric with small sizes at every vertex or two, on 1-3 ranks"},
          {"gradations-square", [](mc::Ctx& c) { gradations(c, 1); }, 60, false, "4 shapes x 3 rates x 3 kinds of metric with small sizes at every vertex or two, on 1-3 ranks"},
          {"gradations-tris4", [](mc::Ctx& c) { gradations(c, 2); }, 60, false, "4 shapes x 3 rates x 3 kinds of metric with small sizes at every vertex or two, on 1-3 ranks"},
          {"gradations-tris8", [](mc::Ctx& c) { gradations(c, 3); }, 60, false, "4 shapes x 3 rates x 3 kinds of metric with small sizes at every vertex or two, on 1-3 ranks"},
          {"gradations-cube", [](mc::Ctx& c) { gradations(c, 4); }, 60, false, "4 shapes x 3 rates x 3 kinds of metric with small sizes at every vertex or two, on 1-3 ranks"},
          {"gradations-cubes2", [](mc::Ctx& c) { gradations(c, 5); }, 60, false, "4 shapes x 3 rates x 3 kinds of metric with small sizes at every vertex or two, on 1-3 ranks"},
          {"generated-line", [](mc::Ctx& c) { generated(c, 0); }, 60, false, "every 1-2 sources of 3 types with knobs, isotropy and scaling, under length, count, gradation limits and smoothing, on 1-3 ranks"},
          {"generated-square", [](mc::Ctx& c) { generated(c, 1); }, 60, false, "every 1-2 sources of 3 types with knobs, isotropy and scaling, under length, count, gradation limits and smoothing, on 1-3 ranks"},
          {"generated-tris4", [](mc::Ctx& c) { generated(c, 2); }, 60, false, "every 1-2 sources of 3 types with knobs, isotropy and scaling, under length, count, gradation limits and smoothing, on 1-3 ranks"},
          {"generated-cube", [](mc::Ctx& c) { generated(c, 4); }, 60, false, "every 1-2 sources of 3 types with knobs, isotropy and scaling, under length, count, gradation limits and smoothing, on 1-3 ranks"},
          {"curvature2", [](mc::Ctx& c) { curvatures(c, 2); }, 60, false, "4 shapes x 3 sizes x 9 (27) turns x 2 scales x 2 numberings, on 1-2 ranks"},
          {"curvature3", [](mc::Ctx& c) { curvatures(c, 3); }, 60, false, "4 shapes x 3 sizes x 9 (27) turns x 2 scales x 2 numberings, on 1-2 ranks"},
          {"inscribed2", [](mc::Ctx& c) { inscribed(c, 2); }, 60, false, "every polygon of 3-5 (8) sides of two lengths inscribed in a circle, with and without corners"},
          {"inscribed3", [](mc::Ctx& c) { inscribed(c, 3); }, 60, false, "5 polyhedra in 5 (12) shapes inscribed in a sphere, with and without a corner"},
          {"rims", rims, 60, false, "every cylinder over a polygon of 3-4 (6) sides of two lengths"},
      });
}
