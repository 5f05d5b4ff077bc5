// C27: small linear algebra: whole families of small matrices, polynomials,
// rotations and deformations, judged by the defining equations.
#include <Omega_h_affine.hpp>
#include <Omega_h_eigen.hpp>
#include <Omega_h_lie.hpp>
#include <Omega_h_most_normal.hpp>
#include <Omega_h_qr.hpp>
#include <Omega_h_svd.hpp>
#include <cmath>
#include "osh.hpp"
using oh::Few;
using oh::Int;
using oh::LO;
using oh::Matrix;
using oh::Real;
using oh::Reals;
using oh::Tensor;
using oh::Vector;
using std::vector;

static mc::Ctx* C;
#define REQ(cond, key, ...) do { if (!(cond)) C->fail(key, __VA_ARGS__); } while (0)

template <Int m, Int n>
static std::string str(Matrix<m, n> const& a) {
  std::string s = "[";
  char b[40];
  for (Int i = 0; i < m; ++i) {
    for (Int j = 0; j < n; ++j) {
      snprintf(b, sizeof b, "%s%.17g", j ? " " : "", a(i, j));
      s += b;
    }
    s += i + 1 < m ? "; " : "]";
  }
  return s;
}
template <Int n>
static std::string str(Vector<n> const& a) {
  std::string s = "(";
  char b[40];
  for (Int i = 0; i < n; ++i) {
    snprintf(b, sizeof b, "%s%.17g", i ? " " : "", a[i]);
    s += b;
  }
  return s + ")";
}
// the largest entry, by plain loops (NaN counts as infinite)
template <Int m, Int n>
static Real size_of(Matrix<m, n> const& a) {
  Real x = 0;
  for (Int i = 0; i < m; ++i)
    for (Int j = 0; j < n; ++j) {
      Real y = std::abs(a(i, j));
      if (!(y <= x)) x = y == y ? y : INFINITY;
    }
  return x;
}
template <Int m, Int n>
static Real dist(Matrix<m, n> const& a, Matrix<m, n> const& b) {
  Matrix<m, n> d;
  for (Int i = 0; i < m; ++i)
    for (Int j = 0; j < n; ++j) d(i, j) = a(i, j) - b(i, j);
  return size_of(d);
}
template <Int n>
static Real dist(Vector<n> const& a, Vector<n> const& b) {
  Real x = 0;
  for (Int i = 0; i < n; ++i) {
    Real y = std::abs(a[i] - b[i]);
    if (!(y <= x)) x = y == y ? y : INFINITY;
  }
  return x;
}
template <Int m, Int p, Int n>
static Matrix<m, n> mul(Matrix<m, p> const& a, Matrix<p, n> const& b) {
  Matrix<m, n> c;
  for (Int i = 0; i < m; ++i)
    for (Int j = 0; j < n; ++j) {
      Real s = 0;
      for (Int k = 0; k < p; ++k) s += a(i, k) * b(k, j);
      c(i, j) = s;
    }
  return c;
}
template <Int m, Int n>
static Matrix<n, m> tr(Matrix<m, n> const& a) {
  Matrix<n, m> b;
  for (Int i = 0; i < m; ++i)
    for (Int j = 0; j < n; ++j) b(j, i) = a(i, j);
  return b;
}
template <Int n>
static Tensor<n> eye() {
  Tensor<n> a;
  for (Int i = 0; i < n; ++i)
    for (Int j = 0; j < n; ++j) a(i, j) = i == j;
  return a;
}
template <Int n>
static Tensor<n> diag(Vector<n> const& v) {
  Tensor<n> a;
  for (Int i = 0; i < n; ++i)
    for (Int j = 0; j < n; ++j) a(i, j) = i == j ? v[i] : 0;
  return a;
}
template <Int n>
static Real det(Tensor<n> const& a) {  // by permutations
  int p[n];
  for (Int i = 0; i < n; ++i) p[i] = i;
  Real s = 0;
  do {
    int inv = 0;
    Real t = 1;
    for (Int i = 0; i < n; ++i) {
      t *= a(i, p[i]);
      for (Int j = 0; j < i; ++j) inv += p[j] > p[i];
    }
    s += inv % 2 ? -t : t;
  } while (std::next_permutation(p, p + n));
  return s;
}
template <Int m, Int n>
static Matrix<m, n> pick(mc::Ctx& c, int r, int split_after) {
  Matrix<m, n> a;
  int k = 0;
  for (Int i = 0; i < m; ++i)
    for (Int j = 0; j < n; ++j) {
      a(i, j) = c.choose(2 * r + 1) - r;
      if (++k == split_after) c.split();
    }
  return a;
}
static vector<Vector<3>> axes() {
  vector<Vector<3>> v;
  for (int x = -1; x <= 1; ++x)
    for (int y = -1; y <= 1; ++y)
      for (int z = -1; z <= 1; ++z)
        if (x || y || z) {
          auto l = std::sqrt(Real(x * x + y * y + z * z));
          v.push_back(oh::vector_3(x / l, y / l, z / l));
        }
  return v;
}
// Rodrigues by definition, independent of the library's rotate
static Tensor<3> turn(Real t, Vector<3> const& u) {
  Tensor<3> r;
  Real s = std::sin(t), k = std::cos(t), w[3][3] = {{0, -u[2], u[1]}, {u[2], 0, -u[0]}, {-u[1], u[0], 0}};
  for (Int i = 0; i < 3; ++i)
    for (Int j = 0; j < 3; ++j) r(i, j) = (i == j ? k : 0) + s * w[i][j] + (1 - k) * u[i] * u[j];
  return r;
}

// ---------------------------------------------------------------- matrices
template <Int n>
static void check_square(Tensor<n> const& a) {
  auto d = det(a);
  REQ(oh::determinant(a) == d, "determinant", "determinant of %s is %g", str(a).c_str(), oh::determinant(a));
  REQ(oh::trace(a) == [&] { Real t = 0; for (Int i = 0; i < n; ++i) t += a(i, i); return t; }(), "trace", "trace of %s", str(a).c_str());
  REQ(dist(oh::transpose(a), tr(a)) == 0, "transpose", "transpose of %s", str(a).c_str());
  REQ(dist(a * a, mul(a, a)) == 0, "product", "square of %s", str(a).c_str());
  REQ(dist(oh::deviator(a), [&] { auto b = a; for (Int i = 0; i < n; ++i) b(i, i) -= oh::trace(a) / n; return b; }()) < 1e-14, "deviator", "deviator of %s", str(a).c_str());
  Real s = 0;
  for (Int i = 0; i < n; ++i)
    for (Int j = 0; j < n; ++j) s += a(i, j) * a(i, j);
  REQ(oh::inner_product(a, a) == s && std::abs(oh::norm(a) - std::sqrt(s)) < 1e-14 && oh::max_norm(a) == size_of(a), "norm", "norms of %s", str(a).c_str());
  auto v = oh::matrix2vector(a);
  for (Int i = 0; i < n; ++i)
    for (Int j = 0; j < n; ++j) REQ(v[i * n + j] == a(i, j), "matrix-vector", "row order of %s", str(a).c_str());
  REQ(dist(oh::vector2matrix<n, n>(v), a) == 0, "matrix-vector", "%s and back", str(a).c_str());
  if (d != 0) {
    auto b = oh::invert(a);
    REQ(dist(mul(a, b), eye<n>()) < 1e-12 && dist(mul(b, a), eye<n>()) < 1e-12, "inverse", "inverse of %s is %s", str(a).c_str(), str(b).c_str());
    REQ(dist(oh::pseudo_invert(a), b) == 0, "pseudo-inverse", "pseudo-inverse of %s", str(a).c_str());
    Vector<n> rhs;
    for (Int i = 0; i < n; ++i) rhs[i] = 1 + i * i;
    auto x = oh::solve_using_qr(a, rhs);
    REQ(dist(a * x, rhs) < 1e-11, "solve", "%s x = %s gives %s", str(a).c_str(), str(rhs).c_str(), str(x).c_str());
  }
  // in every scale
  for (Real f : {1.0, 1e-12, 1e9}) {
    auto b = a;
    for (Int i = 0; i < n; ++i)
      for (Int j = 0; j < n; ++j) b(i, j) *= f;
    auto svd = oh::decompose_svd(b);
    REQ(dist(mul(svd.U, tr(svd.U)), eye<n>()) < 1e-9 && dist(mul(svd.V, tr(svd.V)), eye<n>()) < 1e-9, "svd-rotations", "decompose_svd(%s) gives U=%s V=%s", str(b).c_str(),
        str(svd.U).c_str(), str(svd.V).c_str());
    for (Int i = 0; i < n; ++i)
      for (Int j = 0; j < n; ++j)
        REQ(i == j ? svd.S(i, i) >= 0 : std::abs(svd.S(i, j)) <= 1e-9 * f, "svd-values", "decompose_svd(%s) gives S=%s", str(b).c_str(), str(svd.S).c_str());
    auto back = mul(mul(svd.U, svd.S), svd.V);
    REQ(dist(back, b) < 1e-9 * f, "svd-product", "decompose_svd(%s) multiplies to %s", str(b).c_str(), str(back).c_str());
  }
}
template <Int n, int R>
static void squares(mc::Ctx& c) {
  C = &c;
  auto a = pick<n, n>(c, R, n == 2 ? 2 : 4);
  if (c.describing()) c.note("%s", str(a).c_str());
  check_square(a);
  c.exec();
  c.state(mc::Hash().add(str(a)).h);
}
// m x n least squares and the parts of the factorisation
template <Int m, Int n>
static void tall(mc::Ctx& c, int r) {
  C = &c;
  auto a = pick<m, n>(c, r, 3);
  auto ata = mul(tr(a), a);
  if (det(ata) == 0) return;
  if (c.describing()) c.note("%s", str(a).c_str());
  c.exec();
  c.state(mc::Hash().add(str(a)).h);
  auto qr = oh::factorize_qr_householder(m, n, a);
  for (Int j = 0; j < n; ++j)
    for (Int i = j + 1; i < n; ++i) REQ(std::abs(qr.r(i, j)) < 1e-12, "r-triangular", "R of %s is %s", str(a).c_str(), str(qr.r).c_str());
  for (Int j = 0; j < n; ++j) {
    Vector<m> x;
    for (Int i = 0; i < m; ++i) x[i] = i < n ? qr.r(i, j) : 0;
    oh::implicit_q_x(m, n, x, qr.v);
    Vector<m> col;
    for (Int i = 0; i < m; ++i) col[i] = a(i, j);
    REQ(dist(x, col) < 1e-12, "qr-product", "column %d of Q R of %s is %s", j, str(a).c_str(), str(x).c_str());
    auto qtb = oh::implicit_q_trans_b(m, n, qr.v, col);
    for (Int i = 0; i < n; ++i) REQ(std::abs(qtb[i] - qr.r(i, j)) < 1e-12, "qt-product", "Q' times column %d of %s is %s", j, str(a).c_str(), str(qtb).c_str());
  }
  for (int k = 0; k < m; ++k) {
    Vector<m> b;
    for (Int i = 0; i < m; ++i) b[i] = (i == k) + 0.5 * i;
    auto x = oh::solve_using_qr(a, b);
    auto g = tr(a) * (a * x - b);
    REQ(dist(g, oh::zero_vector<n>()) < 1e-10, "least-squares", "%s x ~ %s gives %s, not the least squares solution", str(a).c_str(), str(b).c_str(), str(x).c_str());
  }
  auto p = oh::pseudo_invert(a);
  REQ(dist(mul(p, a), eye<n>()) < 1e-11, "pseudo-inverse-tall", "pseudo-inverse of %s is %s", str(a).c_str(), str(p).c_str());
  auto q = oh::pseudo_invert(tr(a));
  REQ(dist(q, tr(p)) < 1e-11, "pseudo-inverse-wide", "pseudo-inverse of %s is %s", str(tr(a)).c_str(), str(q).c_str());
}

// ------------------------------------------------------------- polynomials
// by roots: integer multiples of a step, from far apart to nearly equal
template <Int n>
static void polynomials(mc::Ctx& c) {
  C = &c;
  static Real const steps[] = {1.0, 0.5, 1e-1, 1e-2, 1e-3, 10.0};
  static Real const shifts[] = {0, 1, -0.75};
  Real h = steps[c.choose(6)], s = shifts[c.choose(3)];
  c.split();
  vector<Real> r;
  for (Int i = 0; i < n; ++i) r.push_back(s + h * (c.choose(9) - 4));
  if (!std::is_sorted(r.begin(), r.end())) return;
  Few<Real, n> co;
  if (n == 1) co[0] = -r[0];
  if (n == 2) co[0] = r[0] * r[1], co[1] = -(r[0] + r[1]);
  if (n == 3) co[0] = -r[0] * r[1] * r[n - 1], co[1] = r[0] * r[1] + r[0] * r[n - 1] + r[1] * r[n - 1], co[n - 1] = -(r[0] + r[1] + r[n - 1]);
  auto got = oh::find_polynomial_roots(co);
  if (c.describing()) c.note("roots %g %g %g", r[0], n > 1 ? r[1] : 0, n > 2 ? r[n - 1] : 0);
  // how much the rounding of the coefficients moves a multiple root
  int same = 1, most = 1;
  for (Int i = 1; i < n; ++i) {
    same = std::abs(r[size_t(i)] - r[size_t(i) - 1]) < h / 2 ? same + 1 : 1;
    most = std::max(most, same);
  }
  Real mag = std::max(1.0, std::max(std::abs(r[0]), std::abs(r[n - 1])));
  Real tol = most == 1 ? 1e-7 * mag : most == 2 ? 1e-6 * mag : 1e-4 * mag;
  vector<Real> list;
  int total = 0;
  for (Int i = 0; i < got.n; ++i) {
    total += got.mults[i];
    for (Int k = 0; k < got.mults[i]; ++k) list.push_back(got.values[i]);
  }
  std::sort(list.begin(), list.end());
  REQ(total == n, "root-count", "multiplicities add up to %d (roots %.17g %.17g %.17g)", total, r[0], n > 1 ? r[1] : 0, n > 2 ? r[n - 1] : 0);
  for (Int i = 0; i < n; ++i)
    REQ(std::abs(list[size_t(i)] - r[size_t(i)]) <= tol, "root-value", "root %d is %.17g, should be %.17g (roots %.17g %.17g %.17g)", i, list[size_t(i)], r[size_t(i)], r[0],
        n > 1 ? r[1] : 0, n > 2 ? r[n - 1] : 0);
  for (Int i = 0; i < got.n; ++i)
    for (Int k = 0; k < i; ++k) REQ(std::abs(got.values[i] - got.values[k]) > 1e-8, "root-unique", "root %.17g is listed twice", got.values[i]);
  c.exec();
  c.state(mc::Hash().add(h).add(r[0]).add(r[n > 1]).add(r[n - 1]).h);
}
// quadratics without real roots
static void complex_roots(mc::Ctx& c) {
  C = &c;
  Real re = c.choose(9) - 4, im = c.choose(8) + 1;
  im /= 4;
  c.split();
  Few<Real, 2> co;
  co[1] = -2 * re;
  co[0] = re * re + im * im;
  auto got = oh::find_polynomial_roots(co);
  REQ(got.n == 0, "no-real-roots", "%g +- %gi: %d real roots", re, im, got.n);
  c.exec();
  c.state(mc::Hash().add(re).add(im).h);
}

// ------------------------------------------------------------ eigenvectors
template <Int n>
static void check_pairs(char const* what, Tensor<n> const& a, Tensor<n> const& q, Vector<n> const& l, Real tol, bool ortho, Real otol = 1e-9) {
  auto nm = size_of(a);
  if (nm == 0) nm = 1;
  for (Int k = 0; k < n; ++k) {
    Real len = 0;
    for (Int i = 0; i < n; ++i) len += q(i, k) * q(i, k);
    REQ(std::abs(len - 1) < 1e-9, "eigenvector-length", "%s(%s): eigenvector %d of length^2 %g", what, str(a).c_str(), k, len);
    for (Int i = 0; i < n; ++i) {
      Real s = -l[k] * q(i, k);
      for (Int j = 0; j < n; ++j) s += a(i, j) * q(j, k);
      REQ(std::abs(s) <= tol * nm, "eigenpair", "%s(%s): value %.17g, vectors %s: off by %g", what, str(a).c_str(), l[k], str(q).c_str(), s);
    }
  }
  if (ortho) {
    REQ(dist(mul(tr(q), q), eye<n>()) <= otol, "eigenvectors-orthogonal", "%s(%s): vectors %s", what, str(a).c_str(), str(q).c_str());
    REQ(dist(mul(mul(q, diag(l)), tr(q)), a) <= tol * 10 * nm, "eigen-compose", "%s(%s): vectors %s, values %s do not compose", what, str(a).c_str(), str(q).c_str(), str(l).c_str());
    REQ(dist(oh::compose_ortho(q, l), mul(mul(q, diag(l)), tr(q))) <= 1e-14 * nm * 10, "compose_ortho", "compose_ortho");
  } else {
    REQ(std::abs(det(q)) > 1e-3, "eigenvectors-independent", "%s(%s): vectors %s", what, str(a).c_str(), str(q).c_str());
  }
  REQ(dist(oh::compose_eigen(q, l), a) <= tol * 100 * nm, "compose_eigen", "compose_eigen of the parts of %s", str(a).c_str());
}
template <Int n>
static void check_symmetric(Tensor<n> const& a, Real tol, bool spd) {
  auto d = oh::decompose_eigen(a);
  check_pairs("decompose_eigen", a, d.q, d.l, tol, true);
  auto j = oh::decompose_eigen_jacobi(a);
  check_pairs("decompose_eigen_jacobi", a, j.q, j.l, 1e-13, true);
  auto s = oh::sort_by_magnitude(j);
  check_pairs("sort_by_magnitude", a, s.q, s.l, 1e-13, true);
  for (Int i = 0; i + 1 < n; ++i) REQ(std::abs(s.l[i]) >= std::abs(s.l[i + 1]), "sort_by_magnitude", "values %s sort to %s", str(j.l).c_str(), str(s.l).c_str());
  // the two agree on the values
  auto x = d.l, y = j.l;
  std::sort(&x[0], &x[0] + n);
  std::sort(&y[0], &y[0] + n);
  REQ(dist(x, y) <= tol * std::max(size_of(a), 1e-300), "eigenvalues", "decompose_eigen finds %s, decompose_eigen_jacobi %s", str(x).c_str(), str(y).c_str());
  auto v = oh::symm2vector(a);
  REQ(dist(oh::vector2symm(v), a) == 0 && dist(oh::vector2symm_inria(oh::symm2vector_inria(a)), a) == 0, "symm-vector", "%s and back", str(a).c_str());
  for (Int i = 0; i < n; ++i) REQ(v[i] == a(i, i), "symm-vector", "diagonal first: %s", str(v).c_str());
  auto e = oh::exp_spd(a);
  auto le = oh::log_spd(e);
  Real spread = std::exp(y[n - 1] - y[0]);
  REQ(dist(le, a) <= 1e-13 * spread * std::max(1.0, size_of(a)), "log-exp", "log exp %s is %s", str(a).c_str(), str(le).c_str());
  if (spd) {
    auto r = oh::sqrt_spd(a);
    REQ(dist(mul(r, r), a) <= 1e-12 * size_of(a), "sqrt_spd", "root of %s is %s", str(a).c_str(), str(r).c_str());
    auto back = oh::exp_spd(oh::log_spd(a));
    REQ(dist(back, a) <= 1e-11 * size_of(a), "exp-log", "exp log %s is %s", str(a).c_str(), str(back).c_str());
    auto old = oh::log_spd_old(a);
    Real cond = y[n - 1] / y[0];
    REQ(dist(old, oh::log_spd(a)) <= tol * cond * 30, "log_spd_old", "log of %s is %s", str(a).c_str(), str(old).c_str());
  }
  auto old = oh::exp_spd_old(a);
  REQ(dist(old, e) <= tol * 30 * std::max(1.0, size_of(a)) * size_of(e), "exp_spd_old", "exp of %s is %s", str(a).c_str(), str(old).c_str());
}
template <Int n>
static void symmetric(mc::Ctx& c, int r) {
  C = &c;
  Tensor<n> a;
  int k = 0;
  for (Int i = 0; i < n; ++i)
    for (Int j = i; j < n; ++j) {
      a(i, j) = a(j, i) = c.choose(2 * r + 1) - r;
      if (++k == n) c.split();
    }
  if (c.describing()) c.note("%s", str(a).c_str());
  bool spd = a(0, 0) > 0 && det(a) > 0;
  if (n == 3) spd = spd && a(0, 0) * a(1, 1) - a(0, 1) * a(0, 1) > 0;
  if (n == 2 && !(a(0, 0) > 0 && det(a) > 0)) spd = false;
  check_symmetric(a, 1e-4, spd);
  for (Real f : {1e-9, 1e9}) {
    auto b = a;
    for (Int i = 0; i < n; ++i)
      for (Int j = 0; j < n; ++j) b(i, j) *= f;
    auto d = oh::decompose_eigen(b);
    check_pairs("decompose_eigen", b, d.q, d.l, 1e-4, true);
    auto q = oh::decompose_eigen_jacobi(b);
    check_pairs("decompose_eigen_jacobi", b, q.q, q.l, 1e-13, true);
  }
  c.exec();
  c.state(mc::Hash().add(str(a)).h);
}
// nearly equal and far apart eigenvalues in every orientation
static void spectra3(mc::Ctx& c) {
  C = &c;
  static Real const ratios[] = {1, 1 + 1e-14, 1 + 1e-9, 1 + 1e-7, 1 + 1e-6, 1 + 2e-5, 1 + 4.9e-5, 1 + 5.1e-5, 1 + 6e-5, 1 + 1e-4, 1.001, 1.01, 1.5, 10, 100, 1e3};
  static auto ax = axes();
  Real scale = c.choose(2) ? 1e4 : 1;
  Vector<3> l;
  l[0] = 1;
  l[1] = ratios[c.choose(16)];
  l[2] = l[1] * ratios[c.choose(16)];
  c.split();
  auto r = turn(c.choose(7) * oh::PI / 6, ax[size_t(c.choose(int(ax.size())))]);
  if (c.choose(2)) std::swap(l[0], l[2]);
  if (l[2] > 1e5 || l[0] > 1e5) return;
  for (int i = 0; i < 3; ++i) l[i] *= scale;
  auto a = mul(mul(r, diag(l)), tr(r));
  for (Int i = 0; i < 3; ++i)
    for (Int j = 0; j < i; ++j) a(i, j) = a(j, i);
  if (c.describing()) c.note("values %s: %s", str(l).c_str(), str(a).c_str());
  auto d = oh::decompose_eigen(a);
  check_pairs("decompose_eigen", a, d.q, d.l, 1e-4, true, 1e-6);
  auto ev = d.l;
  std::sort(&ev[0], &ev[0] + 3);
  auto j = oh::decompose_eigen_jacobi(a);
  check_pairs("decompose_eigen_jacobi", a, j.q, j.l, 1e-13, true);
  auto y = j.l;
  std::sort(&y[0], &y[0] + 3);
  std::sort(&l[0], &l[0] + 3);
  REQ(dist(ev, l) < 6e-5 * l[2], "eigenvalues", "decompose_eigen finds %s, should be %s", str(ev).c_str(), str(l).c_str());
  REQ(dist(y, l) < 1e-13 * l[2], "eigenvalues", "decompose_eigen_jacobi finds %s, should be %s", str(y).c_str(), str(l).c_str());
  c.exec();
  c.state(mc::Hash().add(str(a)).h);
}
static void spectra2(mc::Ctx& c) {
  C = &c;
  static Real const ratios[] = {1, 1 + 1e-14, 1 + 1e-9, 1 + 1e-7, 1 + 1e-6, 1 + 2e-5, 1 + 4.9e-5, 1 + 5.1e-5, 1 + 6e-5, 1 + 1e-4, 1.001, 1.01, 1.5, 10, 100, 1e3, 1e5, 1e7};
  Real scale = std::pow(1e4, c.choose(3) - 1);
  Vector<2> l;
  l[0] = 1;
  l[1] = ratios[c.choose(18)];
  c.split();
  Real t = c.choose(48) * oh::PI / 24, cs = std::cos(t), sn = std::sin(t);
  for (int sign = 0; sign < 4; ++sign) {
    Vector<2> v;
    v[0] = l[0] * scale * (sign & 1 ? -1 : 1);
    v[1] = l[1] * scale * (sign & 2 ? -1 : 1);
    Tensor<2> a;
    a(0, 0) = v[0] * cs * cs + v[1] * sn * sn;
    a(1, 1) = v[0] * sn * sn + v[1] * cs * cs;
    a(0, 1) = a(1, 0) = (v[0] - v[1]) * cs * sn;
    auto d = oh::decompose_eigen(a);
    check_pairs("decompose_eigen", a, d.q, d.l, 1e-4, true, 1e-9);
    if (v[0] > v[1]) std::swap(v[0], v[1]);
    if (d.l[0] > d.l[1]) std::swap(d.l[0], d.l[1]);
    REQ(dist(d.l, v) < 6e-5 * l[1] * scale, "eigenvalues", "decompose_eigen finds %s, should be %s", str(d.l).c_str(), str(v).c_str());
  }
  c.exec();
  c.state(mc::Hash().add(l[1]).add(scale).add(t).h);
}
// general matrices with real eigenvalues: P diag(l) P^-1
template <Int n>
static void general(mc::Ctx& c, int r) {
  C = &c;
  auto p = pick<n, n>(c, r, 3);
  auto d = det(p);
  Vector<n> l;
  for (Int i = 0; i < n; ++i) l[i] = c.choose(4) - 1;
  if (std::abs(d) != 1) return;
  for (Int i = 0; i + 1 < n; ++i)
    if (l[i] > l[i + 1]) return;
  auto a = mul(mul(p, diag(l)), oh::invert(p));
  if (c.describing()) c.note("%s", str(a).c_str());
  auto e = oh::decompose_eigen(a);
  auto nm = size_of(a);
  if (nm > 0) {
    for (Int k = 0; k < n; ++k) {
      for (Int i = 0; i < n; ++i) {
        Real s = -e.l[k] * e.q(i, k);
        for (Int j = 0; j < n; ++j) s += a(i, j) * e.q(j, k);
        REQ(std::abs(s) <= 1e-4 * nm, "general-eigenpair", "decompose_eigen(%s): value %.17g, vectors %s: off by %g", str(a).c_str(), e.l[k], str(e.q).c_str(), s);
      }
    }
    REQ(std::abs(det(e.q)) > 1e-4, "general-independent", "decompose_eigen(%s): vectors %s", str(a).c_str(), str(e.q).c_str());
    REQ(dist(oh::compose_eigen(e.q, e.l), a) <= 1e-2 * nm, "general-compose", "decompose_eigen(%s): vectors %s, values %s", str(a).c_str(), str(e.q).c_str(), str(e.l).c_str());
  }
  auto poly = oh::characteristic_polynomial(a);
  Real want[3] = {0, 0, 0};
  if (n == 2) want[0] = l[0] * l[1], want[1] = -l[0] - l[1];
  if (n == 3) want[0] = -l[0] * l[1] * l[n - 1], want[1] = l[0] * l[1] + l[0] * l[n - 1] + l[1] * l[n - 1], want[2] = -l[0] - l[1] - l[n - 1];
  for (Int i = 0; i < n; ++i) REQ(std::abs(poly[i] - want[i]) < 1e-9, "characteristic", "coefficient %d of %s is %g", i, str(a).c_str(), poly[i]);
  c.exec();
  c.state(mc::Hash().add(str(a)).h);
}

// ---------------------------------------------------------------- rotations
static vector<Real> angles() {
  vector<Real> v;
  for (int i = 0; i <= 24; ++i) v.push_back(i * oh::PI / 24);
  for (Real e : {1e-12, 1e-9, 1e-8, 1e-6, 1e-4, 1e-2}) v.push_back(e), v.push_back(oh::PI - e);
  return v;
}
static void check_rotation(Tensor<3> const& r, Real angle) {
  auto q = oh::quaternion_from_tensor(r);
  Real len = 0;
  for (int i = 0; i < 4; ++i) len += q[i] * q[i];
  REQ(std::abs(len - 1) < 1e-14, "quaternion-unit", "quaternion %s of %s", str(q).c_str(), str(r).c_str());
  REQ(dist(oh::tensor_from_quaternion(q), r) < 1e-13, "quaternion-back", "rotation %s has quaternion %s, which is %s", str(r).c_str(), str(q).c_str(), str(oh::tensor_from_quaternion(q)).c_str());
  auto aa = oh::axis_angle_from_tensor(r);
  auto back = oh::tensor_from_axis_angle(aa);
  REQ(dist(back, r) < 1e-7, "axis-angle-back", "rotation %s has axis times angle %s, which is %s", str(r).c_str(), str(aa).c_str(), str(back).c_str());
  auto n = oh::norm(aa);
  n = std::min(n, 2 * oh::PI - n);  // about the opposite axis
  REQ(std::abs(n - angle) < 1e-7, "axis-angle-size", "rotation by %.17g about some axis is read as %s", angle, str(aa).c_str());
  auto ra = oh::rotation_angle(r);
  REQ(std::abs(ra - angle) < 1e-7, "rotation_angle", "rotation_angle of a rotation by %.17g is %.17g", angle, ra);
}
static void rotations(mc::Ctx& c) {
  C = &c;
  static auto ax = axes();
  static auto an = angles();
  auto a = an[size_t(c.choose(int(an.size())))];
  c.split();
  auto u = ax[size_t(c.choose(int(ax.size())))];
  if (c.describing()) c.note("%g about %s", a, str(u).c_str());
  auto r = oh::rotate(a, u);
  REQ(dist(r, turn(a, u)) < 1e-15, "rotate", "rotate(%g, %s) is %s", a, str(u).c_str(), str(r).c_str());
  check_rotation(r, a);
  auto q = oh::quaternion_from_axis_angle(a * u);
  REQ(dist(oh::tensor_from_quaternion(q), r) < 1e-14, "axis-angle-tensor", "%g about %s is %s", a, str(u).c_str(), str(oh::tensor_from_quaternion(q)).c_str());
  REQ(dist(oh::tensor_from_axis_angle(a * u), r) < 1e-14, "axis-angle-tensor", "%g about %s", a, str(u).c_str());
  for (int s = -1; s <= 1; s += 2) {
    auto r2 = oh::rotate(s * a);
    Tensor<2> want;
    want(0, 0) = want(1, 1) = std::cos(a);
    want(1, 0) = s * std::sin(a);
    want(0, 1) = -want(1, 0);
    REQ(dist(r2, want) < 1e-15, "rotate-2d", "rotate(%g)", s * a);
    auto b = oh::axis_angle_from_tensor(r2);
    REQ(std::abs(std::remainder(b[0] - s * a, 2 * oh::PI)) < 1e-14, "axis-angle-2d", "rotation by %.17g is read as %.17g", s * a, b[0]);
    REQ(dist(oh::tensor_from_axis_angle(b), r2) < 1e-14, "axis-angle-2d", "rotation by %.17g and back", s * a);
  }
  // the tensors of cross products
  auto w = oh::cross(u);
  for (auto& v : ax) REQ(dist(w * v, oh::cross(u, v)) < 1e-15 && std::abs(oh::cross(u, v) * u) < 1e-15, "cross-tensor", "cross product tensor of %s", str(u).c_str());
  REQ(dist(oh::uncross(w), u) == 0, "uncross", "uncross of the cross product tensor of %s", str(u).c_str());
  c.exec();
  c.state(mc::Hash().add(a).add(str(u)).h);
}
// the composition of two rotations
static void compositions(mc::Ctx& c) {
  C = &c;
  static auto ax = axes();
  Real a = c.choose(13) * oh::PI / 6, b = c.choose(13) * oh::PI / 6;
  c.split();
  auto u = ax[size_t(c.choose(int(ax.size())))];
  for (auto& v : ax) {
    auto r = mul(turn(a, u), turn(b, v));
    Real half = 0;  // angle from the product of the quaternions
    half = std::cos(a / 2) * std::cos(b / 2) - std::sin(a / 2) * std::sin(b / 2) * (u * v);
    Real t = 2 * std::acos(std::min(1.0, std::abs(half)));
    check_rotation(r, t);
    c.exec();
    c.state(mc::Hash().add(a).add(b).add(str(u)).add(str(v)).h);
  }
}
// bases around directions
static void bases(mc::Ctx& c) {
  C = &c;
  int x = c.choose(13) - 6, y = c.choose(13) - 6;
  c.split();
  int z = c.choose(13) - 6, tilt = c.choose(4);
  if (!x && !y && !z) return;
  auto v = oh::vector_3(x, y, z);
  if (tilt) v[0] += tilt * 1e-9, v[1] -= tilt * tilt * 1e-12;
  auto n = oh::normalize(v);
  auto f = oh::form_ortho_basis(n);
  REQ(dist(mul(tr(f), f), eye<3>()) < 1e-13, "ortho-basis", "basis of %s is %s", str(n).c_str(), str(f).c_str());
  for (int i = 0; i < 3; ++i) REQ(f(i, 0) == n[i], "ortho-basis-first", "basis of %s is %s", str(n).c_str(), str(f).c_str());
  auto p = oh::positivize(v), m = oh::positivize(-v);
  if (x && y && z) REQ(dist(p, m) == 0, "positivize", "%s and its opposite are disambiguated to %s and %s", str(v).c_str(), str(p).c_str(), str(m).c_str());
  REQ(dist(p, v) == 0 || dist(p, -v) == 0, "positivize", "%s becomes %s", str(v).c_str(), str(p).c_str());
  auto w = oh::vector_3(1, -2, 0.5);
  auto pr = oh::project(w, v), re = oh::reject(w, v);
  REQ(dist(pr + re, w) < 1e-14 && std::abs(re * v) < 1e-13 && dist(oh::cross(pr, v), oh::zero_vector<3>()) < 1e-12, "project", "projection on %s is %s", str(v).c_str(), str(pr).c_str());
  auto pi = oh::pseudo_invert(v);
  REQ(std::abs(pi * v - 1) < 1e-14, "pseudo-inverse-vector", "pseudo-inverse of %s", str(v).c_str());
  if (!z) {
    auto f2 = oh::form_ortho_basis(oh::normalize(oh::vector_2(v[0], v[1])));
    REQ(dist(mul(tr(f2), f2), eye<2>()) < 1e-14 && std::abs(det(f2) - 1) < 1e-14, "ortho-basis-2d", "basis %s", str(f2).c_str());
  }
  c.exec();
  c.state(mc::Hash().add(str(v)).h);
}
// logarithms of deformations
template <Int n>
static void polar(mc::Ctx& c, int r) {
  C = &c;
  auto F = pick<n, n>(c, r, n == 2 ? 2 : 4);
  if (det(F) <= 0) return;
  if (c.describing()) c.note("%s", str(F).c_str());
  auto lf = oh::log_polar(F);
  auto back = oh::exp_polar(lf);
  REQ(dist(back, F) < 2e-7, "polar-back", "log_polar(%s) is %s, whose exponential is %s", str(F).c_str(), str(lf).c_str(), str(back).c_str());
  // F = R U with U'U = F'F
  auto U = oh::exp_spd(oh::unpack_polar_spd(lf));
  REQ(dist(mul(U, U), mul(tr(F), F)) < 1e-9 * size_of(mul(tr(F), F)), "polar-stretch", "log_polar(%s) stretches by %s", str(F).c_str(), str(U).c_str());
  auto R = oh::tensor_from_axis_angle(oh::unpack_polar_axis_angle(lf));
  REQ(dist(mul(tr(R), R), eye<n>()) < 1e-12 && det(R) > 0, "polar-rotation", "log_polar(%s) turns by %s", str(F).c_str(), str(R).c_str());
  auto again = oh::pack_polar(oh::unpack_polar_spd(lf), oh::unpack_polar_axis_angle(lf));
  for (Int i = 0; i < n; ++i)
    for (Int j = 0; j < n; ++j) REQ(std::abs(again(i, j) - lf(i, j)) <= 1e-15 * std::max(1.0, std::abs(lf(i, j))), "polar-pack", "%s unpacks and packs to %s", str(lf).c_str(), str(again).c_str());
  c.exec();
  c.state(mc::Hash().add(str(F)).h);
}
// aligning keeps what each logarithm means, and turns opposite ones together
template <Int n>
static void aligned(mc::Ctx& c) {
  C = &c;
  static auto ax = axes();
  static Real const an[] = {0.5, 2.0, oh::PI - 0.01, oh::PI - 1e-9, oh::PI, -oh::PI + 1e-9, -oh::PI + 0.01, -1.0};
  constexpr Int na = n == 3 ? 3 : 1;
  int k = 2 + c.choose(2);
  vector<Matrix<n, n>> a;
  auto spd = eye<n>();
  spd(0, 0) = 2;
  spd(0, 1) = spd(1, 0) = 0.5;
  auto u = ax[size_t(n == 3 ? c.choose(int(ax.size())) : 0)];
  for (int i = 0; i < k; ++i) {
    Vector<na> s;
    Real t = an[c.choose(8)];
    if (i == 1) c.split();
    for (Int j = 0; j < na; ++j) s[j] = na == 1 ? t : t * u[j];
    a.push_back(oh::pack_polar(spd, s));
  }
  auto b = a;
  oh::align_packed_axis_angles(&b[0], k, 0.05);
  for (int i = 0; i < k; ++i) {
    REQ(dist(oh::exp_polar(b[size_t(i)]), oh::exp_polar(a[size_t(i)])) < 1e-12, "align-meaning", "%s becomes %s, which means another deformation", str(a[size_t(i)]).c_str(), str(b[size_t(i)]).c_str());
    auto s1 = oh::unpack_polar_axis_angle(b[0]), si = oh::unpack_polar_axis_angle(b[size_t(i)]);
    REQ(s1 * si >= -0.95 * oh::square(oh::PI) - 1e-9, "align-opposite", "%s and %s stay opposite", str(s1).c_str(), str(si).c_str());
  }
  c.exec();
  c.state(mc::Hash().add(str(a[0])).add(str(a[1])).add(str(a.back())).add(k).h);
}
// the most normal normal: no direction of a fine set is better
static void normals(mc::Ctx& c) {
  C = &c;
  int n = 2 + c.choose(c.thorough() ? 4 : 3);
  static vector<Vector<3>> pool, dirs;
  if (pool.empty()) {
    for (int x = -1; x <= 1; ++x)
      for (int y = -1; y <= 1; ++y)
        for (int z = 0; z <= 2; ++z)
          if (z || (x > 0 || (x == 0 && y > 0))) pool.push_back(oh::normalize(oh::vector_3(x, y, z)));
    for (int x = -6; x <= 6; ++x)
      for (int y = -6; y <= 6; ++y)
        for (int z = -6; z <= 6; ++z)
          if (x || y || z) dirs.push_back(oh::normalize(oh::vector_3(x, y, z)));
  }
  Few<Vector<3>, 5> N;
  Few<int, 5> id;
  for (int i = 0; i < n; ++i) {
    id[i] = c.choose(int(pool.size()));
    N[i] = pool[size_t(id[i])];
    if (i == 0) c.split();
    if (i > 1 && id[i] < id[i - 1]) return;  // the first two in any order
  }
  auto worst = [&](Vector<3> const& d) {
    Real w = 2;
    for (int i = 0; i < n; ++i) w = std::min(w, d * N[i]);
    return w;
  };
  Real best = -1;
  for (auto& d : dirs) best = std::max(best, worst(d));
  if (best < 0.05) return;
  auto got = oh::get_most_normal_normal(N, n);
  REQ(std::abs(oh::norm(got) - 1) < 1e-12, "normal-unit", "most normal normal %s", str(got).c_str());
  REQ(worst(got) >= best - 1e-9, "most-normal", "most normal normal %s of %s %s %s ...: worst angle's cosine %g, but %g is possible", str(got).c_str(), str(N[0]).c_str(), str(N[1]).c_str(),
      str(N[n - 1]).c_str(), worst(got), best);
  c.exec();
  c.state(mc::Hash().add(n).add(id).h);
}
// whole arrays of vectors, matrices and symmetric tensors
template <Int n>
static void arrays(mc::Ctx& c) {
  C = &c;
  int k = c.choose(4), seed = c.choose(5);
  c.split();
  constexpr Int ns = n * (n + 1) / 2;
  auto gen = [&](int count, int salt) {
    vector<Real> v;
    for (int i = 0; i < count; ++i) v.push_back(((i * 7 + salt * 3 + seed * 5) % 11 - 5) + 0.25 * ((i + seed) % 3) + (i % (n + 1) == 0 ? 9 : 0));
    return v;
  };
  auto arr = [](vector<Real> const& v) {
    oh::HostWrite<Real> h(LO(v.size()));
    for (size_t i = 0; i < v.size(); ++i) h[LO(i)] = v[i];
    return Reals(h.write());
  };
  auto vs = gen(k * n, 1), ws = gen(k * n, 2), ms = gen(k * n * n, 3), m2 = gen(k * n * n, 4), ss = gen(k * ns, 5);
  auto eq = [&](Reals got, vector<Real> const& want, char const* what) {
    oh::HostRead<Real> h(got);
    REQ(h.size() == int(want.size()), what, "%s gives %d values", what, h.size());
    for (int i = 0; i < h.size(); ++i) REQ(std::abs(h[i] - want[size_t(i)]) <= 1e-12 * std::max(1.0, std::abs(want[size_t(i)])), what, "%s: value %d is %.17g, should be %.17g", what, i, h[i], want[size_t(i)]);
  };
  vector<Real> norms, unit, dots, mv, mm, sy;
  auto comp = [&](int i, int j) { return i < j ? std::make_pair(i, j) : std::make_pair(j, i); };
  auto slot = [&](int i, int j) {  // diagonal, then 01 12 02
    auto p = comp(i, j);
    if (p.first == p.second) return p.first;
    return n + (p.second - p.first == 2 ? 2 : p.first);
  };
  auto islot = [&](int i, int j) {
    auto p = comp(i, j);
    return p.second * (p.second + 1) / 2 + p.first;
  };
  vector<Real> inria(size_t(k * ns)), bigger, smaller;
  for (int t = 0; t < k; ++t) {
    Real s = 0, d = 0;
    for (int i = 0; i < n; ++i) s += vs[size_t(t * n + i)] * vs[size_t(t * n + i)], d += vs[size_t(t * n + i)] * ws[size_t(t * n + i)];
    norms.push_back(std::sqrt(s));
    dots.push_back(d);
    for (int i = 0; i < n; ++i) {
      unit.push_back(vs[size_t(t * n + i)] / std::sqrt(s));
      Real x = 0;
      for (int j = 0; j < n; ++j) x += ms[size_t(t * n * n + i * n + j)] * vs[size_t(t * n + j)];
      mv.push_back(x);
      for (int j = 0; j < n; ++j) {
        Real y = 0;
        for (int q = 0; q < n; ++q) y += ms[size_t(t * n * n + i * n + q)] * m2[size_t(t * n * n + q * n + j)];
        mm.push_back(y);
      }
    }
    for (int i = 0; i < n; ++i)
      for (int j = i; j < n; ++j) inria[size_t(t * ns + islot(i, j))] = ss[size_t(t * ns + slot(i, j))];
  }
  if (n > 1) {
    eq(oh::get_vector_norms(arr(vs), n), norms, "get_vector_norms");
    eq(oh::normalize_vectors(arr(vs), n), unit, "normalize_vectors");
  }
  eq(oh::dot_vectors(arr(vs), arr(ws), n), dots, "dot_vectors");
  eq(oh::matrices_times_vectors(arr(ms), arr(vs), n), mv, "matrices_times_vectors");
  eq(oh::matrices_times_matrices(arr(ms), arr(m2), n), mm, "matrices_times_matrices");
  eq(oh::symms_osh2inria(n, arr(ss)), inria, "symms_osh2inria");
  eq(oh::symms_inria2osh(n, arr(inria)), ss, "symms_inria2osh");
  // symmetric matrices in rows
  vector<Real> rows(size_t(k * n * n));
  for (int t = 0; t < k; ++t)
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) rows[size_t(t * n * n + i * n + j)] = ss[size_t(t * ns + slot(i, j))];
  eq(oh::matrices_to_symms(arr(rows), n), ss, "matrices_to_symms");
  for (int to = 1; to <= 3; ++to) {
    vector<Real> w;
    for (int t = 0; t < k; ++t)
      for (int i = 0; i < to; ++i) w.push_back(i < n ? vs[size_t(t * n + i)] : 0);
    eq(oh::resize_vectors(arr(vs), n, to), w, "resize_vectors");
    if (to == n || (to > 1 && n > 1)) {
      int nst = to * (to + 1) / 2;
      vector<Real> z(size_t(k * nst), 0.0);
      for (int t = 0; t < k; ++t)
        for (int i = 0; i < std::min<int>(to, n); ++i)
          for (int j = i; j < std::min<int>(to, n); ++j) {
            int sl = i == j ? i : to + (j - i == 2 ? 2 : i);
            z[size_t(t * nst + sl)] = ss[size_t(t * ns + slot(i, j))];
          }
      eq(oh::resize_symms(arr(ss), n, to), z, "resize_symms");
    }
  }
  if (k) {
    Tensor<n> m;
    for (Int i = 0; i < n; ++i)
      for (Int j = 0; j < n; ++j) m(i, j) = ms[size_t(i * n + j)];
    vector<Real> w, z;
    auto sm = m;
    for (Int i = 0; i < n; ++i)
      for (Int j = 0; j < i; ++j) sm(i, j) = sm(j, i);
    for (int t = 0; t < k; ++t) {
      w.insert(w.end(), ms.begin(), ms.begin() + n * n);
      vector<Real> one(size_t(ns), 0.0);
      for (Int i = 0; i < n; ++i)
        for (Int j = i; j < n; ++j) one[size_t(slot(i, j))] = sm(i, j);
      z.insert(z.end(), one.begin(), one.end());
    }
    eq(oh::repeat_matrix(k, m), w, "repeat_matrix");
    eq(oh::repeat_symm(k, sm), z, "repeat_symm");
  }
  c.exec();
  c.state(mc::Hash().add(int(n)).add(k).add(seed).h);
}
// scalars
static void scalars(mc::Ctx& c) {
  C = &c;
  static Real const xs[] = {0, 1e-9, 0.3, 1, 2, 10, 1e6};
  Real x = xs[c.choose(7)];
  int p = 1 + c.choose(3), q = 1 + c.choose(3);
  c.split();
  Real want = std::pow(std::pow(x, 1.0 / q), p), got = oh::power(x, p, q);
  REQ(std::abs(got - want) <= 1e-13 * want, "power", "power(%g, %d, %d) is %.17g", x, p, q, got);
  for (Real s : {-1.0, 1.0}) {
    Real y = s * x, w = x == 0 ? 1 : std::sin(y) / y;
    REQ(std::abs(oh::sin_x_over_x(y) - w) < 1e-15, "sin_x_over_x", "sin_x_over_x(%g)", y);
  }
  for (Real lo : xs)
    for (Real hi : xs)
      if (lo <= hi) REQ(oh::clamp(x, lo, hi) == (x < lo ? lo : x > hi ? hi : x), "clamp", "clamp(%g, %g, %g)", x, lo, hi);
  for (Real y : xs)
    for (Real tol : {0.0, 1e-10, 0.5, 1.0})
      for (Real fl : {0.0, 1e-10, 1.5}) {
        bool w = (x <= fl && y <= fl) || std::abs(x - y) / std::max(x, y) <= tol;
        REQ(oh::are_close(x, y, tol, fl) == w && oh::are_close(-y, -x, tol, fl) == w, "are_close", "are_close(%g, %g, %g, %g)", x, y, tol, fl);
      }
  c.exec();
  c.state(mc::Hash().add(x).add(p).add(q).h);
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C27",
      {
          {"squares2", squares<2, 6>, 60, false, "every 2x2 matrix of entries -6..6"},
          {"squares3", squares<3, 1>, 60, false, "every 3x3 matrix of entries -1..1"},
          {"squares3b", squares<3, 2>, 60, true, "every 3x3 matrix of entries -2..2"},
          {"tall32", [](mc::Ctx& c) { tall<3, 2>(c, c.thorough() ? 3 : 2); }, 60, false, "every full rank 3x2 matrix of entries -2..2 (-3..3)"},
          {"tall43", [](mc::Ctx& c) { tall<4, 3>(c, 1); }, 60, false, "every full rank 4x3 matrix of entries -1..1"},
          {"tall42", [](mc::Ctx& c) { tall<4, 2>(c, 1); }, 60, false, "every full rank 4x2 matrix of entries -1..1"},
          {"roots1", polynomials<1>, 60, false, "9 roots x 6 steps x 3 shifts"},
          {"roots2", polynomials<2>, 60, false, "every pair of 9 roots x 6 steps x 3 shifts"},
          {"roots3", polynomials<3>, 60, false, "every triple of 9 roots x 6 steps x 3 shifts"},
          {"complex", complex_roots, 60, false, "72 quadratics without real roots"},
          {"symmetric1", [](mc::Ctx& c) { symmetric<1>(c, 3); }, 60, false, "1x1"},
          {"symmetric2", [](mc::Ctx& c) { symmetric<2>(c, 6); }, 60, false, "every symmetric 2x2 matrix of entries -6..6"},
          {"symmetric3", [](mc::Ctx& c) { symmetric<3>(c, c.thorough() ? 5 : 3); }, 60, false, "every symmetric 3x3 matrix of entries -3..3 (-5..5), in three scales"},
          {"spectra2", spectra2, 60, false, "18 ratios of eigenvalues of either sign, from equal to 1:1e7, in 48 orientations and 3 scales"},
          {"spectra3", spectra3, 60, false, "16x16 ratios of eigenvalues, from equal to 1:1e5, in 182 orientations"},
          {"general2", [](mc::Ctx& c) { general<2>(c, 2); }, 60, false, "every unimodular 2x2 basis of entries -2..2 with values -1..2"},
          {"general3", [](mc::Ctx& c) { general<3>(c, 1); }, 60, false, "every unimodular 3x3 basis of entries -1..1 with values -1..2"},
          {"rotations", rotations, 60, false, "37 angles about 26 axes"},
          {"compositions", compositions, 60, false, "every product of two rotations by multiples of 30 degrees about 26 axes"},
          {"bases", bases, 60, false, "every direction of a 13^3 lattice, exact and tilted by 1e-9"},
          {"polar2", [](mc::Ctx& c) { polar<2>(c, 6); }, 60, false, "every 2x2 deformation of entries -6..6"},
          {"polar3", [](mc::Ctx& c) { polar<3>(c, 1); }, 60, false, "every 3x3 deformation of entries -1..1"},
          {"polar3b", [](mc::Ctx& c) { polar<3>(c, 2); }, 60, true, "every 3x3 deformation of entries -2..2"},
          {"aligned2", aligned<2>, 60, false, "2-3 logarithms with 8 angles"},
          {"aligned3", aligned<3>, 60, false, "2-3 logarithms with 8 angles about 26 axes"},
          {"normals", normals, 60, false, "sets of 2-4 (5) normals of a half space"},
          {"arrays1", arrays<1>, 60, false, "arrays of 0-3"},
          {"arrays2", arrays<2>, 60, false, "arrays of 0-3"},
          {"arrays3", arrays<3>, 60, false, "arrays of 0-3"},
          {"scalars", scalars, 60, false, "powers, clamping, closeness"},
      });
}
