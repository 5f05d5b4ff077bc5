// C09: the data-parallel array, map, fan, sort, scan and graph operations equal
// their element-by-element definitions.
#include <Omega_h_array_ops.hpp>
#include <Omega_h_fence.hpp>
#include <Omega_h_graph.hpp>
#include <Omega_h_int_scan.hpp>
#include <Omega_h_linpart.hpp>
#include <Omega_h_map.hpp>
#include <Omega_h_mark.hpp>
#include <Omega_h_remotes.hpp>
#include <Omega_h_sort.hpp>
#include <numeric>
#include "osh.hpp"
using std::vector;
typedef vector<int> VI;

template <class T>
struct Al;
template <>
struct Al<I8> {
  static vector<I8> v() { return {-128, -1, 0, 2, 127}; }
};
template <>
struct Al<I32> {
  static vector<I32> v() { return {INT_MIN, -1, 0, 2, INT_MAX}; }
};
template <>
struct Al<I64> {
  static vector<I64> v() { return {LLONG_MIN, -(1ll << 33), 0, 2, LLONG_MAX}; }
};
template <>
struct Al<Real> {
  static vector<Real> v() { return {-1.7e308, -0.5, 0.0, 3.25, 1.7e308}; }
};
// values that can be added, multiplied and divided without overflow
template <class T>
vector<T> small() {
  if (std::is_same<T, Real>::value) return {T(-2.5), T(-1), T(0.5), T(3), T(0.125)};
  return {T(-3), T(-1), T(1), T(2), T(7)};
}
template <class T>
static vector<T> pick(mc::Ctx& c, int n, vector<T> const& a) {
  vector<T> v;
  for (int i = 0; i < n; ++i) v.push_back(a[size_t(c.choose(int(a.size())))]);
  return v;
}
static mc::Ctx* C;
template <class A, class B>
static void same(char const* what, vector<A> const& got, vector<B> const& want) {
  C->exec();
  bool ok = got.size() == want.size();
  for (size_t i = 0; ok && i < got.size(); ++i) ok = got[i] == A(want[i]);
  if (!ok) C->fail(what, "%s gives %s, should be %s", what, str(got).c_str(), str(want).c_str());
}
template <class T, class F>
static vector<T> gen(size_t n, F f) {
  vector<T> v;
  for (size_t i = 0; i < n; ++i) v.push_back(f(i));
  return v;
}
#define V vec(
#define EACH(T, name, got, expr)                                       \
  same(name, vec(got), gen<T>(a.size(), [&](size_t i) -> T { (void)i; return T(expr); }))

template <class T>
static void elementwise(mc::Ctx& c, int maxn) {
  C = &c;
  int n = c.choose(maxn + 1);
  auto al = Al<T>::v();
  auto a = pick(c, n, al);
  c.split();
  auto b = pick(c, n, al);
  auto A = arr(a), B = arr(b);
  c.note("a=%s b=%s", str(a).c_str(), str(b).c_str());
  c.state(mc::Hash().add(hash_of(a)).add(hash_of(b)).h);
  EACH(I8, "each_eq", oh::each_eq(A, B), a[i] == b[i]);
  EACH(I8, "eq_each", oh::eq_each(A, B), a[i] == b[i]);
  EACH(I8, "neq_each", oh::neq_each(A, B), a[i] != b[i]);
  EACH(I8, "gt_each", oh::gt_each(A, B), a[i] > b[i]);
  EACH(I8, "lt_each", oh::lt_each(A, B), a[i] < b[i]);
  EACH(T, "min_each", oh::min_each(A, B), std::min(a[i], b[i]));
  EACH(T, "max_each", oh::max_each(A, B), std::max(a[i], b[i]));
  for (T x : al) {
    EACH(I8, "each_eq_to", oh::each_eq_to(A, x), a[i] == x);
    EACH(I8, "each_neq_to", oh::each_neq_to(A, x), a[i] != x);
    EACH(I8, "each_geq_to", oh::each_geq_to(A, x), a[i] >= x);
    EACH(I8, "each_leq_to", oh::each_leq_to(A, x), a[i] <= x);
    EACH(I8, "each_gt", oh::each_gt(A, x), a[i] > x);
    EACH(I8, "each_lt", oh::each_lt(A, x), a[i] < x);
    EACH(T, "each_max_with", oh::each_max_with(A, x), std::max(a[i], x));
    LO last = -1;
    for (int i = 0; i < n; ++i)
      if (a[size_t(i)] == x) last = i;
    c.require(oh::find_last(A, x) == last, "find_last", "find_last");
  }
  c.require((A == B) == (a == b), "array-equal", "operator== of %s and %s", str(a).c_str(), str(b).c_str());
  c.require(oh::is_sorted(A) == std::is_sorted(a.begin(), a.end()), "is_sorted", "is_sorted %s", str(a).c_str());
  if (n) {
    c.require(oh::get_min(A) == *std::min_element(a.begin(), a.end()), "get_min", "get_min");
    c.require(oh::get_max(A) == *std::max_element(a.begin(), a.end()), "get_max", "get_max");
  }
  same("deep_copy", vec(oh::deep_copy(A)), a);
  // each width of the condition
  {
    for (int m = 0; m < (1 << n); ++m) {
      vector<I8> cond;
      for (int i = 0; i < n; ++i) cond.push_back(I8((m >> i) & 1));
      EACH(T, "ternary_each", oh::ternary_each(oh::Bytes(arr(cond)), A, B), cond[i] ? a[i] : b[i]);
      vector<T> a2, b2, w;
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < 2; ++j) {
          a2.push_back(j ? b[size_t(i)] : a[size_t(i)]);
          b2.push_back(j ? a[size_t(i)] : b[size_t(i)]);
          w.push_back(cond[size_t(i)] ? a2.back() : b2.back());
        }
      same("ternary_each", vec(oh::ternary_each(oh::Bytes(arr(cond)), arr(a2), arr(b2))), w);
    }
  }
}

template <class T>
static void arithmetic(mc::Ctx& c, int maxn) {
  C = &c;
  int n = c.choose(maxn + 1);
  auto al = small<T>();
  auto a = pick(c, n, al);
  c.split();
  auto b = pick(c, n, al);
  auto A = arr(a), B = arr(b);
  c.note("a=%s b=%s", str(a).c_str(), str(b).c_str());
  c.state(mc::Hash().add(hash_of(a)).add(hash_of(b)).h);
  EACH(T, "add_each", oh::add_each(A, B), a[i] + b[i]);
  EACH(T, "subtract_each", oh::subtract_each(A, B), a[i] - b[i]);
  EACH(T, "multiply_each", oh::multiply_each(A, B), a[i] * b[i]);
  EACH(T, "divide_each", oh::divide_each(A, B), a[i] / b[i]);
  for (T x : al) {
    EACH(T, "multiply_each_by", oh::multiply_each_by(A, x), a[i] * x);
    EACH(T, "divide_each_by", oh::divide_each_by(A, x), a[i] / x);
    EACH(T, "add_to_each", oh::add_to_each(A, x), a[i] + x);
    EACH(T, "subtract_from_each", oh::subtract_from_each(A, x), a[i] - x);
  }
  oh::promoted_t<T> s = 0;
  for (auto x : a) s = s + x;
  c.require(oh::get_sum(A) == s, "get_sum", "get_sum of %s", str(a).c_str());
  // one factor for several values
  for (int w = 1; w <= 3; ++w) {
    vector<T> aw, m, d;
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < w; ++j) {
        aw.push_back(al[size_t(i + 2 * j) % al.size()]);
        m.push_back(T(aw.back() * b[size_t(i)]));
        d.push_back(T(aw.back() / b[size_t(i)]));
      }
    same("multiply_each", vec(oh::multiply_each(arr(aw), B)), m);
    same("divide_each", vec(oh::divide_each(arr(aw), B)), d);
    for (int k = 0; k < w; ++k) {
      vector<T> comp;
      for (int i = 0; i < n; ++i) comp.push_back(aw[size_t(i * w + k)]);
      same("get_component", vec(oh::get_component(arr(aw), w, k)), comp);
      auto dst = oh::Write<T>(LO(n * w), T(9));
      oh::set_component(dst, arr(comp), w, k);
      vector<T> want(size_t(n * w), T(9));
      for (int i = 0; i < n; ++i) want[size_t(i * w + k)] = comp[size_t(i)];
      same("set_component", vec(dst), want);
    }
  }
}

static void real_only(mc::Ctx& c) {
  C = &c;
  int n = c.choose(4);
  auto a = pick<Real>(c, n, {-2.5, 0.0, 4.0, 1e-3});
  auto b = pick<Real>(c, n, {-2.5, 0.5, 4.0, 0.0});
  c.split();
  c.note("a=%s b=%s", str(a).c_str(), str(b).c_str());
  auto A = arr(a), B = arr(b);
  EACH(Real, "fabs_each", oh::fabs_each(A), std::fabs(a[i]));
  for (Real t : {0.0, 0.25, 1.0}) EACH(Real, "interpolate_between", oh::interpolate_between(A, B, t), a[i] * (1 - t) + b[i] * t);
  bool nz = true, ok = true, pos = true;
  for (int i = 0; i < n; ++i) {
    if (a[size_t(i)] == 0) nz = false;
    if (b[size_t(i)] == 0 && a[size_t(i)] != 0) ok = false;
    if (a[size_t(i)] <= 0) pos = false;
  }
  if (nz) EACH(Real, "invert_each", oh::invert_each(A), 1 / a[i]);
  if (ok) EACH(Real, "divide_each_maybe_zero", oh::divide_each_maybe_zero(A, B), b[i] == 0 ? 0 : a[i] / b[i]);
  if (pos) EACH(Real, "pow_each", oh::pow_each(A, B), std::pow(a[i], b[i]));
  for (double tol : {1e-6, 0.5}) {
    bool abs = true;
    for (int i = 0; i < n; ++i)
      if (std::fabs(a[size_t(i)] - b[size_t(i)]) > tol) abs = false;
    c.require(oh::are_close_abs(A, B, tol) == abs, "are_close_abs", "are_close_abs");
  }
  vector<I32> ints;
  for (auto x : a) ints.push_back(I32(x * 4));
  same("array_cast", vec(oh::array_cast<Real>(arr(ints))), ints);
  c.state(mc::Hash().add(hash_of(a)).add(hash_of(b)).h);
}

static void bytes(mc::Ctx& c, int maxn) {
  C = &c;
  int n = c.choose(maxn + 1);
  auto a = pick<I8>(c, n, {0, 1});
  c.split();
  auto b = pick<I8>(c, n, {0, 1});
  c.note("a=%s b=%s", str(a).c_str(), str(b).c_str());
  auto A = arr(a), B = arr(b);
  EACH(I8, "land_each", oh::land_each(A, B), a[i] && b[i]);
  EACH(I8, "lor_each", oh::lor_each(A, B), a[i] || b[i]);
  EACH(I8, "bit_or_each", oh::bit_or_each(A, B), a[i] | b[i]);
  EACH(I8, "bit_neg_each", oh::bit_neg_each(A), ~a[i]);
  EACH(I8, "invert_marks", oh::invert_marks(A), !a[i]);
  VI on, scan = {0};
  for (int i = 0; i < n; ++i) {
    if (a[size_t(i)]) on.push_back(i);
    scan.push_back(scan.back() + a[size_t(i)]);
  }
  same("collect_marked", vec(oh::collect_marked(A)), on);
  same("offset_scan", vec(oh::offset_scan(A)), scan);
  same("array_cast", vec(oh::array_cast<I32>(A)), a);
  c.state(mc::Hash().add(hash_of(a)).add(hash_of(b)).h);
}

template <class T>
static T val(int i, int j) {
  return T((i * 37 + j * 11) % 101 - 50);
}
template <class T>
static vector<T> values(int n, int w) {
  vector<T> v;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < w; ++j) v.push_back(val<T>(i, j));
  return v;
}

template <class T>
static void map_type(VI const& a2b, int nb, bool injective, int w) {
  auto& c = *C;
  int na = int(a2b.size());
  auto M = oh::LOs(arr(vector<LO>(a2b.begin(), a2b.end())));
  auto bd = values<T>(nb, w);
  vector<T> want;
  for (int b : a2b)
    for (int j = 0; j < w; ++j) want.push_back(bd[size_t(b * w + j)]);
  same("unmap", vec(oh::unmap(M, arr(bd), w)), want);
  auto ad = values<T>(na, w);
  vector<T> sum = values<T>(nb, w), on(size_t(nb * w), T(99)), val1(size_t(nb), T(5));
  for (int a = 0; a < na; ++a) {
    val1[size_t(a2b[size_t(a)])] = T(7);
    for (int j = 0; j < w; ++j) {
      auto& x = sum[size_t(a2b[size_t(a)] * w + j)];
      x = T(x + ad[size_t(a * w + j)]);
      on[size_t(a2b[size_t(a)] * w + j)] = ad[size_t(a * w + j)];
    }
  }
  if (injective) {
    if (na <= nb) same("map_onto", vec(oh::map_onto(oh::Read<T>(arr(ad)), M, nb, T(99), w)), on);
    oh::Write<T> s = oh::deep_copy(arr(values<T>(nb, w)));
    oh::add_into(arr(ad), M, s, w);
    same("add_into", vec(s), sum);
    oh::Write<T> o = oh::Write<T>(nb * w, T(99));
    oh::map_into(oh::Read<T>(arr(ad)), M, o, w);
    same("map_into", vec(o), on);
    if (na == nb) same("permute", vec(oh::permute(arr(ad), M, w)), on);
  }
  oh::Write<T> mv(nb, T(5));
  oh::map_value_into(T(7), M, mv);
  same("map_value_into", vec(mv), val1);
  (void)c;
}

static void check_inverse(char const* what, oh::Graph const& g, VI const& a2b, int nb, bool ordered) {
  auto& c = *C;
  vector<VI> want((size_t)nb);
  for (size_t a = 0; a < a2b.size(); ++a) want[size_t(a2b[a])].push_back(int(a));
  auto off = vec(g.a2ab);
  auto to = vec(g.ab2b);
  c.exec();
  c.require(int(off.size()) == nb + 1 && off[0] == 0 && off.back() == int(to.size()), what, "%s: offsets %s", what, str(off).c_str());
  for (int b = 0; b < nb; ++b) {
    VI row(to.begin() + off[size_t(b)], to.begin() + off[size_t(b) + 1]);
    if (!ordered) std::sort(row.begin(), row.end());
    c.require(row == want[size_t(b)], what, "%s: row %d is %s, should be %s", what, b, str(row).c_str(), str(want[size_t(b)]).c_str());
  }
}

static void maps(mc::Ctx& c, int maxa, int maxb) {
  C = &c;
  int nb = 1 + c.choose(maxb), na = c.choose(maxa + 1);
  VI a2b;
  for (int i = 0; i < na; ++i) {
    a2b.push_back(c.choose(nb));
    if (i == 1) c.split();
  }
  if (na < 2) c.split();
  c.note("a2b=%s nb=%d", str(a2b).c_str(), nb);
  c.state(mc::Hash().add(hash_of(a2b)).add(nb).h);
  bool inj = std::set<int>(a2b.begin(), a2b.end()).size() == a2b.size();
  auto M = oh::LOs(arr(vector<LO>(a2b.begin(), a2b.end())));
  for (int w = 1; w <= 3; ++w) {
    map_type<I8>(a2b, nb, inj, w);
    map_type<I32>(a2b, nb, inj, w);
    map_type<I64>(a2b, nb, inj, w);
    map_type<Real>(a2b, nb, inj, w);
  }
  vector<I8> img((size_t)nb, 0);
  VI inv((size_t)nb, -1);
  for (int a = 0; a < na; ++a) {
    img[size_t(a2b[size_t(a)])] = 1;
    inv[size_t(a2b[size_t(a)])] = a;
  }
  same("mark_image", vec(oh::mark_image(M, nb)), img);
  check_inverse("invert_map_by_atomics", oh::invert_map_by_atomics(M, nb), a2b, nb, false);
  check_inverse("invert_map_by_sorting", oh::invert_map_by_sorting(M, nb), a2b, nb, true);
  if (inj) {
    same("invert_injective_map", vec(oh::invert_injective_map(M, nb)), inv);
    if (na == nb) same("invert_permutation", vec(oh::invert_permutation(M)), inv);
  }
  if (std::is_sorted(a2b.begin(), a2b.end())) {
    VI f = {0};
    for (int b = 0; b < nb; ++b) f.push_back(f.back() + int(std::count(a2b.begin(), a2b.end(), b)));
    same("invert_funnel", vec(oh::invert_funnel(M, nb)), f);
    same("invert_fan", vec(oh::invert_fan(oh::LOs(arr(f)))), a2b);
  }
  // composition with every second map of a fixed family
  for (int k = 0; k < 3; ++k) {
    VI b2c, want;
    for (int b = 0; b < nb; ++b) b2c.push_back((b * (k + 1) + k) % 4);
    for (int b : a2b) want.push_back(b2c[size_t(b)]);
    same("compound_maps", vec(oh::compound_maps(M, oh::LOs(arr(b2c)))), want);
  }
}

template <class T>
static void fan_type(VI const& deg, VI const& off, int w) {
  int na = int(deg.size()), nb = off.back();
  auto F = oh::LOs(arr(off));
  auto ad = values<T>(na, w);
  vector<T> ex;
  for (int a = 0; a < na; ++a)
    for (int k = 0; k < deg[size_t(a)]; ++k)
      for (int j = 0; j < w; ++j) ex.push_back(ad[size_t(a * w + j)]);
  same("expand", vec(oh::expand(arr(ad), F, w)), ex);
  auto bd = values<T>(nb, w);
  vector<T> mn, mx, sm;
  for (int a = 0; a < na; ++a)
    for (int j = 0; j < w; ++j) {
      oh::promoted_t<T> s = 0, lo = oh::ArithTraits<T>::max(), hi = oh::ArithTraits<T>::min();
      for (int b = off[size_t(a)]; b < off[size_t(a) + 1]; ++b) {
        oh::promoted_t<T> x = bd[size_t(b * w + j)];
        s = s + x;
        lo = std::min(lo, x);
        hi = std::max(hi, x);
      }
      mn.push_back(T(lo));
      mx.push_back(T(hi));
      sm.push_back(T(s));
    }
  same("fan_reduce-sum", vec(oh::fan_reduce(F, oh::Read<T>(arr(bd)), w, OMEGA_H_SUM)), sm);
  // an empty set has no least and greatest value
  auto gmn = vec(oh::fan_reduce(F, oh::Read<T>(arr(bd)), w, OMEGA_H_MIN)), gmx = vec(oh::fan_reduce(F, oh::Read<T>(arr(bd)), w, OMEGA_H_MAX));
  for (int a = 0; a < na; ++a)
    if (!deg[size_t(a)])
      for (int j = 0; j < w; ++j) {
        size_t i = size_t(a * w + j);
        if (i < gmn.size()) gmn[i] = mn[i];
        if (i < gmx.size()) gmx[i] = mx[i];
      }
  same("fan_reduce-min", gmn, mn);
  same("fan_reduce-max", gmx, mx);
}

static void fans(mc::Ctx& c, int maxa, int maxd) {
  C = &c;
  int na = c.choose(maxa + 1);
  VI deg, off = {0};
  for (int i = 0; i < na; ++i) {
    deg.push_back(c.choose(maxd + 1));
    off.push_back(off.back() + deg.back());
  }
  c.split();
  c.note("degrees=%s", str(deg).c_str());
  c.state(hash_of(deg));
  auto F = oh::LOs(arr(off));
  same("get_degrees", vec(oh::get_degrees(F)), deg);
  same("offset_scan", vec(oh::offset_scan(oh::LOs(arr(deg)))), off);
  vector<I8> nz;
  VI inv;
  for (int a = 0; a < na; ++a) {
    nz.push_back(deg[size_t(a)] > 0);
    for (int k = 0; k < deg[size_t(a)]; ++k) inv.push_back(a);
  }
  same("mark_fan_preimage", vec(oh::mark_fan_preimage(F)), nz);
  same("invert_fan", vec(oh::invert_fan(F)), inv);
  VI d2, o2 = {0}, om = {0};
  for (int a = 0; a < na; ++a) {
    d2.push_back((a * 2 + 1) % 3);
    o2.push_back(o2.back() + d2.back());
    om.push_back(om.back() + d2.back() * deg[size_t(a)]);
  }
  same("multiply_fans", vec(oh::multiply_fans(F, oh::LOs(arr(o2)))), om);
  for (int w = 1; w <= 3; ++w) {
    fan_type<I8>(deg, off, w);
    fan_type<I32>(deg, off, w);
    fan_type<I64>(deg, off, w);
    fan_type<Real>(deg, off, w);
  }
  // fill_right
  oh::Write<LO> fr(LO(off.back()), -1);
  VI want;
  for (int a = 0; a < na; ++a)
    for (int k = 0; k < deg[size_t(a)]; ++k) {
      if (k == 0) fr[LO(want.size())] = a;
      want.push_back(a);
    }
  oh::fill_right(fr);
  same("fill_right", vec(fr), want);
}

// rows longer than a byte can count
static void wide(mc::Ctx& c) {
  C = &c;
  static int const sizes[] = {0, 1, 127, 128, 129, 255, 256, 257, 300};
  int a = sizes[c.choose(9)], b = sizes[c.choose(9)];
  int keep = c.choose(4);
  c.split();
  c.note("rows of %d and %d edges, keep pattern %d", a, b, keep);
  VI off = {0, a, a + b}, to;
  vector<I8> k;
  VI koff = {0}, kto;
  for (int i = 0; i < a + b; ++i) {
    to.push_back(i % 2);
    k.push_back(keep == 0 ? 1 : keep == 1 ? i % 2 == 0 : keep == 2 ? i < a : i >= a);
    if (k.back()) kto.push_back(to.back());
    if (i == a - 1 || (i == 0 && a == 0)) {
    }
  }
  int n0 = int(std::count(k.begin(), k.begin() + a, 1)), n1 = int(std::count(k.begin() + a, k.end(), 1));
  koff = {0, n0, n0 + n1};
  auto g = oh::filter_graph_edges(oh::Graph(oh::LOs(arr(off)), oh::LOs(arr(to))), oh::Read<I8>(arr(k)));
  same("filter_graph_edges", vec(g.a2ab), koff);
  same("filter_graph_edges", vec(g.ab2b), kto);
  VI scan = {0};
  for (auto x : k) scan.push_back(scan.back() + x);
  same("offset_scan", vec(oh::offset_scan(oh::Read<I8>(arr(k)))), scan);
  c.require(oh::get_sum(oh::Read<I8>(arr(k))) == n0 + n1, "get_sum", "sum of %d marks", n0 + n1);
  VI inv;
  for (int i = 0; i < a; ++i) inv.push_back(0);
  for (int i = 0; i < b; ++i) inv.push_back(1);
  same("invert_fan", vec(oh::invert_fan(oh::LOs(arr(off)))), inv);
  check_inverse("invert_map_by_atomics", oh::invert_map_by_atomics(oh::LOs(arr(inv)), 2), inv, 2, false);
  c.state(mc::Hash().add(a).add(b).add(keep).h);
}

template <class T>
static void sorting(mc::Ctx& c, int width, int n, vector<T> const& al) {
  C = &c;
  n = c.choose(n + 1);
  vector<vector<T>> keys;
  vector<T> flat;
  for (int i = 0; i < n; ++i) {
    keys.push_back(pick(c, width, al));
    flat.insert(flat.end(), keys.back().begin(), keys.back().end());
    if (i == 0) c.split();
  }
  if (!n) c.split();
  c.note("width %d keys %s", width, str(flat).c_str());
  VI perm((size_t)n);
  std::iota(perm.begin(), perm.end(), 0);
  // insertion: stable by construction
  for (int i = 1; i < n; ++i)
    for (int j = i; j > 0 && keys[size_t(perm[size_t(j)])] < keys[size_t(perm[size_t(j - 1)])]; --j) std::swap(perm[size_t(j)], perm[size_t(j - 1)]);
  same("sort_by_keys", vec(oh::sort_by_keys(oh::Read<T>(arr(flat)), width)), perm);
  c.state(hash_of(flat));
}
static void small_range(mc::Ctx& c, int n) {
  C = &c;
  n = c.choose(n + 1);
  auto v = pick<I32>(c, n, {INT_MIN, -1, 0, 3, INT_MAX - 1});
  c.split();
  c.note("%s", str(v).c_str());
  oh::LOs perm, fan;
  oh::Read<I32> uniq;
  oh::sort_small_range(arr(v), &perm, &fan, &uniq);
  std::map<I32, VI> by;
  for (int i = 0; i < n; ++i) by[v[size_t(i)]].push_back(i);
  VI wf = {0}, wp((size_t)n), wu;
  for (auto& p : by) {
    wu.push_back(p.first);
    for (int i : p.second) {
      wp[size_t(i)] = wf.back();
      wf.back()++;
    }
    int e = wf.back();
    wf.back() = e;
    wf.push_back(e);
  }
  wf.pop_back();
  VI f2 = {0};
  for (auto& p : by) f2.push_back(f2.back() + int(p.second.size()));
  same("sort_small_range-perm", vec(perm), wp);
  same("sort_small_range-fan", vec(fan), f2);
  same("sort_small_range-uniq", vec(uniq), wu);
  c.state(hash_of(v));
}

template <class T>
static void layout(mc::Ctx& c) {
  C = &c;
  int k = c.choose(4);
  VI sizes;
  for (int i = 0; i < k; ++i) sizes.push_back(c.choose(4));
  c.split();
  c.note("arrays of sizes %s", str(sizes).c_str());
  vector<oh::Read<T>> as;
  vector<T> all;
  bool eq = true;
  for (int i = 0; i < k; ++i) {
    vector<T> v;
    for (int j = 0; j < sizes[size_t(i)]; ++j) v.push_back(val<T>(i, j));
    all.insert(all.end(), v.begin(), v.end());
    as.push_back(arr(v));
    if (sizes[size_t(i)] != sizes[0]) eq = false;
  }
  if (k) same("coalesce", vec(oh::coalesce(as)), all);
  if (k && eq) {
    vector<T> il;
    for (int j = 0; j < sizes[0]; ++j)
      for (int i = 0; i < k; ++i) il.push_back(val<T>(i, j));
    same("interleave", vec(oh::interleave(as)), il);
  }
  auto src = arr(all);
  int n = int(all.size());
  for (int b = 0; b <= n; ++b)
    for (int e = b; e <= n; ++e) {
      same("unmap_range", vec(oh::unmap_range(b, e, oh::Read<T>(src), 1)), vector<T>(all.begin() + b, all.begin() + e));
      if (b % 2 == 0 && e % 2 == 0) same("unmap_range of pairs", vec(oh::unmap_range(b / 2, e / 2, oh::Read<T>(src), 2)), vector<T>(all.begin() + b, all.begin() + e));
      auto d = oh::Write<T>(n, T(77));
      vector<T> part, want(size_t(n), T(77));
      for (int i = b; i < e; ++i) {
        part.push_back(T(i));
        want[size_t(i)] = T(i);
      }
      oh::map_into_range(oh::Read<T>(arr(part)), b, e, d, 1);
      same("map_into_range", vec(d), want);
      if (b % 2 == 0 && e % 2 == 0 && n % 2 == 0) {
        auto d2 = oh::Write<T>(n, T(77));
        oh::map_into_range(oh::Read<T>(arr(part)), b / 2, e / 2, d2, 2);
        same("map_into_range of pairs", vec(d2), want);
      }
    }
  for (int m = 0; m < 5; ++m) {
    same("Write(size,offset,stride)", vec(oh::Read<T>(m, T(3), T(2))), gen<T>(size_t(m), [](size_t i) { return T(3 + 2 * int(i)); }));
    same("Write(size,value)", vec(oh::Read<T>(m, T(4))), vector<T>(size_t(m), T(4)));
  }
  // binary search in a sorted array of distinct values
  std::set<T> ds(all.begin(), all.end());
  vector<T> dv(ds.begin(), ds.end());
  auto D = oh::Read<T>(arr(dv));
  for (T x : Al<T>::v()) dv.push_back(x);
  for (T x : dv) {
    int at = -1;
    for (size_t i = 0; i < ds.size(); ++i)
      if (dv[i] == x) at = int(i);
    c.require(oh::binary_search(D, x, LO(ds.size())) == at, "binary_search", "binary_search");
  }
  c.state(hash_of(sizes));
}

// graphs
static void graphs(mc::Ctx& c, int na, int nb, int maxd) {
  C = &c;
  na = 1 + c.choose(na);
  vector<VI> rows, rows2;
  VI off = {0}, to, off2 = {0}, to2;
  for (int a = 0; a < na; ++a) {
    int d = c.choose(maxd + 1);
    VI r;
    for (int k = 0; k < d; ++k) r.push_back(c.choose(nb));
    rows.push_back(r);
    to.insert(to.end(), r.begin(), r.end());
    off.push_back(int(to.size()));
    if (a == 0) c.split();
    // a second graph with the same nodes
    VI r2;
    for (int k = 0; k < (a + d) % 3; ++k) r2.push_back((a + k * 2 + 1) % nb);
    rows2.push_back(r2);
    to2.insert(to2.end(), r2.begin(), r2.end());
    off2.push_back(int(to2.size()));
  }
  c.note("graph rows %s", str(rows).c_str());
  c.state(hash_of(to) * 31 + hash_of(off));
  oh::Graph G(oh::LOs(arr(off)), oh::LOs(arr(to))), H(oh::LOs(arr(off2)), oh::LOs(arr(to2)));
  auto check = [&](char const* what, oh::Graph g, vector<VI> const& want) {
    VI o = {0}, t;
    for (auto& r : want) {
      t.insert(t.end(), r.begin(), r.end());
      o.push_back(int(t.size()));
    }
    same(what, vec(g.a2ab), o);
    same(what, vec(g.ab2b), t);
  };
  vector<VI> sum = rows;
  for (int a = 0; a < na; ++a) sum[size_t(a)].insert(sum[size_t(a)].end(), rows2[size_t(a)].begin(), rows2[size_t(a)].end());
  check("add_edges", oh::add_edges(G, H), sum);
  vector<VI> self;
  for (int a = 0; a < na; ++a) {
    self.push_back({a});
    self.back().insert(self.back().end(), rows[size_t(a)].begin(), rows[size_t(a)].end());
  }
  check("add_self_edges", oh::add_self_edges(G), self);
  for (int m = 0; m < 4; ++m) {
    VI x2a;
    vector<VI> want;
    for (int x = 0; x < m; ++x) {
      x2a.push_back((x * 5 + m) % na);
      want.push_back(rows[size_t(x2a.back())]);
    }
    check("unmap_graph", oh::unmap_graph(oh::LOs(arr(x2a)), G), want);
  }
  for (int m = 0; m < (1 << std::min<size_t>(to.size(), 6)); ++m) {
    vector<I8> keep;
    for (size_t i = 0; i < to.size(); ++i) keep.push_back(I8((m >> (i % 6)) & 1));
    vector<VI> want;
    size_t i = 0;
    for (auto& r : rows) {
      want.push_back({});
      for (int b : r)
        if (keep[i++]) want.back().push_back(b);
    }
    check("filter_graph_edges", oh::filter_graph_edges(G, oh::Read<I8>(arr(keep))), want);
  }
  bool square = true;
  for (int b : to)
    if (b >= na) square = false;
  if (square)
    for (int m = 0; m < (1 << na); ++m) {
      vector<I8> keep;
      VI renum;
      int k = 0;
      for (int a = 0; a < na; ++a) {
        keep.push_back(I8((m >> a) & 1));
        renum.push_back(keep.back() ? k++ : -1);
      }
      vector<VI> want;
      for (int a = 0; a < na; ++a)
        if (keep[size_t(a)]) {
          want.push_back({});
          for (int b : rows[size_t(a)])
            if (keep[size_t(b)]) want.back().push_back(renum[size_t(b)]);
        }
      check("filter_graph_nodes", oh::filter_graph_nodes(G, oh::Read<I8>(arr(keep))), want);
    }
  for (int w = 1; w <= 2; ++w) {
    auto bd = values<I32>(nb, w);
    VI sm;
    for (auto& r : rows)
      for (int j = 0; j < w; ++j) {
        int s = 0;
        for (int b : r) s += bd[size_t(b * w + j)];
        sm.push_back(s);
      }
    same("graph_reduce", vec(oh::graph_reduce(G, oh::Read<I32>(arr(bd)), w, OMEGA_H_SUM)), sm);
    bool full = true;
    for (auto& r : rows)
      if (r.empty()) full = false;
    vector<Real> wt, rb = values<Real>(nb, w), avg;
    for (size_t i = 0; i < to.size(); ++i) wt.push_back(double(1 << (i % 3)));
    size_t i = 0;
    for (auto& r : rows) {
      vector<Real> s(size_t(w), 0.0);
      Real t = 0;
      for (int b : r) {
        for (int j = 0; j < w; ++j) s[size_t(j)] += rb[size_t(b * w + j)] * wt[i];
        t += wt[i++];
      }
      for (int j = 0; j < w; ++j) avg.push_back(s[size_t(j)] / t);
    }
    if (full) same("graph_weighted_average", vec(oh::graph_weighted_average(G, arr(wt), arr(rb), w)), avg);
    // map_onto through a graph whose targets are distinct
    if (std::set<int>(to.begin(), to.end()).size() == to.size()) {
      auto ad = values<I64>(na, w);
      vector<I64> on(size_t(nb * w), -1);
      for (int a = 0; a < na; ++a)
        for (int b : rows[size_t(a)])
          for (int j = 0; j < w; ++j) on[size_t(b * w + j)] = ad[size_t(a * w + j)];
      same("graph map_onto", vec(oh::map_onto(oh::Read<I64>(arr(ad)), G, nb, I64(-1), w)), on);
    }
  }
  c.require((G == H) == (rows == rows2), "graph-equal", "operator== of graphs") ;
}

// linear partitions: every total and communicator size
static void linear(mc::Ctx& c, int maxtotal, int maxranks) {
  C = &c;
  int total = c.choose(maxtotal + 1), size = 1 + c.choose(maxranks);
  c.split();
  c.note("%d items over %d ranks", total, size);
  vector<I64> g;
  VI ranks, idxs;
  for (int r = 0; r < size; ++r) {
    int n = oh::linear_partition_size(GO(total), I32(size), I32(r));
    c.require(n >= total / size && n <= (total + size - 1) / size, "linear_partition_size", "rank %d has %d of %d items on %d ranks", r, n, total, size);
    for (int i = 0; i < n; ++i) {
      g.push_back(I64(g.size()));
      ranks.push_back(r);
      idxs.push_back(i);
    }
  }
  c.require(int(g.size()) == total, "linear_partition_size", "the ranks hold %zu of %d items", g.size(), total);
  auto o = oh::globals_to_linear_owners(oh::GOs(arr(g)), GO(total), I32(size));
  same("globals_to_linear_owners-ranks", vec(o.ranks), ranks);
  same("globals_to_linear_owners-idxs", vec(o.idxs), idxs);
  c.state(uint64_t(total * 100 + size));
}

int main(int argc, char** argv) {
  vector<mc::Suite> s;
  auto add = [&](char const* n, std::function<void(mc::Ctx&)> f, char const* b, bool th = false) {
    mc::Suite x;
    x.name = n;
    x.body = f;
    x.bounds = b;
    x.thorough_only = th;
    s.push_back(x);
  };
  auto N = [](mc::Ctx& c) { return c.thorough() ? 4 : 3; };
  add("each_i8", [=](mc::Ctx& c) { elementwise<I8>(c, N(c)); }, "all pairs of 8-bit arrays of <=3 (thorough 4) of 5 values incl. the extremes");
  add("each_i32", [=](mc::Ctx& c) { elementwise<I32>(c, N(c)); }, "same, 32 bits");
  add("each_i64", [=](mc::Ctx& c) { elementwise<I64>(c, N(c)); }, "same, 64 bits");
  add("each_real", [=](mc::Ctx& c) { elementwise<Real>(c, N(c)); }, "same, reals");
  add("arith_i8", [=](mc::Ctx& c) { arithmetic<I8>(c, N(c)); }, "arithmetic on all pairs of arrays of <=3 (thorough 4) of 5 values, 8 bits");
  add("arith_i32", [=](mc::Ctx& c) { arithmetic<I32>(c, N(c)); }, "same, 32 bits");
  add("arith_i64", [=](mc::Ctx& c) { arithmetic<I64>(c, N(c)); }, "same, 64 bits");
  add("arith_real", [=](mc::Ctx& c) { arithmetic<Real>(c, N(c)); }, "same, reals");
  add("reals", real_only, "functions of reals, all pairs of arrays of <=3 of 4 values");
  add("bytes", [](mc::Ctx& c) { bytes(c, c.thorough() ? 7 : 5); }, "all pairs of mark arrays of <=5 (thorough 7)");
  add("maps", [](mc::Ctx& c) { maps(c, c.thorough() ? 7 : 5, 4); }, "every map of <=5 (thorough 7) items into <=4, widths 1-3, 4 types");
  add("fans", [](mc::Ctx& c) { fans(c, c.thorough() ? 7 : 5, 3); }, "every fan of <=5 (thorough 7) nodes of degree <=3, widths 1-3, 4 types");
  add("wide", wide, "rows of 0-300 edges around the limits of a byte");
  add("sort1", [](mc::Ctx& c) { sorting<I32>(c, 1, c.thorough() ? 7 : 5, {INT_MIN, -1, 0, 5, INT_MAX}); }, "every array of <=5 (thorough 7) of 5 keys");
  add("sort1l", [](mc::Ctx& c) { sorting<I64>(c, 1, c.thorough() ? 6 : 5, {LLONG_MIN, -(1ll << 32), 0, 1ll << 32, LLONG_MAX}); }, "same, 64 bits");
  add("sort2", [](mc::Ctx& c) { sorting<I32>(c, 2, c.thorough() ? 6 : 4, {-7, 0, 8}); }, "<=4 (thorough 6) pairs over 3 values");
  add("sort3", [](mc::Ctx& c) { sorting<I64>(c, 3, c.thorough() ? 6 : 4, {0, 1ll << 40}); }, "<=4 (thorough 6) triples over 2 values");
  add("sort4", [](mc::Ctx& c) { sorting<I32>(c, 4, c.thorough() ? 4 : 3, {0, 1}); }, "<=3 (thorough 4) quadruples over 2 values");
  add("small_range", [](mc::Ctx& c) { small_range(c, c.thorough() ? 7 : 5); }, "every array of <=5 (thorough 7) of 5 values");
  add("layout_i8", layout<I8>, "<=3 arrays of sizes 0-3, all ranges");
  add("layout_i32", layout<I32>, "same, 32 bits");
  add("layout_i64", layout<I64>, "same, 64 bits");
  add("layout_real", layout<Real>, "same, reals");
  add("graphs", [](mc::Ctx& c) { graphs(c, 3, c.thorough() ? 4 : 3, c.thorough() ? 3 : 2); }, "every graph of <=3 nodes, degree <=2 (thorough 3), 3 (thorough 4) targets; all node and edge filters");
  add("linear", [](mc::Ctx& c) { linear(c, c.thorough() ? 200 : 40, c.thorough() ? 40 : 12); }, "every total <=40 (thorough 200) on <=12 (thorough 40) ranks");
  return mc::main(argc, argv, "C09", s);
}
