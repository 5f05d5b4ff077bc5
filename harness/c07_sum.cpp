// C07: reproducible sums: the same bits whatever the order of the values, their
// placement on ranks and the order in which MPI combines the ranks; within the
// documented distance of the exact sum.
#include <Omega_h_int128.hpp>
#include <Omega_h_shape.hpp>
#include <Omega_h_ghost.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <cfloat>
#include "distkit.hpp"
#include "soups.hpp"
using namespace minimpi;
using std::vector;
using big = boost::multiprecision::cpp_int;
typedef __int128 i128;
typedef unsigned __int128 u128;

static uint64_t bits(double x) {
  uint64_t u;
  memcpy(&u, &x, 8);
  return u;
}
// exact value in units of 2^-1074
static big exact(double x) {
  if (x == 0) return 0;
  int e;
  double m = std::frexp(x, &e);
  auto i = int64_t(std::ldexp(m, 53));
  int s = e - 53 + 1074;
  big b = i;
  if (s >= 0) return b * (big(1) << unsigned(s));
  return b / (big(1) << unsigned(-s));  // exact: denormals end in zeros
}
static big pow2(int e) { return e + 1074 < 0 ? big(1) : big(1) << unsigned(e + 1074); }

static void check_value(vector<double> const& v, double got) {
  int emax = INT_MIN;
  big sum = 0;
  for (double x : v) {
    sum += exact(x);
    if (x != 0) {
      int e;
      std::frexp(x, &e);
      emax = std::max(emax, e);
    }
  }
  if (emax == INT_MIN) {
    MKREQ(got == 0.0, "sum-zero", "the sum of zeros is %.17g", got);
    return;
  }
  big unit = pow2(emax - 52);
  bool mult = true;
  for (double x : v)
    if (exact(x) % unit != 0) mult = false;
  if (std::isinf(got)) {
    big lim = exact(DBL_MAX) - unit * big(v.size());
    MKREQ((got > 0 ? sum : big(-sum)) > lim, "sum-overflow", "sum of %s is %.17g", str(v).c_str(), got);
    return;
  }
  MKREQ(got == got, "sum-nan", "sum of %s is not a number", str(v).c_str());
  big d = exact(got) - sum;
  if (d < 0) d = -d;
  int e;
  std::frexp(got, &e);
  big ulp = pow2(e - 53);
  MKREQ(d <= unit * big(v.size()) + ulp, "sum-accuracy", "sum of %s is %.17g: farther from the exact sum than %zu units of 2^%d", str(v).c_str(), got,
      v.size(), emax - 52);
  big a = sum < 0 ? big(-sum) : sum;
  if (mult && a < unit * (big(1) << 53)) MKREQ(d == 0, "sum-exact", "sum of %s is %.17g, though it is exactly representable", str(v).c_str(), got);
}

static vector<double> const alphabet = {0.0, -0.0, 1.0, -1.0, 0.1, -0.3, 1.0 / 3.0, 1 + DBL_EPSILON, -2.5e15, 3.7e-17, 1e300, -9.99e299, 1.5e308, 5e-324, -3e-310, DBL_MIN, 4503599627370497.0};

static void arith(mc::Ctx& c) {
  static vector<int64_t> const hi = {0, 1, -1, 2, -2, 3, int64_t(1) << 31, -(int64_t(1) << 31) - 1, int64_t(1) << 62, -(int64_t(1) << 62), (int64_t(1) << 62) - 1, 0x5555555555555555};
  static vector<uint64_t> const lo = {0, 1, 2, 3, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, 0xfffffffffffffffeull, ~0ull, 1ull << 32, 0xffffffffull,
      0xaaaaaaaaaaaaaaaaull};
  auto pick = [&] {
    int64_t h = hi[size_t(c.choose(int(hi.size())))];
    uint64_t l = lo[size_t(c.choose(int(lo.size())))];
    return std::make_pair(h, l);
  };
  auto a = pick();
  c.split();
  auto A = i128((u128(uint64_t(a.first)) << 64) | a.second);
  oh::Int128 x(a.first, a.second);
  auto val = [](oh::Int128 q) { return i128((u128(uint64_t(q.high)) << 64) | q.low); };
  c.note("a=%lld:%llu", (long long)a.first, (unsigned long long)a.second);
  c.exec(lo.size() * hi.size());
  for (auto h : hi)
    for (auto l : lo) {
      auto B = i128((u128(uint64_t(h)) << 64) | l);
      oh::Int128 y(h, l);
      c.require(val(x + y) == i128(u128(A) + u128(B)), "int128-add", "+ %lld:%llu", (long long)h, (unsigned long long)l);
      c.require(val(x - y) == i128(u128(A) - u128(B)), "int128-sub", "- %lld:%llu", (long long)h, (unsigned long long)l);
      c.require((x < y) == (A < B), "int128-less", "< %lld:%llu", (long long)h, (unsigned long long)l);
      c.require((x == y) == (A == B), "int128-equal", "== %lld:%llu", (long long)h, (unsigned long long)l);
    }
  c.require(val(-x) == i128(-u128(A)), "int128-neg", "negation");
  for (int k = 1; k < 64; ++k) c.require(val(x >> k) == (A >> k), "int128-shift", ">> %d", k);
  c.require(val(oh::Int128(a.first)) == i128(a.first), "int128-from", "from 64 bits");
  for (double unit : {1.0, 0.5, std::ldexp(1.0, -300), std::ldexp(1.0, 200)}) {
    double got = x.to_double(unit);
    i128 t = A;
    bool neg = t < 0;
    if (neg) t = -t;
    int s = 0;
    while (t >> 64) {
      t >>= 1;
      ++s;
    }
    // truncated to 64 bits, then rounded
    double want = std::ldexp(double(uint64_t(t)), s) * unit * (neg ? -1 : 1);
    c.require(got == want || std::fabs(got - want) <= std::fabs(want) * DBL_EPSILON, "int128-to-double", "to_double(%g) = %.17g, should be %.17g", unit, got, want);
  }
  c.state(mc::Hash().add(a).h);
}

static void order(mc::Ctx& c, int maxn) {
  int n = c.choose(maxn + 1);
  vector<int> pick;
  int lo = 0;
  for (int i = 0; i < n; ++i) {
    lo += c.choose(int(alphabet.size()) - lo);
    pick.push_back(lo);
    if (i == 1) c.split();
  }
  if (n < 2) c.split();
  vector<double> v;
  for (int i : pick) v.push_back(alphabet[size_t(i)]);
  c.note("values %s", str(v).c_str());
  double first = oh::repro_sum(arr(v));
  check_value(v, first);
  std::sort(pick.begin(), pick.end());
  do {
    vector<double> w;
    for (int i : pick) w.push_back(alphabet[size_t(i)]);
    double got = oh::repro_sum(arr(w));
    c.exec();
    c.require(bits(got) == bits(first), "sum-order", "values in the order %s sum to %.17g, in another to %.17g", str(w).c_str(), got, first);
  } while (std::next_permutation(pick.begin(), pick.end()));
  c.state(hash_of(v));
  c.outcome(bits(first));
}

// many values: carries into the upper word
static void many(mc::Ctx& c) {
  static vector<double> const val = {1 - DBL_EPSILON / 2, -(1 - DBL_EPSILON / 2), 1.0, 0.7, -1e-9, 1.9e300, 3.3e-300};
  static vector<int> const rep = {1, 4095, 4096, 4097, 9000};
  vector<double> v;
  vector<std::pair<int, int>> runs;
  int n = 1 + c.choose(c.thorough() ? 3 : 2);
  for (int i = 0; i < n; ++i) {
    int a = c.choose(int(val.size())), b = c.choose(int(rep.size()));
    if (i == 0) c.split();
    runs.push_back({a, b});
    for (int k = 0; k < rep[size_t(b)]; ++k) v.push_back(val[size_t(a)]);
    c.note("%d x %.17g", rep[size_t(b)], val[size_t(a)]);
  }
  double x = oh::repro_sum(arr(v));
  big sum = 0;
  int emax = INT_MIN;
  for (auto& r : runs) {
    sum += exact(val[size_t(r.first)]) * rep[size_t(r.second)];
    int e;
    std::frexp(val[size_t(r.first)], &e);
    emax = std::max(emax, e);
  }
  big d = exact(x) - sum;
  if (d < 0) d = -d;
  int e;
  std::frexp(x, &e);
  c.require(d <= pow2(emax - 52) * big(v.size()) + pow2(e - 52), "sum-accuracy", "the sum is %.17g", x);
  std::reverse(v.begin(), v.end());
  c.require(bits(oh::repro_sum(arr(v))) == bits(x), "sum-order", "reversed");
  // interleaved
  vector<double> w;
  for (size_t s = 0; s < 7; ++s)
    for (size_t i = s; i < v.size(); i += 7) w.push_back(v[i]);
  c.require(bits(oh::repro_sum(arr(w))) == bits(x), "sum-order", "interleaved");
  c.exec(3);
  c.state(hash_of(runs));
  c.outcome(bits(x));
}

static void ranks(mc::Ctx& c, int nr, int nv, int nalpha, int devs) {
  static vector<double> const alpha = {1e300, 0.1, -0.3, 3.7e-17, 0.0, -1.0, 5e-324, -1e300};
  vector<double> v;
  vector<int> where;
  for (int i = 0; i < nv; ++i) {
    v.push_back(alpha[size_t(c.choose(nalpha))]);
    where.push_back(c.choose(nr));
  }
  c.split();
  Options o;
  o.nranks = nr;
  o.reduce_order = c.choose(3);
  o.eager = c.choose(2) == 0;
  c.deviation_bound = devs;
  o.config = mc::Hash().add(hash_of(v)).add(hash_of(where)).h;
  c.note("values %s on ranks %s, reduction order %d eager %d", str(v).c_str(), str(where).c_str(), o.reduce_order, int(o.eager));
  double want = oh::repro_sum(arr(v));
  run(c, o, [&](int r) {
    bool was = explore(false);
    oh::Library lib;
    auto world = lib.world();
    explore(was);
    vector<double> mine, two;
    for (int i = 0; i < nv; ++i)
      if (where[size_t(i)] == r) {
        mine.push_back(v[size_t(i)]);
        two.push_back(v[size_t(i)]);
        two.push_back(2 * v[size_t(nv - 1 - i)]);
      }
    double got = oh::repro_sum(world, arr(mine));
    require(bits(got) == bits(want) || (got == 0 && want == 0), "sum-ranks", "rank %d: the distributed sum is %.17g, on one rank it is %.17g", r, got, want);
    double res[2];
    oh::repro_sum(world, arr(two), 2, res);
    vector<double> w2;
    for (int i = 0; i < nv; ++i) w2.push_back(2 * v[size_t(nv - 1 - i)]);
    double want2 = oh::repro_sum(arr(w2));
    require(bits(res[0]) == bits(got) && (bits(res[1]) == bits(want2) || (res[1] == 0 && want2 == 0)), "sum-components", "rank %d: component sums are %.17g and %.17g", r, res[0], res[1]);
    explore(false);
  });
  c.outcome(bits(want));
}

// the sum over the owned entities of a mesh is a fact about the mesh, not about
// its distribution
static void mesh_sum(mc::Ctx& c, char const* name, int nr) {
  auto& b = mk::base(name);
  auto soup = b.s;
  int parting = c.choose(3);
  int ne = int(soup.elems.size());
  vector<int> place;
  for (int e = 0; e < ne; ++e) place.push_back(c.choose(nr));
  c.split();
  Options o;
  o.nranks = nr;
  o.reduce_order = c.choose(2);
  c.deviation_bound = 0;
  o.config = mc::Hash().add(std::string(name)).add(parting).add(hash_of(place)).h;
  c.note("%s over %d ranks as %s, parting %d", name, nr, str(place).c_str(), parting);
  auto coord = [&](GO v, int d) { return std::sin(double(v) * 1.7 + d) * 3 + 0.1 * double(v) + (d == int(v) % 3 ? 1 : 0); };
  auto field = [](GO g, int d) { return std::cos(double(g) * 0.9 + d * 2.1) * std::pow(10.0, int(g) % 7 - 3); };
  auto sums = [&](oh::Mesh& m) {
    vector<double> s;
    for (int d = 0; d <= m.dim(); ++d) {
      auto lv = mk::verts_of(m, d);
      auto vg = m.globals(0);
      vector<double> f;
      for (auto& e : lv) {
        vector<GO> g;
        for (int q : e) g.push_back(vg[q]);
        std::sort(g.begin(), g.end());
        double x = 0;
        for (auto q : g) x += field(q, d);
        f.push_back(x);
      }
      s.push_back(oh::repro_sum_owned(&m, d, arr(f)));
      if (d > 0 && m.family() == OMEGA_H_SIMPLEX && d == m.dim()) s.push_back(oh::repro_sum_owned(&m, d, m.ask_sizes()));
    }
    return s;
  };
  auto ref = std::make_shared<vector<double>>();
  auto build = [&](oh::Library& lib, oh::CommPtr world, vector<int> const& owner) {
    auto m = dk::build_parted(lib, world, soup, owner);
    vector<double> xs;
    for (auto g : vec(m.globals(0)))
      for (int d = 0; d < m.dim(); ++d) xs.push_back(coord(g, d));
    m.add_tag<Real>(0, "coordinates", m.dim(), arr(xs));
    return m;
  };
  Options one;
  one.explore = false;
  run(c, one, [&](int) {
    oh::Library lib;
    auto m = build(lib, lib.world(), vector<int>(size_t(ne), 0));
    *ref = sums(m);
  });
  run(c, o, [&](int r) {
    explore(false);
    oh::Library lib;
    {
      auto m = build(lib, lib.world(), place);
      auto check = [&](char const* when) {
        auto got = sums(m);
        for (size_t i = 0; i < got.size(); ++i)
          require(bits(got[i]) == bits((*ref)[i]), "sum-distribution", "rank %d: sum %zu %s is %.17g, on one rank it is %.17g", r, i, when, got[i], (*ref)[i]);
      };
      check("as built");
      if (parting == 1) m.set_parting(OMEGA_H_GHOSTED, 1);
      if (parting == 2) m.set_parting(OMEGA_H_VERT_BASED);
      check("in the other parting");
    }
  });
  c.outcome(ref->empty() ? 0 : bits(ref->back()));
}

int main(int argc, char** argv) {
  vector<mc::Suite> s;
  auto add = [&](char const* n, std::function<void(mc::Ctx&)> f, char const* b, bool th = false) {
    mc::Suite x;
    x.name = n;
    x.body = f;
    x.bounds = b;
    x.thorough_only = th;
    s.push_back(x);
  };
  add("int128", arith, "all pairs of 144 edge values: + - < ==, every shift 1..63, negation, conversions, against the compiler's 128-bit integers");
  add("order", [](mc::Ctx& c) { order(c, c.thorough() ? 7 : 5); }, "every multiset of <=5 (thorough 7) of 17 values (1e308 to 5e-324), all orders");
  add("many", many, "runs of up to 9000 copies of 7 values, <=2 (thorough 3) runs: carries past 64 bits");
  add("ranks2", [](mc::Ctx& c) { ranks(c, 2, c.thorough() ? 5 : 4, c.thorough() ? 8 : 6, 0); }, "4 (thorough 5) of 6 (thorough 8) values, every placement on 2 ranks, 3 reduction orders");
  add("ranks3", [](mc::Ctx& c) { ranks(c, 3, c.thorough() ? 4 : 3, 8, 0); }, "3 (thorough 4) of 8 values, every placement on 3 ranks, 3 reduction orders");
  add("sched3", [](mc::Ctx& c) { ranks(c, 3, 2, 3, c.thorough() ? 3 : 2); }, "2 values on 3 ranks, schedules up to 2 (thorough 3) deviations");
  for (char const* m : {"strip4", "fan4", "tets3", "edges4"})
    add((std::string("mesh2_") + m).c_str(), [m](mc::Ctx& c) { mesh_sum(c, m, 2); }, "every distribution on 2 ranks x 3 partings x 2 reduction orders");
  add("mesh3", [](mc::Ctx& c) { mesh_sum(c, c.thorough() ? "tetring4" : "tets3", 3); }, "every distribution of 3 (thorough 4) tetrahedra on 3 ranks");
  add("mesh3quads", [](mc::Ctx& c) { mesh_sum(c, "quads4", 3); }, "every distribution of 4 quadrilaterals on 3 ranks", true);
  return mc::main(argc, argv, "C07", s);
}
