// C05: dividing points and meshes over ranks.
#include <Omega_h_bipart.hpp>
#include <Omega_h_inertia.hpp>
#include <Omega_h_linpart.hpp>
#include "worldkit.hpp"
using namespace wk;
using namespace minimpi;
using std::string;

// ---- linear partitions
static void linear(mc::Ctx& c) {
  GO total = c.choose(c.thorough() ? 60 : 25);
  GO big = c.choose(3);  // the same far beyond 2^31
  int n = 1 + c.choose(c.thorough() ? 9 : 7);
  if (big == 1) total += 3000000000ll;
  if (big == 2) total += (1ll << 40) + 12345;
  oh::Library lib;
  vector<GO> end;
  GO sum = 0;
  auto lps = [&](int r) { return big == 2 ? -1 : oh::linear_partition_size(total, n, r); };
  for (int r = 0; r < n; ++r) {
    GO b = -1, e = -1;
    oh::suggest_slices(total, n, r, &b, &e);
    MKREQ(b == sum && e >= b, "slices", "%lld over %d: slice %d is %lld to %lld, the one before ended at %lld", (long long)total, n, r, (long long)b, (long long)e, (long long)sum);
    MKREQ(e - b == total / n || e - b == (total + n - 1) / n, "slices", "%lld over %d: slice %d has %lld", (long long)total, n, r, (long long)(e - b));
    if (big != 2 && e - b < (1ll << 31)) MKREQ(lps(r) == e - b, "linear-size", "%lld over %d: part %d has %d, the slice %lld", (long long)total, n, r, lps(r), (long long)(e - b));
    sum = e;
    end.push_back(e);
  }
  MKREQ(sum == total, "slices", "the slices of %lld over %d end at %lld", (long long)total, n, (long long)sum);
  if (big < 2 && total / n < (1ll << 30)) {
    vector<GO> g;
    for (auto e : end)
      for (GO x = e - 3; x < e + 3; ++x)
        if (x >= 0 && x < total) g.push_back(x);
    auto own = oh::globals_to_linear_owners(arr(g), total, n);
    for (size_t i = 0; i < g.size(); ++i) {
      int r = 0;
      while (g[i] >= end[size_t(r)]) ++r;
      GO b = r ? end[size_t(r) - 1] : 0;
      MKREQ(own.ranks[LO(i)] == r && own.idxs[LO(i)] == LO(g[i] - b), "linear-owner", "%lld of %lld over %d belongs to %d.%d, expected %d.%lld", (long long)g[i], (long long)total, n, own.ranks[LO(i)], own.idxs[LO(i)], r, (long long)(g[i] - b));
    }
  }
  c.exec();
  c.state(mc::Hash().add(total).add(n).h);
}

// ---- halving by marks
static void bipart(mc::Ctx& c, int n, int most, int bound) {
  vector<vector<int>> marks;
  marks.resize(size_t(n));
  for (int r = 0; r < n; ++r) {
    int k = c.choose(most + 1);
    for (int i = 0; i < k; ++i) marks[size_t(r)].push_back(c.choose(2));
    if (r == 0) c.split();
  }
  if (c.describing()) c.note("marks %s", str(marks).c_str());
  // every item goes to the half of its mark, and there to the rank of its
  // place among the items of its mark
  vector<std::pair<int, int>> part[2];
  for (int r = 0; r < n; ++r)
    for (size_t i = 0; i < marks[size_t(r)].size(); ++i) part[marks[size_t(r)][i]].push_back({r, int(i)});
  vector<vector<GO>> want;
  want.resize(size_t(n));
  int half = n / 2;
  for (int h = 0; h < 2; ++h) {
    size_t at = 0, all = part[h].size();
    for (int r = 0; r < half; ++r) {
      size_t k = all / size_t(half) + (size_t(r) < all % size_t(half));
      for (size_t i = 0; i < k; ++i, ++at) want[size_t(h * half + r)].push_back(part[h][at].first * 1000 + part[h][at].second);
    }
  }
  Options o;
  o.nranks = n;
  o.explore = bound > 0;
  if (bound) c.deviation_bound = bound;
  minimpi::run(c, o, [&](int r) {
    bool was = explore(false);
    oh::Library lib;
    auto world = lib.world();
    world->barrier();
    explore(was);
    vector<I8> m(marks[size_t(r)].begin(), marks[size_t(r)].end());
    auto d = oh::bi_partition(world, arr(m));
    vector<GO> mine;
    for (size_t i = 0; i < m.size(); ++i) mine.push_back(r * 1000 + GO(i));
    auto got = vec(d.exch(arr(mine), 1));
    explore(false);
    minimpi::require(got == want[size_t(r)], "bipart", "rank %d has %s, expected %s", r, str(got).c_str(), str(want[size_t(r)]).c_str());
    world->barrier();
  });
  c.exec();
  mc::Hash h;
  for (auto& v : marks) h.add(hash_of(v));
  c.state(h.h);
}

// ---- halving by inertia
struct Points {
  vector<std::array<double, 3>> x;
  vector<double> w;
};
static double const lattice[][3] = {{0, 0, 0}, {4, 0, 0}, {0, 2, 0}, {4.1, 2, 0.1}, {1, 1, 1}, {3, 0.3, 1.7}, {7, -1, 0.2}, {2, 5, 0.4}, {2.1, 0.6, 0.9}, {5, 1, 1}};
static void jacobi(long double (&a)[3][3], long double (&v)[3][3]) {
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) v[i][j] = i == j;
  for (int sweep = 0; sweep < 60; ++sweep)
    for (int p = 0; p < 2; ++p)
      for (int q = p + 1; q < 3; ++q) {
        if (std::fabs(a[p][q]) < 1e-30L) continue;
        long double th = (a[q][q] - a[p][p]) / (2 * a[p][q]);
        long double t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), cs = 1 / std::sqrt(t * t + 1), sn = t * cs;
        for (int k = 0; k < 3; ++k) {
          auto x = a[k][p], y = a[k][q];
          a[k][p] = cs * x - sn * y;
          a[k][q] = sn * x + cs * y;
        }
        for (int k = 0; k < 3; ++k) {
          auto x = a[p][k], y = a[q][k];
          a[p][k] = cs * x - sn * y;
          a[q][k] = sn * x + cs * y;
        }
        for (int k = 0; k < 3; ++k) {
          auto x = v[k][p], y = v[k][q];
          v[k][p] = cs * x - sn * y;
          v[k][q] = sn * x + cs * y;
        }
      }
}
static void halves(mc::Ctx& c) {
  int k = 2 + c.choose(c.thorough() ? 6 : 4);
  int first = c.choose(4), step = 1 + 2 * c.choose(2);
  Points p;
  int pattern = c.choose(3);
  for (int i = 0; i < k; ++i) {
    auto& l = lattice[(first + i * step) % 10];
    p.x.push_back({{l[0], l[1], l[2]}});
    p.w.push_back(pattern == 0 ? 1 : pattern == 1 ? 1 + i % 3 : i == 0 ? 5 : 0.75);
  }
  double tol = c.flip() ? 1.0 : 0.3;
  int n = 1 + c.choose(3);
  vector<int> owner;
  for (int i = 0; i < k; ++i) {
    owner.push_back(n == 1 ? 0 : c.choose(n));
    if (i == 1) c.split();
  }
  if (c.describing()) c.note("%d points from %d by %d, masses %s, tolerance %g, on %d ranks %s", k, first, step, str(p.w).c_str(), tol, n, str(owner).c_str());
  vector<int> mark(size_t(k), -1), alone;
  oh::Vector<3> axis[4];
  auto run_on = [&](oh::CommPtr comm, vector<int> const& own, vector<int>& out, oh::Vector<3>& ax) {
    vector<Real> x, w;
    vector<int> ids;
    for (int i = 0; i < k; ++i)
      if (own[size_t(i)] == comm->rank()) {
        ids.push_back(i);
        w.push_back(p.w[size_t(i)]);
        for (int j = 0; j < 3; ++j) x.push_back(p.x[size_t(i)][size_t(j)]);
      }
    auto m = oh::inertia::mark_bisection(comm, arr(x), arr(w), tol, ax);
    minimpi::require(m.size() == LO(ids.size()), "bisection", "%d marks for %zu points", m.size(), ids.size());
    for (size_t i = 0; i < ids.size(); ++i) out[size_t(ids[i])] = m[LO(i)];
    // again along the axis it found
    auto m2 = oh::inertia::mark_bisection_given_axis(comm, arr(x), arr(w), tol, ax);
    minimpi::require(vec(m2) == vec(m), "given-axis", "rank %d: marks %s, along the given axis %s", comm->rank(), str(vec(m)).c_str(), str(vec(m2)).c_str());
  };
  Options o;
  o.nranks = n;
  o.explore = false;
  minimpi::run(c, o, [&](int r) {
    oh::Library lib;
    run_on(lib.world(), owner, mark, axis[r]);
  });
  // the same from one rank
  oh::Vector<3> axis1;
  alone = vector<int>(size_t(k), -1);
  Options o1;
  o1.nranks = 1;
  o1.explore = false;
  minimpi::run(c, o1, [&](int) {
    oh::Library lib;
    run_on(lib.world(), vector<int>(size_t(k), 0), alone, axis1);
  });
  MKREQ(mark == alone, "bisection", "marks %s, on one rank %s", str(mark).c_str(), str(alone).c_str());
  for (int r = 0; r < n; ++r)
    for (int i = 0; i < 3; ++i) MKREQ(axis[r][i] == axis1[i], "axis", "rank %d has another axis than one rank alone", r);
  // the axis is the one of least inertia
  long double total = 0, cen[3] = {0, 0, 0}, a[3][3] = {}, v[3][3];
  for (int i = 0; i < k; ++i) {
    total += p.w[size_t(i)];
    for (int j = 0; j < 3; ++j) cen[j] += p.w[size_t(i)] * p.x[size_t(i)][size_t(j)];
  }
  for (auto& q : cen) q /= total;
  for (int i = 0; i < k; ++i) {
    long double d[3], sq = 0;
    for (int j = 0; j < 3; ++j) {
      d[j] = p.x[size_t(i)][size_t(j)] - cen[j];
      sq += d[j] * d[j];
    }
    for (int j = 0; j < 3; ++j)
      for (int q = 0; q < 3; ++q) a[j][q] += p.w[size_t(i)] * ((j == q ? sq : 0) - d[j] * d[q]);
  }
  jacobi(a, v);
  int lo = 0;
  for (int i = 1; i < 3; ++i)
    if (a[i][i] < a[lo][lo]) lo = i;
  long double gap = 1e30L, most = 0;
  for (int i = 0; i < 3; ++i) {
    if (i != lo) gap = std::min(gap, a[i][i] - a[lo][lo]);
    most = std::max(most, a[i][i]);
  }
  long double len = 0, cosine = 0;
  for (int i = 0; i < 3; ++i) {
    len += axis1[i] * axis1[i];
    cosine += axis1[i] * v[i][lo];
  }
  MKREQ(std::fabs(len - 1) < 1e-9L, "axis", "the axis has length %Lg", std::sqrt(len));
  if (gap > 1e-3L * most) MKREQ(std::fabs(std::fabs(cosine) - 1) < 1e-6L, "axis", "the axis %g %g %g is not that of least inertia %Lg %Lg %Lg", axis1[0], axis1[1], axis1[2], v[0][lo], v[1][lo], v[2][lo]);
  // the halves are separated along it, and balanced if a cut can be
  vector<std::pair<long double, int>> along;
  long double half = 0;
  for (int i = 0; i < k; ++i) {
    long double d = 0;
    for (int j = 0; j < 3; ++j) d += (p.x[size_t(i)][size_t(j)] - cen[j]) * axis1[j];
    along.push_back({d, i});
    if (mark[size_t(i)]) half += p.w[size_t(i)];
  }
  std::sort(along.begin(), along.end());
  long double rest = total;
  bool can = false, clear = true;
  for (int i = 0; i + 1 < k; ++i) {
    rest -= p.w[size_t(along[size_t(i)].second)];
    auto g = along[size_t(i) + 1].first - along[size_t(i)].first;
    if (g < 1e-2L) clear = false;
    if (g > 1e-9L && std::fabs(rest - total / 2) <= tol - 1e-9L) can = true;
  }
  if (can) MKREQ(std::fabs(half - total / 2) <= tol + 1e-9L, "balance", "marked %Lg of %Lg with tolerance %g, a cut could do it (marks %s)", half, total, tol, str(mark).c_str());
  if (clear) {
    int last = 0;
    for (auto& q : along) {
      MKREQ(mark[size_t(q.second)] >= last, "separated", "the marks %s are not separated along the axis", str(mark).c_str());
      last = mark[size_t(q.second)];
    }
  }
  c.exec();
  c.state(mc::Hash().add(k).add(first).add(step).add(pattern).add(tol).add(n).add(hash_of(owner)).h);
}

// ---- meshes
static Soup strip(int n) {
  VV e;
  for (int i = 0; i < n; ++i) e.push_back(i % 2 ? vector<int>{i + 1, i, i + 2} : vector<int>{i, i + 1, i + 2});
  for (auto& t : e)
    if (t[0] > t[1]) std::rotate(t.begin(), t.begin() + 1, t.end());
  return soup(true, 2, e);
}
// a stack of points in the very plane where the cut would go, which must be tilted
static void stacks(mc::Ctx& c) {
  int along = c.choose(3), up = c.choose(3), tilt = c.choose(3);
  if (up == along) return;
  int pairs = 1 + c.choose(3);
  int n = 1 + c.choose(2);
  double size = c.flip() ? 1 : 1e3;
  c.split();
  int turn = c.choose(2 * pairs + 2);
  vector<vector<Real>> x;
  auto put = [&](double a, double u) {
    vector<Real> q(3, 0.0);
    q[size_t(along)] = a * size;
    q[size_t(up)] = u * size;
    if (tilt) q[size_t(3 - along - up)] = (tilt == 1 ? 0.5 : -1) * u * size;
    x.push_back(q);
  };
  put(-9, 0);
  for (int i = 0; i < pairs; ++i) {
    put(0, 0.5 + i);
    put(0, -0.5 - i);
  }
  put(9, 0);
  std::rotate(x.begin(), x.begin() + turn, x.end());
  if (c.describing()) c.note("two far points along axis %d and %d in a stack along %d (tilt %d), size %g, on %d ranks, rotated by %d", along, 2 * pairs, up, tilt, size, n, turn);
  vector<int> mark(x.size(), -1);
  Options o;
  o.nranks = n;
  o.explore = false;
  minimpi::run(c, o, [&](int r) {
    oh::Library lib;
    vector<Real> y;
    vector<size_t> ids;
    for (size_t i = 0; i < x.size(); ++i)
      if (int(i) % n == r) {
        ids.push_back(i);
        y.insert(y.end(), x[i].begin(), x[i].end());
      }
    oh::Vector<3> ax;
    auto m = vec(oh::inertia::mark_bisection(lib.world(), arr(y), arr(vector<Real>(ids.size(), 1.0)), 0.1, ax));
    for (size_t i = 0; i < ids.size(); ++i) mark[ids[i]] = m[i];
  });
  int got = 0;
  for (int i : mark) got += i == 1;
  MKREQ(2 * got == int(x.size()), "stack", "%d of %zu points are on one side: %s", got, x.size(), str(mark).c_str());
  c.exec();
  c.state(mc::Hash().add(along).add(up).add(tilt).add(pairs).add(n).add(size).add(turn).h);
}
static void meshes(mc::Ctx& c, int which, int bound) {
  struct In {
    char const* name;
    Soup s;
  };
  static vector<In> ins = {{"strip6", base("strip6").s}, {"tets3", base("tets3").s}, {"edges4", base("edges4").s}, {"quads4", base("quads4").s}, {"tetring4", base("tetring4").s}, {"strip16", strip(16)}, {"strip24", strip(24)}};
  int b = which < 0 ? c.choose(5) : which;
  auto& s = ins[size_t(b)].s;
  int dim = s.dim;
  size_t ne = s.elems.size();
  int n = bound ? 2 : 2 << c.choose(which >= 5 ? 3 : 2);
  vector<int> owner;
  if (ne <= 6) {
    for (size_t e = 0; e < ne; ++e) owner.push_back(n == 4 && e > 3 ? int(e) % 4 : c.choose(n));
  } else {
    int how = c.choose(8);
    for (size_t e = 0; e < ne; ++e) owner.push_back(how < 4 ? how % n : how == 4 ? int(e) % n : how == 5 ? int(e * size_t(n) / ne) : how == 6 ? int(e * e / 3) % n : (e < 3 ? 0 : n - 1));
  }
  c.split();
  int geometry = bound ? 0 : c.choose(3);  // 0 general, 1 lattice, 2 long
  bool predictive = s.simplex && dim == 2 && c.flip();
  if (c.describing()) c.note("%s on %d ranks %s, geometry %d%s", ins[size_t(b)].name, n, str(owner).c_str(), geometry, predictive ? ", predictive" : "");
  auto at = [&](int v, int i) {
    double l = s.simplex && dim == 2 ? (i == 0 ? v / 2 : 1 - v % 2) : dim == 1 ? v : double((v >> i) & 1) + (v > 7 ? 1 : 0);
    if (!s.simplex && dim == 2) l = i == 0 ? v % 3 : v / 3;
    if (geometry == 0) l += 0.17 * std::sin(1.0 + 3 * v + i) + (i == 0 ? 0.02 * v * v : 0);
    if (geometry == 2) l *= i == 0 ? 10 + v : 1;
    return l;
  };
  auto metric = [&](int) { return 16.0; };
  vector<Snap> snaps(4);
  vector<std::map<Key, int>> where(4);
  Options o;
  o.nranks = n;
  o.explore = false;
  if (bound) {
    c.deviation_bound = bound;
    o.explore = true;
  }
  for (auto& sn : snaps) sn.r.resize(size_t(n));
  vector<double> imb;
  minimpi::run(c, o, [&](int r) {
    bool was = explore(false);
    oh::Library lib;
    auto make = [&](vector<int> const& own) {
      auto m = build_parted(lib, lib.world(), s, own);
      auto vg = m.globals(0);
      vector<Real> x, mt;
      for (LO v = 0; v < m.nverts(); ++v) {
        for (int i = 0; i < dim; ++i) x.push_back(at(int(vg[v]), i));
        mt.push_back(metric(int(vg[v])));
      }
      m.add_tag<Real>(0, "coordinates", oh::Int(dim), arr(x));
      m.add_tag<Real>(0, "metric", 1, arr(mt));
      add_identity_tags(m);
      return m;
    };
    auto record = [&](oh::Mesh& m, int i) {
      snaps[size_t(i)].r[size_t(r)] = snapshot(m);
      auto own = m.ask_owners(dim);
      auto ids = ids_of(World(s), m, dim);
      auto vg = m.globals(0);
      for (auto& e : mk::verts_of(m, dim)) {
        Key k;
        for (int v : e) k.push_back(int(vg[v]));
        where[size_t(i)][sorted(k)] = r;
      }
      auto x = m.coords();
      for (LO v = 0; v < m.nverts(); ++v)
        for (int j = 0; j < dim; ++j) minimpi::require(x[v * dim + j] == at(int(vg[v]), j), "coords", "rank %d: coordinates of vertex %lld", r, (long long)vg[v]);
    };
    auto m = make(owner);
    m.comm()->barrier();
    explore(was);
    m.balance(predictive);
    explore(false);
    minimpi::require(m.parting() == OMEGA_H_ELEM_BASED, "parting", "rank %d: balanced to parting %d", r, int(m.parting()));
    record(m, 0);
    auto i1 = m.imbalance();
    if (r == 0) imb.push_back(i1);
    // once more, now along remembered axes
    m.balance(predictive);
    record(m, 1);
    // from everything on the last rank
    auto m2 = make(vector<int>(ne, n - 1));
    m2.balance(predictive);
    record(m2, 2);
    // from a ghosted mesh
    auto m3 = make(owner);
    m3.set_parting(OMEGA_H_GHOSTED);
    m3.balance(predictive);
    record(m3, 3);
    m.comm()->barrier();
  });
  static char const* what[] = {"balanced", "balanced twice", "balanced from one rank", "balanced from ghosted"};
  for (int i = 0; i < 4; ++i) {
    snaps[size_t(i)].what = what[i];
    Expect x;
    check_global(snaps[size_t(i)], s, x);
    MKREQ(where[size_t(i)].size() == ne, "elements", "%s: %zu elements", what[i], where[size_t(i)].size());
    for (auto& e : where[0]) MKREQ(where[size_t(i)].at(e.first) == e.second, "depends", "%s: element %s is on rank %d, from the first distribution on rank %d", what[i], str(e.first).c_str(), where[size_t(i)].at(e.first), e.second);
  }
  // balance
  vector<double> mass(size_t(n), 0), count(size_t(n), 0);
  double most = 0, all = 0;
  for (auto& e : s.elems) {
    double w = 1;
    if (predictive) {
      double bm[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
      for (int i = 0; i < dim; ++i)
        for (int j = 0; j < dim; ++j) bm[i][j] = at(e[size_t(i) + 1], j) - at(e[0], j);
      double det = bm[0][0] * (bm[1][1] * bm[2][2] - bm[1][2] * bm[2][1]) - bm[0][1] * (bm[1][0] * bm[2][2] - bm[1][2] * bm[2][0]) + bm[0][2] * (bm[1][0] * bm[2][1] - bm[1][1] * bm[2][0]);
      w = (1 + det / (dim == 3 ? 6 : 2) * std::pow(4.0, dim)) / 2;
    }
    most = std::max(most, w);
    all += w;
    mass[size_t(where[0].at(sorted(e)))] += w;
    count[size_t(where[0].at(sorted(e)))] += 1;
  }
  if (geometry != 1) {
    // each halving is within twice the heaviest element
    double lower = 0;
    for (int r = 0; r < n / 2; ++r) lower += mass[size_t(r)];
    MKREQ(std::fabs(lower - all / 2) <= 2 * most + 1e-9, "balance", "the lower half of the ranks has %g of %g, heaviest element %g", lower, all, most);
    if (n == 4)  // on 8 ranks the same is asked of the halves only
      for (int h = 0; h < 2; ++h) {
        double t = mass[size_t(2 * h)] + mass[size_t(2 * h) + 1];
        MKREQ(std::fabs(mass[size_t(2 * h)] - t / 2) <= 2 * most + 1e-9, "balance", "ranks %d and %d have %g and %g, heaviest element %g", 2 * h, 2 * h + 1, mass[size_t(2 * h)], mass[size_t(2 * h) + 1], most);
      }
  }
  double worst = *std::max_element(count.begin(), count.end()) / (double(ne) / n);
  MKREQ(std::fabs(imb.at(0) - worst) < 1e-12, "imbalance", "imbalance %g, expected %g", imb.at(0), worst);
  c.exec();
  c.state(mc::Hash().add(b).add(n).add(hash_of(owner)).add(geometry).add(predictive).h);
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C05",
      {
          {"linear", linear, 60, false, "totals to 25 (60), also beyond 2^31 and 2^40, over 1 to 7 (9) ranks"},
          {"bipart2", [](mc::Ctx& c) { bipart(c, 2, c.thorough() ? 6 : 4, 0); }, 60, false, "all marks of up to 4 (6) items on each of 2 ranks"},
          {"bipart4", [](mc::Ctx& c) { bipart(c, 4, c.thorough() ? 3 : 2, 0); }, 60, false, "all marks of up to 2 (3) items on each of 4 ranks"},
          {"bipart-schedules", [](mc::Ctx& c) { bipart(c, 2, 2, c.thorough() ? 3 : 2); }, 60, false, "all marks of up to 2 items on 2 ranks under every schedule with 2 (3) deviations"},
          {"halves", halves, 60, false, "sets of 2-5 (7) points x 3 masses x 2 tolerances x every distribution over 1 to 3 ranks"},
          {"stacks", stacks, 60, false, "two far points and 1-3 pairs of points in the plane between them, along every axis, on 1-2 ranks"},
          {"meshes", [](mc::Ctx& c) { meshes(c, -1, 0); }, 60, false, "5 meshes x every distribution over 2 and 4 ranks x 3 geometries"},
          {"strips", [](mc::Ctx& c) { meshes(c, c.thorough() && c.flip() ? 6 : 5, 0); }, 60, false, "strips of 16 (24) triangles x 8 distributions over 2, 4 and 8 ranks"},
          {"schedules", [](mc::Ctx& c) { meshes(c, 2, 1); }, 60, false, "4 edges under every schedule with 1 deviation"},
      });
}
