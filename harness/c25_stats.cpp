// C25: random streams, distributions, histograms, scatter plots and profiles,
// judged by an independent Philox, closed forms and plain counting.
#include <Omega_h_histogram.hpp>
#include <Omega_h_profile.hpp>
#include <Omega_h_random.hpp>
#include <Omega_h_random_inline.hpp>
#include <Omega_h_scatterplot.hpp>
#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include "distkit.hpp"
#include "files.hpp"
#include "soups.hpp"
using mk::Soup;
using minimpi::Options;
using std::map;
using std::string;
using std::vector;
namespace prof = oh::profile;
namespace Omega_h {
namespace profile {
void print_time_sorted(History const& h, double total_runtime);
}
}  // namespace Omega_h

static mc::Ctx* C;
#define REQ(cond, key, ...) do { if (!(cond)) C->fail(key, __VA_ARGS__); } while (0)

// what each rank prints
struct Heard : std::streambuf {
  map<int, string> text;
  std::streambuf* was;
  std::ios_base::fmtflags flags;
  Heard() : was(std::cout.rdbuf(this)), flags(std::cout.flags()) {}
  ~Heard() {
    std::cout.rdbuf(was);
    std::cout.flags(flags);
    std::cout.precision(6);
  }
  int_type overflow(int_type ch) override {
    if (ch != traits_type::eof()) text[minimpi::rank()] += char(ch);
    return ch;
  }
  std::streamsize xsputn(char const* s, std::streamsize n) override {
    text[minimpi::rank()].append(s, size_t(n));
    return n;
  }
};
static vector<string> lines(string const& t) {
  vector<string> r;
  std::istringstream s(t);
  for (string l; std::getline(s, l);) r.push_back(l);
  return r;
}

// ---- random numbers
static void philox(uint32_t c[4], uint32_t k0, uint32_t k1) {
  for (int i = 0; i < 10; ++i) {
    uint64_t p = uint64_t(0xD2511F53u) * c[0], q = uint64_t(0xCD9E8D57u) * c[2];
    uint32_t n[4] = {uint32_t(q >> 32) ^ c[1] ^ k0, uint32_t(q), uint32_t(p >> 32) ^ c[3] ^ k1, uint32_t(p)};
    for (int j = 0; j < 4; ++j) c[j] = n[j];
    k0 += 0x9E3779B9u;
    k1 += 0xBB67AE85u;
  }
}
// the number at one place of the stream of a seed and a key
static double at(int64_t seed, int64_t key, uint64_t place) {
  uint64_t half = place / 2, s = uint64_t(seed), k = uint64_t(key);
  uint32_t c[4] = {uint32_t(half), uint32_t(half >> 32), uint32_t(s), uint32_t(s >> 32)};
  philox(c, uint32_t(k), uint32_t(k >> 32));
  uint64_t x = place % 2 ? (uint64_t(c[3]) << 32 | c[2]) : (uint64_t(c[1]) << 32 | c[0]);
  return double(x) / double(std::numeric_limits<uint64_t>::max());
}
static vector<int64_t> const odd = {0, 1, 2, 3, -1, 365, 1771, int64_t(1) << 31, int64_t(1) << 32, (int64_t(1) << 32) + 1, -(int64_t(1) << 40),
    std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min()};
static void streams(mc::Ctx& c) {
  C = &c;
  uint32_t kat[4] = {0, 0, 0, 0};
  philox(kat, 0, 0);
  REQ(kat[0] == 0x6627e8d5u && kat[1] == 0xe169c58du && kat[2] == 0xbc57ac4cu && kat[3] == 0x9b00dbd8u, "reference", "the reference generator is wrong");
  auto seed = odd[size_t(c.choose(int(odd.size()), "seed"))];
  auto key = odd[size_t(c.choose(int(odd.size()), "key"))];
  vector<int64_t> starts = {0, 1, 2, 3, 4, 5, 7, 100, 101, (int64_t(1) << 32) - 1, (int64_t(1) << 33) + 1, (int64_t(1) << 62) + 1};
  for (auto s : starts) {
    oh::UnitUniformDistribution d(seed, key, s);
    for (int i = 0; i < 7; ++i) {
      double got = d(), want = at(seed, key, uint64_t(s) + uint64_t(i));
      c.exec();
      REQ(got == want, "stream", "seed %lld key %lld: number %d of the stream begun at %lld is %.17g, expected %.17g (that at place %llu)",
          (long long)seed, (long long)key, i, (long long)s, got, want, (unsigned long long)(uint64_t(s) + uint64_t(i)));
      REQ(got >= 0 && got <= 1, "unit", "a uniform number is %.17g", got);
    }
  }
  // normal numbers: finite and of a pair of uniform ones
  oh::UnitUniformDistribution d(seed, key, 0);
  oh::StandardNormalDistribution n;
  double u = at(seed, key, 0), v = at(seed, key, 1);
  double z = n(d), w = std::sqrt(-2 * std::log(u)) * std::cos(2 * oh::PI * v);
  REQ(std::fabs(z - w) < 1e-12, "normal", "the first normal number is %.17g, expected %.17g", z, w);
  for (int i = 0; i < 20; ++i) REQ(std::isfinite(n(d)), "normal-finite", "a normal number is not finite");
}
static void entities(mc::Ctx& c) {
  C = &c;
  int n = c.choose(5, "size");
  vector<GO> g;
  for (int i = 0; i < n; ++i) g.push_back(odd[size_t(c.choose(5, "global"))] + (i == 2 ? (int64_t(1) << 33) : 0));
  auto seed = odd[size_t(c.choose(int(odd.size()), "seed"))];
  static oh::Library* lib = new oh::Library();
  (void)lib;
  for (int64_t counter = 0; counter < 5; ++counter) {
    auto a = oh::unit_uniform_random_reals_from_globals(arr(g), seed, counter);
    c.exec();
    REQ(a.size() == n, "size", "%d numbers for %d entities", a.size(), n);
    for (int i = 0; i < n; ++i)
      REQ(a[i] == at(seed, g[size_t(i)], uint64_t(counter)), "entity", "entity %lld, seed %lld, counter %lld: %.17g, expected %.17g", (long long)g[size_t(i)],
          (long long)seed, (long long)counter, a[i], at(seed, g[size_t(i)], uint64_t(counter)));
  }
}

// ---- distributions
static void close(double got, double want, double tol, char const* what, double a, double b, double x) {
  C->exec();
  REQ(std::isfinite(got) && std::fabs(got - want) <= tol * std::max(1.0, std::fabs(want)), what, "of (%g, %g) at %.17g: %.17g, expected %.17g", a, b, x, got, want);
}
static void laws(mc::Ctx& c) {
  C = &c;
  int which = c.choose(4, "law");
  if (which == 0) {  // chi squared, by the recurrence of the incomplete gamma function
    int nd = 1 + c.choose(200, "dofs");
    for (double x : {-1.0, 0.0, 1e-6, 0.01, 0.1, 0.5, 1.0, 2.0, 3.0, 5.0, 10.0, 30.0, 60.0, 100.0, 150.0, 200.0, 250.0, 300.0, 400.0, 500.0, 700.0, 1000.0, 2000.0}) {
      long double z = x / 2, s = nd % 2 ? 0.5L : 1.0L, p = 0;
      if (x > 0) {
        p = nd % 2 ? erfl(sqrtl(z)) : -expm1l(-z);
        for (; s < nd / 2.0L - 0.25L; s += 1) p -= expl(s * logl(z) - z - lgammal(s + 1));
      }
      close(oh::cumulative_chi_squared_density(nd, x), double(p), 1e-9, "chi-squared", nd, 0, x);
    }
    close(oh::cumulative_chi_squared_density(0, 1.0), 0, 0, "chi-squared", 0, 0, 1);
  } else if (which == 1) {  // normal
    double mean = c.choose(5, "mean") - 2, dev = std::pow(2.0, c.choose(5, "deviation") - 2);
    double sum = 0, h = dev / 256;
    for (double x = mean - 8 * dev; x <= mean + 8 * dev; x += h) {
      auto cdf = oh::cumulative_general_normal_density(mean, dev, x);
      auto want = 0.5L * erfcl(-(x - (long double)(mean)) / dev / sqrtl(2));
      close(cdf, double(want), 1e-13, "normal-cumulative", mean, dev, x);
      close(sum, cdf, 1e-7, "normal-density", mean, dev, x);
      // Simpson's rule for the next step
      auto f = [&](double y) { return oh::general_normal_density(mean, dev, y); };
      sum += h / 6 * (f(x) + 4 * f(x + h / 2) + f(x + h));
    }
    close(oh::cumulative_standard_normal_density(dev), double(0.5L * erfcl(-dev / sqrtl(2))), 1e-13, "normal-standard", 0, 1, dev);
    close(oh::standard_normal_density(dev), std::exp(-dev * dev / 2) / std::sqrt(2 * oh::PI), 1e-13, "normal-standard", 0, 1, dev);
  } else {  // Weibull
    double shape = std::vector<double>{0.5, 1.0, 1.5, 2.0, 5.0}[size_t(c.choose(5, "shape"))], scale = std::pow(2.0, c.choose(5, "scale") - 2);
    if (which == 2) {
      for (int i = 0; i <= 1000; ++i) {
        double p = i / 1000.0, q = oh::weibull_quantile(shape, scale, p);
        REQ(std::isfinite(q) && q >= 0, "weibull-quantile", "quantile %g of (%g, %g) is %g", p, shape, scale, q);
        close(oh::cumulative_weibull_density(shape, scale, q), p, 1e-12, "weibull-quantile", shape, scale, p);
        if (i < 1000) close(q, double(scale * powl(-log1pl(-(long double)(p)), 1 / shape)), 1e-9, "weibull-quantile", shape, scale, p);
      }
    } else {
      for (double x : {-2.0, -0.5, -1e-9}) {
        close(oh::weibull_density(shape, scale, x), 0, 0, "weibull-negative-density", shape, scale, x);
        close(oh::cumulative_weibull_density(shape, scale, x), 0, 0, "weibull-negative", shape, scale, x);
      }
      double sum = 0, h = scale / 1024, x0 = scale / 16;
      sum = -expm1(-std::pow(x0 / scale, shape));
      for (double x = x0; x < 4 * scale; x += h) {
        auto cdf = oh::cumulative_weibull_density(shape, scale, x);
        close(cdf, double(-expm1l(-powl(x / (long double)(scale), shape))), 1e-12, "weibull-cumulative", shape, scale, x);
        close(sum, cdf, 1e-6, "weibull-density", shape, scale, x);
        auto f = [&](double y) { return oh::weibull_density(shape, scale, y); };
        sum += h / 6 * (f(x) + 4 * f(x + h / 2) + f(x + h));
      }
    }
  }
}

// ---- distributed statistics
struct Dealt {
  Soup const* s;
  vector<int> owner;
  int parting, n;
};
static Dealt deal(mc::Ctx& c, vector<char const*> const& names, int maxranks) {
  Dealt d;
  d.s = &mk::base(names[size_t(c.choose(int(names.size()), "mesh"))]).s;
  // -3: three ranks for the first mesh only
  d.n = 1 + c.choose(maxranks > 0 ? maxranks : d.s == &mk::base(names[0]).s ? 3 : 2, "ranks");
  for (size_t i = 0; i < d.s->elems.size(); ++i) d.owner.push_back(c.choose(d.n, "owner"));
  d.parting = d.n > 1 ? c.choose(3, "parting") : 0;
  return d;
}
static oh::Mesh make(oh::Library& lib, Dealt const& d, bool quiet = true) {
  if (quiet) minimpi::explore(false);
  auto m = dk::build_parted(lib, lib.world(), *d.s, d.owner);
  vector<Real> x;
  for (LO v = 0; v < m.nverts(); ++v)
    for (int i = 0; i < m.dim(); ++i) x.push_back(double((m.globals(0)[v] * (i + 2) * 7 + i * 3) % 11) - 4);
  m.add_coords(arr(x));
  if (d.parting == 1) m.set_parting(OMEGA_H_GHOSTED, 1, false);
  if (d.parting == 2) m.set_parting(OMEGA_H_VERT_BASED, 1, false);
  if (quiet) minimpi::explore(true);
  return m;
}
static LO count_of(Soup const& s, oh::Mesh& m, int d) { return LO(m.nglobal_ents(d)); }
static double lattice(GO g, int a, int b) {
  static double const v[] = {-0.5, 0.0, 0.25, 0.5, 1.0, 1.5, 0.75, 0.9};
  return v[(g * a + b) % 8];
}
static void histograms(mc::Ctx& c, bool schedules) {
  C = &c;
  vector<char const*> names = {"strip4", "tets3", "quads4"};
  if (c.thorough()) names.push_back("strip6");
  if (schedules) names = {"strip4"};
  auto dd = deal(c, names, schedules ? 2 : 3);
  int dim = c.choose(dd.s->dim + 1, "dim");
  vector<int> as = {0, 1, 2, 5}, bs = {0, 7}, nbs = {1, 2, 3, 4};
  if (schedules) as = {3}, bs = {0}, nbs = {3};
  Options o;
  o.nranks = dd.n;
  o.explore = schedules;
  o.config = uint64_t(dim);
  Heard heard;
  vector<prof::History*> none;
  vector<string> expect_stats;
  minimpi::run(c, o, [&](int r) {
    oh::Library lib;
    auto m = make(lib, dd);
    auto g = m.globals(dim);
    auto total = count_of(*dd.s, m, dim);
    for (int a : as)
      for (int b : bs)
      for (int nb : nbs)
      for (int range = 0; range < (schedules ? 1 : 3); ++range) {
        double lo = range == 2 ? 0.2 : range ? -0.5 : 0.0, hi = range == 2 ? 0.9 : range ? 1.5 : 1.0;  // 0.2 + (0.9 - 0.2) < 0.9
        vector<Real> v;
        for (LO i = 0; i < m.nents(dim); ++i) v.push_back(lattice(g[i], a, b));
        c.exec();
        auto h = oh::get_histogram(&m, dim, nb, lo, hi, arr(v));
        minimpi::require(int(h.bins.size()) == nb && h.min == lo && h.max == hi, "bins", "%zu bins in [%g, %g]", h.bins.size(), h.min, h.max);
        vector<GO> want(size_t(nb), 0);
        GO low = 0, high = 0;
        double w = (hi - lo) / nb;
        for (GO e = 0; e < total; ++e) {
          double x = lattice(e, a, b);
          if (x < lo) ++low;
          if (x > hi) ++high;
          if (x < lo || x > hi) continue;
          int k = 0;
          while (k + 1 < nb && x >= w * (k + 1) + lo) ++k;
          ++want[size_t(k)];
        }
        for (int k = 0; k < nb; ++k)
          minimpi::require(h.bins[size_t(k)] == want[size_t(k)], "histogram", "bin %d of %d of [%g, %g] holds %lld of the %d %d-entities, expected %lld", k, nb, lo, hi,
              (long long)h.bins[size_t(k)], total, dim, (long long)want[size_t(k)]);
        heard.text[r].clear();
        oh::print_histogram(h, "thing");
        auto l = lines(heard.text[r]);
        minimpi::require(int(l.size()) == nb + 1, "printed-bins", "%zu lines for %d bins", l.size(), nb);
        for (int k = 0; k < nb; ++k) {
          auto p = l[size_t(k) + 1].rfind(": ");
          minimpi::require(p != string::npos && atoll(l[size_t(k) + 1].c_str() + p + 2) == want[size_t(k)], "printed-bin", "line \"%s\", expected %lld", l[size_t(k) + 1].c_str(), (long long)want[size_t(k)]);
        }
        heard.text[r].clear();
        oh::print_goal_stats(&m, "thing", dim, arr(v), {lo, hi}, {lo, hi});
        auto t = heard.text[r];
        if (r == 0) {
          auto number = [&](string const& before_what) -> GO {  // the number before a mark
            auto p = t.find(before_what);
            if (p == string::npos) return 0;
            auto q = t.rfind(", ", p - 1);
            return atoll(t.c_str() + q + 2);
          };
          minimpi::require(atoll(t.c_str()) == total && number(" <") == low && number(" >") == high && number(" in [") == total - low - high, "goal",
              "%lld below, %lld above of %d: \"%s\"", (long long)low, (long long)high, total, t.c_str());
        } else
          minimpi::require(t.empty(), "goal-rank", "rank %d prints \"%s\"", r, t.c_str());
        heard.text[r].clear();
      }
  });
}

static void plots(mc::Ctx& c, bool schedules) {
  C = &c;
  auto dd = deal(c, schedules ? vector<char const*>{"strip4"} : vector<char const*>{"strip4", "tets3", "quads4"}, schedules ? 2 : c.thorough() ? 3 : -3);
  int dim = c.choose(dd.s->dim + 1, "dim"), how = c.choose(4, "kind");
  int nc = how % 2 + 1, kind = how == 3 ? 2 : how;
  string path = c.scratch() + "/plot.txt", sep = kind == 1 ? "\t" : " ";
  ::unlink(path.c_str());
  Options o;
  o.nranks = dd.n;
  o.explore = schedules;
  o.config = uint64_t(dim * 100 + nc * 10 + kind);
  if (how == 1) std::ofstream(path) << "an older and longer file\n" << string(5000, '1') << "\n";
  map<GO, vector<double>> want;
  vector<string> seen(static_cast<size_t>(dd.n));
  minimpi::run(c, o, [&](int r) {
    oh::Library lib;
    auto m = make(lib, dd);
    int md = m.dim();
    auto lv = mk::verts_of(m, dim);
    auto g = m.globals(dim);
    vector<Real> data;
    for (LO i = 0; i < m.nents(dim); ++i) {
      for (int k = 0; k < nc; ++k) data.push_back(double(g[i]) / 3 + k * 100);
      double x[3] = {0, 0, 0};
      for (int v : lv[size_t(i)])
        for (int k = 0; k < md; ++k) x[k] += m.coords()[v * md + k] / double(lv[size_t(i)].size());
      double w = 0, dir[3] = {0.6, -0.8, 2.0}, org[3] = {1, 2, -1};
      for (int k = 0; k < md; ++k) w += kind == 2 ? (x[k] - org[k]) * (x[k] - org[k]) : (x[k] - org[k]) * dir[k];
      want[g[i]] = {kind == 2 ? std::sqrt(w) : w};
    }
    c.exec();
    if (md == 2) {
      if (kind == 2) oh::write_radial_scatterplot<2>(path, &m, dim, arr(data), oh::vector_2(1, 2), sep);
      else oh::write_linear_scatterplot<2>(path, &m, dim, arr(data), oh::vector_2(0.6, -0.8), oh::vector_2(1, 2), sep);
    } else {
      if (kind == 2) oh::write_radial_scatterplot<3>(path, &m, dim, arr(data), oh::vector_3(1, 2, -1), sep);
      else oh::write_linear_scatterplot<3>(path, &m, dim, arr(data), oh::vector_3(0.6, -0.8, 2), oh::vector_3(1, 2, -1), sep);
    }
    std::ifstream f(path);
    std::stringstream all;
    all << f.rdbuf();
    seen[size_t(r)] = all.str();
  });
  // every rank has returned: each entity is on exactly one line
  for (auto& text : seen) {
    map<GO, int> times;
    for (auto& l : lines(text)) {
      std::istringstream s(l);
      vector<double> v;
      for (double x; s >> x;) v.push_back(x);
      REQ(int(v.size()) == nc + 1 && s.eof(), "plot-line", "line \"%s\" for %d components", l.c_str(), nc);
      for (size_t i = 0, k = 0; k < size_t(nc);) {
        i = l.find(sep, i ? i + 1 : 0);
        REQ(i != string::npos, "plot-separator", "line \"%s\"", l.c_str());
        ++k;
      }
      GO e = GO(std::floor(v[1] * 3 + 0.5));
      ++times[e];
      REQ(want.count(e), "plot-entity", "line \"%s\" is of no entity", l.c_str());
      REQ(std::fabs(v[0] - want[e][0]) < 1e-12, "plot-place", "entity %lld is at %.17g, expected %.17g", (long long)e, v[0], want[e][0]);
      for (int k = 0; k < nc; ++k) REQ(v[size_t(k) + 1] == double(e) / 3 + k * 100, "plot-data", "entity %lld: \"%s\"", (long long)e, l.c_str());
    }
    for (auto& w : want) REQ(times[w.first] == 1, "plot-once", "%d-entity %lld of %zu is on %d lines of the file on %d ranks", dim, (long long)w.first, want.size(), times[w.first], dd.n);
  }
}

// ---- profiles
typedef vector<string> Path;
struct Node {
  size_t calls = 0;
  double self = 0;
};
static Path path_of(prof::History const& h, size_t f) {
  Path p;
  for (; f != prof::invalid; f = h.parent(f)) p.insert(p.begin(), h.get_name(f));
  return p;
}
static string show(Path const& p) {
  string s;
  for (auto& x : p) s += (s.empty() ? "" : "/") + x;
  return s;
}
static double total_of(map<Path, Node> const& t, Path const& p) {
  double s = 0;
  for (auto& x : t)
    if (x.first.size() >= p.size() && std::equal(p.begin(), p.end(), x.first.begin())) s += x.second.self;
  return s;
}
struct Row {
  double time;
  size_t calls;
};
static void check_tree(prof::History const& h, map<Path, Row> const& want, char const* what) {
  REQ(h.frames.size() == want.size(), what, "%zu frames for %zu call paths", h.frames.size(), want.size());
  map<Path, int> seen;
  size_t n = 0;
  for (size_t f = h.first(prof::invalid); f != prof::invalid; f = h.pre_order_next(f)) {
    REQ(++n <= h.frames.size(), what, "the walk over the frames does not end");
    auto p = path_of(h, f);
    REQ(++seen[p] == 1, what, "%s has two frames", show(p).c_str());
    auto w = want.find(p);
    REQ(w != want.end(), what, "%s has a frame", show(p).c_str());
    REQ(h.calls(f) == w->second.calls, what, "%s has %zu calls, expected %zu", show(p).c_str(), h.calls(f), w->second.calls);
    REQ(std::fabs(h.time(f) - w->second.time) < 1e-9, what, "%s took %g, expected %g", show(p).c_str(), h.time(f), w->second.time);
  }
  REQ(n == want.size(), what, "the walk visits %zu of %zu frames", n, want.size());
}
// the printed tree
static map<Path, Row> parse(vector<string> const& ls, size_t from, size_t to, bool percent) {
  map<Path, Row> r;
  Path now;
  vector<double> last;
  for (size_t i = from; i < to; ++i) {
    if (ls[i].empty()) continue;
    size_t depth = 0;
    auto l = ls[i];
    while (l.compare(0, 3, "|  ") == 0) ++depth, l.erase(0, 3);
    std::istringstream s(l);
    string name;
    Row w;
    char pc = 0;
    s >> name >> w.time;
    if (percent) s >> pc;
    s >> w.calls;
    REQ(s && (!percent || pc == '%'), "printed", "line \"%s\"", ls[i].c_str());
    REQ(depth <= now.size(), "printed", "line \"%s\" is indented too far", ls[i].c_str());
    now.resize(depth);
    last.resize(depth + 1, 1e300);
    REQ(w.time <= last[depth] * (1 + 1e-5), "printed-order", "\"%s\" comes after a shorter one", ls[i].c_str());
    last[depth] = w.time;
    now.push_back(name);
    REQ(!r.count(now), "printed", "%s is printed twice", show(now).c_str());
    r[now] = w;
  }
  return r;
}
static void check_printed(map<Path, Row> got, map<Path, Row> const& want, double scale, double chop, double total, char const* what) {
  for (auto& w : want) {
    if (w.second.time * 100 / total < chop) continue;
    REQ(got.count(w.first), what, "%s (%g, %zu calls) is not printed", show(w.first).c_str(), w.second.time, w.second.calls);
    auto& g = got[w.first];
    REQ(g.calls == w.second.calls && std::fabs(g.time - w.second.time * scale) <= 1e-4 * w.second.time * scale + (scale != 1 ? 0.00501 : 0), what,
        "%s is printed as %g with %zu calls, expected %g with %zu", show(w.first).c_str(), g.time, g.calls, w.second.time * scale, w.second.calls);
    got.erase(w.first);
  }
  REQ(got.empty(), what, "%s is printed", show(got.begin()->first).c_str());
}
static void profiles(mc::Ctx& c, int len) {
  C = &c;
  bool file = c.flip("with file"), percent = c.flip("percent"), global = c.flip("global");
  double chop = c.flip("chop") ? 20 : 0;
  prof::History h(nullptr, percent, chop, file && global);
  auto was = prof::global_singleton_history;
  map<Path, Row> want;
  map<Path, Node> tree;
  vector<Path> order;
  Path now;
  static char const* const names[3] = {"a", "b", "ab"};
  if (global) prof::global_singleton_history = &h;
  for (int i = 0; i < len; ++i) {
    int op = c.choose(5, "op");  // begin one of three, end, stop here
    if (op == 4) break;
    if (op == 3) {
      if (now.empty()) break;
      if (global) oh::end_code();
      else h.stop();
      now.pop_back();
      continue;
    }
    if (global) oh::begin_code(names[op], op == 1 ? "/some/dir/x.cpp:7" : nullptr);
    else h.start(names[op]);
    now.push_back(file && global ? (op == 1 ? "x.cpp:7::b" : string("Omega_h::") + names[op]) : names[op]);
    if (!tree.count(now)) order.push_back(now);
    ++tree[now].calls;
  }
  while (!now.empty()) {
    if (global) oh::end_code();
    else h.stop();
    now.pop_back();
  }
  prof::global_singleton_history = was;
  c.exec();
  REQ(h.current_frame == prof::invalid, "open", "a frame is still open");
  // the measured times are consistent
  for (size_t f = 0; f < h.frames.size(); ++f) {
    double s = 0;
    for (auto k = h.first(f); k != prof::invalid; k = h.next(k)) s += h.time(k);
    REQ(h.time(f) >= s - 1e-9 && h.time(f) < 100, "times", "%s took %g but its parts %g", show(path_of(h, f)).c_str(), h.time(f), s);
  }
  // times by which each frame can be told
  for (size_t i = 0; i < order.size(); ++i) tree[order[i]].self = std::pow(2.0, double(i));
  for (auto& t : tree) want[t.first] = {total_of(tree, t.first), t.second.calls};
  REQ(h.frames.size() == want.size(), "frames", "%zu frames for %zu call paths", h.frames.size(), want.size());
  for (size_t f = 0; f < h.frames.size(); ++f) {
    auto p = path_of(h, f);
    REQ(want.count(p), "frames", "%s has a frame", show(p).c_str());
    h.frames[f].total_runtime = want[p].time;
  }
  check_tree(h, want, "frames");
  auto inv = prof::invert(h);
  map<Path, Row> winv;
  for (auto& t : tree)
    for (size_t n = 1; n <= t.first.size(); ++n) {
      Path p(t.first.rbegin(), t.first.rbegin() + long(n));
      if (!winv.count(p)) winv[p] = {0, 0};
      winv[p].time += t.second.self;
      winv[p].calls += t.second.calls;
    }
  check_tree(inv, winv, "inverse");
  double total = 0;
  for (auto& t : tree) total += t.second.self;
  if (total == 0) total = 1;
  Heard heard;
  prof::print_top_down_and_bottom_up(h, total);
  auto ls = lines(heard.text[minimpi::rank()]);
  size_t a = 0, b = 0;
  for (size_t i = 0; i < ls.size(); ++i) {
    if (ls[i] == "TOP-DOWN:") a = i;
    if (ls[i] == "BOTTOM-UP:") b = i;
  }
  REQ(b > a, "printed", "no headings");
  double scale = percent ? 100 / total : 1;
  check_printed(parse(ls, a + 2, b, percent), want, scale, chop, total, "top-down");
  check_printed(parse(ls, b + 2, ls.size(), percent), winv, scale, chop, total, "bottom-up");
}
static void rank_reports(mc::Ctx& c, bool schedules) {
  C = &c;
  int n = 1 + c.choose(schedules ? 2 : 3, "ranks");
  vector<int> mask;
  for (int r = 0; r < n; ++r) mask.push_back(c.choose(8, "functions"));
  int nest = c.choose(2, "nested");
  Options o;
  o.nranks = n;
  o.explore = schedules;
  static char const* const names[3] = {"alpha", "beta", "gam"};
  Heard heard;
  auto time = [](int r, int f) { return double((r + 1) * (f + 2)) + (f == 1 ? 10 * (2 - r) : 0); };
  minimpi::run(c, o, [&](int r) {
    oh::Library lib;
    prof::History h(lib.world(), false, 0.0, false);
    int depth = 0;
    for (int f = 0; f < 3; ++f)
      if (mask[size_t(r)] >> f & 1) {
        h.start(names[f]);
        if (nest) ++depth;
        else h.stop();
      }
    while (depth--) h.stop();
    for (size_t i = 0; i < h.frames.size(); ++i) {
      double t = 0;
      for (int f = 0; f < 3; ++f)
        if (mask[size_t(r)] >> f & 1) {
          auto name = string(names[f]);
          if (name == h.get_name(i)) t += time(r, f);
        }
      h.frames[i].total_runtime = t;
    }
    if (nest)  // totals hold the parts
      for (size_t i = h.frames.size(); i-- > 0;)
        if (h.parent(i) != prof::invalid) h.frames[h.parent(i)].total_runtime += h.frames[i].total_runtime;
    c.exec();
    prof::print_top_sorted(h, 1000.0);
  });
  map<string, vector<double>> got;
  double last = 1e300;
  bool table = false;
  for (auto& l : lines(heard.text[0])) {
    std::istringstream s(l);
    double v[4];
    string name, w;
    if (l.find("----") != string::npos) {
      REQ(!table, "two-tables", "two tables");
      table = true;
      continue;
    }
    if (!table || l.empty()) continue;
    vector<string> words;
    while (s >> w) words.push_back(w);
    REQ(words.size() >= 5, "table-line", "line \"%s\"", l.c_str());
    for (int i = 0; i < 4; ++i) v[i] = strtod(words[size_t(i)].c_str(), nullptr);
    name = words[4];
    REQ(!got.count(name), "table-twice", "%s is listed twice", name.c_str());
    REQ(v[0] <= last * (1 + 1e-4), "table-order", "\"%s\" comes after a shorter one", l.c_str());
    last = v[0];
    got[name] = {v[0], v[1], v[2]};
  }
  REQ(table, "table", "no table");
  double sum = 0;
  for (int f = 0; f < 3; ++f) {
    double s = 0, mn = 1e300, mx = 0;
    int have = 0;
    for (int r = 0; r < n; ++r)
      if (mask[size_t(r)] >> f & 1) {
        ++have;
        s += time(r, f);
        mn = std::min(mn, time(r, f));
        mx = std::max(mx, time(r, f));
      }
    sum += s / n;
    REQ(bool(got.count(names[f])) == bool(have), "table-functions", "%s is called on %d ranks and %s", names[f], have, got.count(names[f]) ? "listed" : "not listed");
    if (!have) continue;
    auto g = got[names[f]];
    auto near = [](double x, double y) { return std::fabs(x - y) <= 1e-4 * std::fabs(y); };
    REQ(near(g[0], s / n) && near(g[2], mx) && (have < n || near(g[1], mn)), "table-numbers", "%s: %g %g %g, expected %g %g %g", names[f], g[0], g[1], g[2], s / n, mn, mx);
  }
  REQ(got.count("unmonitored") && std::fabs(got["unmonitored"][0] - (1000 - sum)) < 0.01, "unmonitored", "%g, expected %g", got["unmonitored"][0], 1000 - sum);
  for (auto& t : heard.text) REQ(t.first <= 0 || t.second.empty(), "table-rank", "rank %d prints \"%s\"", t.first, t.second.c_str());
}

int main(int argc, char** argv) {
  using mc::Ctx;
  return mc::main(argc, argv, "C25",
      {
          {"streams", streams, 60, false, "13 seeds x 13 keys x 12 starts"},
          {"entities", entities, 60, false, "0-4 entities of 5 numbers, 13 seeds, counters 0-4"},
          {"laws", laws, 60, false, "200 degrees of freedom x 23 values; grids of the other laws"},
          {"histograms", [](Ctx& c) { histograms(c, false); }, 60, false, "4 meshes, all owners on 1-3 ranks, 3 partings, 1-4 bins"},
          {"histogram-schedules", [](Ctx& c) { histograms(c, true); }, 60, true, "4 triangles on 2 ranks"},
          {"plots", [](Ctx& c) { plots(c, false); }, 60, false, "3 meshes, all owners on 1-3 ranks, 3 partings"},
          {"plot-schedules", [](Ctx& c) { plots(c, true); }, 60, false, "4 triangles on 2 ranks"},
          {"profiles", [](Ctx& c) { profiles(c, 6); }, 60, false, "up to 6 begins and ends of 3 names"},
          {"profiles-long", [](Ctx& c) { profiles(c, 7); }, 60, true, "up to 7 begins and ends of 3 names"},
          {"reports", [](Ctx& c) { rank_reports(c, false); }, 60, false, "every set of functions on each of 1-3 ranks"},
          {"report-schedules", [](Ctx& c) { rank_reports(c, true); }, 60, false, "every set of functions on each of 1-2 ranks"},
      });
}
