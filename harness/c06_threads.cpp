// C06: with the OpenMP back end, results do not depend on the number of
// threads nor on how they interleave, and no two threads race.
// Every scenario is run on one thread and then on a team whose schedule the
// explorer chooses; both runs have to leave the same bytes.
#include "adaptrun.hpp"
#include "distkit.hpp"
#include "image.hpp"
#include "soups.hpp"
#include "miniomp.hpp"
#include <Omega_h_array_ops.hpp>
#include <Omega_h_graph.hpp>
#include <Omega_h_int_scan.hpp>
#include <Omega_h_map.hpp>
#include <Omega_h_mark.hpp>
#include <Omega_h_sort.hpp>
#include <Omega_h_atomics.hpp>
#include <Omega_h_for.hpp>
#include <Omega_h_indset.hpp>
#include <Omega_h_hypercube.hpp>
#include <Omega_h_build.hpp>
using mk::Soup;
using mk::VV;
using mk::base;
using std::string;
using std::vector;
typedef string Bytes;

template <class T>
static void put(Bytes& b, oh::Read<T> a) {
  LO n = a.exists() ? a.size() : -1;
  b.append(reinterpret_cast<char*>(&n), sizeof n);
  for (LO i = 0; i < n; ++i) {
    T x = a[i];
    b.append(reinterpret_cast<char*>(&x), sizeof x);
  }
}
template <class T>
static void put(Bytes& b, oh::Write<T> a) { put(b, oh::Read<T>(a)); }
template <class T>
static void put1(Bytes& b, T x) { b.append(reinterpret_cast<char*>(&x), sizeof x); }
// the order within a row is not promised by this one
static void put_rows(Bytes& b, oh::Graph g) {
  auto a = vec(g.a2ab), v = vec(g.ab2b);
  for (size_t i = 0; i + 1 < a.size(); ++i) std::sort(v.begin() + a[i], v.begin() + a[i + 1]);
  put(b, arr(a));
  put(b, arr(v));
}
static void put_graph(Bytes& b, oh::Graph g) {
  put(b, g.a2ab);
  put(b, g.ab2b);
}
static void put_adj(Bytes& b, oh::Adj a) {
  put(b, a.a2ab);
  put(b, a.ab2b);
  put(b, a.codes);
}

static void one_thread() {
  miniomp::set_threads(1);
  miniomp::set_order(0);
  miniomp::set_ctx(nullptr);
}
// the team and the default order are inputs; deviations from it come on top
static string team(mc::Ctx& c, int max_threads, int bound) {
  int t = 2 + c.choose(max_threads - 1);
  int o = c.choose(3);
  c.split();
  c.deviation_bound = o == 2 ? 0 : bound;
  char s[64];
  snprintf(s, sizeof s, " threads=%d order=%d", t, o);
  one_thread();
  return s;
}
static void many_threads(mc::Ctx& c, string const& t) {
  int n = 1, o = 0;
  sscanf(t.c_str(), " threads=%d order=%d", &n, &o);
  miniomp::set_threads(n);
  miniomp::set_order(o);
  miniomp::set_ctx(&c);
}
template <class F>
static void both(mc::Ctx& c, string const& text, int max_threads, int bound, F f) {
  auto t = team(c, max_threads, bound);
  c.note("%s%s", text.c_str(), t.c_str());
  mc::Hash h;
  h.add(text).add(t);
  c.state(h.h);
  Bytes want = f();
  many_threads(c, t);
  auto before = miniomp::counts();
  Bytes got = f();
  auto after = miniomp::counts();
  one_thread();
  c.require(after.regions > before.regions, "no-region", "%s: nothing ran in parallel", text.c_str());
  if (want != got) {
    size_t i = 0;
    while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
    c.fail("differs", "%s%s: the result differs from the one-thread result at byte %zu of %zu", text.c_str(), t.c_str(), i, want.size());
  }
  c.step(after.points - before.points);
  c.outcome(mc::Hash().add(got).h);
}

// ---- primitives -----------------------------------------------------------
template <class T>
static vector<T> vals(vector<int> const& d) {
  vector<T> v;
  for (int x : d) v.push_back(T(x - 1));
  return v;
}
static Bytes prim(int p, vector<int> const& d) {
  Bytes b;
  int n = int(d.size());
  vector<LO> lo(d.begin(), d.end());
  vector<GO> go;
  for (int x : d) go.push_back(GO(x - 1) << 34);
  vector<Real> re;
  for (int x : d) re.push_back(x == 0 ? 1e16 : x == 1 ? 1.0 : -1e16);
  switch (p) {
    case 0:
      put1(b, oh::get_sum(arr(vals<I8>(d))));
      put1(b, oh::get_sum(arr(vals<I32>(d))));
      put1(b, oh::get_sum(arr(go)));
      break;
    case 1:
      if (!n) break;
      put1(b, oh::get_min(arr(vals<I32>(d))));
      put1(b, oh::get_max(arr(go)));
      put1(b, oh::get_min(arr(re)));
      put1(b, oh::get_max(arr(re)));
      put1(b, oh::get_max(arr(vals<I8>(d))));
      break;
    case 2: put1(b, oh::repro_sum(arr(re))); break;
    case 3:
      put(b, oh::offset_scan(arr(lo)));
      put(b, oh::offset_scan(arr(vector<I8>(d.begin(), d.end()))));
      break;
    case 4: put(b, oh::sort_by_keys(arr(lo))); break;
    case 5: put(b, oh::sort_by_keys(arr(go))); break;
    case 6: {
      vector<LO> k;
      for (int x : d) k.insert(k.end(), {x % 2, x / 2});
      put(b, oh::sort_by_keys(arr(k), 2));
      break;
    }
    case 7: put_rows(b, oh::invert_map_by_atomics(arr(lo), 3)); break;
    case 8: put_graph(b, oh::invert_map_by_sorting(arr(lo), 3)); break;
    case 9: {
      vector<I8> m;
      for (int x : d) m.push_back(x == 1);
      put(b, oh::collect_marked(arr(m)));
      put(b, oh::mark_image(arr(lo), 4));
      break;
    }
    case 10: {
      oh::LOs a2b, perm;
      oh::Read<I32> v;
      oh::sort_small_range(arr(vals<I32>(d)), &perm, &a2b, &v);
      put(b, perm);
      put(b, a2b);
      put(b, v);
      break;
    }
    case 11: {
      auto s = oh::offset_scan(arr(lo));
      vector<LO> data;
      for (int i = 0; i < s.last(); ++i) data.push_back(7 * i - 3);
      put(b, oh::fan_reduce(s, arr(data), 1, OMEGA_H_SUM));
      put(b, oh::fan_reduce(s, arr(data), 1, OMEGA_H_MAX));
      put(b, oh::invert_fan(s));
      break;
    }
    case 12: {
      put(b, oh::add_each(arr(lo), arr(lo)));
      put(b, oh::unmap(arr(lo), arr(vector<GO>{5, 6, 7}), 1));
      put1(b, I8(oh::is_sorted(arr(lo))));
      put1(b, I8(n ? oh::find_last(arr(lo), 1) : 0));
      put1(b, I8(arr(lo) == arr(vector<LO>(size_t(n), 1))));
      break;
    }
    case 13: {
      vector<LO> f(lo);
      for (auto& x : f) x = x == 1 ? -1 : x;
      oh::Write<LO> w = oh::deep_copy(arr(f));
      oh::fill_right(w);
      put(b, oh::Read<LO>(w));
      break;
    }
    case 14: {
      // atomics: everybody adds to few counters
      oh::Write<LO> w(3, 0);
      auto a = arr(lo);
      auto fn = OMEGA_H_LAMBDA(LO i) {
        oh::atomic_increment(&w[a[i]]);
        oh::atomic_add(&w[(a[i] + 1) % 3], 10);
      };
      oh::parallel_for(n, fn);
      put(b, oh::Read<LO>(w));
      break;
    }
  }
  return b;
}
static char const* prim_names[] = {"sum", "min/max", "repro_sum", "offset_scan", "sort LO", "sort GO", "sort pairs", "invert_map_by_atomics", "invert_map_by_sorting", "marks",
    "sort_small_range", "fans", "elementwise", "fill_right", "atomics"};
static void prims(mc::Ctx& c, int nmin, int nmax, int base_, vector<int> which, int threads, int bound) {
  int p = which.empty() ? c.choose(15) : which[size_t(c.choose(int(which.size())))];
  int n = nmin + c.choose(nmax - nmin + 1);
  auto d = choose_digits(c, n, base_);
  both(c, string(prim_names[p]) + " " + str(d), threads, bound, [&] { return prim(p, d); });
}
// teams larger than the work, and larger than any fixed table
static void wide(mc::Ctx& c) {
  static int const threads[] = {7, 64, 512, 600};
  int t = threads[c.choose(4)];
  static int const sizes[] = {0, 1, 6, 63, 510, 514, 700, 1500};
  int n = sizes[c.choose(8)];
  int p = c.choose(15);
  c.split();
  vector<int> d;
  for (int i = 0; i < n; ++i) d.push_back((i * 7 + i / 5) % 3);
  c.note("%s n=%d threads=%d", prim_names[p], n, t);
  mc::Hash h;
  h.add(t).add(n).add(p);
  c.state(h.h);
  one_thread();
  auto want = prim(p, d);
  miniomp::set_threads(t);
  auto got = prim(p, d);
  one_thread();
  c.require(want == got, "differs", "%s of %d values differs on %d threads", prim_names[p], n, t);
  c.step(uint64_t(n));
}

// ---- meshes ---------------------------------------------------------------
static Bytes adjacencies(oh::Mesh& m) {
  Bytes b;
  int dim = m.dim();
  for (int i = 0; i <= dim; ++i)
    for (int j = 0; j <= dim; ++j)
      if (i > j) put_adj(b, m.ask_down(i, j));
      else if (i < j) put_adj(b, m.ask_up(i, j));
  put_graph(b, m.ask_star(0));
  if (dim > 1 && m.family() == OMEGA_H_SIMPLEX) put_graph(b, m.ask_star(1));
  put_graph(b, m.ask_dual());
  for (int d = 0; d <= dim; ++d) put(b, m.globals(d));
  return b;
}
static vector<char const*> all_bases = {"edges4", "ring3", "strip4", "fan4", "bowtie", "tets3", "tetring4", "quads4", "hexes2"};
static void meshes(mc::Ctx& c, vector<char const*> names, int threads, int bound) {
  auto name = names[size_t(c.choose(int(names.size())))];
  auto s = base(name).s;
  both(c, string("mesh ") + name, threads, bound, [&] {
    Bytes b;
    minimpi::Options mo;
    mo.nranks = 1;
    mo.explore = false;
    minimpi::run(c, mo, [&](int) {
      oh::Library lib;
      auto m = mk::build(lib, s);
      b = adjacencies(m);
    });
    return b;
  });
}
// building a box with classification, reordering it
static void boxes(mc::Ctx& c, int threads, int bound) {
  static int const shapes[][4] = {{1, 3, 0, 0}, {1, 2, 2, 0}, {0, 2, 2, 0}, {1, 1, 1, 1}, {0, 1, 1, 2}};
  int k = c.choose(5);
  auto sh = shapes[k];
  both(c, "box " + std::to_string(k), threads, bound, [&] {
    Bytes b;
    minimpi::Options mo;
    mo.nranks = 1;
    mo.explore = false;
    minimpi::run(c, mo, [&](int) {
      oh::Library lib;
      auto m = oh::build_box(lib.world(), sh[0] ? OMEGA_H_SIMPLEX : OMEGA_H_HYPERCUBE, 1, sh[2] ? 2 : 0, sh[3] ? 1.5 : 0, sh[1], sh[2], sh[3]);
      m.add_tag<Real>(0, "x", 1, oh::get_component(m.coords(), m.dim(), 0));
      b = adjacencies(m);
      for (int d = 0; d <= m.dim(); ++d) {
        put(b, m.get_array<I8>(d, "class_dim"));
        put(b, m.get_array<I32>(d, "class_id"));
      }
      oh::reorder_by_hilbert(&m);
      b += adjacencies(m);
      put(b, m.coords());
      put(b, m.get_array<Real>(0, "x"));
    });
    return b;
  });
}
// whole operations on a mesh with fields of every kind
static Bytes image(oh::Mesh& m) {
  auto x = im::take(m);
  Bytes b;
  for (int d = 0; d <= x.dim; ++d) {
    b += x.ab2b[d];
    b += x.codes[d];
    put1(b, x.nents[d]);
    std::map<string, Bytes> t;
    for (auto& g : x.tags[d]) t[g.name] = g.data;
    for (auto& g : t) b += g.first + g.second;
    b += x.oranks[d];
    b += x.oidxs[d];
  }
  return b;
}
static void adapts(mc::Ctx& c, vector<char const*> names, vector<int> ops, int nfields, int threads, int bound) {
  ak::Case k;
  k.start = names[size_t(c.choose(int(names.size())))];
  auto& st = ak::start(k.start);
  k.h = ak::field(st, c.choose(nfields));
  k.aniso = c.flip();
  k.opts = 0;
  k.conserve = false;
  k.ops = {ops[size_t(c.choose(int(ops.size())))]};
  both(c, k.text(), threads, bound, [&] {
    Bytes b;
    minimpi::Options mo;
    mo.nranks = 1;
    mo.explore = false;
    minimpi::run(c, mo, [&](int) {
      oh::Library lib;
      oh::Mesh m = mk::build(lib, st.s);
      dress(m, st);
      add_fields(m, k, st);
      auto o = make_opts(m, k);
      ak::Watcher w;
      w.o = &o;
      auto s = do_op(m, k, st, o, &w, k.ops[0]);
      b = image(m);
      put1(b, s.ret);
      c.step(w.cavities + 1);
    });
    return b;
  });
}
// the same on two or three ranks, each with a team
static void parts(mc::Ctx& c, vector<char const*> names, int n, int threads, int bound) {
  auto name = names[size_t(c.choose(int(names.size())))];
  auto s = base(name).s;
  vector<int> owner;
  int k = c.choose(3);
  for (size_t e = 0; e < s.elems.size(); ++e) owner.push_back(k == 0 ? int(e) % n : k == 1 ? int(e) * n / int(s.elems.size()) : (e ? 0 : n - 1));
  int op = c.choose(4);
  static char const* op_names[] = {"ghost", "vert", "ghost2", "balance"};
  if (op == 3 && (n & (n - 1))) c.prune();
  string text = string(name) + " parts=" + str(owner) + " " + op_names[op];
  both(c, text, threads, bound, [&] {
    vector<Bytes> out;
    out.resize(size_t(n));
    minimpi::Options mo;
    mo.nranks = n;
    mo.explore = false;
    minimpi::run(c, mo, [&](int me) {
      oh::Library lib;
      auto m = dk::build_parted(lib, lib.world(), s, owner);
      dk::add_identity_tags(m);
      vector<Real> co;
      for (auto g : vec(m.globals(0)))
        for (int a = 0; a < m.dim(); ++a) co.push_back(double((g * (a + 3) * 5) % 11));
      m.add_coords(arr(co));
      auto& b = out[size_t(me)];
      b += image(m);
      if (op == 0) m.set_parting(OMEGA_H_GHOSTED);
      if (op == 1) m.set_parting(OMEGA_H_VERT_BASED);
      if (op == 2) m.set_parting(OMEGA_H_GHOSTED, 2, false);
      if (op == 3) m.balance();
      b += image(m);
      for (int d = 0; d <= m.dim(); ++d) {
        auto gl = m.globals(d);
        put(b, m.reduce_array(d, gl, 1, OMEGA_H_MAX));
        put(b, m.reduce_array(d, oh::Read<I32>(m.nents(d), 1), 1, OMEGA_H_SUM));
      }
      m.set_parting(OMEGA_H_ELEM_BASED);
      b += image(m);
    });
    Bytes all;
    for (auto& b : out) all += b;
    return all;
  });
}

int main(int argc, char** argv) {
  mc::before = nullptr;
  ak::aspects = ak::FIELDS | ak::VALID;
  using ak::ADAPT; using ak::COARSEN; using ak::REFINE; using ak::SWAP;
  return mc::main(argc, argv, "C06",
      {
          {"prims", [](mc::Ctx& c) { prims(c, 1, c.thorough() ? 4 : 3, 3, {}, 3, 2); }, 60, false,
              "15 primitives x all inputs of up to 3 (4) of 3 values x 2-3 threads x 3 base orders, all schedules with <=2 deviations"},
          {"sorts", [](mc::Ctx& c) { prims(c, 4, c.thorough() ? 9 : 7, 2, {4, 5, 8}, 4, 1); }, 60, false,
              "task-parallel sorting of all inputs of 4-7 (9) of 2 values, 2-4 threads, all schedules with <=1 deviation"},
          {"atomics", [](mc::Ctx& c) { prims(c, 2, 4, 2, {7, 14}, 4, 3); }, 60, false,
              "invert_map_by_atomics and atomic counters, up to 4 entries, 2-4 threads, all schedules with <=3 deviations"},
          {"wide", wide, 60, false, "the primitives on 7-600 threads with 0-1500 values"},
          {"meshes", [](mc::Ctx& c) { meshes(c, all_bases, 4, c.thorough() ? 1 : 0); }, 60, false,
              "derivation and all adjacencies of 9 meshes, 2-4 threads, 3 orders (thorough: and <=1 deviation)"},
          {"meshsched", [](mc::Ctx& c) { meshes(c, {"strip4", "tets3"}, 2, 1); }, 60, false, "2 meshes on 2 threads, all schedules with <=1 deviation"},
          {"boxes", [](mc::Ctx& c) { boxes(c, 4, 0); }, 60, false, "5 boxes: building, classification, Hilbert reordering; 2-4 threads, 3 orders"},
          {"adapt2", [](mc::Ctx& c) { adapts(c, {"line2", "sq1", "two", "poked"}, {REFINE, COARSEN, SWAP, ADAPT}, 6, 3, 0); }, 60, false,
              "1D and 2D adaptation with fields of every kind: 4 meshes x 6 sizes x 4 operations, 2-3 threads, 3 orders"},
          {"adapt3", [](mc::Ctx& c) { adapts(c, c.thorough() ? vector<char const*>{"cube1", "pokedcube"} : vector<char const*>{"cube1"}, {REFINE, COARSEN, SWAP, ADAPT}, 3, 3, 0); }, 60, false,
              "the same on 3D meshes"},
          {"adaptsched", [](mc::Ctx& c) { adapts(c, {"sq1"}, {REFINE, COARSEN}, 2, 2, 1); }, 60, true, "refining and coarsening two triangles, all schedules with <=1 deviation"},
          {"parts2", [](mc::Ctx& c) { parts(c, all_bases, 2, 3, 0); }, 60, false, "9 meshes x 3 partitions on 2 ranks x 4 redistributions, 2-3 threads per rank, 3 orders"},
          {"parts3", [](mc::Ctx& c) { parts(c, all_bases, 3, 3, 0); }, 60, false, "the same on 3 ranks"},
          {"partsched", [](mc::Ctx& c) { parts(c, {"ring3", "strip4"}, 2, 2, 1); }, 60, true, "2 meshes on 2 ranks x 2 threads, all schedules with <=1 deviation"},
      });
}
