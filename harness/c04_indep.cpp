// C04: the adapted mesh does not depend on how the input was partitioned or
// ordered, on the schedule of the ranks, or on the order reductions combine in.
#include <Omega_h_mesh.hpp>
#include <Omega_h_unmap_mesh.hpp>
#include "adaptrun.hpp"
using namespace ak;
using namespace minimpi;

struct Ref {
  vector<Global> g;
  vector<char> ret;
};
static std::map<std::string, Ref> refs;

static oh::Mesh input(oh::Library& lib, Case const& k, Start const& st) {
  oh::Mesh m = mk::build(lib, st.s);
  dress(m, st);
  add_fields(m, k, st);
  return m;
}
static std::set<std::string> const cached = {"length", "quality", "size", "mass_error", "momentum_error", "old_cons"};

static void same_global(Global const& a, Global const& b, char const* w) {
  for (int d = a.dim; d >= 0; --d) {
    MKREQ(a.ents[d].size() == b.ents[d].size(), "differs", "%s: %zu %d-entities, the serial run has %zu", w, b.ents[d].size(), d, a.ents[d].size());
    for (auto& e : a.ents[d]) {
      auto it = b.ents[d].find(e.first);
      MKREQ(it != b.ents[d].end(), "differs", "%s: the %d-entity %s of the serial run is missing", w, d, str(e.first).c_str());
      auto& f = it->second;
      MKREQ(e.second.verts == f.verts, "differs-order", "%s: %d-entity %s has vertex order %s", w, d, str(e.second.verts).c_str(), str(f.verts).c_str());
      MKREQ(e.second.global == f.global, "differs-number", "%s: %d-entity %s has number %lld, %lld in the serial run", w, d, str(e.second.verts).c_str(), (long long)f.global,
          (long long)e.second.global);
      for (auto& t : e.second.tags) {
        if (cached.count(t.first) && !f.tags.count(t.first)) continue;
        MKREQ(f.tags.count(t.first), "differs-tag", "%s: tag %s is missing", w, t.first.c_str());
        auto& u = f.tags.at(t.first);
        bool same = u.size() == t.second.size();
        for (size_t i = 0; same && i < u.size(); ++i) same = u[i] == t.second[i];
        MKREQ(same, "differs-value", "%s: %d-entity %s has %s = %s, %s in the serial run", w, d, str(e.second.verts).c_str(), t.first.c_str(), str(u).c_str(),
            str(t.second).c_str());
      }
      for (auto& t : f.tags) MKREQ(cached.count(t.first) || e.second.tags.count(t.first), "differs-tag", "%s: tag %s is new", w, t.first.c_str());
    }
  }
}

static Ref const& reference(mc::Ctx& c, Case k) {
  k.owner.clear();
  k.nranks = 1;
  k.order = 0;
  auto& r = refs[k.text() + (k.conserve ? " conserve" : "")];
  if (!r.g.empty()) return r;
  auto& st = start(k.start);
  Options mo;
  mo.nranks = 1;
  mo.explore = false;
  Ref out;
  run(c, mo, [&](int) {
    oh::Library lib;
    auto m = input(lib, k, st);
    auto o = make_opts(m, k);
    Watcher w;
    w.o = &o;
    for (int op : k.ops) {
      auto s = do_op(m, k, st, o, &w, op);
      Snap sn;
      sn.what = "serial";
      sn.r = {dk::snapshot(m)};
      out.g.push_back(gather(sn, st.model.dim));
      out.ret.push_back(s.ret);
    }
  });
  r = out;
  return r;
}

static void play(mc::Ctx& c, Case const& k, Options mo) {
  auto& st = start(k.start);
  c.note("%s%s", k.text().c_str(), mo.eager ? "" : " rendezvous");
  auto& ref = reference(c, k);
  mc::Hash hs;
  hs.add(k.text()).add(mo.eager).add(mo.reduce_order);
  c.state(hs.h);
  mo.config = hs.h;
  mo.nranks = k.nranks;
  bool explored = mo.explore;
  vector<Snap> snaps(k.ops.size() + 1);
  vector<vector<char>> rets(k.ops.size(), vector<char>(size_t(k.nranks)));
  for (auto& s : snaps) s.r.resize(size_t(k.nranks));
  run(c, mo, [&](int) {
    bool was = explore(false);
    oh::Library lib;
    auto comm = lib.world();
    oh::Mesh m(&lib);
    if (comm->rank() == 0) {
      m = input(lib, k, st);
      if (k.order) {
        // another local order, the same global numbers
        oh::LOs maps[4];
        for (int d = 0; d <= m.dim(); ++d) {
          vector<LO> p;
          for (LO i = 0; i < m.nents(d); ++i) p.push_back(k.order == 1 ? m.nents(d) - 1 - i : (i + m.nents(d) / 2) % m.nents(d));
          if (k.order == 3) std::sort(p.begin(), p.end(), [](LO a, LO b) { return (a * 7919 % 31) != (b * 7919 % 31) ? (a * 7919 % 31) < (b * 7919 % 31) : a < b; });
          maps[d] = arr(p);
        }
        oh::unmap_mesh(&m, maps);
        // the library works on meshes whose local order follows the global one
        if (k.nranks == 1) oh::reorder_by_globals(&m);
      }
    }
    if (k.nranks > 1) {
      m.set_comm(comm);
      m.set_parting(OMEGA_H_ELEM_BASED);
      auto s = dk::snapshot(m);
      snaps[0].r[size_t(comm->rank())] = s;
      comm->barrier();
      oh::migrate_mesh(&m, dk::dist_to(m, st.s, k.owner, snaps[0]), OMEGA_H_ELEM_BASED, false);
      comm->barrier();
    }
    auto o = make_opts(m, k);
    Watcher w;
    w.o = &o;
    for (size_t i = 0; i < k.ops.size(); ++i) {
      explore(was && explored);
      auto r = do_op(m, k, st, o, &w, k.ops[i]);
      explore(false);
      snaps[i + 1].r[size_t(comm->rank())] = dk::snapshot(m);
      rets[i][size_t(comm->rank())] = r.ret;
    }
  });
  std::string what = "parallel";
  for (size_t i = 0; i < k.ops.size(); ++i) {
    what += std::string(" ") + op_names[k.ops[i]];
    for (auto r : rets[i]) MKREQ(r == ref.ret[i], "differs-result", "%s: a rank returns %d, the serial run %d", what.c_str(), r, ref.ret[i]);
    auto& s = snaps[i + 1];
    s.what = what;
    auto g = check_model_mesh(s, st.model, false, cached);
    same_global(ref.g[i], g, what.c_str());
    c.outcome(g.hash());
  }
  c.step(mpi_calls());
}

static vector<int> some_parts(int which, size_t ne, int n) {
  vector<int> o;
  for (size_t e = 0; e < ne; ++e)
    o.push_back(which == 0 ? int(e) % n : which == 1 ? int(e * size_t(n) / ne) : which == 2 ? (e ? 0 : n - 1) : int(e * e + e / 3) % n);
  return o;
}

// every assignment of the elements of a small mesh to ranks
static void parts(mc::Ctx& c, vector<char const*> names, int n, vector<int> fields) {
  Case k;
  k.start = names[size_t(c.choose(int(names.size())))];
  auto& st = start(k.start);
  k.h = field(st, fields[size_t(c.choose(int(fields.size())))]);
  k.aniso = c.flip();
  c.split();
  k.nranks = n;
  // the first element's rank is fixed by symmetry of the rank numbers? no: ownership depends on rank numbers
  k.owner = choose_digits(c, int(st.s.elems.size()), n);
  Options o;
  o.explore = false;
  play(c, k, o);
}
// coarsening that must not flip sides: what may collapse is decided from the
// boundary around each vertex, part of which other ranks own
static void flips(mc::Ctx& c, vector<char const*> names, int n) {
  Case k;
  k.start = names[size_t(c.choose(int(names.size())))];
  auto& st = start(k.start);
  k.h = field(st, vector<int>{6, 7, 8, 1}[size_t(c.choose(4))]);
  k.opts = 2;
  k.nranks = n;
  k.conserve = false;
  k.ops = {c.flip() ? ADAPT : COARSEN};
  c.split();
  k.owner = choose_digits(c, int(st.s.elems.size()), n);
  Options o;
  o.explore = false;
  play(c, k, o);
}
// operation sequences on a few partitions
static void sequences(mc::Ctx& c, vector<char const*> names, vector<int> ranks, int depth) {
  Case k;
  k.start = names[size_t(c.choose(int(names.size())))];
  auto& st = start(k.start);
  k.h = field(st, c.choose(NFIELDS));
  k.aniso = c.flip();
  k.opts = c.choose(NOPTS);
  c.split();
  k.nranks = ranks[size_t(c.choose(int(ranks.size())))];
  k.owner = some_parts(c.choose(4), st.s.elems.size(), k.nranks);
  k.ops.clear();
  int n = 1 + c.choose(depth);
  for (int i = 0; i < n; ++i) k.ops.push_back(c.choose(NOPS));
  k.conserve = false;
  Options o;
  o.explore = false;
  play(c, k, o);
}
static void orders(mc::Ctx& c, vector<char const*> names) {
  Case k;
  k.start = names[size_t(c.choose(int(names.size())))];
  auto& st = start(k.start);
  k.h = field(st, c.choose(NFIELDS));
  k.aniso = c.flip();
  c.split();
  k.opts = c.choose(NOPTS);
  k.order = 1 + c.choose(3);
  k.nranks = 1 + c.choose(2);
  if (k.nranks > 1) k.owner = some_parts(c.choose(2), st.s.elems.size(), k.nranks);
  Options o;
  o.explore = false;
  play(c, k, o);
}
static void schedules(mc::Ctx& c, vector<char const*> names, int n, int bound, vector<int> fields) {
  Case k;
  k.start = names[size_t(c.choose(int(names.size())))];
  auto& st = start(k.start);
  k.h = field(st, fields[size_t(c.choose(int(fields.size())))]);
  k.nranks = n;
  k.owner = some_parts(0, st.s.elems.size(), n);
  Options o;
  o.eager = !c.thorough() || !c.flip();
  o.reduce_order = c.choose(c.thorough() ? 3 : 1);
  c.stripes(8);
  c.deviation_bound = bound;
  play(c, k, o);
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C04",
      {
          {"parts2", [](mc::Ctx& c) { c.thorough() ? parts(c, {"sq1", "two", "poked", "ell", "cube1", "sq2x"}, 2, {0, 2, 3, 5}) : parts(c, {"two", "ell", "cube1"}, 2, {0, 2, 5}); }, 60, false,
              "3 (6) meshes, 3 (4) size fields, isotropic and anisotropic, every element-to-rank assignment on 2 ranks"},
          {"parts3", [](mc::Ctx& c) { c.thorough() ? parts(c, {"two", "poked", "ell", "cube1"}, 3, {2, 5}) : parts(c, {"two"}, 3, {2, 5}); }, 60, false,
              "the same on 3 ranks"},
          {"orders", [](mc::Ctx& c) { orders(c, c.thorough() ? vector<char const*>{"two2", "sq3", "ell2", "poked", "cube1", "thin", "pokedcube"} : vector<char const*>{"two2", "poked", "pokedcube"}); }, 60, false,
              "3 (7) meshes, 6 fields, 4 option sets, 3 other local orders of every dimension, on 1 rank and 2 partitions to 2"},
          {"flip", [](mc::Ctx& c) { flips(c, {"strip"}, 2); }, 60, true, "coarsening without flips of a strip of 8 triangles, 4 size fields, every assignment to 2 ranks"},
          {"seqs", [](mc::Ctx& c) { sequences(c, c.thorough() ? vector<char const*>{"two2", "ell2", "cube1", "pokedcube"} : vector<char const*>{"two2", "cube1"}, c.thorough() ? vector<int>{2, 4} : vector<int>{3}, c.thorough() ? 2 : 1); }, 60, false,
              "2 (4) meshes x 6 fields x 4 option sets x 4 partitions, sequences of operations"},
          {"sched", [](mc::Ctx& c) { c.thorough() ? schedules(c, {"sq1", "two"}, 2, 1, {0, 2, 3}) : schedules(c, {"sq1"}, 2, 1, {2}); }, 60, false,
              "2 ranks: one adaptation under all schedules with <= 1 deviation (thorough: also three reduction orders, eager and rendezvous)"},
      });
}
