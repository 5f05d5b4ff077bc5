// C03: however a mesh is distributed and redistributed, the parts together are
// the same mesh, ownership is consistent, and each parting holds what it says.
#include <cmath>
#include "distkit.hpp"
#include "soups.hpp"
#include <Omega_h_box.hpp>
#include <Omega_h_simplify.hpp>
#include <Omega_h_ghost.hpp>
#include <Omega_h_element.hpp>
using namespace mk;
using namespace dk;
using namespace minimpi;

enum { ELEM, VERT_, GHOST1, GHOST2, GHOST3, TO0, TO1, SPREAD, FLIP, BALANCE, RECOMM, NOPS };
static char const* op_name[] = {"elem", "vert", "ghost1", "ghost2", "ghost3", "to0", "tolast", "spread", "flip", "balance", "recomm"};

// tags are synchronized and reduced as arrays are
template <class T>
static void sync_of_tag(oh::Mesh& m, int d, std::string const& what) {
  auto g = vec(m.globals(d));
  vector<T> a;
  int me = m.comm()->rank();
  for (auto x : g) {
    a.push_back(T((x * 3 + me) % 100));
    a.push_back(T(me - 2));
  }
  m.add_tag<T>(d, "to sync", 2, arr(a));
  m.add_tag<T>(d, "to reduce", 2, arr(a));
  m.add_tag<T>(d, "left", 2, arr(a));
  m.sync_tag(d, "to sync");
  require(vec(m.get_array<T>(d, "to sync")) == vec(m.sync_array(d, arr(a), 2)), "sync_tag", "%s: sync_tag of dimension %d differs from sync_array", what.c_str(), d);
  {
    auto op = m.nglobal_ents(0) % 2 ? OMEGA_H_MIN : OMEGA_H_SUM;
    m.set_tag<T>(d, "to reduce", arr(a));
    m.reduce_tag(d, "to reduce", op);
    require(vec(m.get_array<T>(d, "to reduce")) == vec(m.reduce_array(d, arr(a), 2, op)), "reduce_tag", "%s: reduce_tag of dimension %d differs from reduce_array", what.c_str(), d);
  }
  require(vec(m.get_array<T>(d, "left")) == a, "sync_tag", "%s: another tag changed", what.c_str());
  for (auto n : {"to sync", "to reduce", "left"}) m.remove_tag(d, n);
}

// collective data operations on the current mesh
static void data_ops(oh::Mesh& m, vector<vector<int>> const& copies_of, std::string const& what, bool tags_too) {
  for (int d = 0; d <= m.dim(); ++d) {
    auto own = m.ask_owners(d);
    auto owned = m.owned(d);
    auto g = m.globals(d);
    int me = m.comm()->rank();
    LO n = m.nents(d);
    auto dist = m.ask_dist(d);
    require(dist.parent_comm()->size() == m.comm()->size() && dist.parent_comm()->rank() == me, "dist-comm", "%s: the distributor of dimension %d is on another communicator", what.c_str(), d);
    require(vec(dist.items2dests().ranks) == vec(own.ranks) && vec(dist.items2dests().idxs) == vec(own.idxs), "dist-owners",
        "%s: the distributor of dimension %d leads elsewhere than the owners", what.c_str(), d);
    for (LO i = 0; i < n; ++i) require((owned[i] != 0) == (own.ranks[i] == me), "owned", "%s: owned() of dimension %d", what.c_str(), d);
    // sync: everyone gets the owner's value
    vector<GO> a;
    for (LO i = 0; i < n; ++i) {
      a.push_back(owned[i] ? g[i] * 7 + 1 : -1000 - me);
      a.push_back(owned[i] ? -g[i] : -2000 - me);
    }
    auto s = vec(m.sync_array(d, arr(a), 2));
    auto f = m.isync_array(d, arr(a), 2);
    auto s2 = vec(f.get());
    require(s.size() == a.size(), "sync", "%s: size", what.c_str());
    for (LO i = 0; i < n; ++i)
      require(s[size_t(2 * i)] == g[i] * 7 + 1 && s[size_t(2 * i + 1)] == -g[i], "sync", "%s: sync_array gives %lld for %d-entity with global %lld",
          what.c_str(), (long long)s[size_t(2 * i)], d, (long long)g[i]);
    require(s2 == s, "isync", "%s: isync_array differs from sync_array", what.c_str());
    if (tags_too) switch ((d + m.nglobal_ents(m.dim())) % 4) {
      case 0: sync_of_tag<I8>(m, d, what); break;
      case 1: sync_of_tag<I32>(m, d, what); break;
      case 2: sync_of_tag<GO>(m, d, what); break;
      default: sync_of_tag<Real>(m, d, what);
    }
    // reduce: the sum, the least and the greatest of all copies, at the owner and copies alike
    vector<I32> ones((size_t)n, 1), ranks((size_t)n, I32(me));
    if (m.could_be_shared(d)) {
      auto sum = vec(m.reduce_array(d, arr(ones), 1, OMEGA_H_SUM));
      auto mx = vec(m.reduce_array(d, arr(ranks), 1, OMEGA_H_MAX));
      auto mn = vec(m.reduce_array(d, arr(ranks), 1, OMEGA_H_MIN));
      (void)copies_of;
      // reduce_array leaves the result at the owners
      auto vsum = vec(m.sync_array(d, arr(sum), 1)); auto vmx = vec(m.sync_array(d, arr(mx), 1)); auto vmn = vec(m.sync_array(d, arr(mn), 1));
      vector<double> t;
      for (LO i = 0; i < n; ++i) {
        t.push_back(vsum[size_t(i)]);
        t.push_back(vmx[size_t(i)]);
        t.push_back(vmn[size_t(i)]);
      }
      m.add_tag<Real>(d, "reduced", 3, arr(t));
    } else {
      auto sum = vec(m.reduce_array(d, arr(ones), 1, OMEGA_H_SUM));
      require(sum == ones, "reduce", "%s: reduce of unshared entities", what.c_str());
      vector<double> t;
      for (LO i = 0; i < n; ++i) t.insert(t.end(), {1.0, double(me), double(me)});
      m.add_tag<Real>(d, "reduced", 3, arr(t));
    }
    auto oa = vec(m.owned_array(d, g, 1));
    vector<GO> want;
    for (LO i = 0; i < n; ++i)
      if (owned[i] || !m.could_be_shared(d)) want.push_back(g[i]);
    require(oa == want, "owned_array", "%s: owned_array of dimension %d", what.c_str(), d);
    // subset: every second entity (by global number) only
    vector<LO> sub;
    vector<GO> sd;
    for (LO i = 0; i < n; ++i)
      if (g[i] % 2 == 0) {
        sub.push_back(i);
        sd.push_back(owned[i] ? g[i] + 5 : -7);
      }
    auto ss = vec(m.sync_subset_array(d, arr(sd), arr(sub), GO(-9), 1));
    for (size_t k = 0; k < sub.size(); ++k)
      require(ss[k] == g[sub[k]] + 5, "sync_subset", "%s: sync_subset_array gives %lld for global %lld", what.c_str(), (long long)ss[k],
          (long long)g[sub[k]]);
    LO no = 0;
    for (LO i = 0; i < n; ++i) no += owned[i] ? 1 : 0;
    require(m.nents_owned(d) == no, "nents_owned", "%s: nents_owned(%d) is %d of %d, expected %d", what.c_str(), d, m.nents_owned(d), n, no);
    require(no == 0 || m.ghosted_ratio(d) == double(n) / no, "ghosted_ratio", "%s: ghosted_ratio(%d) is %g", what.c_str(), d, no ? m.ghosted_ratio(d) : 0.0);
    auto all = m.comm()->allreduce(double(n), OMEGA_H_SUM), most = m.comm()->allreduce(double(n), OMEGA_H_MAX);
    require(std::fabs(m.imbalance(d) - (all ? most * m.comm()->size() / all : 1)) < 1e-12, "imbalance", "%s: imbalance(%d) is %g", what.c_str(), d, m.imbalance(d));
    GO ng = m.nglobal_ents(d);
    vector<double> t((size_t)n, double(ng));
    m.add_tag<Real>(d, "nglobal", 1, arr(t));
  }
}

static void check_data_tags(Snap const& sn, Soup const& soup) {
  for (int d = 0; d <= soup.dim; ++d) {
    std::map<vector<GO>, vector<int>> holders;
    for (auto& r : sn.r)
      for (auto& e : r.ents[d]) holders[sortv(e.verts)].push_back(r.rank);
    for (auto& r : sn.r)
      for (size_t i = 0; i < r.ents[d].size(); ++i) {
        auto& h = holders[sortv(r.ents[d][i].verts)];
        auto& t = r.tags[d].at("reduced")[i];
        MKREQ(t[0] == double(h.size()) && t[1] == *std::max_element(h.begin(), h.end()) && t[2] == *std::min_element(h.begin(), h.end()), "reduce",
            "%s: reduce_array over the copies of %d-entity %s gives sum %g max %g min %g, copies are on %s", sn.what.c_str(), d,
            str(r.ents[d][i].verts).c_str(), t[0], t[1], t[2], str(h).c_str());
        MKREQ(r.tags[d].at("nglobal")[i][0] == double(holders.size()), "nglobal", "%s: nglobal_ents(%d) is %g, expected %zu", sn.what.c_str(), d,
            r.tags[d].at("nglobal")[i][0], holders.size());
      }
  }
}

struct Scenario {
  Soup s;
  int n;
  bool from_serial;
  vector<int> owner;
  vector<int> ops;
  int hnum = 0;
};

static void play(mc::Ctx& c, Scenario const& sc, Options o) {
  std::string text = sc.s.text() + " ranks=" + std::to_string(sc.n) + (sc.from_serial ? " serial" : " parts") + str(sc.owner);
  for (int op : sc.ops) text += std::string(" ") + op_name[op];
  c.note("%s", text.c_str());
  mc::Hash h;
  h.add(text).add(o.eager);
  o.config = h.h;
  o.nranks = sc.n;
  c.state(h.h);
  size_t phases = sc.ops.size() + 1;
  vector<Snap> snaps(phases);
  for (auto& s : snaps) s.r.resize(size_t(sc.n));
  bool explored = o.explore;
  run(c, o, [&](int) {
    bool was = explore(false);
    oh::Library lib;
    auto comm = lib.world();
    explore(was && explored);
    oh::Mesh m(&lib);
    auto record = [&](size_t p) {
      bool w = explore(false);
      snaps[p].what = p ? op_name[sc.ops[p - 1]] : "start";
      auto s = snapshot(m);
      snaps[p].r[size_t(s.rank)] = s;
      m.comm()->barrier();
      explore(w);
    };
    auto coords = [&] {
      auto vg = m.globals(0);
      vector<Real> co;
      for (LO v = 0; v < m.nverts(); ++v)
        for (int k = 0; k < sc.s.dim; ++k) co.push_back(Real((vg[v] * (k + 3) * 7 + k * vg[v] * vg[v]) % 11) / 4);
      m.add_tag<Real>(0, "coordinates", sc.s.dim, arr(co));
    };
    if (sc.from_serial) {
      if (comm->rank() == 0) {
        m = mk::build(lib, sc.s);
        add_identity_tags(m);
        coords();
      }
      m.set_comm(comm);
      m.set_parting(OMEGA_H_ELEM_BASED);
      Snap now;
      if (comm->rank() == 0) {
        auto s = snapshot(m);
        for (int r = 0; r < sc.n; ++r) now.r.push_back(RankSnap());
        now.r[0] = s;
        snaps[0].r[0] = s;
      } else {
        snapshot(m);
      }
      comm->barrier();
      now = snaps[0];
      oh::migrate_mesh(&m, dist_to(m, sc.s, sc.owner, now), OMEGA_H_ELEM_BASED, false);
    } else {
      m = build_parted(lib, comm, sc.s, sc.owner);
      add_identity_tags(m);
      coords();
    }
    comm->barrier();
    record(0);
    for (size_t k = 0; k < sc.ops.size(); ++k) {
      auto goto_owner = [&](vector<int> to) {
        m.set_parting(OMEGA_H_ELEM_BASED);
        bool w = explore(false);
        auto s = snapshot(m);
        snaps[k + 1].r[size_t(s.rank)] = s;
        m.comm()->barrier();
        auto d = dist_to(m, sc.s, to, snaps[k + 1]);
        m.comm()->barrier();
        explore(w);
        oh::migrate_mesh(&m, d, OMEGA_H_ELEM_BASED, false);
      };
      size_t ne = sc.s.elems.size();
      vector<int> to(ne);
      switch (sc.ops[k]) {
        case ELEM: m.set_parting(OMEGA_H_ELEM_BASED); break;
        case VERT_: m.set_parting(OMEGA_H_VERT_BASED); break;
        case GHOST1: m.set_parting(OMEGA_H_GHOSTED, 1, false); break;
        case GHOST2: m.set_parting(OMEGA_H_GHOSTED, 2, false); break;
        case GHOST3: m.set_parting(OMEGA_H_GHOSTED, 3, false); break;
        case TO0: goto_owner(to); break;
        case TO1:
          for (auto& t : to) t = sc.n - 1;
          goto_owner(to);
          break;
        case SPREAD:
          for (size_t e = 0; e < ne; ++e) to[e] = int(e) % sc.n;
          goto_owner(to);
          break;
        case FLIP:
          for (size_t e = 0; e < ne; ++e) to[e] = sc.n - 1 - sc.owner[e];
          goto_owner(to);
          break;
        case BALANCE: m.balance(); break;
        case RECOMM: {
          auto old = m.comm();
          m.set_comm(old->split(0, old->size() - old->rank()));
          break;
        }
      }
      bool w = explore(false);
      data_ops(m, {}, op_name[sc.ops[k]], sc.ops.size() == 1 && !o.explore);
      check_adjacencies(m, false);
      explore(w);
      record(k + 1);
    }
    explore(false);
  });
  Expect x;
  bool migrated = sc.from_serial;
  for (size_t p = 0; p < phases; ++p) {
    snaps[p].what = "step " + std::to_string(p) + " (" + (p ? op_name[sc.ops[p - 1]] : "start") + ")";
    if (p && sc.ops[p - 1] != ELEM && sc.ops[p - 1] != RECOMM) migrated = true;
    x.sorted_local = migrated;
    check_global(snaps[p], sc.s, x);
    if (p) {
      // the parting is the one asked for
      int op = sc.ops[p - 1], want = OMEGA_H_ELEM_BASED, layers = 0;
      if (op == RECOMM) { want = snaps[p - 1].r[0].parting; layers = snaps[p - 1].r[0].layers; }
      if (op == VERT_) { want = OMEGA_H_VERT_BASED; layers = 1; }
      if (op == GHOST1 || op == GHOST2 || op == GHOST3) { want = OMEGA_H_GHOSTED; layers = 1 + op - GHOST1; }
      for (auto& r : snaps[p].r)
        MKREQ(r.parting == want && r.layers == layers, "parting-asked", "%s: the parting is %d with %d layers", snaps[p].what.c_str(), r.parting, r.layers);
    }
    if (p) check_data_tags(snaps[p], sc.s);
  }
  // entities keep their number and vertex order through all steps
  for (int d = 0; d <= sc.s.dim; ++d) {
    std::map<vector<GO>, Ent> first;
    for (size_t p = 0; p < phases; ++p)
      for (auto& r : snaps[p].r)
        for (auto& e : r.ents[d]) {
          auto it = first.insert({sortv(e.verts), e}).first;
          MKREQ(it->second.global == e.global, "renumbered", "step %zu: %d-entity %s had global number %lld, now %lld", p, d, str(e.verts).c_str(),
              (long long)it->second.global, (long long)e.global);
          MKREQ(it->second.verts == e.verts, "reordered", "step %zu: %d-entity %s has vertex order %s", p, d, str(it->second.verts).c_str(),
              str(e.verts).c_str());
        }
  }
  mc::Hash out;
  for (auto& r : snaps.back().r)
    for (int d = 0; d <= sc.s.dim; ++d) out.add(r.ents[d].size());
  c.outcome(out.h);
  c.step(mpi_calls());
}

static void histories(mc::Ctx& c, vector<char const*> names, int n, int depth, bool all_owners, vector<int> alphabet) {
  Scenario sc;
  sc.n = n;
  sc.s = base(names[size_t(c.choose(int(names.size())))]).s;
  if (all_owners) {
    sc.owner = choose_digits(c, int(sc.s.elems.size()), n);
  } else {
    int k = c.choose(4);
    for (size_t e = 0; e < sc.s.elems.size(); ++e) {
      int ne = int(sc.s.elems.size());
      sc.owner.push_back(k == 0 ? 0 : k == 1 ? int(e) % n : k == 2 ? int(e) * n / ne : (e == 0 ? n - 1 : 0));
    }
  }
  c.split();
  sc.from_serial = c.flip();
  int d = c.choose(depth) + 1;
  for (int i = 0; i < d; ++i) {
    int op = alphabet[size_t(c.choose(int(alphabet.size())))];
    if (op == BALANCE && (n & (n - 1))) c.prune();  // balancing is for powers of two
    sc.ops.push_back(op);
  }
  Options o;
  o.eager = true;
  o.explore = false;
  play(c, sc, o);
}

// a fixed scenario under all schedules with a bounded number of deviations
static void schedules(mc::Ctx& c, vector<char const*> names, int n, int bound, int nops) {
  Scenario sc;
  sc.n = n;
  sc.s = base(names[size_t(c.choose(int(names.size())))]).s;
  for (size_t e = 0; e < sc.s.elems.size(); ++e) sc.owner.push_back(int(e) % n);
  static int const ops[] = {GHOST1, VERT_, BALANCE, FLIP, RECOMM};
  sc.from_serial = c.flip();
  sc.ops = {ops[c.choose(nops)]};
  if (sc.ops[0] == BALANCE && (n & (n - 1))) c.prune();
  Options o;
  o.eager = !c.flip();
  c.split();
  c.deviation_bound = bound;
  play(c, sc, o);
}

int main(int argc, char** argv) {
  vector<int> all = {ELEM, VERT_, GHOST1, GHOST2, GHOST3, TO0, TO1, SPREAD, FLIP, BALANCE, RECOMM};
  vector<int> some = {ELEM, VERT_, GHOST1, GHOST2, FLIP, BALANCE, RECOMM};
  return mc::main(argc, argv, "C03",
      {
          {"one2", [=](mc::Ctx& c) {
             histories(c, {"edges4", "ring3", "strip4", "fan4", "bowtie", "tets3", "tetring4", "quads4", "hexes2", "strip6"}, 2, 1, true, all);
           }, 60, false, "10 meshes, every element-to-rank assignment on 2 ranks, every single operation"},
          {"one3", [=](mc::Ctx& c) {
             histories(c, {"edges4", "ring3", "strip4", "fan4", "bowtie", "tets3", "tetring4", "quads4", "hexes2"}, 3, 1, true, all);
           }, 60, false, "9 meshes, every assignment on 3 ranks, every single operation"},
          {"two2", [=](mc::Ctx& c) {
             histories(c, {"strip4", "tets3", "quads4", "edges4"}, 2, c.thorough() ? 3 : 2, true, c.thorough() ? some : all);
           }, 60, false, "4 meshes, every assignment on 2 ranks, every sequence of 2 (thorough 3) operations"},
          {"three2", [=](mc::Ctx& c) {
             histories(c, c.thorough() ? vector<char const*>{"strip6", "tetring4", "hexes2"} : vector<char const*>{"tetring4"}, 2, 3, false, some);
           }, 60, false, "3 meshes, 4 assignments on 2 ranks, every sequence of 3 of 7 operations"},
          {"two4", [=](mc::Ctx& c) {
             histories(c, {"strip6", "tetring4", "quads4"}, 4, 2, false, all);
           }, 60, false, "3 meshes, 4 assignments on 4 ranks, every sequence of 2 operations"},
          {"sched2", [=](mc::Ctx& c) { c.thorough() ? schedules(c, {"strip4", "tets3"}, 2, 2, 5) : schedules(c, {"strip4"}, 2, 1, 5); }, 60, false,
              "2 ranks, one operation, all schedules with <=1 (thorough 2) deviations, eager and rendezvous"},
          {"sched3", [=](mc::Ctx& c) { schedules(c, {"strip4"}, 3, 1, c.thorough() ? 5 : 1); }, 60, false,
              "3 ranks, one operation, all schedules with <=1 deviation, eager and rendezvous"},
      });
}
