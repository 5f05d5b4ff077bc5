// C16: marking and choosing entities.  Oracles work on vertex lists: marks are
// set definitions, an independent set is the greedy one in order of priority.
#include <Omega_h_adj.hpp>
#include <Omega_h_indset.hpp>
#include <Omega_h_mark.hpp>
#include "worldkit.hpp"
using namespace wk;
using namespace minimpi;
using std::string;

// ---- independent sets on arbitrary graphs
static vector<int> greedy(vector<std::set<int>> const& adj, vector<double> const& q, vector<GO> const& g, vector<int> const& cand) {
  size_t n = adj.size();
  vector<int> order;
  for (size_t i = 0; i < n; ++i)
    if (cand[i]) order.push_back(int(i));
  std::sort(order.begin(), order.end(), [&](int a, int b) { return q[size_t(a)] != q[size_t(b)] ? q[size_t(a)] > q[size_t(b)] : g[size_t(a)] > g[size_t(b)]; });
  vector<int> in(n, 0);
  for (int v : order) {
    bool free_ = true;
    for (int u : adj[size_t(v)]) free_ = free_ && !in[size_t(u)];
    if (free_) in[size_t(v)] = 1;
  }
  return in;
}
static void graphs(mc::Ctx& c) {
  oh::Library lib;
  int n = c.choose(c.thorough() ? 5 : 4) + 1;
  // globals: identity, reversed, rotated
  int go = n > 1 ? c.choose(3) : 0;
  vector<std::set<int>> adj;
  adj.resize(size_t(n));
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j) {
      if (c.flip()) {
        adj[size_t(i)].insert(j);
        adj[size_t(j)].insert(i);
      }
      if (i == 0 && j == 1) c.split();
    }
  vector<int> cand;
  for (int i = 0; i < n; ++i) cand.push_back(n == 5 ? (i == 2 ? c.choose(2) : 1) : c.choose(2));
  vector<double> q;
  static double const values[3] = {0.5, -1.0, 0.25};
  for (int i = 0; i < n; ++i) q.push_back(values[c.choose(3)]);
  VV elems;
  for (int i = 0; i + 1 < n; ++i) elems.push_back({i, i + 1});
  if (n == 1) elems.push_back({0, 1});
  auto s = soup(true, 1, elems);
  auto m = build(lib, s);
  if (n == 1) {
    adj.resize(2);
    cand.push_back(0);
    q.push_back(0);
    n = 2;
  }
  vector<GO> g;
  for (int i = 0; i < n; ++i) g.push_back(go == 0 ? i : go == 1 ? n - 1 - i : (i + 1) % n);
  m.add_tag<GO>(0, "global", 1, arr(g));
  vector<LO> a2ab = {0}, ab2b;
  for (auto& a : adj) {
    for (int x : a) ab2b.push_back(x);
    a2ab.push_back(LO(ab2b.size()));
  }
  vector<I8> cd(cand.begin(), cand.end());
  auto got = vec(oh::find_indset(&m, 0, oh::Graph(arr(a2ab), arr(ab2b)), arr(q), arr(cd)));
  auto want = greedy(adj, q, g, cand);
  c.exec();
  c.state(mc::Hash().add(hash_of(a2ab)).add(hash_of(ab2b)).add(hash_of(q)).add(hash_of(cd)).add(go).h);
  MKREQ(vector<int>(got.begin(), got.end()) == want, "indset", "graph %s %s, qualities %s, candidates %s, globals %s: chose %s, expected %s", str(a2ab).c_str(), str(ab2b).c_str(), str(q).c_str(), str(cd).c_str(), str(g).c_str(), str(got).c_str(), str(want).c_str());
}

// ---- distributed meshes
static void same(oh::Read<I8> got, vector<int> const& ids, vector<int> const& want, char const* what, int rank, int how) {
  minimpi::require(got.size() == LO(ids.size()), what, "%s: rank %d has %d marks for %zu entities", what, rank, got.size(), ids.size());
  for (size_t i = 0; i < ids.size(); ++i)
    minimpi::require(int(got[LO(i)]) == want[size_t(ids[i])], what, "%s (%s): rank %d entity %d is marked %d, expected %d", what, parting_name[how], rank, ids[i], int(got[LO(i)]), want[size_t(ids[i])]);
}
static vector<int> down(World const& w, int h, int l, vector<int> const& marks) {
  vector<int> r(w.ents[l].size(), 0);
  for (size_t i = 0; i < r.size(); ++i)
    for (size_t j = 0; j < marks.size(); ++j)
      if (marks[j] && (h == l ? i == j : w.in(l, int(i), h, int(j)))) r[i] = 1;
  return r;
}
static vector<int> up(World const& w, int l, int h, vector<int> const& marks, bool all) {
  vector<int> r(w.ents[h].size(), all);
  for (size_t j = 0; j < r.size(); ++j)
    for (size_t i = 0; i < marks.size(); ++i)
      if (w.in(l, int(i), h, int(j))) r[j] = all ? r[j] && marks[i] : r[j] || marks[i];
  return r;
}
struct Job {
  int n = 1, how = 0;
  vector<int> owner;
};
static Job pick(mc::Ctx& c, World const& w, int maxranks, int hows) {
  Job j;
  j.n = 1 + c.choose(maxranks);
  if (j.n > 1)
    for (size_t e = 0; e < w.s.elems.size(); ++e) j.owner.push_back(c.choose(j.n));
  else
    j.owner.assign(w.s.elems.size(), 0);
  j.how = j.n > 1 ? c.choose(hows) : 0;
  return j;
}
static void marks(mc::Ctx& c) {
  static char const* names[] = {"strip4", "tets3", "quads4", "edges4", "tetring4", "hexes2"};
  int b = c.choose(c.thorough() ? 6 : 4);
  World w(base(names[b]).s);
  int dim = w.s.dim;
  auto j = pick(c, w, c.thorough() ? 3 : 2, 4);
  c.split();
  int d = c.choose(dim + 1);
  size_t n = w.ents[d].size();
  // every pair of entities, none, all
  vector<int> mark(n, 0);
  int k = c.choose(int(n) + 2);
  if (k < int(n)) {
    mark[size_t(k)] = 1;
    int l = c.choose(int(n) - k);
    mark[size_t(k + l)] = 1;
  } else if (k == int(n))
    mark.assign(n, 1);
  if (c.describing()) c.note("%s on %d ranks %s, %s; dimension %d marks %s", names[b], j.n, str(j.owner).c_str(), parting_name[j.how], d, str(mark).c_str());
  Options o;
  o.nranks = j.n;
  o.explore = false;
  minimpi::run(c, o, [&](int) {
    oh::Library lib;
    auto m = build_parted(lib, lib.world(), w.s, j.owner);
    part(m, j.how);
    int r = m.comm()->rank();
    vector<int> ids[4];
    for (int x = 0; x <= dim; ++x) ids[x] = ids_of(w, m, x);
    auto local = spread(ids[d], mark);
    for (int x = 0; x <= dim; ++x) {
      if (x < d) {
        same(oh::mark_down(&m, d, x, local), ids[x], down(w, d, x, mark), "mark_down", r, j.how);
        same(oh::mark_adj(&m, d, x, local), ids[x], down(w, d, x, mark), "mark_adj down", r, j.how);
      } else if (x > d) {
        same(oh::mark_up(&m, d, x, local), ids[x], up(w, d, x, mark, false), "mark_up", r, j.how);
        same(oh::mark_adj(&m, d, x, local), ids[x], up(w, d, x, mark, false), "mark_adj up", r, j.how);
        same(oh::mark_up_all(&m, d, x, local), ids[x], up(w, d, x, mark, true), "mark_up_all", r, j.how);
      } else
        same(oh::mark_adj(&m, d, x, local), ids[x], mark, "mark_adj", r, j.how);
    }
    GO want = 0;
    for (int x : mark) want += x;
    minimpi::require(oh::count_owned_marks(&m, d, local) == want, "count", "counted %lld marks, expected %lld", (long long)oh::count_owned_marks(&m, d, local), (long long)want);
    if (j.n == 1) {
      vector<int> exposed;
      for (size_t i = 0; i < w.ents[dim - 1].size(); ++i) {
        int users = 0;
        for (size_t e = 0; e < w.ents[dim].size(); ++e) users += w.in(dim - 1, int(i), dim, int(e));
        exposed.push_back(users < 2);
      }
      same(oh::mark_exposed_sides(&m), ids[dim - 1], exposed, "mark_exposed_sides", r, j.how);
    }
    if (d == dim && j.how >= 2) {
      auto want2 = mark;
      for (int l = 0; l <= 2; ++l) {
        same(oh::mark_dual_layers(&m, local, l), ids[dim], want2, "mark_dual_layers", r, j.how);
        auto next = want2;
        for (size_t a = 0; a < w.ents[dim].size(); ++a)
          for (size_t e = 0; e < w.ents[dim].size(); ++e)
            if (want2[e])
              for (size_t i = 0; i < w.ents[dim - 1].size(); ++i)
                if (w.in(dim - 1, int(i), dim, int(a)) && w.in(dim - 1, int(i), dim, int(e))) next[a] = 1;
        want2 = next;
      }
    }
  });
  c.exec();
  c.state(mc::Hash().add(b).add(hash_of(j.owner)).add(j.n).add(j.how).add(d).add(hash_of(mark)).h);
}

// ---- classification closures
static void closures(mc::Ctx& c) {
  static char const* names[] = {"strip4", "tets3", "edges4", "quads4"};
  int b = c.choose(4);
  World w(base(names[b]).s);
  int dim = w.s.dim;
  auto j = pick(c, w, c.thorough() ? 3 : 2, 3);
  c.split();
  // entity i of dimension d is classified on dimension (i+x)%.. >= d with identifier by pattern
  int pattern = c.choose(4);
  vector<int> cdim[4], cid[4];
  for (int d = 0; d <= dim; ++d)
    for (size_t i = 0; i < w.ents[d].size(); ++i) {
      int up_ = dim - d + 1;
      cdim[d].push_back(d + int((i * (1 + size_t(pattern & 1)) + size_t(pattern)) % size_t(up_)) * int(i % 3 == 0));
      cid[d].push_back(int((i + size_t(pattern)) % 3) - (pattern == 3));
    }
  // any set of up to three (dimension, identifier) pairs
  vector<oh::ClassPair> pairs;
  int np = c.choose(3);
  int last = -1;
  for (int i = 0; i < np; ++i) {
    int x = c.choose((dim + 1) * 3);
    if (x < last) c.prune();
    last = x;
    pairs.push_back({oh::Int(x / 3), oh::ClassId(x % 3)});
  }
  if (c.flip()) std::reverse(pairs.begin(), pairs.end());
  string text;
  for (auto& p : pairs) text += " " + std::to_string(p.dim) + ":" + std::to_string(p.id);
  if (c.describing()) c.note("%s on %d ranks %s, %s; pattern %d;%s", names[b], j.n, str(j.owner).c_str(), parting_name[j.how], pattern, text.c_str());
  Options o;
  o.nranks = j.n;
  o.explore = false;
  minimpi::run(c, o, [&](int) {
    oh::Library lib;
    auto m = build_parted(lib, lib.world(), w.s, j.owner);
    part(m, j.how);
    int r = m.comm()->rank();
    vector<int> ids[4];
    for (int x = 0; x <= dim; ++x) {
      ids[x] = ids_of(w, m, x);
      m.add_tag<I8>(x, "class_dim", 1, spread(ids[x], cdim[x]));
      vector<oh::ClassId> a;
      for (int i : ids[x]) a.push_back(cid[x][size_t(i)]);
      m.add_tag<oh::ClassId>(x, "class_id", 1, arr(a));
    }
    auto on = [&](int d, int cd, int id) {
      vector<int> v;
      for (size_t i = 0; i < w.ents[d].size(); ++i) v.push_back(cdim[d][i] == cd && (id == -99 || cid[d][i] == id));
      return v;
    };
    for (int d = 0; d <= dim; ++d) {
      vector<int> all(w.ents[d].size(), 0);
      for (auto& p : pairs) {
        same(oh::mark_by_class(&m, d, p.dim, p.id), ids[d], on(d, p.dim, p.id), "mark_by_class", r, j.how);
        same(oh::mark_by_class_dim(&m, d, p.dim), ids[d], on(d, p.dim, -99), "mark_by_class_dim", r, j.how);
        if (p.dim < d) continue;
        auto cl = down(w, p.dim, d, on(p.dim, p.dim, p.id));
        same(oh::mark_class_closure(&m, d, p.dim, p.id), ids[d], cl, "mark_class_closure", r, j.how);
        for (size_t i = 0; i < all.size(); ++i) all[i] = all[i] || cl[i];
      }
      same(oh::mark_class_closures(&m, d, pairs), ids[d], all, "mark_class_closures", r, j.how);
      // the same by the names of sets
      auto want = vector<LO>();
      for (size_t i = 0; i < ids[d].size(); ++i)
        if (all[size_t(ids[d][i])]) want.push_back(LO(i));
      m.class_sets.clear();
      std::set<string> used;
      m.class_sets["not used"] = {{oh::Int(dim), oh::ClassId(0)}};
      for (size_t i = 0; i < pairs.size(); ++i) {
        auto name = "set " + std::to_string(i);
        m.class_sets[name] = {pairs[i]};
        if (pairs.size() == 2) m.class_sets[name].push_back(pairs[0]);
        used.insert(name);
      }
      bool low = false;
      for (auto& p : pairs) low = low || p.dim < d;
      if (!low) minimpi::require(vec(oh::ents_on_closure(&m, used, d)) == want, "ents_on_closure", "rank %d: %d-entities on the closure", r, d);
      used.insert("nothing");
      bool refused = false;
      try {
        oh::ents_on_closure(&m, used, d);
      } catch (std::exception const&) {
        refused = true;
      }
      minimpi::require(refused, "ents_on_closure", "rank %d: an unknown set is taken", r);
      used.erase("nothing");
      if (d == 0) {
        // nodes at the vertices
        oh::Graph g[4];
        g[0] = oh::identity_graph(m.nverts());
        for (int x = 1; x <= dim; ++x) g[x] = m.ask_up(0, x);
        vector<LO> nodes;
        for (size_t i = 0; i < ids[0].size(); ++i) {
          bool in = false;
          for (auto& p : pairs)
            for (int h : ids[p.dim])
              if (cdim[p.dim][size_t(h)] == p.dim && cid[p.dim][size_t(h)] == p.id) in = in || (p.dim == 0 ? h == ids[0][i] : w.in(0, ids[0][i], p.dim, h));
          if (in) nodes.push_back(LO(i));
        }
        minimpi::require(vec(oh::nodes_on_closure(&m, used, g)) == nodes, "nodes_on_closure", "rank %d: nodes on the closure", r);
      }
      for (int cd = d; cd <= dim; ++cd) {
        vector<oh::ClassId> list;
        vector<int> some(w.ents[d].size(), 0);
        for (auto& p : pairs)
          if (p.dim == cd) {
            list.push_back(p.id);
            auto cl = down(w, cd, d, on(cd, cd, p.id));
            for (size_t i = 0; i < some.size(); ++i) some[i] = some[i] || cl[i];
          }
        same(oh::mark_class_closures(&m, d, cd, list), ids[d], some, "mark_class_closures of a dimension", r, j.how);
      }
    }
  });
  c.exec();
  c.state(mc::Hash().add(b).add(hash_of(j.owner)).add(j.n).add(j.how).add(pattern).add(text).h);
}

// ---- independent sets on distributed meshes
static void meshes(mc::Ctx& c, vector<char const*> names, int maxranks, int bound) {
  int b = c.choose(int(names.size()));
  World w(base(names[size_t(b)]).s);
  int dim = w.s.dim;
  Job j = pick(c, w, maxranks, 1);
  c.split();
  int d = dim > 1 && w.s.simplex ? c.choose(2) : 0;
  // vertices may also be chosen with vertex-based parting
  j.how = d == 0 && j.n > 1 ? 1 + c.choose(2) : 2;
  if (j.n == 1) j.how = 0;
  size_t n = w.ents[d].size();
  int qs = c.choose(6), cs = c.choose(4);
  vector<double> q;
  vector<int> cand;
  for (size_t i = 0; i < n; ++i) {
    q.push_back(qs == 0 ? 1.0 : qs == 1 ? double(i) : qs == 2 ? -double(i) : qs == 3 ? double(i * 7 % 5) : qs == 4 ? double((i * i + 2) % 3) : double(i * 3 % 11) * 0.125);
    cand.push_back(cs == 0 || (cs == 1 ? i % 2 : cs == 2 ? i % 3 > 0 : i % 4 == 3));
  }
  if (c.describing()) c.note("%s on %d ranks %s, %s; dimension %d, qualities %d, candidates %d", names[size_t(b)], j.n, str(j.owner).c_str(), parting_name[j.how], d, qs, cs);
  auto serial = [&]() {
    vector<std::set<int>> adj(n);
    if (d == 0)
      for (auto& e : w.ents[1]) {
        adj[size_t(w.id[0].at({e[0]}))].insert(w.id[0].at({e[1]}));
        adj[size_t(w.id[0].at({e[1]}))].insert(w.id[0].at({e[0]}));
      }
    else  // edges of one element
      for (size_t x = 0; x < n; ++x)
        for (size_t y = 0; y < n; ++y)
          for (size_t e = 0; e < w.ents[dim].size(); ++e)
            if (x != y && w.in(1, int(x), dim, int(e)) && w.in(1, int(y), dim, int(e))) adj[x].insert(int(y));
    return adj;
  }();
  vector<GO> global(n, -1);
  vector<int> want;
  Options o;
  o.nranks = j.n;
  o.explore = bound > 0;
  if (bound) c.deviation_bound = bound;
  minimpi::run(c, o, [&](int) {
    oh::Library lib;
    bool was = explore(false);
    auto m = build_parted(lib, lib.world(), w.s, j.owner);
    part(m, j.how);
    int r = m.comm()->rank();
    auto ids = ids_of(w, m, d);
    auto g = m.globals(d);
    for (size_t i = 0; i < ids.size(); ++i) global[size_t(ids[i])] = g[LO(i)];
    vector<Real> lq;
    for (int i : ids) lq.push_back(q[size_t(i)]);
    m.comm()->barrier();
    explore(was);
    auto got = oh::find_indset(&m, d, arr(lq), spread(ids, cand));
    explore(false);
    same(got, ids, greedy(serial, q, global, cand), "find_indset", r, j.how);
    m.comm()->barrier();
  });
  c.exec();
  c.state(mc::Hash().add(b).add(hash_of(j.owner)).add(j.n).add(j.how).add(d).add(qs).add(cs).h);
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C16",
      {
          {"graphs", graphs, 60, false, "every graph of up to 4 (thorough 5) nodes x qualities of 3 values x candidates x 3 numberings"},
          {"marks", marks, 60, false, "every pair of marked entities of every dimension on 4 (6) meshes x every distribution over up to 2 (3) ranks x 4 partings"},
          {"closures", closures, 60, false, "every set of up to 2 classes on 4 meshes x every distribution over up to 2 (3) ranks x 3 partings"},
          {"meshes", [](mc::Ctx& c) { meshes(c, c.thorough() ? vector<char const*>{"strip4", "fan4", "tets3", "tetring4", "edges4", "strip6"} : vector<char const*>{"strip4", "fan4", "tets3", "edges4"}, 3, 0); }, 60, false, "every distribution of 4 (6) meshes over up to 3 ranks x 6 qualities x 4 candidates"},
          {"schedules", [](mc::Ctx& c) { meshes(c, {"strip4"}, 2, c.thorough() ? 2 : 1); }, 60, false, "the same on 2 ranks under every schedule with 1 (2) deviations"},
      });
}
