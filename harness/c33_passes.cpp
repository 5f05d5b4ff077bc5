// C33: one pass of refinement, coarsening or swapping takes exactly the best
// admissible edits: the library's result against a naive selection over all of
// them, in small classified meshes of every shape of a family.
#include <Omega_h_adapt.hpp>
#include <Omega_h_coarsen.hpp>
#include <Omega_h_refine.hpp>
#include <Omega_h_swap.hpp>
#include "fieldkit.hpp"
#include "adaptrun.hpp"
using std::string;

static mc::Ctx* C;
enum Op { REFINE, COARSEN, SLIVERS, SWAP };
static char const* op_name[] = {"refine", "coarsen", "slivers", "swap"};

struct World3 {
  int dim = 2;
  vector<P3> x;  // multiples of 1/1024
  VV elems;
  double A[3][3] = {{2, 0, 0}, {0, 2, 0}, {0, 0, 2}};  // lengths are those of A x
  bool aniso = false;
  vector<int> vcd;  // class dimension per vertex
  string name;
  std::map<vector<int>, int> cdim;  // of every entity, by sorted vertices

  P3 at(int v) const {
    P3 r{{0, 0, 0}};
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) r[size_t(i)] += A[i][j] * x[size_t(v)][size_t(j)];
    return r;
  }
  double length(int a, int b) const { return dist_of(at(a), at(b)); }
  double quality(vector<int> const& e) const {
    vector<P3> p;
    for (int v : e) p.push_back(at(v));
    return ak::quality_iso(dim, p, 1);
  }
  double worst(VV const& es) const {
    double q = 1;
    for (auto& e : es) q = std::min(q, quality(e));
    return q;
  }
  Soup soup() const { return mk::soup(true, dim, elems); }
};
static bool has(vector<int> const& e, int v) { return std::find(e.begin(), e.end(), v) != e.end(); }
static vector<int> sub(vector<int> e, int from, int to) {
  for (int& v : e)
    if (v == from) v = to;
  return e;
}
static double quantize(double y) { return std::round(y * 1024) / 1024; }

// hull: the boundary of the union of the elements.  The hull's vertices are
// classified on model entities of the given dimensions
static void classify(World3& w, int pattern) {
  std::map<vector<int>, int> nf;
  Soup s = w.soup();
  for (auto& e : w.elems)
    for (size_t k = 0; k < e.size(); ++k) {
      auto f = e;
      f.erase(f.begin() + long(k));
      ++nf[mk::sorted(f)];
    }
  std::set<vector<int>> hull;
  std::set<int> hv;
  for (auto& p : nf)
    if (p.second == 1) {
      hull.insert(p.first);
      hv.insert(p.first.begin(), p.first.end());
      if (w.dim == 3)
        for (size_t k = 0; k < 3; ++k) {
          auto e = p.first;
          e.erase(e.begin() + long(k));
          hull.insert(e);
        }
    }
  int top = w.dim - 1, k = 0;
  w.vcd.assign(w.x.size(), w.dim);
  for (int v : hv) {
    w.vcd[size_t(v)] = pattern == 0 ? 0 : pattern == 1 ? top : pattern == 2 ? (k % 2 ? top : 0) : 1 + k % top;
    ++k;
  }
  for (int d = 0; d <= w.dim; ++d)
    for (auto& e : s.ents(d)) {
      int cd = w.dim;
      if (d == 0) cd = w.vcd[size_t(e[0])];
      else if (hull.count(e)) {
        cd = d;
        for (int v : e) cd = std::max(cd, w.vcd[size_t(v)]);
      }
      w.cdim[e] = cd;
    }
}

// an edit of the mesh: what it removes and what may replace it
struct Move {
  vector<int> key;
  double quality = 0;
  vector<size_t> removed;
  vector<VV> news;  // equally good replacements
};
static bool near(double a, double b) { return std::fabs(a - b) < 1e-9; }
static bool at_limit(double a, double b) {
  if (near(a, b)) C->prune();  // decided by rounding
  return a < b;
}

struct Limits {
  double min_len = 0.5, max_len = 1.5, allow_len = 100, min_q = 0.05, want_q = 0.4;
  int layers = 1;
};

static vector<Move> refine_moves(World3& w, Limits const& l) {
  vector<Move> r;
  Soup s = w.soup();
  for (auto& e : s.ents(1)) {
    if (at_limit(w.length(e[0], e[1]), l.max_len)) continue;
    Move m;
    m.key = e;
    int mid = int(w.x.size());
    P3 p;
    for (size_t a = 0; a < 3; ++a) p[a] = (w.x[size_t(e[0])][a] + w.x[size_t(e[1])][a]) / 2;
    w.x.push_back(p);
    VV n;
    for (size_t i = 0; i < w.elems.size(); ++i)
      if (has(w.elems[i], e[0]) && has(w.elems[i], e[1])) {
        m.removed.push_back(i);
        n.push_back(sub(w.elems[i], e[0], mid));
        n.push_back(sub(w.elems[i], e[1], mid));
      }
    m.quality = w.worst(n);
    m.news = {n};
    if (!at_limit(m.quality, l.min_q)) r.push_back(m);
  }
  return r;
}
static vector<char> sliver_layers(World3 const& w, Limits const& l) {
  vector<char> bad;
  for (auto& e : w.elems) bad.push_back(at_limit(w.quality(e), l.want_q));
  for (int k = 0; k < l.layers; ++k) {
    auto was = bad;
    for (size_t i = 0; i < w.elems.size(); ++i)
      for (size_t j = 0; j < w.elems.size(); ++j) {
        int common = 0;
        for (int v : w.elems[i]) common += has(w.elems[j], v);
        if (common == w.dim && was[j]) bad[i] = 1;
      }
  }
  return bad;
}
static vector<Move> coarsen_moves(World3 const& w, Limits const& l, bool slivers) {
  vector<Move> r;
  auto edges = w.soup().ents(1);
  std::set<int> cand;
  if (slivers) {
    auto bad = sliver_layers(w, l);
    for (size_t i = 0; i < bad.size(); ++i)
      if (bad[i]) cand.insert(w.elems[i].begin(), w.elems[i].end());
  } else {
    for (auto& e : edges)
      if (at_limit(w.length(e[0], e[1]), l.min_len)) cand.insert(e.begin(), e.end());
  }
  double limit = slivers ? l.allow_len : l.max_len;
  for (int v : cand) {
    bool found = false;
    Move best;
    int best_onto = -1;
    double best_len = 0, old = 1;
    for (auto& e : w.elems)
      if (has(e, v)) old = std::min(old, w.quality(e));
    for (auto& e : edges) {
      if (!has(e, v)) continue;
      int onto = e[0] == v ? e[1] : e[0];
      // classification: the vertex moves within its own model entity
      int ecd = w.cdim.at(e), vcd = w.cdim.at({v}), ocd = w.cdim.at({onto});
      if (vcd != ecd) continue;
      if (ocd > ecd) mk::bad("case", "classification");
      // and uncovers nothing: what closes up leaves a side of the same class
      bool ok = true;
      for (int d = 2; d <= w.dim && ok; ++d)
        for (auto& p : w.cdim)
          if (int(p.first.size()) == d + 1 && has(p.first, v) && has(p.first, onto)) {
            auto side = p.first;
            side.erase(std::find(side.begin(), side.end(), onto));
            if (w.cdim.at(side) != p.second) ok = false;
          }
      if (!ok) continue;
      for (auto& f : edges)
        if (has(f, v) && f != e) {
          int o = f[0] == v ? f[1] : f[0];
          if (!at_limit(w.length(onto, o), limit)) ok = false;
        }
      if (!ok) continue;
      Move m;
      m.key = {v};
      VV n;
      for (size_t i = 0; i < w.elems.size(); ++i)
        if (has(w.elems[i], v)) {
          m.removed.push_back(i);
          if (!has(w.elems[i], onto)) n.push_back(sub(w.elems[i], v, onto));
        }
      m.quality = w.worst(n);
      m.news = {n};
      if (at_limit(m.quality, l.min_q)) continue;
      if (slivers && !at_limit(old, m.quality)) continue;
      double len = w.length(v, onto);
      if (found && near(len, best_len)) {
        // equally long: to be so for the library too, they have to be mirror
        // images of each other
        P3 a = w.at(v), b = w.at(onto), d = w.at(best_onto);
        bool mirror = true;
        for (size_t k = 0; k < 3; ++k) mirror = mirror && std::fabs(b[k] - a[k]) == std::fabs(d[k] - a[k]);
        if (!mirror || w.aniso) C->prune();
        if (near(m.quality, best.quality)) C->prune();
        if (m.quality < best.quality) continue;
      } else if (found && len > best_len)
        continue;
      found = true;
      best = m;
      best_onto = onto;
      best_len = len;
    }
    if (found) r.push_back(best);
  }
  return r;
}
// every triangulation of the polygon of `ring` from i to j
static void triangulations(vector<int> const& ring, size_t i, size_t j, std::map<std::pair<size_t, size_t>, vector<VV>>& memo) {
  if (memo.count({i, j})) return;
  vector<VV> out;
  if (j == i + 1) out.push_back({});
  for (size_t k = i + 1; k < j; ++k) {
    triangulations(ring, i, k, memo);
    triangulations(ring, k, j, memo);
    for (auto& a : memo[{i, k}])
      for (auto& b : memo[{k, j}]) {
        VV t = a;
        t.insert(t.end(), b.begin(), b.end());
        t.push_back({ring[i], ring[k], ring[j]});
        out.push_back(t);
      }
  }
  memo[{i, j}] = out;
}
static vector<Move> swap_moves(World3 const& w, Limits const& l) {
  vector<Move> r;
  auto bad = sliver_layers(w, l);
  for (auto& e : w.soup().ents(1)) {
    if (w.cdim.at(e) != w.dim) continue;
    Move m;
    m.key = e;
    bool cand = false;
    double old = 1;
    std::map<int, int> next;  // around the edge, from e[0] to e[1] outwards
    for (size_t i = 0; i < w.elems.size(); ++i) {
      auto& t = w.elems[i];
      if (!has(t, e[0]) || !has(t, e[1])) continue;
      m.removed.push_back(i);
      cand = cand || bad[i];
      old = std::min(old, w.quality(t));
      if (w.dim == 3) {
        vector<int> o;
        for (int v : t)
          if (!has(e, v)) o.push_back(v);
        // (o0, o1, e0, e1) positively oriented means e0 -> e1 sees o0 -> o1 turn left
        vector<int> q = {e[0], e[1], o[0], o[1]};
        vector<P3> p;
        for (int v : q) p.push_back(w.x[size_t(v)]);
        if (ak::volume(3, p) > 0) next[o[0]] = o[1];
        else next[o[1]] = o[0];
      }
    }
    if (!cand) continue;
    if (w.dim == 2) {
      if (m.removed.size() != 2) mk::bad("case", "an interior edge has %zu triangles", m.removed.size());
      int o[2] = {-1, -1}, k = 0;
      for (size_t i : m.removed)
        for (int v : w.elems[i])
          if (!has(e, v)) o[k++] = v;
      auto& t0 = w.elems[m.removed[0]];
      // the other diagonal
      VV n = {sub(t0, e[0], o[1]), sub(t0, e[1], o[1])};
      if (!at_limit(w.length(o[0], o[1]), l.allow_len)) continue;
      m.quality = w.worst(n);
      m.news = {n};
    } else {
      vector<int> ring;
      int v = next.begin()->first;
      do {
        ring.push_back(v);
        if (!next.count(v)) mk::bad("case", "open ring");
        v = next[v];
      } while (v != ring[0]);
      if (ring.size() != next.size()) mk::bad("case", "ring");
      if (ring.size() > 7) continue;
      std::map<std::pair<size_t, size_t>, vector<VV>> memo;
      triangulations(ring, 0, ring.size() - 1, memo);
      m.quality = 0;
      std::set<std::pair<int, int>> rim;
      for (size_t i = 0; i < ring.size(); ++i) {
        int a = ring[i], b = ring[(i + 1) % ring.size()];
        rim.insert({std::min(a, b), std::max(a, b)});
      }
      for (auto& tri : memo[{0, ring.size() - 1}]) {
        bool too_long = false;
        VV n;
        for (auto& t : tri) {
          for (size_t k = 0; k < 3; ++k) {
            int a = t[k], b = t[(k + 1) % 3];
            if (!rim.count({std::min(a, b), std::max(a, b)}) && !at_limit(w.length(a, b), l.allow_len)) too_long = true;
          }
          n.push_back({t[0], t[1], t[2], e[1]});
          n.push_back({t[0], t[2], t[1], e[0]});
        }
        if (too_long) continue;
        double q = w.worst(n);
        if (q > m.quality && !near(q, m.quality)) {
          m.news.clear();
          m.quality = q;
        }
        if (near(q, m.quality)) m.news.push_back(n);
      }
      if (m.news.empty()) continue;
    }
    if (m.quality > 0 && at_limit(old, m.quality)) r.push_back(m);
  }
  return r;
}

using PKey = vector<std::array<long long, 3>>;
static PKey pkey(vector<P3> const& p) {
  PKey k;
  for (auto& y : p) k.push_back({{std::llround(y[0] * 1048576), std::llround(y[1] * 1048576), std::llround(y[2] * 1048576)}});
  std::sort(k.begin(), k.end());
  return k;
}
static string text(PKey const& k) {
  string s;
  for (auto& p : k) {
    char b[100];
    snprintf(b, sizeof b, "(%g %g %g)", double(p[0]) / 1048576, double(p[1]) / 1048576, double(p[2]) / 1048576);
    s += b;
  }
  return s;
}

static void dress(oh::Mesh& m, World3 const& w) {
  auto vg = vec(m.globals(0));
  for (int d = 0; d <= w.dim; ++d) {
    vector<I8> cd;
    for (auto& e : mk::verts_of(m, d)) {
      vector<int> k;
      for (int v : e) k.push_back(int(vg[size_t(v)]));
      cd.push_back(I8(w.cdim.at(mk::sorted(k))));
    }
    m.add_tag<I8>(d, "class_dim", 1, arr(cd));
    m.add_tag<oh::ClassId>(d, "class_id", 1, oh::Read<oh::ClassId>(m.nents(d), 1));
  }
  vector<double> x, t;
  for (auto g : vg) {
    for (int a = 0; a < w.dim; ++a) x.push_back(w.x[size_t(g)][size_t(a)]);
    if (!w.aniso) {
      t.push_back(w.A[0][0] * w.A[0][0]);
    } else {
      auto mm = [&](int i, int j) {
        double s = 0;
        for (int k = 0; k < 3; ++k) s += w.A[k][i] * w.A[k][j];
        return s;
      };
      if (w.dim == 2) for (double y : {mm(0, 0), mm(1, 1), mm(0, 1)}) t.push_back(y);
      else for (double y : {mm(0, 0), mm(1, 1), mm(2, 2), mm(0, 1), mm(1, 2), mm(0, 2)}) t.push_back(y);
    }
  }
  m.add_tag(0, "coordinates", w.dim, arr(x));
  m.add_tag(0, "metric", !w.aniso ? 1 : w.dim == 2 ? 3 : 6, arr(t));
}

static void run_case(World3 w, Op op, Limits const& l, int n, vector<int> const& owner, int parting) {
  VV const old = w.elems;
  vector<P3> const x0 = w.x;
  auto moves = op == REFINE ? refine_moves(w, l) : op == SWAP ? swap_moves(w, l) : coarsen_moves(w, l, op == SLIVERS);
  auto conflict = [&](Move const& a, Move const& b) {
    for (auto& e : old) {
      bool in = true;
      for (int v : a.key) in = in && has(e, v);
      for (int v : b.key) in = in && has(e, v);
      if (in) return true;
    }
    return false;
  };
  for (size_t i = 0; i < moves.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      if (near(moves[i].quality, moves[j].quality) && conflict(moves[i], moves[j])) C->prune();
  std::sort(moves.begin(), moves.end(), [](Move const& a, Move const& b) { return a.quality > b.quality; });
  vector<Move> chosen;
  for (auto& m : moves) {
    bool ok = true;
    for (auto& c : chosen) ok = ok && !conflict(m, c);
    if (ok) chosen.push_back(m);
  }
  // the library
  std::map<PKey, int> got;
  long nverts = 0;
  bool said = false;
  string what = w.name + " " + op_name[op];
  if (C->describing()) {
    string t;
    for (auto& p : x0) {
      char b[80];
      snprintf(b, sizeof b, " (%.10g %.10g %.10g)", p[0], p[1], p[2]);
      t += b;
    }
    C->note("%s%s lengths %g..%g..%g quality %g..%g layers %d ranks %d owners %s parting %d: elements %s points%s classes %s", what.c_str(), w.aniso ? " stretched" : "", l.min_len, l.max_len,
        l.allow_len, l.min_q, l.want_q, l.layers, n, ::str(owner).c_str(), parting, ::str(old).c_str(), t.c_str(), ::str(w.vcd).c_str());
    for (auto& m : moves) C->note("edit at %s of quality %.9g%s", ::str(m.key).c_str(), m.quality, [&] { for (auto& c : chosen) if (c.key == m.key) return " is to be taken"; return ""; }());
  }
  Options o;
  o.nranks = n;
  o.explore = false;
  World3 in = w;
  in.x = x0;
  minimpi::run(*C, o, [&](int) {
    oh::Library lib;
    auto world = lib.world();
    auto m = build_parted(lib, world, in.soup(), owner);
    dress(m, in);
    part(m, parting);
    oh::AdaptOpts a(&m);
    a.verbosity = oh::SILENT;
    a.min_length_desired = l.min_len;
    a.max_length_desired = l.max_len;
    a.max_length_allowed = l.allow_len;
    a.min_quality_allowed = l.min_q;
    a.min_quality_desired = l.want_q;
    a.nsliver_layers = l.layers;
    bool r = op == REFINE ? oh::refine_by_size(&m, a) : op == COARSEN ? oh::coarsen_by_size(&m, a) : op == SLIVERS ? oh::coarsen_slivers(&m, a) : oh::swap_edges(&m, a);
    minimpi::require(world->reduce_and(r) == world->reduce_or(r), "report-differs", "%s: the ranks disagree on whether anything was done", what.c_str());
    said = r;
    auto nv = m.nglobal_ents(0);
    nverts = long(nv);
    auto own = m.owned(w.dim);
    auto co = m.coords();
    auto ev = mk::verts_of(m, w.dim);
    for (LO e = 0; e < m.nelems(); ++e) {
      if (!own[e]) continue;
      vector<P3> p;
      for (int v : ev[size_t(e)]) {
        P3 y{{0, 0, 0}};
        for (int d = 0; d < w.dim; ++d) y[size_t(d)] = co[v * w.dim + d];
        p.push_back(y);
      }
      ++got[pkey(p)];
    }
  });
  C->exec();
  auto key_of = [&](vector<int> const& e) {
    vector<P3> p;
    for (int v : e) p.push_back(w.x[size_t(v)]);
    return pkey(p);
  };
  if (said != !chosen.empty())
    C->fail("report", "%s reports %d when %zu edits are to be made of %zu admissible ones", what.c_str(), said, chosen.size(), moves.size());
  auto take = [&](vector<int> const& e) {
    auto k = key_of(e);
    if (!got.count(k)) return false;
    if (--got[k] == 0) got.erase(k);
    return true;
  };
  std::set<size_t> gone;
  for (auto& m : chosen) gone.insert(m.removed.begin(), m.removed.end());
  for (size_t i = 0; i < old.size(); ++i)
    if (!gone.count(i) && !take(old[i])) C->fail("changed", "%s: element %s %s is gone, no edit to be made touches it", what.c_str(), ::str(old[i]).c_str(), text(key_of(old[i])).c_str());
  mc::Hash h;
  for (auto& m : chosen) {
    int which = -1;
    for (size_t a = 0; a < m.news.size() && which < 0; ++a) {
      bool all = true;
      for (auto& e : m.news[a]) all = all && got.count(key_of(e));
      if (all) which = int(a);
    }
    if (which < 0) C->fail("choice", "%s: the edit at %s of quality %.9g (of %zu to be made) is not made", what.c_str(), ::str(m.key).c_str(), m.quality, chosen.size());
    for (auto& e : m.news[size_t(which)]) take(e);
    h.add(int(m.removed.size()));
    for (auto& e : m.news[size_t(which)])
      for (int v : e) h.add(v);
  }
  if (!got.empty()) C->fail("more", "%s: there is an element %s which neither was there nor is to be made", what.c_str(), text(got.begin()->first).c_str());
  std::set<int> used;
  for (auto& e : old) used.insert(e.begin(), e.end());
  long nv = long(used.size());
  if (op == REFINE) nv += long(chosen.size());
  if (op == COARSEN || op == SLIVERS) nv -= long(chosen.size());
  if (nverts != nv) C->fail("vertices", "%s leaves %ld vertices, expected %ld", what.c_str(), nverts, nv);
  C->outcome(h.add(op).h);
}

// values between consecutive ones, spread over the whole range
static vector<double> between(vector<double> v, int n) {
  std::sort(v.begin(), v.end());
  vector<double> gaps;
  for (size_t i = 0; i + 1 < v.size(); ++i)
    if (v[i + 1] - v[i] > 1e-6) gaps.push_back((v[i] + v[i + 1]) / 2);
  vector<double> r;
  if (gaps.empty()) return r;
  for (int k = 0; k < n; ++k) r.push_back(gaps[gaps.size() * size_t(2 * k + 1) / size_t(2 * n)]);
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
static Limits limits(mc::Ctx& c, World3 const& w, Op op) {
  Limits l;
  vector<double> len, dist, q;
  for (auto& e : w.soup().ents(1)) len.push_back(w.length(e[0], e[1]));
  for (size_t i = 0; i < w.x.size(); ++i)
    for (size_t j = 0; j < i; ++j) dist.push_back(w.length(int(i), int(j)));
  for (auto& e : w.elems) q.push_back(w.quality(e));
  bool t = c.thorough();
  auto pick = [&](vector<double> v, std::initializer_list<double> more) {
    v.insert(v.end(), more);
    return v[size_t(c.choose(int(v.size())))];
  };
  double top = *std::max_element(len.begin(), len.end()) + 1, qtop = *std::max_element(q.begin(), q.end()) + 0.01;
  if (op == REFINE) {
    l.max_len = pick(between(len, t ? 4 : 2), {1e-3});
    l.min_q = pick({}, {0.05, 0.4});
  } else if (op == COARSEN) {
    l.min_len = pick(between(len, t ? 4 : 1), {top});
    l.max_len = pick(between(dist, t ? 3 : 1), {100});
    l.min_q = pick({}, {0.05, 0.4});
  } else {
    bool rings = op == SWAP && w.name.substr(0, 4) == "ring" && !t;  // every element is of the one cavity
    l.want_q = rings ? qtop : pick(between(q, t ? 3 : 1), {qtop});
    l.allow_len = pick(between(dist, rings ? 4 : t ? 3 : 1), {100});
    l.layers = !rings && c.flip();
    if (op == SLIVERS) l.min_q = pick({}, {0.02, 0.4});
    if (*std::min_element(q.begin(), q.end()) >= l.want_q) c.prune();
  }
  return l;
}
static void finish(World3& w, mc::Ctx& c, int pattern) {
  for (auto& p : w.x) {
    for (auto& y : p) y = quantize(y);
    if (w.dim == 2) p[2] = 0;
  }
  for (auto& e : w.elems) {
    vector<P3> p;
    for (int v : e) p.push_back(w.x[size_t(v)]);
    if (ak::volume(w.dim, p) < 0.004) c.prune();
  }
  classify(w, pattern);
}
static void stretch(World3& w) {
  w.aniso = true;
  double a2[3][3] = {{2.5, 0.7, 0}, {-0.4, 1.2, 0}, {0, 0, 1}};
  double a3[3][3] = {{2.5, 0.7, 0.2}, {-0.4, 1.2, 0.3}, {0.1, -0.5, 1.8}};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) w.A[i][j] = w.dim == 2 ? a2[i][j] : a3[i][j];
}
static void renumber(World3& w, int how) {
  if (!how) return;
  size_t n = w.x.size();
  vector<P3> y(n);
  vector<int> to(n);
  for (size_t v = 0; v < n; ++v) to[v] = int(how == 1 ? n - 1 - v : (v * 5 + 2) % n);
  if (std::set<int>(to.begin(), to.end()).size() != n)
    for (size_t v = 0; v < n; ++v) to[v] = int((v + n / 2) % n);
  for (size_t v = 0; v < n; ++v) y[size_t(to[v])] = w.x[v];
  w.x = y;
  for (auto& e : w.elems) {
    for (int& v : e) v = to[size_t(v)];
    std::rotate(e.begin(), e.begin() + 1, e.begin() + 3);
  }
  std::reverse(w.elems.begin(), w.elems.end());
}

// n triangles around a vertex
static World3 fan(mc::Ctx& c, int n, bool exact, int radii = 3, int centres = 2) {
  World3 w;
  w.dim = 2;
  w.name = "fan" + std::to_string(n);
  static double const radius[] = {1, 0.55, 1.7};
  double dx[] = {0, 0.21, -0.1}, dy[] = {0, 0.13, 0.24};
  int k = exact ? 0 : c.choose(centres);
  if (exact) {
    // mirror images: equally long edges
    int m = c.choose(5);
    for (int i = 0; i < n; ++i) {
      int r = c.choose(2);
      double a = 2 * M_PI * i / n;
      P3 p{{quantize(std::cos(a) * (r ? 1.5 : 0.75)), quantize(std::sin(a) * (r ? 1.5 : 0.75)), 0}};
      w.x.push_back(p);
    }
    w.x.push_back({{m == 1 ? 0.25 : m == 2 ? -0.25 : 0, m == 3 ? 0.25 : m == 4 ? -0.25 : 0, 0}});
  } else {
    for (int i = 0; i < n; ++i) {
      double r = radius[c.choose(radii)] * (1 + 0.013 * i * i), a = 2 * M_PI * i / n + 0.03 * std::sin(3.7 * i);
      w.x.push_back({{r * std::cos(a), r * std::sin(a), 0}});
    }
    w.x.push_back({{dx[k + 1], dy[k + 1], 0}});
  }
  for (int i = 0; i < n; ++i) w.elems.push_back({n, i, (i + 1) % n});
  return w;
}
// a square of 3x3 cells, its inner vertices displaced
static World3 grid(mc::Ctx& c, int nx, int ny, int moves) {
  World3 w;
  w.dim = 2;
  w.name = "grid" + std::to_string(nx) + "x" + std::to_string(ny);
  double d[5][2] = {{0, 0}, {0.41, 0.09}, {-0.11, 0.43}, {-0.44, -0.13}, {0.07, -0.4}};
  int diag = c.choose(2);
  for (int j = 0; j <= ny; ++j)
    for (int i = 0; i <= nx; ++i) {
      int v = int(w.x.size());
      P3 p{{i + 0.023 * std::sin(5.1 * v), j + 0.019 * std::cos(3.3 * v), 0}};
      if (i > 0 && i < nx && j > 0 && j < ny) {
        int m = c.choose(moves);
        p[0] += d[m][0];
        p[1] += d[m][1];
      }
      w.x.push_back(p);
    }
  for (int j = 0; j < ny; ++j)
    for (int i = 0; i < nx; ++i) {
      int a = i + (nx + 1) * j, b = a + 1, e = a + nx + 1, f = e + 1;
      if ((i + j) % 2 == 0 || !diag) {
        w.elems.push_back({a, b, f});
        w.elems.push_back({a, f, e});
      } else {
        w.elems.push_back({a, b, e});
        w.elems.push_back({b, f, e});
      }
    }
  return w;
}
// n tetrahedra around an edge
static World3 ring(mc::Ctx& c, int n, int kinds) {
  World3 w;
  w.dim = 3;
  w.name = "ring" + std::to_string(n);
  static double const half[] = {0.4, 1, 2.5};
  double h = half[n == 7 && !c.thorough() ? 2 : c.choose(3)];
  for (int i = 0; i < n; ++i) {
    int k = c.choose(kinds);
    double r = (k == 1 ? 0.6 : k == 2 ? 1.9 : 1) * (1 + 0.011 * i * i), z = (k == 3 ? 0.5 : k == 4 ? -0.4 : 0) + 0.02 * std::sin(2.3 * i), a = 2 * M_PI * i / n + 0.05 * std::sin(3.7 * i);
    w.x.push_back({{r * std::cos(a), r * std::sin(a), z}});
  }
  w.x.push_back({{0.03, 0.05, -h}});
  w.x.push_back({{-0.04, 0.02, h * 1.1}});
  for (int i = 0; i < n; ++i) w.elems.push_back({n, n + 1, i, (i + 1) % n});
  return w;
}
// a vertex inside an octahedron
static World3 star(mc::Ctx& c) {
  World3 w;
  w.dim = 3;
  w.name = "star";
  for (int i = 0; i < 6; ++i) {
    double r = c.choose(2) ? 1.8 : 1;
    r *= 1 + 0.017 * i;
    P3 p{{0.02 * i, 0.03 * ((i * 3) % 5), 0.013 * i}};
    p[size_t(i / 2)] += i % 2 ? -r : r;
    w.x.push_back(p);
  }
  int m = c.choose(4);
  P3 at[4] = {{{0.04, 0.05, 0.02}}, {{0.5, 0.05, 0.07}}, {{-0.21, 0.34, 0.1}}, {{0.2, 0.15, -0.55}}};
  w.x.push_back(at[m]);
  for (int s = 0; s < 8; ++s) {
    int a = s & 1, b = 2 + (s >> 1 & 1), d = 4 + (s >> 2 & 1);
    bool odd = (a + b + d) % 2;
    w.elems.push_back(odd ? vector<int>{6, b, a, d} : vector<int>{6, a, b, d});
  }
  return w;
}
// boxes of cells of six tetrahedra each, inner vertices displaced
static World3 box(mc::Ctx& c, int nx, int ny, int nz) {
  World3 w;
  w.dim = 3;
  w.name = "box" + std::to_string(nx) + std::to_string(ny) + std::to_string(nz);
  int shape = c.choose(3);
  auto b = box_case(3, nx, ny, nz, shape);
  w.x = b.x;
  w.elems = b.s.elems;
  int m = c.choose(5);
  P3 d[5] = {{{0, 0, 0}}, {{0.42, 0.06, 0.11}}, {{-0.1, -0.45, 0.2}}, {{0.3, 0.31, -0.4}}, {{-0.2, 0.1, 0.47}}};
  for (size_t v = 0; v < w.x.size(); ++v) {
    int i = int(v) % (nx + 1), j = int(v) / (nx + 1) % (ny + 1), k = int(v) / ((nx + 1) * (ny + 1));
    bool inner = i > 0 && i < nx && j > 0 && j < ny && k > 0 && k < nz;
    for (size_t a = 0; a < 3; ++a) w.x[v][a] += 0.031 * std::sin(double(v) * (2.3 + double(a)) + double(a)) + (inner ? d[m][a] : 0);
  }
  return w;
}
template <class F>
static void suite(mc::Ctx& c, Op op, F make, int patterns, int ranks) {
  C = &c;
  auto w = make(c);
  if (c.thorough() && ranks == 1) {
    if (c.flip("stretched")) stretch(w);
    renumber(w, c.choose(3));
  } else if (ranks > 1 ? c.thorough() && c.flip() : c.flip("stretched and renumbered")) {
    stretch(w);
    renumber(w, 1);
  }
  finish(w, c, c.choose(patterns));
  int n = 1, parting = 0;
  if (ranks > 1) {
    n = 2 + c.choose(ranks - 1);
    parting = c.thorough() ? c.choose(2) * 2 : 0;
  }
  auto owner = owners_of(c, int(w.elems.size()), n);
  c.split();
  auto l = limits(c, w, op);
  mc::Hash h;
  for (auto& p : w.x)
    for (double y : p) h.add(y);
  c.state(h.add(int(op)).add(w.aniso).h);
  run_case(w, op, l, n, owner, parting);
}

int main(int argc, char** argv) {
  using mc::Ctx;
  vector<mc::Suite> s;
  for (int k = 0; k < 4; ++k) {
    Op op = Op(k);
    string o = op_name[k];
    auto add = [&](string name, bool thorough_only, std::function<World3(Ctx&)> make, int patterns, int ranks, string bounds) {
      s.push_back({o + "-" + name, [=](Ctx& c) { suite(c, op, make, patterns, ranks); }, 60, thorough_only, bounds});
    };
    bool hull = op != SWAP;
    for (int n = 3; n <= 6; ++n)
      add("fan" + std::to_string(n), n == 6, [=](Ctx& c) { return fan(c, n, false); }, hull ? 3 : 1, 1, std::to_string(n) + " triangles around a vertex, 3 radii of each rim vertex, 2 centres, isotropic and stretched, hull vertices classified in every pattern");
    if (op == COARSEN || op == SLIVERS) add("mirror", false, [=](Ctx& c) { return fan(c, 4 + 2 * c.choose(2), true); }, 2, 1, "4 or 6 triangles around a vertex in mirror-symmetric positions");
    add("grid", false, [=](Ctx& c) { return grid(c, 3, 3, c.thorough() ? 5 : 2); }, hull ? 2 : 1, 1, "3x3 cells, the inner vertices displaced 2 (5) ways each");
    for (int n = 3; n <= 8; ++n)
      add("ring" + std::to_string(n), n > 5 && !(op == SWAP && n < 8), [=](Ctx& c) { return ring(c, n, c.thorough() ? (n < 6 ? 5 : n < 7 ? 4 : 2) : n < 4 ? 4 : n < 5 || op == SWAP ? 3 : 2); }, hull ? 4 : 1, 1,
          std::to_string(n) + " tetrahedra around an edge, 3 lengths of it, 2-5 positions of each ring vertex");
    add("star", false, star, hull ? 4 : 1, 1, "an octahedron of 8 tetrahedra, 2 radii of each vertex, 4 centres");
    add("box", false, [=](Ctx& c) { return box(c, 2, 2, c.thorough() ? 2 : 1); }, 2, 1, "2x2x1 (2x2x2) cells in 3 shapes");
    add("fan-parts", false, [=](Ctx& c) { return fan(c, 4, false, 2, 1); }, 1, 2, "4 triangles on 2 ranks in every distribution");
    add("grid-parts", false, [=](Ctx& c) { return grid(c, 3, 3, 2); }, 1, 3, "3x3 cells on 2 or 3 ranks in 5 distributions");
    add("ring-parts", false, [=](Ctx& c) { return ring(c, 4, 2); }, 1, 2, "4 tetrahedra on 2 ranks in every distribution");
    add("box-parts", true, [=](Ctx& c) { return box(c, 2, 2, 2); }, 2, 3, "2x2x2 cells on 2 or 3 ranks in 5 distributions");
  }
  return mc::main(argc, argv, "C33", s);
}
