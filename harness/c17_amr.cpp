// C17: hierarchical refinement of hypercube meshes builds exactly the tree of
// boxes that was asked for.  Every entity is identified by the box of lattice
// points it covers; the expected mesh is computed from the set of boxes alone.
#include "adaptkit.hpp"
#include "meshkit.hpp"
#include "distkit.hpp"
#include <Omega_h_amr.hpp>
#include <Omega_h_build.hpp>
#include <Omega_h_file.hpp>
#include <Omega_h_mark.hpp>
using std::map;
using std::set;
using std::vector;

enum { L = 6, UNIT = 1 << L };  // lattice points per unit cell
struct Box {
  int lo[3] = {0, 0, 0}, ext[3] = {0, 0, 0};
  bool operator<(Box const& o) const {
    for (int a = 0; a < 3; ++a)
      if (lo[a] != o.lo[a]) return lo[a] < o.lo[a];
    for (int a = 0; a < 3; ++a)
      if (ext[a] != o.ext[a]) return ext[a] < o.ext[a];
    return false;
  }
  bool operator==(Box const& o) const { return !(*this < o) && !(o < *this); }
  int dim() const { return (ext[0] > 0) + (ext[1] > 0) + (ext[2] > 0); }
  int size() const { return std::max(ext[0], std::max(ext[1], ext[2])); }
  std::string text() const {
    char s[120];
    snprintf(s, sizeof s, "(%d,%d,%d)+(%d,%d,%d)", lo[0], lo[1], lo[2], ext[0], ext[1], ext[2]);
    return s;
  }
};
static int level_of(Box const& b) {
  if (b.dim()) return __builtin_ctz(UNIT) - __builtin_ctz(unsigned(b.size()));
  int bits = L;
  for (int a = 0; a < 3; ++a)
    if (b.lo[a]) bits = std::min(bits, __builtin_ctz(unsigned(b.lo[a])));
  return L - bits;
}
static Box parent_of(Box const& b) {
  int s = UNIT >> level_of(b), d = 2 * s;
  Box p;
  for (int a = 0; a < 3; ++a) {
    bool aligned = b.lo[a] % d == 0;
    p.lo[a] = b.lo[a] - b.lo[a] % d;
    p.ext[a] = b.ext[a] || !aligned ? d : 0;
  }
  return p;
}
static vector<Box> kids(Box const& e) {
  vector<Box> r;
  int dim = e.dim(), h = e.size() / 2;
  for (int k = 0; k < (1 << dim); ++k) {
    Box c = e;
    int bit = 0;
    for (int a = 0; a < 3; ++a)
      if (e.ext[a]) {
        c.ext[a] = h;
        c.lo[a] += ((k >> bit++) & 1) * h;
      }
    r.push_back(c);
  }
  return r;
}
static void faces(Box const& e, set<Box> out[4]) {
  // every axis: low end, high end or whole
  for (int k = 0; k < 27; ++k) {
    int t[3] = {k % 3, k / 3 % 3, k / 9};
    Box f = e;
    bool ok = true;
    for (int a = 0; a < 3; ++a) {
      if (!e.ext[a] && t[a]) ok = false;
      if (t[a] == 1) f.ext[a] = 0;
      if (t[a] == 2) f.lo[a] += e.ext[a], f.ext[a] = 0;
    }
    if (ok) out[f.dim()].insert(f);
  }
}
struct Tree {
  int dim = 0, n[3] = {0, 0, 0};
  set<Box> elems;
  bool has_kids(Box const& e) const {
    if (e.size() <= 1) return false;
    for (auto& k : kids(e))
      if (elems.count(k)) return true;
    return false;
  }
  vector<Box> leaves() const {
    vector<Box> r;
    for (auto& e : elems)
      if (!has_kids(e)) r.push_back(e);
    return r;
  }
  // parents all of whose children are leaves
  vector<Box> foldable() const {
    vector<Box> r;
    for (auto& e : elems) {
      if (!has_kids(e)) continue;
      bool ok = true;
      for (auto& k : kids(e)) ok = ok && !has_kids(k);
      if (ok) r.push_back(e);
    }
    return r;
  }
};
// what the tags hold
static double lin(double const* x, int c) { return 2 + c - x[0] * (3 - c) + 0.5 * x[1] * (c + 1) - x[2]; }
static int inh(int cd, int ci, int c) { return cd * 1000 + ci * 3 + c * 7; }

struct Hist {
  Tree t;
  std::map<vector<int>, std::pair<int, int>> cls;  // which sides of the domain -> class
  std::string what;
  bool pruned = false;  // non-leaf elements have been removed
};
static vector<int> side_key(Tree const& t, Box const& b) {
  vector<int> k;
  for (int a = 0; a < t.dim; ++a)
    k.push_back(b.ext[a] ? 0 : b.lo[a] == 0 ? -1 : b.lo[a] == t.n[a] * UNIT ? 1 : 0);
  return k;
}
static vector<Box> boxes_of(oh::Mesh& m, int d) {
  auto vv = mk::verts_of(m, d);
  auto co = m.coords();
  vector<Box> r;
  for (auto& e : vv) {
    Box b;
    for (int a = 0; a < m.dim(); ++a) {
      int lo = INT_MAX, hi = INT_MIN;
      for (int v : e) {
        double x = co[v * m.dim() + a] * UNIT;
        MKREQ(x == std::floor(x), "vertex", "a vertex at %g", x / UNIT);
        lo = std::min(lo, int(x));
        hi = std::max(hi, int(x));
      }
      b.lo[a] = lo;
      b.ext[a] = hi - lo;
    }
    r.push_back(b);
  }
  return r;
}
static void start(Hist& h, oh::Mesh& m, int dim, int const* n) {
  h.t.dim = dim;
  for (int a = 0; a < dim; ++a) h.t.n[a] = n[a];
  for (int d = 0; d <= dim; ++d) {
    auto b = boxes_of(m, d);
    auto cd = m.get_array<I8>(d, "class_dim");
    auto ci = m.get_array<I32>(d, "class_id");
    vector<I32> v1;
    vector<Real> v2;
    for (size_t i = 0; i < b.size(); ++i) {
      auto k = side_key(h.t, b[i]);
      std::pair<int, int> c(cd[LO(i)], ci[LO(i)]);
      auto it = h.cls.insert({k, c}).first;
      MKREQ(it->second == c, "box", "%s: two classes on one side", b[i].text().c_str());
      v1.push_back(inh(c.first, c.second, 0));
      for (int j = 0; j < 2; ++j) v2.push_back(inh(c.first, c.second, j) / 4.0);
    }
    m.add_tag<I32>(d, "inh", 1, arr(v1));
    m.add_tag<Real>(d, "inh2", 2, arr(v2));
    if (d == dim) h.t.elems.insert(b.begin(), b.end());
  }
  auto co = m.coords();
  vector<Real> l;
  for (LO v = 0; v < m.nverts(); ++v) {
    double x[3] = {0, 0, 0};
    for (int a = 0; a < dim; ++a) x[a] = co[v * dim + a];
    for (int c = 0; c < 2; ++c) l.push_back(lin(x, c));
  }
  m.add_tag<Real>(0, "lin", 2, arr(l));
}
static void check(mc::Ctx& c, Hist const& h, oh::Mesh& m) {
  auto w = h.what.c_str();
  int dim = h.t.dim;
  set<Box> want[4];
  set<Box> elems;
  if (h.pruned) {
    auto l = h.t.leaves();
    elems.insert(l.begin(), l.end());
  } else
    elems = h.t.elems;
  for (auto& e : elems) faces(e, want);
  vector<Box> got[4];
  map<Box, int> at[4];
  MKREQ(m.dim() == dim && m.family() == OMEGA_H_HYPERCUBE, "kind", "%s", w);
  for (int d = 0; d <= dim; ++d) {
    got[d] = boxes_of(m, d);
    for (size_t i = 0; i < got[d].size(); ++i) {
      auto& b = got[d][i];
      MKREQ(b.dim() == d, "shape", "%s: %d-entity %zu covers %s", w, d, i, b.text().c_str());
      MKREQ(want[d].count(b), "extra", "%s: there should be no %d-entity %s", w, d, b.text().c_str());
      MKREQ(at[d].insert({b, int(i)}).second, "twice", "%s: two %d-entities %s", w, d, b.text().c_str());
    }
    MKREQ(got[d].size() == want[d].size(), "missing", "%s: %zu of %zu %d-entities", w, got[d].size(), want[d].size(), d);
  }
  mk::check_adjacencies(m, false);
  auto co = m.coords();
  for (int d = 0; d <= dim; ++d) {
    auto cd = m.get_array<I8>(d, "class_dim");
    auto ci = m.get_array<I32>(d, "class_id");
    auto i1 = m.get_array<I32>(d, "inh");
    auto i2 = m.get_array<Real>(d, "inh2");
    auto p = m.ask_parents(d);
    auto leaf = m.ask_leaves(d);
    auto level = m.ask_levels(d);
    auto g = m.globals(d);
    set<GO> gs;
    set<std::pair<std::pair<int, int>, int>> positions;
    MKREQ(i1.size() == m.nents(d) && i2.size() == 2 * m.nents(d), "tag-size", "%s: inherited tags of dimension %d", w, d);
    for (LO i = 0; i < m.nents(d); ++i) {
      auto& b = got[d][size_t(i)];
      auto cls = h.cls.at(side_key(h.t, b));
      MKREQ(cd[i] == cls.first && ci[i] == cls.second, "class", "%s: %s is classified on %d/%d, lies on %d/%d", w, b.text().c_str(), int(cd[i]), ci[i], cls.first, cls.second);
      MKREQ(i1[i] == inh(cls.first, cls.second, 0) && i2[2 * i] == inh(cls.first, cls.second, 0) / 4.0 && i2[2 * i + 1] == inh(cls.first, cls.second, 1) / 4.0, "inherit",
          "%s: %s inherited %d, %g, %g on %d/%d", w, b.text().c_str(), i1[i], i2[2 * i], i2[2 * i + 1], cls.first, cls.second);
      MKREQ(gs.insert(g[i]).second && g[i] >= 0, "global", "%s: global %lld of dimension %d", w, (long long)g[i], d);
      if (!h.pruned) MKREQ(g[i] < m.nents(d), "global", "%s: global %lld of dimension %d", w, (long long)g[i], d);
      MKREQ(int(level[i]) == level_of(b), "level", "%s: %s has level %d", w, b.text().c_str(), int(level[i]));
      if (d) {
        bool has = false;
        if (b.size() > 1)
          for (auto& k : kids(b)) has = has || want[d].count(k);
        if (!h.pruned) MKREQ((leaf[i] != 0) == !has, "leaf", "%s: %s is %sa leaf", w, b.text().c_str(), leaf[i] ? "" : "not ");
      }
      if (level_of(b) == 0) {
        MKREQ(p.parent_idx[i] < 0, "parent", "%s: %s has a parent", w, b.text().c_str());
        continue;
      }
      auto pb = parent_of(b);
      auto it = at[pb.dim()].find(pb);
      if (it == at[pb.dim()].end()) {
        MKREQ(h.pruned && p.parent_idx[i] < 0, "parent", "%s: %s should have no parent left", w, b.text().c_str());
        continue;
      }
      MKREQ(p.parent_idx[i] >= 0 && oh::amr::code_parent_dim(p.codes[i]) == pb.dim() && p.parent_idx[i] == it->second, "parent", "%s: the parent of %s should be %s, is %d of dimension %d", w,
          b.text().c_str(), pb.text().c_str(), p.parent_idx[i], oh::amr::code_parent_dim(p.codes[i]));
      // its place among the children
      int which = oh::amr::code_which_child(p.codes[i]);
      MKREQ(positions.insert({{pb.dim(), p.parent_idx[i]}, which}).second, "which-child", "%s: two children %d of %s", w, which, pb.text().c_str());
      int max = pb.dim() == d ? 1 << d : d == 0 ? 1 : pb.dim() == 2 ? 4 : d == 1 ? 6 : 12;
      MKREQ(which >= 0 && which < max, "which-child", "%s: child %d of %s", w, which, pb.text().c_str());
      if (pb.dim() == d && d > 0) {
        auto pv = mk::verts_of(m, d)[size_t(it->second)];
        auto cv = mk::verts_of(m, d)[size_t(i)];
        MKREQ(cv[size_t(which)] == pv[size_t(which)], "which-child", "%s: child %d of %s is at %s", w, which, pb.text().c_str(), b.text().c_str());
      }
    }
    // children are the inverse of parents
    for (int cdim = 0; d && cdim <= d; ++cdim) {
      auto ch = m.ask_children(d, cdim);
      auto cp = m.ask_parents(cdim);
      MKREQ(ch.a2ab.size() == m.nents(d) + 1, "children", "%s: sizes", w);
      size_t total = 0;
      for (LO i = 0; i < cp.parent_idx.size(); ++i) total += cp.parent_idx[i] >= 0 && oh::amr::code_parent_dim(cp.codes[i]) == d;
      MKREQ(size_t(ch.ab2b.size()) == total, "children", "%s: %d children of dimension %d, %zu name such a parent", w, ch.ab2b.size(), cdim, total);
      for (LO i = 0; i < m.nents(d); ++i)
        for (LO j = ch.a2ab[i]; j < ch.a2ab[i + 1]; ++j) {
          MKREQ(cp.parent_idx[ch.ab2b[j]] == i && ch.codes[j] == cp.codes[ch.ab2b[j]], "children", "%s: child %d of %d-entity %d", w, ch.ab2b[j], d, i);
          if (j > ch.a2ab[i])
            MKREQ(oh::amr::code_which_child(ch.codes[j]) > oh::amr::code_which_child(ch.codes[j - 1]), "children", "%s: children of %d-entity %d out of order", w, d, i);
        }
    }
  }
  auto l = m.get_array<Real>(0, "lin");
  MKREQ(l.size() == 2 * m.nverts(), "tag-size", "%s: lin", w);
  for (LO v = 0; v < m.nverts(); ++v) {
    double x[3] = {0, 0, 0};
    for (int a = 0; a < dim; ++a) x[a] = co[v * dim + a];
    for (int k = 0; k < 2; ++k) MKREQ(std::fabs(l[2 * v + k] - lin(x, k)) < 1e-12, "linear", "%s: vertex %s has %.17g", w, got[0][size_t(v)].text().c_str(), l[2 * v + k]);
  }
  mc::Hash hh;
  for (auto& e : elems) hh.add(e.lo).add(e.ext);
  c.outcome(hh.h);
}
static oh::TransferOpts opts() {
  oh::TransferOpts x;
  x.type_map["lin"] = OMEGA_H_LINEAR_INTERP;
  x.type_map["inh"] = OMEGA_H_INHERIT;
  x.type_map["inh2"] = OMEGA_H_INHERIT;
  return x;
}
// the neighbor across every side differs by one level at most
static std::string unbalanced(Tree const& t, set<Box> const* whole = nullptr) {
  (void)whole;
  auto ls = t.leaves();
  for (auto& a : ls)
    for (auto& b : ls) {
      if (b.size() <= 2 * a.size()) continue;
      // a and b touch along a side of a
      int touch = 0;
      bool apart = false;
      for (int k = 0; k < t.dim; ++k) {
        int lo = std::max(a.lo[k], b.lo[k]), hi = std::min(a.lo[k] + a.ext[k], b.lo[k] + b.ext[k]);
        if (lo > hi) apart = true;
        if (lo == hi) ++touch;
      }
      if (!apart && touch == 1) return a.text() + " beside " + b.text();
    }
  return "";
}
static oh::Bytes marks_of(oh::Mesh& m, vector<Box> const& on) {
  auto b = boxes_of(m, m.dim());
  vector<I8> k;
  for (auto& x : b) k.push_back(std::find(on.begin(), on.end(), x) != on.end());
  return arr(k);
}
// a subset of the candidates: any if they are few, else none, one, two
// neighbors in the list, every second, all
static vector<Box> subset(mc::Ctx& c, vector<Box> const& v, int full) {
  vector<Box> r;
  int n = int(v.size());
  if (n <= full) {
    for (auto& x : v)
      if (c.flip()) r.push_back(x);
    return r;
  }
  int k = c.choose(2 * n + 2);
  if (k < n) return {v[size_t(k)]};
  if (k < 2 * n) return {v[size_t(k - n)], v[size_t((k + 1) % n)]};
  for (int i = 0; i < n; i += (k == 2 * n ? 1 : 2)) r.push_back(v[size_t(i)]);
  return r;
}
enum { REFINE, DEREFINE, BALANCED, LEAVES };
static void run(mc::Ctx& c, vector<vector<int>> shapes, int depth, vector<int> full, bool balanced_only) {
  auto sh = shapes[size_t(c.choose(int(shapes.size())))];
  int dim = int(sh.size());
  sh.resize(3);
  Hist h;
  h.what = "box " + str(sh);
  minimpi::Options mo;
  mo.nranks = 1;
  mo.explore = false;
  minimpi::run(c, mo, [&](int) {
    oh::Library lib;
    auto m = oh::build_box(lib.world(), OMEGA_H_HYPERCUBE, sh[0], sh[1], sh[2], sh[0], sh[1], sh[2]);
    start(h, m, dim, sh.data());
    check(c, h, m);
    for (int s = 0; s < depth; ++s) {
      auto ls = h.t.leaves();
      auto fs = h.t.foldable();
      int op = balanced_only ? BALANCED : c.choose(dim > 1 ? 4 : 2);
      if (op == DEREFINE && fs.empty()) c.prune();
      if (op == LEAVES && s + 1 < depth) c.prune();
      auto on = op == LEAVES ? vector<Box>() : subset(c, op == DEREFINE ? fs : ls, full[size_t(s)]);
      if (s == 0) c.split();
      if (op == BALANCED && !unbalanced(h.t).empty()) c.prune();
      if (op != LEAVES && on.empty() && s + 1 < depth) c.prune();
      h.what += op == REFINE ? "; refine" : op == DEREFINE ? "; derefine" : op == BALANCED ? "; balanced refine" : "; leaves only";
      for (auto& b : on) h.what += " " + b.text();
      c.note("%s", h.what.c_str());
      auto marks = marks_of(m, on);
      if (op == REFINE) {
        oh::amr::refine(&m, marks, opts());
        for (auto& b : on)
          for (auto& k : kids(b)) h.t.elems.insert(k);
      } else if (op == DEREFINE) {
        oh::amr::derefine(&m, marks, opts());
        for (auto& b : on)
          for (auto& k : kids(b)) h.t.elems.erase(k);
      } else if (op == BALANCED) {
        auto more = oh::amr::enforce_2to1_refine(&m, dim - 1, marks);
        auto bs = boxes_of(m, dim);
        MKREQ(more.size() == m.nelems(), "balance-size", "%s", h.what.c_str());
        // the least set that keeps neighbors within one level
        set<Box> need(on.begin(), on.end());
        for (;;) {
          Tree t = h.t;
          for (auto& b : need)
            for (auto& k : kids(b)) t.elems.insert(k);
          bool grew = false;
          for (auto& b : ls) {
            if (need.count(b)) continue;
            for (auto& a : t.leaves()) {
              if (b.size() <= 2 * a.size()) continue;
              int touch = 0;
              bool apart = false;
              for (int k = 0; k < dim; ++k) {
                int lo = std::max(a.lo[k], b.lo[k]), hi = std::min(a.lo[k] + a.ext[k], b.lo[k] + b.ext[k]);
                if (lo > hi) apart = true;
                if (lo == hi) ++touch;
              }
              if (!apart && touch == 1 && need.insert(b).second) grew = true;
            }
          }
          if (!grew) break;
        }
        for (LO i = 0; i < m.nelems(); ++i)
          MKREQ((more[i] != 0) == (need.count(bs[size_t(i)]) != 0), "balance", "%s: %s is %s to be refined", h.what.c_str(), bs[size_t(i)].text().c_str(), more[i] ? "wrongly" : "not");
        oh::amr::refine(&m, more, opts());
        for (auto& b : need)
          for (auto& k : kids(b)) h.t.elems.insert(k);
        auto bad = unbalanced(h.t);
        MKREQ(bad.empty(), "balance", "%s: %s", h.what.c_str(), bad.c_str());
      } else {
        oh::amr::remove_non_leaf_uses(&m);
        h.pruned = true;
      }
      check(c, h, m);
    }
  });
  mc::Hash hs;
  hs.add(h.what);
  c.state(hs.h);
  c.exec(uint64_t(depth - 1));
  c.step(uint64_t(depth));
}


// one refinement on several ranks: the parts together are the serial mesh
static void ranks(mc::Ctx& c, vector<vector<int>> shapes, int n, int bound) {
  auto sh = shapes[size_t(c.choose(int(shapes.size())))];
  int dim = int(sh.size());
  sh.resize(3);
  int ne = sh[0] * std::max(1, sh[1]) * std::max(1, sh[2]);
  auto owner = choose_digits(c, ne, n);
  auto marked = choose_digits(c, ne, 2);
  c.split();
  c.note("box %s parts=%s marks=%s", str(sh).c_str(), str(owner).c_str(), str(marked).c_str());
  mc::Hash hs;
  hs.add(hash_of(sh)).add(hash_of(owner)).add(hash_of(marked));
  c.state(hs.h);
  Hist h;
  h.what = "serial";
  struct Ent { GO g; int orank, oidx, parent, pcode; Box b; bool leaf; };
  vector<vector<Ent>> got[4];
  for (auto& g : got) g.resize(size_t(n));
  minimpi::Options mo;
  mo.nranks = n;
  mo.explore = bound > 0;
  c.deviation_bound = bound;
  map<GO, Box> serial_elems;
  minimpi::run(c, mo, [&](int me) {
    minimpi::explore(false);
    oh::Library lib;
    auto world = lib.world();
    auto m = oh::build_box(lib.self(), OMEGA_H_HYPERCUBE, sh[0], sh[1], sh[2], sh[0], sh[1], sh[2]);
    Hist mine;
    start(mine, m, dim, sh.data());
    if (me == 0) {
      h = mine;
      auto b = boxes_of(m, dim);
      for (LO i = 0; i < m.nelems(); ++i) serial_elems[m.globals(dim)[i]] = b[size_t(i)];
    }
    auto part = oh::build_box(world, OMEGA_H_HYPERCUBE, sh[0], sh[1], sh[2], sh[0], sh[1], sh[2]);
    {
      auto again = Hist();
      if (part.nverts()) start(again, part, dim, sh.data());
      else {
        for (int d = 0; d <= dim; ++d) {
          part.add_tag<I32>(d, "inh", 1, oh::Read<I32>({}));
          part.add_tag<Real>(d, "inh2", 2, oh::Reals({}));
        }
        part.add_tag<Real>(0, "lin", 2, oh::Reals({}));
      }
    }
    // move the elements where they belong: the box numbers cells alike
    auto cell = [&](Box const& b) { return (b.lo[2] / UNIT * std::max(1, sh[1]) + b.lo[1] / UNIT) * sh[0] + b.lo[0] / UNIT; };
    {
      // every rank pulls its cells; whoever has them says so
      auto b = boxes_of(part, dim);
      vector<I32> have(size_t(ne), -1), idx(size_t(ne), -1);
      for (size_t i = 0; i < b.size(); ++i) have[size_t(cell(b[i]))] = me, idx[size_t(cell(b[i]))] = I32(i);
      for (int e = 0; e < ne; ++e) {
        have[size_t(e)] = world->allreduce(have[size_t(e)], OMEGA_H_MAX);
        idx[size_t(e)] = world->allreduce(idx[size_t(e)], OMEGA_H_MAX);
      }
      vector<I32> fr, fi;
      for (int e = 0; e < ne; ++e)
        if (owner[size_t(e)] == me) fr.push_back(have[size_t(e)]), fi.push_back(idx[size_t(e)]);
      oh::migrate_mesh(&part, oh::Dist(world, oh::Remotes(arr(fr), arr(fi)), part.nelems()), OMEGA_H_ELEM_BASED, false);
    }
    vector<I8> mk_;
    for (auto& b : boxes_of(part, dim)) mk_.push_back(I8(marked[size_t(cell(b))]));
    minimpi::explore(true);
    oh::amr::refine(&part, arr(mk_), opts());
    minimpi::explore(false);
    for (int d = 0; d <= dim; ++d) {
      auto b = boxes_of(part, d);
      auto own = part.ask_owners(d);
      auto g = part.globals(d);
      auto p = part.ask_parents(d);
      auto leaf = part.ask_leaves(d);
      auto level = part.ask_levels(d);
      auto cd = part.get_array<I8>(d, "class_dim");
      auto ci = part.get_array<I32>(d, "class_id");
      auto i2 = part.get_array<Real>(d, "inh2");
      for (LO i = 0; i < part.nents(d); ++i) {
        got[d][size_t(me)].push_back({g[i], own.ranks[i], own.idxs[i], p.parent_idx[i], p.codes[i], b[size_t(i)], leaf[i] != 0});
        auto cls = mine.cls.at(side_key(mine.t, b[size_t(i)]));
        MKREQ(cd[i] == cls.first && ci[i] == cls.second, "class", "%s is classified on %d/%d", b[size_t(i)].text().c_str(), int(cd[i]), ci[i]);
        MKREQ(level[i] == level_of(b[size_t(i)]), "level", "%s has level %d", b[size_t(i)].text().c_str(), int(level[i]));
        MKREQ(i2[2 * i + 1] == inh(cls.first, cls.second, 1) / 4.0, "inherit", "%s", b[size_t(i)].text().c_str());
      }
    }
    auto l = part.get_array<Real>(0, "lin");
    auto co = part.coords();
    for (LO v = 0; v < part.nverts(); ++v) {
      double x[3] = {0, 0, 0};
      for (int a = 0; a < dim; ++a) x[a] = co[v * dim + a];
      for (int k = 0; k < 2; ++k) MKREQ(std::fabs(l[2 * v + k] - lin(x, k)) < 1e-12, "linear", "vertex %d has %.17g", v, l[2 * v + k]);
    }
    mk::check_adjacencies(part, false);
  });
  auto cellof = [&](Box const& b) { return (b.lo[2] / UNIT * std::max(1, sh[1]) + b.lo[1] / UNIT) * sh[0] + b.lo[0] / UNIT; };
  set<Box> elems = h.t.elems;
  for (auto& e : h.t.elems)
    if (marked[size_t(cellof(e))])
      for (auto& k : kids(e)) elems.insert(k);
  set<Box> want[4];
  for (auto& e : elems) faces(e, want);
  for (int d = 0; d <= dim; ++d) {
    map<Box, GO> glob;
    map<Box, std::pair<int, int>> own;
    set<GO> used;
    for (int r = 0; r < n; ++r) {
      set<Box> mine;
      for (size_t i = 0; i < got[d][size_t(r)].size(); ++i) {
        auto& e = got[d][size_t(r)][i];
        auto t = e.b.text();
        c.require(want[d].count(e.b), "extra", "rank %d has a %d-entity %s", r, d, t.c_str());
        c.require(mine.insert(e.b).second, "twice", "rank %d has %s twice", r, t.c_str());
        auto it = glob.insert({e.b, e.g});
        c.require(it.first->second == e.g, "global", "%s has globals %lld and %lld", t.c_str(), (long long)e.g, (long long)it.first->second);
        if (it.second) c.require(used.insert(e.g).second && e.g >= 0 && e.g < GO(want[d].size()), "global", "%s has global %lld", t.c_str(), (long long)e.g);
        auto jt = own.insert({e.b, {e.orank, e.oidx}});
        c.require(jt.first->second == std::make_pair(e.orank, e.oidx), "owner", "copies of %s disagree on its owner", t.c_str());
        c.require(e.orank >= 0 && e.orank < n && e.oidx >= 0 && size_t(e.oidx) < got[d][size_t(e.orank)].size() && got[d][size_t(e.orank)][size_t(e.oidx)].b == e.b, "owner",
            "the owner of %s is elsewhere", t.c_str());
        if (level_of(e.b)) {
          auto pb = parent_of(e.b);
          bool ok = e.parent >= 0 && oh::amr::code_parent_dim(I8(e.pcode)) == pb.dim() && size_t(e.parent) < got[pb.dim()][size_t(r)].size() &&
                    got[pb.dim()][size_t(r)][size_t(e.parent)].b == pb;
          c.require(ok, "parent", "rank %d: the parent of %s is not %s", r, t.c_str(), pb.text().c_str());
        }
        if (d) {
          bool has = false;
          if (e.b.size() > 1)
            for (auto& k : kids(e.b)) has = has || want[d].count(k);
          c.require(e.leaf == !has, "leaf", "rank %d: %s", r, t.c_str());
        }
      }
      // a rank holds the entities of its elements
      set<Box> need[4];
      for (auto& e : elems)
        if (owner[size_t(cellof(e))] == r) faces(e, need);
      for (auto& b : need[d]) c.require(mine.count(b), "missing", "rank %d misses %s", r, b.text().c_str());
    }
    c.require(glob.size() == want[d].size(), "missing", "%zu of %zu %d-entities", glob.size(), want[d].size(), d);
  }
  c.step(uint64_t(ne));
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C17",
      {
          {"line", [](mc::Ctx& c) { run(c, {{1}, {2}, {3}}, 3, {8, 8, 4}, false); }, 60, false, "1D, 1-3 cells, all sequences of 3 operations"},
          {"quad", [](mc::Ctx& c) { run(c, {{1, 1}, {2, 1}, {2, 2}}, 2, {8, c.thorough() ? 10 : 8}, false); }, 60, false,
              "1-4 quads, every subset refined, then every subset (few at a time above 8) refined, derefined, refined with balance, or reduced to leaves"},
          {"quad3", [](mc::Ctx& c) { run(c, {{1, 1}, {2, 1}}, 3, {4, c.thorough() ? 3 : 2, c.thorough() ? 3 : 1}, false); }, 60, false, "1-2 quads, sequences of 3 operations"},
          {"hex", [](mc::Ctx& c) { run(c, {{1, 1, 1}, {2, 1, 1}}, 2, {4, c.thorough() ? 8 : 4}, false); }, 60, false, "1-2 hexes, two operations, every subset of up to 4 (thorough 8)"},
          {"hex3", [](mc::Ctx& c) { run(c, {{1, 1, 1}, {1, 1, 2}}, 3, {2, 1, 1}, false); }, 60, true, "1-2 hexes, three operations"},
          {"ripple", [](mc::Ctx& c) { c.thorough() ? run(c, {{2, 1}, {1, 3}}, 4, {1, 1, 1, 1}, true) : run(c, {{1, 3}, {3, 1}}, 3, {1, 1, 1}, true); }, 60, false,
              "strips of quads refined with balance 3 (4) times, so that refinement has to spread"},
          {"ranks2", [](mc::Ctx& c) { ranks(c, {{3}, {2, 1}, {2, 2}, {2, 1, 1}}, 2, 0); }, 60, false, "1D-3D boxes of 2-4 cells, every assignment to 2 ranks, every subset refined once"},
          {"ranks4", [](mc::Ctx& c) { c.thorough() ? ranks(c, {{4}, {2, 1}, {2, 2}, {1, 1, 2}}, 4, 0) : ranks(c, {{3}, {2, 1}, {1, 1, 2}}, 4, 0); }, 60, false, "boxes of 2-4 cells on 4 ranks, the same"},
          {"sched", [](mc::Ctx& c) { c.thorough() ? ranks(c, {{2}, {2, 1}}, 2, 1) : ranks(c, {{2}}, 2, 1); }, 60, false, "two cells on 2 ranks, all schedules with <=1 deviation"},
      });
}
