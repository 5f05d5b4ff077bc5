// C10: classification.  What is known about some entities (given lists, angles
// of the boundary, positions in a box) against rules applied to vertex lists.
#include <Omega_h_array_ops.hpp>
#include <Omega_h_assoc.hpp>
#include <Omega_h_box.hpp>
#include <Omega_h_class.hpp>
#include <Omega_h_mark.hpp>
#include <fstream>
#include "files.hpp"
#include "worldkit.hpp"
using namespace wk;
using namespace minimpi;
using std::string;
struct Cl {
  int dim, id;
  bool operator==(Cl const& o) const { return dim == o.dim && id == o.id; }
};

// ---- boxes
static void box(mc::Ctx& c) {
  int dim = 1 + c.choose(3);
  bool simplex = c.flip();
  bool symmetric = simplex && dim > 1 && c.flip();
  int n[3] = {1, 1, 1};
  static double const len[3] = {1.0, 0.3, 50.0};
  double l[3] = {0, 0, 0};
  for (int i = 0; i < dim; ++i) {
    n[i] = 1 + c.choose(dim < 3 || c.thorough() ? 3 : 2);
    l[i] = len[c.choose(dim < 3 || c.thorough() ? 3 : 2)];
  }
  if (c.describing()) c.note("%s box %gx%gx%g, %dx%dx%d%s", simplex ? "simplex" : "hypercube", l[0], l[1], l[2], n[0], n[1], n[2], symmetric ? " symmetric" : "");
  oh::Library lib;
  auto m = oh::build_box(lib.world(), simplex ? OMEGA_H_SIMPLEX : OMEGA_H_HYPERCUBE, l[0], l[1], l[2], n[0], dim > 1 ? n[1] : 0, dim > 2 ? n[2] : 0, symmetric);
  MKREQ(m.dim() == dim, "box", "a box of dimension %d instead of %d", m.dim(), dim);
  auto x = vec(m.coords());
  // sizes: the box is filled with positive elements of the right number
  double vol = 0;
  auto at = [&](int v, int i) { return x[size_t(v * dim + i)]; };
  vector<Cl> want[4];
  auto side_of = [&](int v, int i) { return std::fabs(at(v, i)) < 1e-9 * l[i] ? 0 : std::fabs(at(v, i) - l[i]) < 1e-9 * l[i] ? 2 : 1; };
  for (int d = 0; d <= dim; ++d) {
    auto ev = mk::verts_of(m, d);
    auto cd = m.get_array<I8>(d, "class_dim");
    auto ci = m.get_array<oh::ClassId>(d, "class_id");
    for (size_t e = 0; e < ev.size(); ++e) {
      int id = 0, k = 0, w = 1;
      for (int i = 0; i < dim; ++i) {
        int s = side_of(ev[e][0], i);
        for (int v : ev[e])
          if (side_of(v, i) != s) s = 1;
        k += s == 1;
        id += w * s;
        w *= 3;
      }
      want[d].push_back({k, id});
      MKREQ(cd[LO(e)] == k && ci[LO(e)] == id, "box-class", "entity %zu of dimension %d with vertices %s is classified %d:%d, expected %d:%d", e, d, str(ev[e]).c_str(), int(cd[LO(e)]), ci[LO(e)], k, id);
    }
    if (d == dim && simplex)
      for (auto& e : ev) {
        double b[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
        for (int i = 0; i < dim; ++i)
          for (int j = 0; j < dim; ++j) b[i][j] = at(e[size_t(i) + 1], j) - at(e[0], j);
        double det = b[0][0] * (b[1][1] * b[2][2] - b[1][2] * b[2][1]) - b[0][1] * (b[1][0] * b[2][2] - b[1][2] * b[2][0]) + b[0][2] * (b[1][0] * b[2][1] - b[1][1] * b[2][0]);
        MKREQ(det > 0, "box", "an element of volume %g", det);
        vol += det / (dim == 3 ? 6 : dim);
      }
  }
  double all = 1;
  for (int i = 0; i < dim; ++i) all *= l[i];
  if (simplex) MKREQ(std::fabs(vol - all) < 1e-9 * all, "box", "the elements fill %g of %g", vol, all);
  // the named sets hold what their names say
  static char const* axis[] = {"x", "y", "z"};
  std::map<string, std::function<bool(int, int)>> named;
  named["body"] = [&](int d, int e) { return d < dim || want[d][size_t(e)].dim == dim; };
  for (int i = 0; i < dim; ++i)
    for (int s = 0; s <= 2; s += 2)
      named[string(axis[i]) + (s ? "+" : "-")] = [&, i, s](int d, int e) {
        auto id = want[d][size_t(e)].id;
        for (int j = 0; j < i; ++j) id /= 3;
        return id % 3 == s;
      };
  auto check_set = [&](string const& name, vector<oh::ClassPair> const& pairs, int d, char const* what) {
    auto marks = oh::mark_class_closures(&m, d, pairs);
    for (LO e = 0; e < m.nents(d); ++e)
      MKREQ(bool(marks[e]) == named.at(name)(d, e), "box-sets", "%s \"%s\" %s entity %d of dimension %d", what, name.c_str(), marks[e] ? "holds" : "leaves out", e, d);
  };
  MKREQ(m.class_sets.size() == named.size(), "box-sets", "%zu class sets", m.class_sets.size());
  for (auto& s : m.class_sets) {
    MKREQ(named.count(s.first), "box-sets", "a class set \"%s\"", s.first.c_str());
    for (int d = 0; d <= (s.first == "body" ? dim : dim - 1); ++d) check_set(s.first, s.second, d, "class set");
  }
  auto assoc = oh::get_box_assoc(dim);
  auto check_assoc = [&](oh::Assoc const& a, char const* what) {
    MKREQ(a[oh::NODE_SET].size() == named.size() && a[oh::SIDE_SET].size() == named.size() - 1 && a[oh::ELEM_SET].size() == 1, "box-sets", "%s: %zu node sets, %zu side sets, %zu element sets", what, a[oh::NODE_SET].size(), a[oh::SIDE_SET].size(), a[oh::ELEM_SET].size());
    auto sets = oh::invert(&m, a);
    for (size_t t = 0; t < oh::NSET_TYPES; ++t) {
      int d = t == oh::ELEM_SET ? dim : t == oh::SIDE_SET ? dim - 1 : 0;
      for (auto& s : a[t]) {
        MKREQ(named.count(s.first) && (t == oh::NODE_SET || (s.first == "body") == (t == oh::ELEM_SET)), "box-sets", "%s: a set \"%s\" of type %zu", what, s.first.c_str(), t);
        auto got = vec(sets[t].at(s.first));
        vector<LO> w;
        for (LO e = 0; e < m.nents(d); ++e)
          if (named.at(s.first)(d, e)) w.push_back(e);
        MKREQ(got == w, "box-sets", "%s: set \"%s\" of type %zu holds %s, expected %s", what, s.first.c_str(), t, str(got).c_str(), str(w).c_str());
      }
    }
  };
  check_assoc(assoc, "get_box_assoc");
  // the same through a file, the sets written in one of two orders
  string path = c.scratch() + "/assoc.txt";
  static char const* types[] = {"element set", "side set", "node set"};
  for (int order = 0; order < 2; ++order) {
    vector<string> parts;
    for (size_t t = 0; t < oh::NSET_TYPES; ++t)
      for (auto& s : assoc[t]) {
        string p = string(types[t]) + " " + s.first + " " + std::to_string(s.second.size()) + "\n";
        for (auto& q : s.second) p += std::to_string(q.dim) + " " + std::to_string(q.id) + "\n";
        parts.push_back(p);
      }
    if (order) std::reverse(parts.begin(), parts.end());
    string text;
    for (auto& p : parts) text += p;
    std::ofstream(path.c_str()) << text;
    check_assoc(oh::read_assoc_file(path), "read_assoc_file");
  }
  c.exec();
  c.state(mc::Hash().add(dim).add(simplex).add(symmetric).add(n[0]).add(n[1]).add(n[2]).add(l[0]).add(l[1]).add(l[2]).h);
}

// ---- deriving classification from what is given
// per dimension: 0 nothing given, 1 dimensions only, 2 dimensions and identifiers
struct Given {
  int have[4] = {0, 0, 0, 0};
  vector<Cl> val[4];
};
static vector<Cl> derive_dim(World const& w, int d, vector<Cl> const& start, vector<Cl> const& high) {
  vector<Cl> r;
  for (size_t l = 0; l < w.ents[d].size(); ++l) {
    int low = 99;
    vector<int> ids;
    for (size_t h = 0; h < high.size(); ++h)
      if (w.in(d, int(l), d + 1, int(h))) {
        if (high[h].dim < low) ids.clear();
        if (high[h].dim <= low) ids.push_back(high[h].id);
        low = std::min(low, high[h].dim);
      }
    Cl x = start[l];
    if (x.dim < low && x.dim == d) {  // known
      r.push_back(x);
      continue;
    }
    // an entity lies in the interior of what its lowest neighbors lie on if it
    // is inside: between exactly two of them if they are one dimension higher
    bool one = true;
    for (int i : ids) one = one && i == ids[0];
    bool inside = one && (low == d + 1 ? ids.size() == 2 : ids.size() >= 2);
    r.push_back(inside ? Cl{low, ids[0]} : Cl{d, -1});
  }
  return r;
}
static void derive(World const& w, Given const& g, vector<Cl> (&out)[4], bool& ids) {
  int dim = w.s.dim;
  ids = false;
  for (int d = dim; d >= 0; --d) {
    ids = ids || g.have[d] == 2;
    vector<Cl> start(w.ents[d].size(), Cl{dim, -1});
    if (g.have[d]) start = g.val[d];
    if (g.have[d] == 1)
      for (auto& x : start) x.id = -1;
    out[d] = d == dim ? start : derive_dim(w, d, start, out[d + 1]);
  }
}
static void put(oh::Mesh& m, int d, vector<int> const& ids, vector<Cl> const& v, bool with_ids) {
  vector<I8> cd;
  vector<oh::ClassId> ci;
  for (int i : ids) {
    cd.push_back(I8(v[size_t(i)].dim));
    ci.push_back(v[size_t(i)].id);
  }
  m.add_tag<I8>(d, "class_dim", 1, arr(cd));
  if (with_ids) m.add_tag<oh::ClassId>(d, "class_id", 1, arr(ci));
}
static void check(World const& w, oh::Mesh& m, vector<Cl> const (&want)[4], bool ids, char const* what, bool par) {
  auto fail = [&](char const* key, string const& s) {
    if (par) minimpi::require(false, key, "%s", s.c_str());
    throw mc::Failure{key, s};
  };
  for (int d = 0; d <= w.s.dim; ++d) {
    auto e = ids_of(w, m, d);
    if (!m.has_tag(d, "class_dim")) fail(what, "no class_dim in dimension " + std::to_string(d));
    if (m.has_tag(d, "class_id") != ids) fail(what, string(ids ? "no" : "unwanted") + " class_id in dimension " + std::to_string(d));
    auto cd = m.get_array<I8>(d, "class_dim");
    oh::Read<oh::ClassId> ci;
    if (ids) ci = m.get_array<oh::ClassId>(d, "class_id");
    for (size_t i = 0; i < e.size(); ++i) {
      Cl x = want[d][size_t(e[i])];
      Cl got{cd[LO(i)], ids ? ci[LO(i)] : -1};
      if (got.dim != x.dim || (ids && got.id != x.id))
        fail(what, string(what) + ": entity " + std::to_string(e[i]) + " with vertices " + str(w.ents[d][size_t(e[i])]) + " is classified " + std::to_string(got.dim) + ":" + std::to_string(got.id) + ", expected " + std::to_string(x.dim) + ":" + std::to_string(x.id));
    }
  }
}
static string text_of(Given const& g, int dim) {
  string s;
  for (int d = dim; d >= 0; --d) {
    if (!g.have[d]) continue;
    s += " dim" + std::to_string(d) + (g.have[d] == 1 ? "(no ids)" : "") + ":";
    for (size_t i = 0; i < g.val[d].size(); ++i)
      if (g.val[d][i].dim == d || g.have[d] == 1) s += " " + std::to_string(i) + "->" + std::to_string(g.val[d][i].dim) + "/" + std::to_string(g.val[d][i].id);
  }
  return s;
}
// what is given: regions, sides, ... as lists of entities on model entities of
// their own dimension
static Given give(mc::Ctx& c, World const& w, bool rich) {
  int dim = w.s.dim;
  Given g;
  for (int d = dim; d >= 0; --d) {
    size_t n = w.ents[d].size();
    vector<Cl> v(n, Cl{dim, -1});
    if (d == dim) {
      // nothing, or one or two regions, one of them perhaps without a number
      g.have[d] = c.choose(2) * 2;
      if (!g.have[d]) continue;
      int a = 5, b = 6 - 7 * c.choose(2);
      for (size_t i = 0; i < n; ++i) v[i] = {dim, (i == 0 && n > 1) ? a : c.flip() ? a : b};
      g.val[d] = v;
      continue;
    }
    int how = c.choose(d == dim - 1 ? (rich ? 5 : 4) : 3);
    if (how == 0) continue;
    g.have[d] = 2;
    auto exposed = [&](size_t i) {
      int users = 0;
      for (size_t e = 0; e < w.ents[dim].size(); ++e) users += w.in(d, int(i), dim, int(e));
      return users < 2;
    };
    if (how == 1) {  // one entity
      int i = c.choose(int(n));
      v[size_t(i)] = {d, 3};
    } else if (how == 2) {  // every third / all but one entity
      int skip = d == dim - 1 ? c.choose(int(n)) : int(n) / 2;
      for (size_t i = 0; i < n; ++i)
        if (d == dim - 1 ? int(i) != skip : i % 2 == 0) v[i] = {d, 4};
    } else if (how == 3) {  // the boundary but for one side, in two pieces
      int cut = c.choose(int(n) + 1), skip = c.choose(2);
      for (size_t i = 0; i < n; ++i)
        if (exposed(i) && !(skip && int(i) == cut)) v[i] = {d, int(i) < cut ? 1 : 2};
    } else {  // any two entities on the same or different model entities
      int i = c.choose(int(n)), j = c.choose(int(n));
      if (j <= i) c.prune();
      v[size_t(i)] = {d, 1};
      v[size_t(j)] = {d, 1 + c.choose(2)};
    }
    g.val[d] = v;
  }
  return g;
}
static void lists(mc::Ctx& c) {
  static char const* names[] = {"strip4", "tets3", "edges4", "quads4", "fan4", "tetring4", "ring3"};
  int b = c.choose(c.thorough() ? 7 : 4);
  auto s = base(names[b]).s;
  int rot = c.choose(2);
  if (rot) {  // other local orders: entities are found in another order
    std::reverse(s.elems.begin(), s.elems.end());
    for (auto& e : s.elems) {
      auto& rs = rotations(s.simplex, s.dim);
      auto r = rs[rs.size() / 2];
      auto o = e;
      for (size_t i = 0; i < e.size(); ++i) e[i] = o[size_t(r[i])];
    }
  }
  World w(s);
  int dim = s.dim;
  c.split();
  auto g = give(c, w, c.thorough());
  if (c.describing()) c.note("%s%s:%s", names[b], rot ? " turned" : "", text_of(g, dim).c_str());
  oh::Library lib;
  auto m = mk::build(lib, s);
  vector<Cl> want[4];
  bool ids;
  derive(w, g, want, ids);
  for (int d = 0; d <= dim; ++d) {
    if (!g.have[d]) continue;
    if (d == dim) {
      auto e = ids_of(w, m, d);
      vector<oh::ClassId> ci;
      for (int i : e) ci.push_back(g.val[d][size_t(i)].id);
      oh::classify_equal_order(&m, d, m.ask_elem_verts(), arr(ci));
    } else {
      // listed in reverse, each with its vertices turned
      vector<LO> ev;
      vector<oh::ClassId> ci;
      for (size_t i = w.ents[d].size(); i-- > 0;)
        if (g.val[d][i].dim == d) {
          auto k = w.ents[d][i];
          auto lv = mk::verts_of(m, d);
          for (auto& v : lv)
            if (sorted(v) == k) k = v;
          if (!k.empty()) std::rotate(k.begin(), k.begin() + long(i % k.size()), k.end());
          if (i % 2) std::reverse(k.begin(), k.end());
          for (int v : k) ev.push_back(v);
          ci.push_back(g.val[d][i].id);
        }
      oh::classify_equal_order(&m, d, arr(ev), arr(ci));
    }
    auto e = ids_of(w, m, d);
    auto cd = m.get_array<I8>(d, "class_dim");
    auto ci = m.get_array<oh::ClassId>(d, "class_id");
    for (size_t i = 0; i < e.size(); ++i) {
      auto x = g.val[d][size_t(e[i])];
      MKREQ(cd[LO(i)] == x.dim && ci[LO(i)] == x.id, "equal-order", "entity %d of dimension %d was listed as %d:%d, classified %d:%d", e[i], d, x.dim, x.id, int(cd[LO(i)]), ci[LO(i)]);
    }
  }
  oh::finalize_classification(&m);
  check(w, m, want, ids, "finalize", false);
  c.exec();
  c.state(mc::Hash().add(b).add(rot).add(text_of(g, dim)).h);
}
static void parts(mc::Ctx& c) {
  static char const* names[] = {"strip4", "tets3", "edges4", "quads4", "fan4", "tetring4"};
  int b = c.choose(c.thorough() ? 6 : 3);
  World w(base(names[b]).s);
  int dim = w.s.dim;
  struct { int n = 1; vector<int> owner; } j;
  j.n = 2 + c.choose(2);
  for (size_t e = 0; e < w.s.elems.size(); ++e) j.owner.push_back(c.choose(j.n));
  c.split();
  // less choice of what is given
  Given g;
  int how = c.choose(6);
  for (int d = dim; d >= 0; --d) {
    if (d == 0 && how != 5) continue;
    if (d == dim && how == 4) continue;
    g.have[d] = how == 3 ? 1 : 2;
    for (size_t i = 0; i < w.ents[d].size(); ++i) {
      Cl x{dim, -1};
      if (d == dim) x = {dim, how == 0 ? 5 : 5 + int(i % 2)};
      else {
        int users = 0;
        for (size_t e = 0; e < w.ents[dim].size(); ++e) users += w.in(d, int(i), dim, int(e));
        if (d == dim - 1 && users < 2 && how >= 1) x = {d, how == 2 ? int(i % 3) : 1};
        if (d == dim - 1 && users == 2 && how == 2 && i % 2) x = {d, 7};
        if (d < dim - 1 && i % 3 == 0) x = {d, int(i)};
      }
      g.val[d].push_back(x);
    }
    if (how == 0 && d < dim) g.have[d] = 0;
  }
  if (c.describing()) c.note("%s on %d ranks %s:%s", names[b], j.n, str(j.owner).c_str(), text_of(g, dim).c_str());
  vector<Cl> want[4];
  bool ids;
  derive(w, g, want, ids);
  Options o;
  o.nranks = j.n;
  o.explore = false;
  minimpi::run(c, o, [&](int) {
    oh::Library lib;
    auto m = build_parted(lib, lib.world(), w.s, j.owner);
    part(m, 2);
    for (int d = 0; d <= dim; ++d)
      if (g.have[d]) put(m, d, ids_of(w, m, d), g.val[d], g.have[d] == 2);
    oh::finalize_classification(&m);
    check(w, m, want, ids, "finalize", true);
  });
  c.exec();
  c.state(mc::Hash().add(b).add(hash_of(j.owner)).add(j.n).add(how).h);
}

// ---- projection alone
static void project(mc::Ctx& c) {
  static char const* names[] = {"strip4", "fan4", "edges4", "tets3"};
  int b = c.choose(4);
  World w(base(names[b]).s);
  int dim = w.s.dim;
  int d = dim - 1;
  c.split();
  // elements on any model entities (of lower dimension too: a surface mesh)
  vector<Cl> high, start;
  for (size_t i = 0; i < w.ents[dim].size(); ++i) {
    int k = c.choose(5);
    high.push_back(k < 4 ? Cl{dim + (k > 1 && dim < 3), k % 2 ? 5 : 6} : Cl{dim, -1});
    if (dim == 3 && (k == 2 || k == 3)) c.prune();
  }
  bool known = c.flip(), relaxed = c.flip();
  size_t one = size_t(c.choose(int(w.ents[d].size())));
  for (size_t i = 0; i < w.ents[d].size(); ++i) start.push_back(known && i == one ? Cl{d, 9} : Cl{3, -1});
  oh::Library lib;
  auto m = mk::build(lib, w.s);
  put(m, dim, ids_of(w, m, dim), high, true);
  put(m, d, ids_of(w, m, d), start, true);
  // relaxed: unknown identifiers agree with any
  vector<Cl> want;
  if (!relaxed)
    want = derive_dim(w, d, start, high);
  else
    for (size_t l = 0; l < w.ents[d].size(); ++l) {
      int low = 99, count = 0;
      std::set<int> ids;
      for (size_t h = 0; h < high.size(); ++h)
        if (w.in(d, int(l), dim, int(h))) low = std::min(low, high[h].dim);
      for (size_t h = 0; h < high.size(); ++h)
        if (w.in(d, int(l), dim, int(h)) && high[h].dim == low) {
          ++count;
          if (high[h].id != -1) ids.insert(high[h].id);
        }
      if (start[l].dim < low && start[l].dim == d) {
        want.push_back(start[l]);
        continue;
      }
      bool inside = ids.size() <= 1 && (low == d + 1 ? count == 2 : count >= 2);
      want.push_back(inside ? Cl{low, ids.empty() ? -1 : *ids.begin()} : Cl{d, -1});
    }
  oh::project_classification(&m, d, relaxed);
  auto e = ids_of(w, m, d);
  auto cd = m.get_array<I8>(d, "class_dim");
  auto ci = m.get_array<oh::ClassId>(d, "class_id");
  string in;
  for (auto& h : high) in += " " + std::to_string(h.dim) + ":" + std::to_string(h.id);
  for (size_t i = 0; i < e.size(); ++i) {
    auto x = want[size_t(e[i])];
    MKREQ(cd[LO(i)] == x.dim && ci[LO(i)] == x.id, relaxed ? "project-relaxed" : "project", "%s, elements on%s%s: entity %s is classified %d:%d, expected %d:%d", names[b], in.c_str(), relaxed ? ", relaxed" : "", str(w.ents[d][size_t(e[i])]).c_str(), int(cd[LO(i)]), ci[LO(i)], x.dim, x.id);
  }
  c.exec();
  c.state(mc::Hash().add(b).add(in).add(known).add(relaxed).add(one).h);
}

// ---- angles
struct Geom {
  Soup s;
  vector<std::array<double, 3>> x;
};
static Geom lattice(int dim, int nx, int ny, int nz, int pattern, int shift, vector<int> const* use, int* total) {
  int mx = nx + 1, my = dim > 1 ? ny + 1 : 1, mz = dim > 2 ? nz + 1 : 1;
  vector<std::array<double, 3>> x;
  for (int k = 0; k < mz; ++k)
    for (int j = 0; j < my; ++j)
      for (int i = 0; i < mx; ++i) x.push_back({{double(i), double(j), double(k)}});
  static double const amp[] = {0, 0.13, -0.21};
  for (size_t v = 0; v < x.size(); ++v)
    for (int i = 0; i < dim; ++i) x[v][size_t(i)] += amp[shift] * std::sin(double(3 * v + 5 * size_t(i)));
  VV el;
  auto id = [&](int i, int j, int k) { return (k * my + j) * mx + i; };
  if (dim == 1)
    for (int i = 0; i < nx; ++i) el.push_back({i, i + 1});
  if (dim == 2)
    for (int j = 0; j < ny; ++j)
      for (int i = 0; i < nx; ++i) {
        int a = id(i, j, 0), b = id(i + 1, j, 0), cc = id(i + 1, j + 1, 0), d = id(i, j + 1, 0);
        if ((pattern >> ((i + j) & 1)) & 1)
          el.insert(el.end(), {{a, b, cc}, {a, cc, d}});
        else
          el.insert(el.end(), {{a, b, d}, {b, cc, d}});
      }
  if (dim == 3)
    for (int k = 0; k < nz; ++k)
      for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
          int p[3] = {0, 1, 2};
          do {
            int at[3] = {i, j, k};
            vector<int> t = {id(at[0], at[1], at[2])};
            for (int q : p) {
              ++at[q];
              t.push_back(id(at[0], at[1], at[2]));
            }
            int inv = (p[0] > p[1]) + (p[0] > p[2]) + (p[1] > p[2]);
            if (inv % 2) std::swap(t[2], t[3]);
            el.push_back(t);
          } while (std::next_permutation(p, p + 3));
        }
  *total = int(el.size());
  Geom g;
  if (!use) return g;
  std::map<int, int> num;
  VV some;
  for (size_t e = 0; e < el.size(); ++e)
    if ((*use)[e])
      for (int v : el[e]) num[v] = 0;
  for (auto& p : num) {
    p.second = int(g.x.size());
    g.x.push_back(x[size_t(p.first)]);
  }
  for (size_t e = 0; e < el.size(); ++e)
    if ((*use)[e]) {
      some.push_back({});
      for (int v : el[e]) some.back().push_back(num[v]);
    }
  if (!some.empty()) g.s = soup(true, dim, some);
  return g;
}
using V3 = std::array<double, 3>;
static V3 sub(V3 a, V3 b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
static double dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 cross(V3 a, V3 b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static double const thresholds[] = {0.5, 1.1, 2.0, 2.8};
static void angles(mc::Ctx& c, int dim, int nx, int ny, int nz) {
  int total;
  lattice(dim, nx, ny, nz, 0, 0, nullptr, &total);
  int pattern = dim == 2 ? c.choose(3) : 0;
  vector<int> use;
  for (int i = 0; i < total; ++i) {
    use.push_back(c.choose(2));
    if (i == 5) c.split();
  }
  if (std::count(use.begin(), use.end(), 1) == 0) c.prune();
  int shift = dim == 1 ? 0 : c.choose(c.thorough() ? 3 : 2);
  double sharp = thresholds[dim == 1 ? 0 : c.choose(4)];
  auto g = lattice(dim, nx, ny, nz, pattern, shift, &use, &total);
  if (c.describing()) c.note("%dD, elements %s, pattern %d, shift %d, threshold %g", dim, str(use).c_str(), pattern, shift, sharp);
  World w(g.s);
  oh::Library lib;
  auto m = mk::build(lib, g.s);
  vector<Real> x;
  for (auto& p : g.x)
    for (int i = 0; i < dim; ++i) x.push_back(p[size_t(i)]);
  m.add_tag<Real>(0, "coordinates", oh::Int(dim), arr(x));
  oh::classify_by_angles(&m, sharp);
  auto cdim = [&](int d) {
    vector<int> r(w.ents[d].size());
    MKREQ(m.has_tag(d, "class_dim"), "angles", "dimension %d is not classified", d);
    auto a = m.get_array<I8>(d, "class_dim");
    auto ids = ids_of(w, m, d);
    for (size_t i = 0; i < ids.size(); ++i) r[size_t(ids[i])] = a[LO(i)];
    return r;
  };
  auto expect = [&](int d, size_t i, int got, int want) { MKREQ(got == want, "angles", "entity %s of dimension %d is classified on dimension %d, expected %d", str(w.ents[d][i]).c_str(), d, got, want); };
  auto ce = cdim(dim);
  for (size_t i = 0; i < ce.size(); ++i) expect(dim, i, ce[i], dim);
  // sides
  auto cs = cdim(dim - 1);
  vector<int> exposed(cs.size());
  vector<V3> normal(cs.size());
  for (size_t s = 0; s < cs.size(); ++s) {
    int users = 0, e1 = 0;
    for (size_t e = 0; e < ce.size(); ++e)
      if (w.in(dim - 1, int(s), dim, int(e))) {
        ++users;
        e1 = int(e);
      }
    exposed[s] = users < 2;
    expect(dim - 1, s, cs[s], users < 2 ? dim - 1 : dim);
    if (!exposed[s] || dim == 1) continue;
    auto& k = w.ents[dim - 1][s];
    int opp = -1;
    for (int v : w.ents[dim][size_t(e1)])
      if (!std::count(k.begin(), k.end(), v)) opp = v;
    V3 a = g.x[size_t(k[0])], b = g.x[size_t(k[1])];
    V3 n = dim == 2 ? V3{{b[1] - a[1], a[0] - b[0], 0}} : cross(sub(b, a), sub(g.x[size_t(k[2])], a));
    double sign = dot(n, sub(g.x[size_t(opp)], a)) > 0 ? -1 : 1;
    double len = std::sqrt(dot(n, n)) * sign;
    normal[s] = {{n[0] / len, n[1] / len, n[2] / len}};
  }
  if (dim > 1) {
    auto chv = cdim(dim - 2);
    vector<int> hdim(chv.size(), dim);
    for (size_t h = 0; h < chv.size(); ++h) {
      vector<size_t> at;
      for (size_t s = 0; s < cs.size(); ++s)
        if (exposed[s] && w.in(dim - 2, int(h), dim - 1, int(s))) at.push_back(s);
      if (at.empty())
        hdim[h] = dim;
      else if (at.size() != 2)
        hdim[h] = dim - 2;  // not a surface there
      else {
        auto a = normal[at[0]], b = normal[at[1]];
        auto cr = cross(a, b);
        double angle = std::atan2(std::sqrt(dot(cr, cr)), dot(a, b));
        if (std::fabs(angle - sharp) < 1e-6) c.prune();
        hdim[h] = angle > sharp ? dim - 2 : dim - 1;
      }
      expect(dim - 2, h, chv[h], hdim[h]);
    }
    if (dim == 3) {
      auto cv = cdim(0);
      for (size_t v = 0; v < cv.size(); ++v) {
        int low = 3, curves = 0;
        for (size_t e = 0; e < hdim.size(); ++e)
          if (w.in(0, int(v), 1, int(e))) {
            low = std::min(low, hdim[e]);
            curves += hdim[e] == 1;
          }
        expect(0, v, cv[v], low > 1 ? low : curves == 2 ? 1 : 0);
      }
    }
  }
  c.exec();
  c.state(mc::Hash().add(dim).add(hash_of(use)).add(pattern).add(shift).add(sharp).h);
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C10",
      {
          {"box", box, 60, false, "every box of 1 to 3 dimensions, 1-2 (3) cells along each and 2-3 lengths, of both families"},
          {"lists", lists, 60, false, "4 (7) meshes in 2 orders x regions x sides, hinges and vertices listed"},
          {"parts", parts, 60, false, "3 (6) meshes x every distribution over 2 and 3 ranks x 6 kinds of input"},
          {"project", project, 60, false, "every classification of the elements of 4 meshes by 5 classes"},
          {"angles1", [](mc::Ctx& c) { angles(c, 1, 6, 0, 0); }, 60, false, "every subset of 6 edges"},
          {"angles2", [](mc::Ctx& c) { angles(c, 2, 2, 2, 0); }, 60, false, "every subset of 8 triangles in 3 patterns x 2 (3) shapes x 4 thresholds"},
          {"angles2b", [](mc::Ctx& c) { angles(c, 2, 3, 2, 0); }, 60, true, "every subset of 12 triangles in 3 patterns x 3 shapes x 4 thresholds"},
          {"angles3", [](mc::Ctx& c) { angles(c, 3, 1, 1, 1); }, 60, false, "every subset of 6 tetrahedra x 2 (3) shapes x 4 thresholds"},
          {"angles3b", [](mc::Ctx& c) { angles(c, 3, 2, 1, 1); }, 60, false, "every subset of 12 tetrahedra x 2 (3) shapes x 4 thresholds"},
      });
}
