// C08: every adjacency that a mesh derives is the one its element vertex lists
// define, with correct alignment codes, for every numbering, orientation and
// order of requests.
#include <cstdarg>
#include "meshkit.hpp"
#include <Omega_h_box.hpp>
#include <Omega_h_simplify.hpp>
#include <Omega_h_array_ops.hpp>
#include <Omega_h_align.hpp>
using namespace mk;
using std::vector;

static oh::Library& lib() {
  static oh::Library l;
  return l;
}

// ordered k-tuple of distinct numbers below n
static vector<int> choose_tuple(mc::Ctx& c, int n, int k) {
  vector<int> left, out;
  for (int i = 0; i < n; ++i) left.push_back(i);
  for (int j = 0; j < k; ++j) {
    int x = c.choose(n - j);
    out.push_back(left[size_t(x)]);
    left.erase(left.begin() + x);
  }
  return out;
}

static void all_soups(mc::Ctx& c, bool simplex, int dim, int nv, int ne, bool fix_first) {
  Soup s;
  s.simplex = simplex;
  s.dim = dim;
  s.nverts = nv;
  int deg = degree(simplex, dim);
  for (int e = 0; e < ne; ++e) {
    vector<int> t;
    if (e == 0 && fix_first) {
      for (int i = 0; i < deg; ++i) t.push_back(i);
    } else {
      t = choose_tuple(c, nv, deg);
      if (e == (fix_first ? 1 : 0)) c.split();
    }
    for (auto& o : s.elems)
      if (sorted(o) == sorted(t)) c.prune();
    s.elems.push_back(t);
  }
  if (c.describing()) c.note("%s", s.text().c_str());
  c.state(s.hash());
  auto m = build(lib(), s);
  auto v = check_adjacencies(m);
  check_entities(v, s);
  mc::Hash h;
  for (auto& x : v) h.add(x.size());
  c.outcome(h.h);
  c.step(16);
}

// a mesh class whose elements are given in all their rotations and with a
// selection of vertex numberings
static void rotated(mc::Ctx& c, bool simplex, int dim, vector<VV> const& bases, int max_free, bool all_numberings) {
  auto& b = bases[size_t(c.choose(int(bases.size())))];
  auto& rots = rotations(simplex, dim);
  Soup s;
  s.simplex = simplex;
  s.dim = dim;
  for (auto& e : b)
    for (int x : e) s.nverts = std::max(s.nverts, x + 1);
  vector<int> num;
  int n = s.nverts;
  if (all_numberings) {
    num = choose_perm(c, n);
  } else {
    int shift = c.choose(n), rev = c.choose(2), stride = c.choose(2);
    for (int i = 0; i < n; ++i) {
      int k = stride ? (i % 2 ? n - 1 - i / 2 : i / 2) : i;
      k = (k + shift) % n;
      num.push_back(rev ? n - 1 - k : k);
    }
  }
  c.split();
  for (size_t e = 0; e < b.size(); ++e) {
    auto& r = rots[size_t(int(e) < max_free ? c.choose(int(rots.size())) : 0)];
    vector<int> x;
    for (int i : r) x.push_back(num[size_t(b[e][size_t(i)])]);
    s.elems.push_back(x);
  }
  if (c.describing()) c.note("%s", s.text().c_str());
  c.state(s.hash());
  auto m = build(lib(), s);
  auto v = check_adjacencies(m);
  check_entities(v, s);
  mc::Hash h;
  for (auto& x : v) h.add(x.size());
  c.outcome(h.h);
  c.step(16);
}

static VV box_elems(bool simplex, int nx, int ny, int nz) {
  oh::LOs ev;
  oh::Reals co;
  int deg;
  if (!ny) oh::make_1d_box(1, nx, &ev, &co), deg = 2;
  else if (!nz) {
    oh::make_2d_box(1, 1, nx, ny, &ev, &co), deg = 4;
    if (simplex) ev = oh::tris_from_quads(ev), deg = 3;
  } else {
    oh::make_3d_box(1, 1, 1, nx, ny, nz, &ev, &co), deg = 8;
    if (simplex) ev = oh::tets_from_hexes(ev), deg = 4;
  }
  VV r;
  for (LO i = 0; i < ev.size(); ++i) {
    if (i % deg == 0) r.push_back({});
    r.back().push_back(ev[i]);
  }
  return r;
}

// the same answers whatever was asked before
static void ask_order(mc::Ctx& c, int depth) {
  static vector<std::pair<bool, VV>> bases = {{true, box_elems(true, 1, 1, 1)}, {true, box_elems(true, 2, 1, 0)},
      {false, box_elems(false, 2, 1, 1)}, {false, box_elems(false, 2, 2, 0)}};
  int k = c.choose(int(bases.size()));
  Soup s;
  s.simplex = bases[size_t(k)].first;
  s.dim = k % 2 ? 2 : 3;
  s.elems = bases[size_t(k)].second;
  for (auto& e : s.elems)
    for (int x : e) s.nverts = std::max(s.nverts, x + 1);
  auto m = build(lib(), s);
  c.split();
  std::string asked;
  for (int i = 0; i < depth; ++i) {
    int from = c.choose(s.dim + 1), to = c.choose(s.dim + 1);
    asked += " " + std::to_string(from) + std::to_string(to);
    if (from == to) {
      if (from == s.dim) m.ask_dual();
      else if (from == 0 || (from == 1 && s.simplex)) m.ask_star(from);
      else c.prune();
    } else if (from > to) {
      m.ask_down(from, to);
    } else {
      m.ask_up(from, to);
    }
  }
  c.note("%s asks%s", s.text().c_str(), asked.c_str());
  mc::Hash h;
  h.add(s.hash()).add(asked);
  c.state(h.h);
  check_entities(check_adjacencies(m), s);
  c.step(16 + uint64_t(depth));
}

// alignment codes form the group they describe
static void codes(mc::Ctx& c) {
  int n = 2 + c.choose(3);
  c.split();
  int f1 = n > 2 ? c.choose(2) : 0, r1 = c.choose(n), f2 = n > 2 ? c.choose(2) : 0, r2 = c.choose(n);
  auto c1 = oh::make_code(f1, r1, 0), c2 = oh::make_code(f2, r2, 0);
  c.note("degree %d codes %d %d", n, int(c1), int(c2));
  vector<int> id;
  for (int i = 0; i < n; ++i) id.push_back(10 + i);
  auto via = [&](vector<int> in, I8 code) {
    vector<LO> flat(in.begin(), in.end());
    return vec(oh::align_ev2v(n, arr(flat), oh::Read<I8>({code})));
  };
  auto a1 = via(id, c1);
  for (int i = 0; i < n; ++i) c.require(a1[size_t(i)] == align(id, c1)[size_t(i)], "align", "align_ev2v");
  // where vertex i goes
  for (int i = 0; i < n; ++i)
    c.require(a1[size_t(oh::align_vert_index(n, i, c1))] == id[size_t(i)], "align-index", "align_vert_index(%d,%d,%d)", n, i, int(c1));
  auto inv = oh::invert_alignment(n, c1);
  c.require(via(vector<int>(a1.begin(), a1.end()), inv) == vector<LO>(id.begin(), id.end()), "invert",
      "code %d followed by its inverse %d is not the identity", int(c1), int(inv));
  if (n <= 3) {
    auto both = oh::compound_alignments(n, c1, c2);
    c.require(via(id, both) == via(vector<int>(a1.begin(), a1.end()), c2), "compound",
        "compound of %d and %d is %d", int(c1), int(c2), int(both));
  }
  // canonical codes bring the smallest vertex to the front, then the smaller neighbour
  auto p = choose_perm(c, n);
  vector<LO> e(p.begin(), p.end());
  auto code = oh::get_codes_to_canonical(n, arr(e));
  auto canon = vec(oh::align_ev2v(n, arr(e), code));
  c.require(canon[0] == 0, "canonical", "smallest vertex is not first");
  if (n > 2) c.require(canon[1] < canon[size_t(n - 1)], "canonical", "flip is not canonical");
  vector<GO> g(p.begin(), p.end());
  auto code2 = oh::get_codes_to_canonical(n, arr(g));
  c.require(code2[0] == code[0], "canonical", "32- and 64-bit codes differ");
  mc::Hash h;
  h.add(n).add(c1).add(c2).add(hash_of(e));
  c.state(h.h);
}

// box builders: conforming, positive, exactly covering
static void boxes(mc::Ctx& c) {
  int fam = c.choose(3);  // simplex, simplex symmetric, hypercube
  int nx = 1 + c.choose(3), ny = c.choose(4), nz = ny ? c.choose(4) : 0;
  int ls = c.choose(3);
  Real L[3][3] = {{1, 1, 1}, {2, 0.5, 3}, {1e-3, 7, 1e3}};
  Real x = L[ls][0], y = L[ls][1], z = L[ls][2];
  if (!ny && fam == 1) c.prune();
  c.split();
  c.note("family %d %dx%dx%d lengths %d", fam, nx, ny, nz, ls);
  mc::Hash hh;
  hh.add(fam).add(nx).add(ny).add(nz).add(ls);
  c.state(hh.h);
  bool simplex = fam < 2;
  auto m = oh::build_box(lib().world(), simplex ? OMEGA_H_SIMPLEX : OMEGA_H_HYPERCUBE, x, y, z, nx, ny, nz, fam == 1);
  int dim = nz ? 3 : ny ? 2 : 1;
  c.require(m.dim() == dim, "dim", "dimension %d", m.dim());
  auto v = check_adjacencies(m);
  auto co = m.coords();
  // boundary sides lie on the box surface; every inner side has two elements
  std::map<vector<int>, int> n;
  if (dim > 1 || true)
    for (auto& e : v[size_t(dim)])
      for (auto& t : down_template(simplex, dim, dim - 1)) {
        vector<int> q;
        for (int i : t) q.push_back(e[size_t(i)]);
        n[sorted(q)]++;
      }
  Real len[3] = {x, y, z};
  auto cd = m.get_array<I8>(dim - 1, "class_dim");
  std::map<vector<int>, int> side_id;
  for (size_t i = 0; i < v[size_t(dim - 1)].size(); ++i) side_id[sorted(v[size_t(dim - 1)][i])] = int(i);
  for (auto& p : n) {
    bool on = false;
    for (int k = 0; k < dim; ++k)
      for (Real at : {0.0, len[k]}) {
        bool all = true;
        for (int q : p.first) all = all && std::fabs(co[q * dim + k] - at) < 1e-9 * len[k];
        on = on || all;
      }
    c.require(p.second == (on ? 1 : 2), "conforming", "side %s has %d elements", str(p.first).c_str(), p.second);
    c.require(cd[side_id.at(p.first)] == (on ? dim - 1 : dim), "classified", "side %s classified on dimension %d",
        str(p.first).c_str(), int(cd[side_id.at(p.first)]));
  }
  // signed volume
  Real total = 0;
  for (auto& e : v[size_t(dim)]) {
    auto P = [&](int i, int k) { return co[e[size_t(i)] * dim + k]; };
    auto det = [&](int a, int b, int d, int f) {
      if (dim == 1) return P(b, 0) - P(a, 0);
      if (dim == 2) return ((P(b, 0) - P(a, 0)) * (P(d, 1) - P(a, 1)) - (P(b, 1) - P(a, 1)) * (P(d, 0) - P(a, 0))) / 2;
      Real m3[3][3];
      int id[3] = {b, d, f};
      for (int i = 0; i < 3; ++i)
        for (int k = 0; k < 3; ++k) m3[i][k] = P(id[i], k) - P(a, k);
      return (m3[0][0] * (m3[1][1] * m3[2][2] - m3[1][2] * m3[2][1]) - m3[0][1] * (m3[1][0] * m3[2][2] - m3[1][2] * m3[2][0]) +
                 m3[0][2] * (m3[1][0] * m3[2][1] - m3[1][1] * m3[2][0])) / 6;
    };
    Real vol;
    if (simplex || dim == 1) vol = det(0, 1, 2, 3);
    else if (dim == 2) vol = 2 * det(0, 1, 3, 0);
    else vol = 6 * det(0, 1, 3, 4);
    c.require(vol > 0, "positive", "element %s has volume %g", str(e).c_str(), vol);
    total += vol;
  }
  Real want = x * (dim > 1 ? y : 1) * (dim > 2 ? z : 1);
  c.require(std::fabs(total - want) < 1e-9 * want, "volume", "volume %g, expected %g", total, want);
  c.step(20);
}

int main(int argc, char** argv) {
  vector<VV> quads, hexes, tets;
  quads = {box_elems(false, 1, 1, 0), box_elems(false, 2, 1, 0)};
  auto two = box_elems(false, 2, 1, 1);
  hexes = {two, box_elems(false, 1, 2, 1), box_elems(false, 1, 1, 2), {{0, 1, 2, 3, 4, 5, 6, 7}, {6, 8, 9, 10, 11, 12, 13, 14}}};
  tets = {{{0, 1, 2, 3}, {0, 2, 1, 4}}, {{0, 1, 2, 3}, {0, 1, 4, 5}}, {{0, 1, 2, 3}, {0, 4, 5, 6}},
      {{0, 1, 2, 3}, {0, 1, 3, 4}, {0, 1, 4, 2}}, {{0, 1, 2, 3}, {0, 1, 3, 4}, {0, 1, 4, 5}, {0, 1, 5, 2}}};
  return mc::main(argc, argv, "C08",
      {
          {"codes", codes, 60, false, "all pairs of alignment codes of edges, triangles and quads"},
          {"edges", [](mc::Ctx& c) { all_soups(c, true, 1, 4, c.thorough() ? 4 : 3, false); }, 60, false,
              "all sets of 3 (thorough 4) directed edges on 4 vertices"},
          {"tris2", [](mc::Ctx& c) { all_soups(c, true, 2, 6, 2, false); }, 60, false, "all pairs of ordered triangles on 6 vertices"},
          {"tris3", [](mc::Ctx& c) { all_soups(c, true, 2, c.thorough() ? 6 : 5, 3, !c.thorough()); }, 60, false,
              "all triples of ordered triangles, the first fixed, on 5 vertices"},
          {"tris4", [](mc::Ctx& c) { all_soups(c, true, 2, 5, 4, true); }, 60, true, "all quadruples, the first fixed, on 5 vertices"},
          {"tets2", [](mc::Ctx& c) { all_soups(c, true, 3, 5, 2, false); }, 60, false, "all pairs of ordered tetrahedra on 5 vertices"},
          {"tets2sparse", [](mc::Ctx& c) { all_soups(c, true, 3, 7, 2, true); }, 60, false, "pairs of ordered tetrahedra on 7 vertices, the first fixed"},
          {"tets3", [](mc::Ctx& c) { all_soups(c, true, 3, c.thorough() ? 6 : 5, 3, true); }, 60, false, "triples of ordered tetrahedra on 5 vertices, the first fixed"},
          {"tetring", [tets](mc::Ctx& c) { rotated(c, true, 3, tets, c.thorough() ? 4 : 3, false); }, 60, false,
              "tets sharing a face, an edge, a vertex, rings of 3 and 4 around an edge; all 12 rotations of up to 3 of them; 4n numberings"},
          {"quads1", [](mc::Ctx& c) { all_soups(c, false, 2, 4, 1, false); }, 60, false, "all orders of one quad"},
          {"quads2", [quads](mc::Ctx& c) { rotated(c, false, 2, quads, 2, true); }, 60, false,
              "one and two quads, all rotations, all numberings"},
          {"hex1", [](mc::Ctx& c) { rotated(c, false, 3, {{{0, 1, 2, 3, 4, 5, 6, 7}}}, 1, false); }, 60, false, "one hex, 24 rotations, 32 numberings"},
          {"hex1all", [](mc::Ctx& c) { rotated(c, false, 3, {{{0, 1, 2, 3, 4, 5, 6, 7}}}, 0, true); }, 60, false, "one hex, all numberings"},
          {"hex2", [hexes](mc::Ctx& c) { rotated(c, false, 3, hexes, 2, false); }, 60, false, "two hexes sharing a face or a vertex, all rotations of both, 4n numberings"},
          {"asks", [](mc::Ctx& c) { ask_order(c, c.thorough() ? 4 : 3); }, 60, false,
              "all sequences of 3 (thorough 4) adjacency requests before the check, on tri, tet, quad and hex meshes"},
          {"boxes", boxes, 60, false, "all boxes up to 3x3x3, simplex, symmetric simplex and hypercube, three aspect ratios"},
      });
}
