// C12: mesh comparison says same / more / different exactly when the two
// global meshes are, however each is distributed; command files select what
// they say; gold files are compared against and never overwritten.
#include <Omega_h_compare.hpp>
#include <Omega_h_file.hpp>
#include <fstream>
#include <limits>
#include <sys/stat.h>
#include <unistd.h>
#include "distkit.hpp"
#include "files.hpp"
#include "soups.hpp"
using namespace mk;
using namespace dk;
using namespace minimpi;
using std::string;

struct Quiet {  // the comparison prints what differs
  std::streambuf* was;
  std::ostringstream text;
  Quiet() : was(std::cout.rdbuf(text.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(was); }
};

// ---- what was changed in the second mesh
enum Change {
  NOTHING,
  VALUE,       // one value of one tag of one entity
  SMALL,       // one real value, by less than the tolerance
  LOST,        // a tag is missing
  MORE_,       // an additional tag
  TYPE,        // a tag of another type
  WIDTH,       // a tag of another width
  TURNED,      // one element lists its vertices in another order
  SWAPPED,     // two entities exchanged their global numbers
  BOTH,        // an additional tag, and a value changed
  FEWER,       // one element less
  NCHANGES
};
struct What {
  int change = 0, dim = 0, tag = 0, ent = 0, comp = 0;
};
static char const* tag_name[4] = {"b", "i", "l", "r"};
static int const tag_width[4] = {1, 2, 1, 3};

template <class T>
static void poke(oh::Mesh& m, int d, char const* name, GO g, int comp, T factor) {
  auto a = m.get_array<T>(d, name);
  auto gl = m.globals(d);
  oh::Write<T> w(a.size());
  int nc = a.size() ? a.size() / m.nents(d) : 1;
  for (LO i = 0; i < a.size(); ++i) {
    w[i] = a[i];
    if (gl[i / nc] == g && i % nc == comp) w[i] = std::is_same<T, Real>::value ? T(double(a[i]) * (1 + double(factor)) + 1e-3 * double(factor)) : T(a[i] ^ T(1));
  }
  m.set_tag<T>(d, name, oh::Read<T>(w));
}
template <>
void poke(oh::Mesh& m, int d, char const* name, GO g, int comp, Real factor) {
  auto a = m.get_array<Real>(d, name);
  auto gl = m.globals(d);
  oh::Write<Real> w(a.size());
  int nc = a.size() ? a.size() / m.nents(d) : 1;
  for (LO i = 0; i < a.size(); ++i) {
    w[i] = a[i];
    if (gl[i / nc] == g && i % nc == comp) w[i] = a[i] * (1 + factor);
  }
  m.set_tag<Real>(d, name, oh::Reals(w));
}
static void apply(oh::Mesh& m, What const& w) {
  char const* n = tag_name[w.tag];
  switch (w.change) {
    case VALUE:
    case BOTH:
      if (w.tag == 0) poke<I8>(m, w.dim, n, w.ent, w.comp, 1);
      if (w.tag == 1) poke<I32>(m, w.dim, n, w.ent, w.comp, 1);
      if (w.tag == 2) poke<I64>(m, w.dim, n, w.ent, w.comp, 1);
      if (w.tag == 3) poke<Real>(m, w.dim, n, w.ent, w.comp, 1e-3);
      break;
    case SMALL: poke<Real>(m, w.dim, n, w.ent, w.comp, 1e-8); break;
    case LOST: m.remove_tag(w.dim, n); break;
    case TYPE: {
      m.remove_tag(w.dim, n);
      if (w.tag == 3)
        m.add_tag<I32>(w.dim, n, tag_width[w.tag], oh::Read<I32>(m.nents(w.dim) * tag_width[w.tag], 0));
      else
        m.add_tag<Real>(w.dim, n, tag_width[w.tag], oh::Reals(m.nents(w.dim) * tag_width[w.tag], 0.0));
      break;
    }
    case WIDTH: {
      m.remove_tag(w.dim, n);
      int nw = tag_width[w.tag] + 1;
      if (w.tag == 0) m.add_tag<I8>(w.dim, n, nw, oh::Read<I8>(m.nents(w.dim) * nw, 0));
      if (w.tag == 1) m.add_tag<I32>(w.dim, n, nw, oh::Read<I32>(m.nents(w.dim) * nw, 0));
      if (w.tag == 2) m.add_tag<I64>(w.dim, n, nw, oh::Read<I64>(m.nents(w.dim) * nw, 0));
      if (w.tag == 3) m.add_tag<Real>(w.dim, n, nw, oh::Reals(m.nents(w.dim) * nw, 0.0));
      break;
    }
    default: break;
  }
  if (w.change == MORE_ || w.change == BOTH) m.add_tag<Real>(w.dim, "more", 1, oh::Reals(m.nents(w.dim), 0.25));
  if (w.change == SWAPPED) {
    auto g = m.globals(w.dim);
    oh::Write<GO> x(g.size());
    for (LO i = 0; i < g.size(); ++i) x[i] = g[i] == w.ent ? w.comp : g[i] == w.comp ? w.ent : g[i];
    m.set_tag<GO>(w.dim, "global", oh::GOs(x));
  }
}
// moves to the given element owners, by global vertex numbers
static void redistribute(oh::Mesh& m, Soup const& s, vector<int> const& owner, Snap& shared) {
  auto sn = snapshot(m);
  shared.r[size_t(sn.rank)] = sn;
  m.comm()->barrier();
  auto d = dist_to(m, s, owner, shared);
  m.comm()->barrier();
  oh::migrate_mesh(&m, d, OMEGA_H_ELEM_BASED, false);
}
static void part(oh::Mesh& m, int how) {
  if (how == 1) m.set_parting(OMEGA_H_VERT_BASED);
  if (how == 2) m.set_parting(OMEGA_H_GHOSTED);
  if (how == 3) m.set_parting(OMEGA_H_GHOSTED, 2);
}

struct Case {
  Soup s;
  int n = 1;
  vector<int> oa, ob;
  int pa = 0, pb = 0;
  bool full = true, verbose = false;
  int opts = 0;  // 0 zero tolerance, 1 relative 1e-6, 2 absolute huge, 3 nothing but keys, 4 the changed tag is not compared
  What w;
};
static Omega_h_Comparison expected(Case const& k) {
  auto& w = k.w;
  bool looked = k.full || w.dim == 0 || w.dim == k.s.dim;
  bool excluded = k.opts == 3 || (k.opts == 4);
  switch (w.change) {
    case NOTHING: return OMEGA_H_SAME;
    case VALUE: {
      if (!looked || excluded) return OMEGA_H_SAME;
      if (w.tag == 3 && k.opts == 2) return OMEGA_H_SAME;
      return OMEGA_H_DIFF;
    }
    case SMALL:
      if (!looked || excluded || k.opts == 1 || k.opts == 2) return OMEGA_H_SAME;
      return OMEGA_H_DIFF;
    case LOST:
    case TYPE:
    case WIDTH:
      return looked ? OMEGA_H_DIFF : OMEGA_H_SAME;
    case MORE_: return looked ? OMEGA_H_MORE : OMEGA_H_SAME;
    case BOTH: {
      if (!looked) return OMEGA_H_SAME;
      if (excluded || (w.tag == 3 && k.opts == 2)) return OMEGA_H_MORE;
      return OMEGA_H_DIFF;
    }
    default: return OMEGA_H_DIFF;
  }
}
static void one_case(mc::Ctx& c, Case const& k, Options o) {
  c.note("%s ranks=%d A%s/%d B%s/%d full=%d verbose=%d opts=%d change=%d dim=%d tag=%d ent=%d comp=%d", k.s.text().c_str(), k.n, str(k.oa).c_str(), k.pa,
      str(k.ob).c_str(), k.pb, k.full, k.verbose, k.opts, k.w.change, k.w.dim, k.w.tag, k.w.ent, k.w.comp);
  mc::Hash h;
  h.add(k.s.hash()).add(hash_of(k.oa)).add(hash_of(k.ob)).add(k.pa).add(k.pb).add(k.full).add(k.opts).add(k.w.change).add(k.w.dim).add(k.w.tag).add(k.w.ent).add(k.w.comp).add(k.n);
  o.config = h.h;
  o.nranks = k.n;
  c.state(h.h);
  auto want = expected(k);
  Snap shared;
  shared.r.resize(size_t(k.n));
  Quiet q;
  run(c, o, [&](int) {
    bool was = explore(false);
    oh::Library lib;
    auto comm = lib.world();
    auto a = build_parted(lib, comm, k.s, k.oa);
    add_identity_tags(a);
    oh::Mesh b = a;
    Soup sb = k.s;
    if (k.w.change == TURNED || k.w.change == FEWER) {
      // built from the same global numbers, but not the same elements
      if (k.w.change == TURNED) {
        auto& e = sb.elems[size_t(k.w.ent)];
        auto& rot = rotations(sb.simplex, sb.dim);
        auto old = e;
        auto& r = rot[size_t(k.w.comp)];
        for (size_t i = 0; i < e.size(); ++i) e[i] = old[size_t(r[i])];
      } else
        sb.elems.pop_back();
      b = build_parted(lib, comm, sb, k.oa);
      add_identity_tags(b);
    }
    apply(b, k.w);
    if (k.w.change != FEWER && k.w.change != SWAPPED) redistribute(b, sb, k.ob, shared);
    part(a, k.pa);
    part(b, k.pb);
    oh::MeshCompareOpts mo;
    if (k.opts == 0 || k.opts >= 4) mo = oh::MeshCompareOpts::init(&a, oh::VarCompareOpts::zero_tolerance());
    if (k.opts == 1) mo = oh::MeshCompareOpts::init(&a, oh::VarCompareOpts::defaults());
    if (k.opts == 2) mo = oh::MeshCompareOpts::init(&a, oh::VarCompareOpts{oh::VarCompareOpts::ABSOLUTE, 1e9, 0.0});
    if (k.opts == 3) mo = oh::MeshCompareOpts::init(&a, oh::VarCompareOpts::none());
    if (k.opts == 4) mo.tags2opts[k.w.dim].erase(tag_name[k.w.tag]);
    explore(was);
    auto got = oh::compare_meshes(&a, &b, mo, k.verbose, k.full);
    explore(false);
    minimpi::require(got == want, "verdict", "comparison says %d, expected %d", int(got), int(want));
    comm->barrier();
  });
}
static void pick_owner(mc::Ctx& c, vector<int>& o, size_t ne, int n) {
  for (size_t e = 0; e < ne; ++e) o.push_back(c.choose(n));
}
static void pick_what(mc::Ctx& c, Case& k, bool one_of_each) {
  auto& w = k.w;
  w.change = c.choose(NCHANGES);
  int dim = k.s.dim;
  if (w.change == NOTHING) return;
  if (w.change == FEWER) return;
  if (w.change == TURNED) {
    w.dim = dim;
    if (dim == 1) c.prune();
    w.ent = c.choose(int(k.s.elems.size()));
    auto& rot = rotations(k.s.simplex, dim);
    w.comp = 1 + c.choose(one_of_each ? 1 : int(rot.size()) - 1);
    if (rot[size_t(w.comp)] == rot[0]) c.prune();
    return;
  }
  w.dim = c.choose(dim + 1);
  int nents = int(k.s.ents(w.dim).size());
  if (w.change == SWAPPED) {
    w.ent = c.choose(nents);
    w.comp = c.choose(nents);
    if (w.comp <= w.ent) c.prune();
    return;
  }
  if (w.change == SMALL) w.tag = 3;
  else if (w.change != MORE_) w.tag = c.choose(4);
  if (w.change == VALUE || w.change == SMALL || w.change == BOTH) {
    if (one_of_each) {
      int which = c.choose(2);
      w.ent = which ? nents - 1 : 0;
      w.comp = which ? tag_width[w.tag] - 1 : 0;
    } else {
      w.ent = c.choose(nents);
      w.comp = c.choose(tag_width[w.tag]);
    }
  }
}
// every pair of distributions, a few changes
static void dists(mc::Ctx& c, vector<char const*> names, vector<int> ranks) {
  Case k;
  k.s = base(names[size_t(c.choose(int(names.size())))]).s;
  k.n = ranks[size_t(c.choose(int(ranks.size())))];
  pick_owner(c, k.oa, k.s.elems.size(), k.n);
  c.split();
  pick_owner(c, k.ob, k.s.elems.size(), k.n);
  static int const few[][4] = {{NOTHING, 0, 0, 0}, {VALUE, 0, 1, 1}, {VALUE, 2, 3, 2}, {SMALL, 1, 3, 0}};
  auto& f = few[c.choose(4)];
  k.w.change = f[0];
  k.w.dim = std::min(f[1], k.s.dim);
  k.w.tag = f[2];
  k.w.comp = std::min(f[3], tag_width[k.w.tag] - 1);
  k.w.ent = int(k.s.ents(k.w.dim).size()) - 1;
  k.opts = f[0] == SMALL ? c.choose(2) : 0;
  k.verbose = f[0] != NOTHING;
  Options o;
  o.explore = false;
  one_case(c, k, o);
}
// every change, a few distributions
static void changes(mc::Ctx& c, vector<char const*> names, vector<int> ranks, bool all_ents) {
  Case k;
  k.s = base(names[size_t(c.choose(int(names.size())))]).s;
  k.n = ranks[size_t(c.choose(int(ranks.size())))];
  int ne = int(k.s.elems.size());
  int nd = k.n == 1 ? 1 : 3;
  int d = c.choose(nd);
  for (int e = 0; e < ne; ++e) {
    k.oa.push_back(d == 2 ? 0 : e % k.n);
    k.ob.push_back(d == 0 ? e % k.n : d == 1 ? (e * k.n / ne) : (k.n - 1));
  }
  if (k.n > 1 && d == 1) {
    k.pa = c.choose(3);
    k.pb = c.choose(4);
  }
  c.split();
  k.full = !c.flip();
  k.opts = c.choose(5);
  pick_what(c, k, !all_ents);
  if (!k.full && k.w.change == TURNED && false) c.prune();
  // without the intermediate dimensions, elements are known by their vertices
  if (!k.full && k.w.change == SWAPPED && k.w.dim > 0 && k.w.dim < k.s.dim) c.prune();
  if (k.opts == 4 && k.w.change == NOTHING) c.prune();
  // exchanged numbers may describe the same mesh (two symmetric entities without tags telling them apart): never here, the tags are of identities
  k.verbose = (k.w.ent + k.w.comp + k.opts) % 2 != 0;
  Options o;
  o.explore = false;
  one_case(c, k, o);
}
static void schedules(mc::Ctx& c, int bound) {
  Case k;
  k.s = base("strip4").s;
  k.n = 2 + c.choose(2);
  k.oa = {0, 1, 0, 1};
  k.ob = {1, 1, 0, k.n - 1};
  k.w.change = c.choose(3);
  k.w.dim = 2;
  k.w.tag = 3;
  k.verbose = true;
  Options o;
  o.eager = !c.flip();
  c.split();
  c.deviation_bound = bound;
  one_case(c, k, o);
}

// ---- arrays
static void real_arrays(mc::Ctx& c) {
  double const inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  vector<double> const vals = {0, -0.0, 1, 1 + 1e-7, 1 + 1e-4, -1, 1e-12, 3e-12, 1e-3, 2e-3, 1e300, -1e300, inf, nan};
  int n = 1 + c.choose(2);
  int shape = c.choose(4);  // where the pair sits: 0 alone, 1 after an equal one, 2 before an equal one, 3 two components
  int type = c.choose(3);
  c.split();
  double tol = vector<double>{0, 1e-6, 1e-2}[size_t(c.choose(3))];
  double floor = vector<double>{0, 2e-12, 1.5e-3}[size_t(c.choose(3))];
  double x = vals[size_t(c.choose(int(vals.size())))], y = vals[size_t(c.choose(int(vals.size())))];
  bool verbose = c.flip();
  oh::VarCompareOpts opts;
  opts.type = type == 0 ? oh::VarCompareOpts::NONE : type == 1 ? oh::VarCompareOpts::RELATIVE : oh::VarCompareOpts::ABSOLUTE;
  opts.tolerance = tol;
  opts.floor = floor;
  bool want;
  if (type == 0) want = true;
  else if (type == 1) {
    if (std::fabs(x) <= floor && std::fabs(y) <= floor) want = true;
    else if (std::isnan(x) || std::isnan(y) || std::isinf(x) || std::isinf(y)) want = false;
    else want = std::fabs((long double)x - (long double)y) <= (long double)tol * std::max(std::fabs(x), std::fabs(y));
  } else {
    if (std::isnan(x) || std::isnan(y) || std::isinf(x) || std::isinf(y)) want = false;
    else want = std::fabs((long double)x - (long double)y) <= (long double)tol;
  }
  c.note("ranks %d shape %d %s tol %g floor %g: %g vs %g, verbose %d", n, shape, type == 0 ? "none" : type == 1 ? "relative" : "absolute", tol, floor, x, y, verbose);
  mc::Hash h;
  h.add(n).add(shape).add(type).add(tol).add(floor).add(x).add(y).add(verbose);
  c.state(h.h);
  MKREQ(oh::compare_real(x, y, opts) == want || type == 0, "compare-real", "compare_real(%g, %g)", x, y);
  Options o;
  o.nranks = n;
  o.explore = false;
  o.config = h.h;
  Quiet q;
  run(c, o, [&](int r) {
    oh::Library lib;
    vector<Real> a, b;
    if (r == n - 1) {
      a = {x};
      b = {y};
      if (shape == 1) a = {5, x}, b = {5, y};
      if (shape == 2) a = {x, 7}, b = {y, 7};
      if (shape == 3) a = {1, x, 2, 3}, b = {1, y, 2, 3};
    } else {
      a = b = {4, 4};
    }
    bool got = oh::compare_arrays(lib.world(), arr(a), arr(b), opts, shape == 3 ? 2 : 1, 0, verbose);
    minimpi::require(got == want, "reals", "compare_arrays says %d, expected %d", got, want);
  });
}
template <class T>
static void ints_of(mc::Ctx& c, vector<I64> const& vals) {
  int n = 1 + c.choose(3), where = c.choose(n), type = c.choose(3);
  int len = c.choose(3);
  c.split();
  I64 x = vals[size_t(c.choose(int(vals.size())))], y = vals[size_t(c.choose(int(vals.size())))];
  bool verbose = c.flip();
  oh::VarCompareOpts opts{oh::VarCompareOpts::NONE, 1e9, 1e9};
  if (type == 1) opts.type = oh::VarCompareOpts::RELATIVE;
  if (type == 2) opts.type = oh::VarCompareOpts::ABSOLUTE;
  bool want = type == 0 || x == y;
  c.note("ranks %d on %d len %d type %d: %lld vs %lld", n, where, len, type, (long long)x, (long long)y);
  mc::Hash h;
  h.add(n).add(where).add(type).add(len).add(x).add(y).add(verbose).add(sizeof(T));
  c.state(h.h);
  Options o;
  o.nranks = n;
  o.explore = false;
  o.config = h.h;
  Quiet q;
  run(c, o, [&](int r) {
    oh::Library lib;
    vector<T> a(size_t(len), T(3)), b = a;
    if (r == where) a.push_back(T(x)), b.push_back(T(y));
    bool got = oh::compare_arrays<T>(lib.world(), arr(a), arr(b), opts, 1, 0, verbose);
    minimpi::require(got == want, "ints", "compare_arrays says %d, expected %d", got, want);
  });
}
static void int_arrays(mc::Ctx& c) {
  int t = c.choose(3);
  if (t == 0) ints_of<I8>(c, {0, 1, -1, 127, -128});
  if (t == 1) ints_of<I32>(c, {0, 1, INT32_MAX, INT32_MIN, INT32_MIN + 1});
  if (t == 2) ints_of<I64>(c, {0, 1, INT64_MAX, INT64_MIN, 1ll << 53, (1ll << 53) + 1});
}

// ---- command files
struct Opt {
  int type = 0;
  double tol = 0, floor = 0;
  bool operator==(Opt const& o) const { return type == o.type && tol == o.tol && floor == o.floor; }
};
static Opt of(oh::VarCompareOpts v) {
  Opt o;
  o.type = int(v.type);
  o.tol = v.tolerance;
  o.floor = v.floor;
  return o;
}
static void with(Opt& o, string const& spec) {
  if (spec == "relative 1e-3") o.type = 1, o.tol = 1e-3;
  if (spec == "relative 1e-4 floor 1e-9") o.type = 1, o.tol = 1e-4, o.floor = 1e-9;
  if (spec == "absolute 1e-5") o.type = 2, o.tol = 1e-5;
}
static void command_files(mc::Ctx& c, int lines) {
  // "" ends the file early; t, u are nodal variables, e, f of elements
  static vector<string> const specs = {"", "relative 1e-3", "relative 1e-4 floor 1e-9", "absolute 1e-5"};
  vector<string> text;
  bool with_tol = c.flip(), with_floor = c.flip();
  bool tail_newline = true;
  Opt def;
  def.type = 1;
  def.tol = with_tol ? 0.125 : 1e-6;
  def.floor = with_floor ? 0.25 : 0;
  std::map<string, Opt> want[3];
  Opt want_time = def;
  std::set<string> const vars[3] = {{"coordinates", "global", "t", "u"}, {}, {"global", "e", "f"}};
  int block = -1;
  bool named = false, coords = false;
  Opt block_opt;
  auto all = [&](int d, Opt o) {
    for (auto& v : vars[d])
      if (!(d == 0 && v == "coordinates" && coords)) want[d][v] = o;
  };
  auto close = [&] {
    if (block >= 0 && !named) all(block, block_opt);
    block = -1;
  };
  int nl = c.choose(lines + 1);
  bool bad = false;
  for (int i = 0; i < nl; ++i) {
    int kind = c.choose(9);
    if (i == 1) c.split();
    string line;
    if (kind == 0 || kind == 1) {  // a header
      int d = kind * 2;
      close();
      line = d ? "ELEMENT VARIABLES" : "NODAL VARIABLES";
      bool every = c.flip();
      int sp = c.choose(4);
      if (every) line += " (all)";
      if (sp) line += " " + specs[size_t(sp)];
      block = d;
      named = every;
      block_opt = def;
      with(block_opt, specs[size_t(sp)]);
      if (every) all(d, block_opt);
    } else if (kind == 2 || kind == 3) {  // a variable of the block
      if (block < 0) c.prune();
      string v = block ? (kind == 2 ? "e" : "f") : (kind == 2 ? "t" : "u");
      int sp = c.choose(3);
      line = "\t" + v;
      if (sp) line += " " + specs[size_t(sp) + 1];
      Opt o = block_opt;
      if (sp) with(o, specs[size_t(sp) + 1]);
      want[block][v] = o;
      named = true;
    } else if (kind == 4) {  // not this one
      if (block < 0) c.prune();
      string v = block ? "e" : "t";
      line = "\t!" + v;
      if (!want[block].count(v)) bad = true;
      want[block].erase(v);
      named = true;
    } else if (kind == 5) {
      close();
      int sp = c.choose(3);
      line = "COORDINATES";
      if (sp) line += " " + specs[size_t(sp) + 1];
      Opt o = def;
      if (sp) with(o, specs[size_t(sp) + 1]);
      want[0]["coordinates"] = o;
      coords = true;
    } else if (kind == 6) {
      close();
      int sp = c.choose(2);
      line = "TIME STEPS";
      if (sp) line += " absolute 1e-5";
      if (sp) with(want_time, "absolute 1e-5");
    } else if (kind == 7) {
      line = c.flip() ? "" : "   # NODAL VARIABLES";
    } else {
      if (block < 0) c.prune();
      line = string("\t# ") + (c.flip() ? "t" : "");
    }
    text.push_back(line);
    if (bad) break;
  }
  if (nl < 2) c.split();
  close();
  if (nl && c.flip()) tail_newline = false;
  bool superset = (nl & 1) != 0;
  string all_text;
  for (size_t i = 0; i < text.size(); ++i) all_text += text[i] + (i + 1 < text.size() || tail_newline ? "\n" : "");
  c.note("tol %d floor %d file:\n%s", with_tol, with_floor, all_text.c_str());
  mc::Hash h;
  h.add(all_text).add(with_tol).add(with_floor);
  c.state(h.h);
  string path = c.scratch() + "/cmd";
  std::ofstream(path) << all_text;
  // one rank; the library's argument parsing is used as the tools do
  Options o;
  o.nranks = 1;
  o.explore = false;
  o.config = h.h;
  Quiet q;
  run(c, o, [&](int) {
    oh::Library lib;
    oh::Mesh m(&lib);
    auto s = base("strip4").s;
    oh::build_from_elems2verts(&m, lib.world(), OMEGA_H_SIMPLEX, 2, s.ev2v(), oh::GOs(s.nverts, 0, 1));
    m.add_tag<Real>(0, "coordinates", 2, oh::Reals(m.nverts() * 2, 0.0));
    m.add_tag<Real>(0, "t", 1, oh::Reals(m.nverts(), 1.0));
    m.add_tag<Real>(0, "u", 2, oh::Reals(m.nverts() * 2, 1.0));
    m.add_tag<Real>(2, "e", 1, oh::Reals(m.nelems(), 1.0));
    m.add_tag<I32>(2, "f", 1, oh::Read<I32>(m.nelems(), 1));
    vector<string> args = {"tool", "-f", path, "a", "b"};
    if (with_tol) args.insert(args.end(), {"-tolerance", "0.125"});
    if (with_floor) args.insert(args.end(), {"-Floor", "0.25"});
    if (superset) args.push_back("-superset");
    vector<char*> argv;
    for (auto& x : args) argv.push_back(&x[0]);
    argv.push_back(nullptr);
    int argc = int(args.size());
    oh::CmdLine cl;
    oh::get_diff_program_cmdline("a", "b", &cl);
    minimpi::require(cl.parse_final(lib.world(), &argc, argv.data()), "cmdline", "the command line was not accepted");
    oh::MeshCompareOpts mo;
    memset(static_cast<void*>(&mo.time_step_opts), 0x7f, sizeof mo.time_step_opts);
    Omega_h_Comparison max;
    bool threw = false;
    try {
      oh::accept_diff_program_cmdline(cl, &m, &mo, &max);
    } catch (std::exception const&) {
      threw = true;
    }
    minimpi::require(threw == bad, "refused", "the file was %s", threw ? "refused" : "accepted");
    if (threw) return;
    minimpi::require(max == (superset ? OMEGA_H_MORE : OMEGA_H_SAME), "superset", "largest accepted verdict %d", int(max));
    minimpi::require(of(mo.time_step_opts) == want_time, "time", "time steps: type %d tolerance %g floor %g", int(mo.time_step_opts.type), mo.time_step_opts.tolerance, mo.time_step_opts.floor);
    for (int d = 0; d < 4; ++d) {
      std::map<string, Opt> got;
      for (auto& p : mo.tags2opts[d])
        if (p.second.type != oh::VarCompareOpts::NONE) got[p.first] = of(p.second);
      auto const& w = d < 3 ? want[d] : want[1];
      for (auto& p : w) {
        minimpi::require(got.count(p.first), "not-compared", "%s of dimension %d is not compared", p.first.c_str(), d);
        auto& g = got[p.first];
        minimpi::require(g == p.second, "options", "%s: type %d tolerance %g floor %g, expected %d %g %g", p.first.c_str(), g.type, g.tol, g.floor, p.second.type, p.second.tol, p.second.floor);
      }
      for (auto& p : got) minimpi::require(w.count(p.first), "compared", "%s of dimension %d is compared", p.first.c_str(), d);
    }
    // and without a file: every variable with the defaults
    if (text.empty()) {
      vector<string> args2 = {"tool", "a", "b"};
      if (with_tol) args2.insert(args2.begin() + 1, {"-tolerance", "0.125"});
      if (with_floor) args2.insert(args2.begin() + 1, {"-Floor", "0.25"});
      vector<char*> argv2;
      for (auto& x : args2) argv2.push_back(&x[0]);
      argv2.push_back(nullptr);
      int argc2 = int(args2.size());
      oh::CmdLine cl2;
      oh::get_diff_program_cmdline("a", "b", &cl2);
      minimpi::require(cl2.parse_final(lib.world(), &argc2, argv2.data()), "cmdline", "the command line was not accepted");
      oh::MeshCompareOpts m2;
      oh::accept_diff_program_cmdline(cl2, &m, &m2, &max);
      minimpi::require(of(m2.time_step_opts) == def, "default-time", "time tolerance without a file");
      for (int d = 0; d <= 2; ++d)
        for (int i = 0; i < m.ntags(d); ++i) {
          auto it = m2.tags2opts[d].find(m.get_tag(d, i)->name());
          minimpi::require(it != m2.tags2opts[d].end() && of(it->second) == def, "default", "default options of %s", m.get_tag(d, i)->name().c_str());
        }
    }
  });
}

// ---- gold files
static void regress(mc::Ctx& c) {
  int n = 1 + c.choose(3);
  int how = c.choose(2);
  bool gold = c.flip();
  What w;
  w.change = gold ? c.choose(6) : NOTHING;
  w.dim = w.change ? c.choose(3) : 0;
  w.tag = w.change == SMALL ? 3 : w.change ? c.choose(4) : 0;
  c.split();
  auto s = base("strip4").s;
  vector<int> owner;
  for (int e = 0; e < 4; ++e) owner.push_back(how ? e % n : e * n / 4);
  string dir = c.scratch() + "/gold";
  fs_::wipe(dir);
  mkdir(dir.c_str(), 0777);
  string prefix = dir + "/run";
  c.note("ranks %d owners %s gold %d change %d dim %d tag %d", n, str(owner).c_str(), gold, w.change, w.dim, w.tag);
  mc::Hash h;
  h.add(n).add(how).add(gold).add(w.change).add(w.dim).add(w.tag);
  c.state(h.h);
  Options o;
  o.nranks = n;
  o.explore = false;
  o.config = h.h;
  std::map<string, string> before, after;
  Quiet q;
  run(c, o, [&](int r) {
    oh::Library lib;
    lib.silent_ = true;
    auto m = build_parted(lib, lib.world(), s, owner);
    auto vg = m.globals(0);
    vector<Real> co;
    for (LO v = 0; v < m.nverts(); ++v) co.push_back(Real(vg[v] / 2)), co.push_back(Real(vg[v] % 2));
    m.add_tag<Real>(0, "coordinates", 2, arr(co));
    add_identity_tags(m);
    if (gold) oh::binary::write(prefix + ".osh", &m);
    m.comm()->barrier();
    if (r == 0) before = fs_::contents(dir);
    m.comm()->barrier();
    apply(m, w);
    bool got = oh::check_regression(prefix, &m);
    bool want = gold ? w.change == NOTHING : n == 1;
    minimpi::require(got == want, "regression", "says %d, expected %d", got, want);
    m.comm()->barrier();
    if (r == 0) after = fs_::contents(dir);
    m.comm()->barrier();
    if (!gold && n == 1) {
      oh::Mesh back(&lib);
      oh::binary::read(prefix + ".osh", lib.world(), &back);
      auto mo = oh::MeshCompareOpts::init(&m, oh::VarCompareOpts::zero_tolerance());
      minimpi::require(oh::compare_meshes(&m, &back, mo, false) == OMEGA_H_SAME, "gold", "the gold made from this run differs from it");
    }
  });
  for (auto& p : before) MKREQ(after.count(p.first) && after[p.first] == p.second, "gold-touched", "%s changed", p.first.c_str());
  if (!gold && n > 1) MKREQ(access((prefix + ".osh").c_str(), F_OK) != 0, "gold-made", "a parallel run made itself the gold");
  fs_::wipe(dir);
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C12",
      {
          {"reals", real_arrays, 60, false, "14 x 14 pairs of reals, 3 kinds of comparison, 3 tolerances, 3 floors, 4 placements, 1 and 2 ranks, verbose or not"},
          {"ints", int_arrays, 60, false, "three integer types, pairs of extreme values, 1 to 3 ranks, the pair on each rank"},
          {"files", [](mc::Ctx& c) { command_files(c, c.thorough() ? 4 : 3); }, 60, false,
              "every command file of up to 3 (thorough 4) lines over headers, variables, exclusions, coordinates, time steps and comments, with every tolerance clause; 4 command lines"},
          {"dists", [](mc::Ctx& c) { dists(c, c.thorough() ? vector<char const*>{"strip4", "tets3", "edges4", "quads4"} : vector<char const*>{"tets3", "hexes2"}, {2, 3}); }, 60, false,
              "every pair of element-to-rank assignments on 2 and 3 ranks, equal meshes and three changes"},
          {"changes", [](mc::Ctx& c) { changes(c, c.thorough() ? vector<char const*>{"strip4", "tets3", "edges4", "quads4"} : vector<char const*>{"bowtie", "edges4"}, c.thorough() ? vector<int>{1, 2, 3} : vector<int>{1, 2}, c.thorough()); }, 60, false,
              "every kind of change at first and last (thorough: every) entity and component, 5 kinds of options, full and brief comparison, 2 (thorough 4) meshes, 1 and 2 (thorough 3) ranks, 3 pairs of distributions, every parting"},
          {"regress", regress, 60, false, "gold files present or not, 1 to 3 ranks, unchanged and changed runs"},
          {"sched", [](mc::Ctx& c) { schedules(c, c.thorough() ? 2 : 1); }, 60, false, "every schedule with at most 1 (thorough 2) deviations of three comparisons on 2 and 3 ranks"},
      });
}
