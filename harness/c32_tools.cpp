// C32: the command line tools: the exit status and the files of every
// invocation, run whole (their main functions) over the in-process MPI.
// tools: oshdiff vtkdiff osh_part osh_box osh2vtk osh_reorder msh2osh
// tools: osh_eval_implied osh_scale osh_fix osh_calc osh_adapt
#include <Omega_h_adapt.hpp>
#include <Omega_h_build.hpp>
#include <Omega_h_class.hpp>
#include <Omega_h_compare.hpp>
#include <Omega_h_file.hpp>
#include <Omega_h_metric.hpp>
#include <Omega_h_shape.hpp>
#include <Omega_h_vtk.hpp>
#include <fstream>
#include <iomanip>
#include "fieldkit.hpp"
#include "files.hpp"
using std::string;

extern "C" {
#define TOOL(x) int x(int, char**);
TOOL(tool_oshdiff) TOOL(tool_vtkdiff) TOOL(tool_osh_part) TOOL(tool_osh_box) TOOL(tool_osh2vtk) TOOL(tool_osh_reorder)
TOOL(tool_msh2osh) TOOL(tool_osh_eval_implied) TOOL(tool_osh_scale) TOOL(tool_osh_fix) TOOL(tool_osh_adapt)
#undef TOOL
int tool_osh_calc();
}
using Tool = int (*)(int, char**);

struct Quiet {
  std::streambuf* was;
  std::ostringstream text;
  Quiet() : was(std::cout.rdbuf(text.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(was); }
};
struct Ran {
  bool failed = false;  // stopped with a message
  int status = 0;
};
// what the invocation returns, which all ranks have to agree on
static Ran invoke(mc::Ctx& c, int n, Tool tool, vector<string> const& args) {
  c.exec();
  Quiet quiet;
  vector<Ran> got(static_cast<size_t>(n));
  Options o;
  o.nranks = n;
  o.explore = false;
  bool failed = false;
  try {
    minimpi::run(c, o, [&](int r) {
      vector<string> a = {"tool"};
      a.insert(a.end(), args.begin(), args.end());
      vector<char*> v;
      for (auto& s : a) v.push_back(&s[0]);
      v.push_back(nullptr);
      try {
        got[size_t(r)].status = tool(int(a.size()), v.data());
      } catch (oh::exception const& e) {
        if (getenv("C32_SAY")) fprintf(stderr, "%s\n", e.what());
        failed = true;  // would end every rank
        throw;
      }
    });
  } catch (mc::Failure const&) {
    if (!failed) throw;
    Ran x;
    x.failed = true;
    return x;
  }
  for (auto& g : got) MKREQ(g.status == got[0].status, "ranks", "rank 0 returns %d, another %d", got[0].status, g.status);
  return got[0];
}
static string line_of(vector<string> const& args) {
  string s;
  for (auto& a : args) s += " " + a.substr(a.rfind('/') == string::npos ? 0 : a.rfind('/') + 1);
  return s;
}
// runs `body` on n ranks with a mesh of the case, owned round robin
template <class F>
static void with_mesh(mc::Ctx& c, int n, MeshCase const& mcase, vector<int> const& owner, F body) {
  Options o;
  o.nranks = n;
  o.explore = false;
  minimpi::run(c, o, [&](int) {
    oh::Library lib;
    auto m = build_parted(lib, lib.world(), mcase.s, owner);
    vector<double> x;
    for (auto g : vec(m.globals(0)))
      for (int d = 0; d < mcase.s.dim; ++d) x.push_back(mcase.x[size_t(g)][size_t(d)]);
    m.add_tag(0, "coordinates", mcase.s.dim, arr(x));
    body(m);
  });
}
static void classify(oh::Mesh& m) {
  auto was = m.parting();
  m.set_parting(OMEGA_H_GHOSTED);
  oh::classify_by_angles(&m, 0.2);
  oh::finalize_classification(&m);
  for (int d = 0; d <= m.dim(); ++d)
    if (!m.has_tag(d, "class_id")) m.add_tag<oh::ClassId>(d, "class_id", 1, oh::Read<oh::ClassId>(m.nents(d), 1));
  m.set_parting(was);
}
static vector<int> round_robin(size_t ne, int n) {
  vector<int> o;
  for (size_t e = 0; e < ne; ++e) o.push_back(int(e) % n);
  return o;
}

// ---- comparison tools
enum { SAME, A_LITTLE, SOME, MUCH, ELEM, EDGE, MOVED, INTEGER, TINY, SIGN, EXTRA, LOST, EXTRA_AND, RENAMED, COARSER, NCH };
static char const* const ch_name[] = {"nothing", "1e-7", "1e-4", "10%", "an element's value", "an edge's value", "a coordinate", "an integer", "3e-9 for 1e-9", "a sign", "an additional tag", "a tag lost", "an additional tag and a value", "a tag renamed", "another mesh"};
static void describe_fields(oh::Mesh& m, int ch) {
  int dim = m.dim();
  auto put = [&](int d, string name, int nc, double scale, bool flip) {
    auto g = vec(m.globals(d));
    vector<double> v;
    for (auto i : g)
      for (int k = 0; k < nc; ++k) v.push_back((i == 2 && k == nc - 1 ? (flip ? -scale : scale) : 1.0) * (1.0 + 0.25 * double(i) + double(k)));
    m.add_tag(d, name, nc, arr(v));
  };
  double s = ch == A_LITTLE ? 1 + 1e-7 : ch == SOME || ch == EXTRA_AND ? 1 + 1e-4 : ch == MUCH ? 1.1 : 1;
  if (ch != LOST) put(0, ch == RENAMED ? "uu" : "u", 2, s, ch == SIGN);
  put(dim, "q", 1, ch == ELEM ? 1 + 1e-4 : 1, false);
  put(1, "w", 1, ch == EDGE ? 1 + 1e-4 : 1, false);
  vector<double> t;
  for (auto g : vec(m.globals(0))) t.push_back(ch == TINY && g == 1 ? 3e-9 : 1e-9);
  m.add_tag(0, "t", 1, arr(t));
  vector<I32> k;
  for (auto g : vec(m.globals(0))) k.push_back(I32(g) * 1000 + (ch == INTEGER && g == 3));
  m.add_tag(0, "k", 1, arr(k));
  if (ch == EXTRA || ch == EXTRA_AND) put(dim, "z", 1, 1, false);
  if (ch == MOVED) {
    auto x = vec(m.coords());
    auto g = vec(m.globals(0));
    for (size_t i = 0; i < g.size(); ++i)
      if (g[i] == 1) x[i * size_t(dim)] *= 1 + 1e-4;
    m.set_coords(arr(x));
  }
}
static double rel_change(int ch) {
  switch (ch) {
    case A_LITTLE: return 1e-7;
    case SOME: case ELEM: case EDGE: case MOVED: case EXTRA_AND: return 1e-4;
    case MUCH: return 0.1 / 1.1;
    case TINY: return 2.0 / 3.0;
    case SIGN: return 2.0;
  }
  return 0;
}
// 0 the same, 1 more, 2 different
static int expected(int ch, bool swapped, double tol, double floor, bool edges) {
  bool extra = ch == EXTRA || ch == EXTRA_AND;
  if (ch == LOST) return swapped ? 1 : 2;
  if (ch == RENAMED || ch == INTEGER || ch == COARSER) return 2;
  if (extra && swapped) return 2;
  bool beyond = rel_change(ch) > tol;
  if (ch == TINY && floor > 3e-9) beyond = false;
  if (ch == EDGE && !edges) beyond = false;
  if (beyond) return 2;
  return extra ? 1 : 0;
}
struct Flags {
  double tol = 1e-6, floor = 0;
  bool superset = false;
  vector<string> args;
};
static Flags flags_of(mc::Ctx& c, bool floors = true) {
  Flags f;
  int t = c.choose(4), fl = floors ? c.choose(3) : 0;
  f.superset = c.flip();
  if (t) {
    static char const* const v[] = {"", "1e-3", "0.5", "1e-9"};
    f.tol = atof(v[t]);
    f.args.insert(f.args.end(), {"-tolerance", v[t]});
  }
  if (fl) {
    static char const* const v[] = {"", "1e-6", "1e-10"};
    f.floor = atof(v[fl]);
    f.args.insert(f.args.end(), {"-Floor", v[fl]});
  }
  if (f.superset) f.args.push_back("-superset");
  return f;
}
static MeshCase const& the_mesh(bool coarser) {
  static MeshCase a = box_case(2, 2, 1, 1, 0), b = [] {
    auto m = box_case(2, 2, 1, 1, 0);
    m.s.elems.pop_back();
    return m;
  }();
  return coarser ? b : a;
}
static vector<string> arrange(mc::Ctx& c, vector<string> files, vector<string> flags) {
  vector<string> r;
  int k = c.choose(flags.empty() ? 1 : 3);  // the flags after, before or between the files
  if (k == 1) r = flags;
  r.push_back(files[0]);
  if (k == 2) r.insert(r.end(), flags.begin(), flags.end());
  r.push_back(files[1]);
  if (k == 0) r.insert(r.end(), flags.begin(), flags.end());
  return r;
}

static void oshdiff(mc::Ctx& c) {
  int nw = 1 + c.choose(2), np = nw + c.choose(c.thorough() ? 3 : 2);
  c.split();
  int ch = c.choose(NCH);
  bool swapped = c.flip();
  auto f = flags_of(c);
  string dir = c.scratch() + "/c32";
  vector<string> file = {dir + "/gold.osh", dir + "/result.osh"};
  auto args = arrange(c, {file[swapped], file[!swapped]}, f.args);
    if (c.describing()) c.note("written by %d ranks, read by %d, changed: %s:%s", nw, np, ch_name[ch], line_of(args).c_str());
  fs_::wipe(dir);
  mkdir(dir.c_str(), 0755);
  for (int i = 0; i < 2; ++i) {
    auto& mcase = the_mesh(i && ch == COARSER);
    with_mesh(c, nw, mcase, round_robin(mcase.s.elems.size(), nw), [&](oh::Mesh& m) {
      describe_fields(m, i ? ch : SAME);
      oh::binary::write(file[size_t(i)], &m);
    });
  }
  auto before = fs_::contents(dir);
  auto r = invoke(c, np, tool_oshdiff, args);
  int e = expected(ch, swapped, f.tol, f.floor, true);
  int want = e == 0 || (e == 1 && f.superset) ? 0 : 2;
  MKREQ(!r.failed && r.status == want, "oshdiff", "returns %d%s, expected %d", r.status, r.failed ? " (failed)" : "", want);
  MKREQ(fs_::contents(dir) == before, "touched", "the comparison changed files");
  fs_::wipe(dir);
}
static void onestep(mc::Ctx& c) {
  int nw = 1 + c.choose(2), np = nw;
  c.split();
  int ch = c.choose(NCH);
  bool swapped = c.flip();
  auto f = flags_of(c);
  f.args.push_back("-onestep");
  string dir = c.scratch() + "/c32";
  vector<string> file = {dir + "/gold", dir + "/result"};
  auto args = arrange(c, {file[swapped], file[!swapped]}, f.args);
    if (c.describing()) c.note("written by %d ranks, read by %d, changed: %s:%s", nw, np, ch_name[ch], line_of(args).c_str());
  fs_::wipe(dir);
  mkdir(dir.c_str(), 0755);
  for (int i = 0; i < 2; ++i) {
    auto& mcase = the_mesh(i && ch == COARSER);
    with_mesh(c, nw, mcase, round_robin(mcase.s.elems.size(), nw), [&](oh::Mesh& m) {
      describe_fields(m, i ? ch : SAME);
      oh::vtk::write_parallel(file[size_t(i)], &m, 2);
    });
  }
  auto r = invoke(c, np, tool_vtkdiff, args);
  int e = expected(ch, swapped, f.tol, f.floor, false);
  int want = e == 0 || (e == 1 && f.superset) ? 0 : 2;
  MKREQ(!r.failed && r.status == want, "vtkdiff", "returns %d%s, expected %d", r.status, r.failed ? " (failed)" : "", want);
  fs_::wipe(dir);
}
// two series: the number of steps, the times, and a change in one step
static void series(mc::Ctx& c) {
  int nw = 1 + c.choose(2);
  int na = c.choose(c.thorough() ? 4 : 3), nb = na;
  c.split();
  int kind = c.choose(6);  // the same; a step more; a time differs by 1e-4; a time differs by 1e-7; a value of a step; a value of a field which begins with that step
  int at = na && kind > 1 ? c.choose(na) : 0, ch = SAME;
  if (kind == 1) ++nb;
  if (kind == 4) ch = c.choose(NCH - 1) + 1;
  if (kind == 4 && ch == COARSER) ch = SAME;
  bool swapped = c.flip();
  auto f = flags_of(c, c.thorough() || ch == TINY);
  string dir = c.scratch() + "/c32";
  vector<string> file = {dir + "/gold", dir + "/result"};
  vector<string> args = {file[swapped], file[!swapped]};
  if (c.thorough()) args = arrange(c, args, f.args);
  else args.insert(args.end(), f.args.begin(), f.args.end());
  if (na == 0 && kind > 1) return;
    if (c.describing()) c.note("%d ranks, %d and %d steps, %s at step %d (%s):%s", nw, na, nb, kind == 4 ? "a change" : kind == 5 ? "a field which begins" : kind > 1 ? "another time" : "all equal", at, ch_name[ch], line_of(args).c_str());
  fs_::wipe(dir);
  mkdir(dir.c_str(), 0755);
  auto& mcase = the_mesh(false);
  for (int i = 0; i < 2; ++i)
    with_mesh(c, nw, mcase, round_robin(mcase.s.elems.size(), nw), [&](oh::Mesh& m) {
      auto x0 = m.coords();
      oh::vtk::Writer w(file[size_t(i)], &m, 2);
      for (int s = 0; s < (i ? nb : na); ++s) {
        for (int d = 0; d <= 2; ++d)
          for (auto name : {"u", "uu", "q", "w", "t", "k", "z", "late"})
            if (m.has_tag(d, name)) m.remove_tag(d, name);
        m.set_coords(x0);
        describe_fields(m, i && kind == 4 && s == at ? ch : SAME);
        if (kind == 5 && s >= at) m.add_tag(0, "late", 1, oh::Reals(m.nverts(), i && s == at ? 2.0 : 1.0));
        double time = 1 + 0.5 * s;
        if (i && s == at) time *= kind == 2 ? 1 + 1e-4 : kind == 3 ? 1 + 1e-7 : 1;
        w.write(time);
      }
    });
  auto r = invoke(c, nw, tool_vtkdiff, args);
  int e = kind == 1 ? 2 : kind == 2 || kind == 3 ? ((kind == 2 ? 1e-4 : 1e-7) > f.tol ? 2 : 0) : kind == 4 ? expected(ch, swapped, f.tol, f.floor, false) : kind == 5 && f.tol < 0.5 ? 2 : 0;
  int want = e == 0 || (e == 1 && f.superset) ? 0 : 2;
  MKREQ(!r.failed && r.status == want, "series", "returns %d%s, expected %d", r.status, r.failed ? " (failed)" : "", want);
  fs_::wipe(dir);
}
// invocations which cannot be obeyed
static void misuse(mc::Ctx& c) {
  int n = 1 + c.choose(2), k = c.choose(13);
  string dir = c.scratch() + "/c32";
  string a = dir + "/gold.osh", out = dir + "/out.osh";
  struct Bad {
    char const* what;
    Tool tool;
    vector<string> args;
    int fails;  // 0 returns a status, 1 stops with a message, 2 either
  };
  vector<Bad> bad = {
      {"oshdiff without files", tool_oshdiff, {}, 0},
      {"oshdiff with one file", tool_oshdiff, {a}, 0},
      {"oshdiff with no value for the tolerance", tool_oshdiff, {a, a, "-tolerance"}, 0},
      {"oshdiff with no value for the floor", tool_oshdiff, {a, a, "-Floor"}, 0},
      {"oshdiff asked for help", tool_oshdiff, {"-help"}, 0},
      {"oshdiff of a mesh that is not there", tool_oshdiff, {a, out}, 1},
      {"osh_part without a number", tool_osh_part, {a, out}, 0},
      {"osh_part to zero parts", tool_osh_part, {a, "0", out}, 0},
      {"osh_part to more parts than ranks", tool_osh_part, {a, "3", out}, 0},
      {"osh_part of a mesh that is not there", tool_osh_part, {dir + "/none.osh", "1", out}, 1},
      {"osh_box of unknown cells", tool_osh_box, {"1", "1", "0", "2", "2", "0", out, "--family", "pyramid"}, 0},
      {"osh_box without a file", tool_osh_box, {"1", "1", "0", "2", "2", "0"}, 0},
      {"osh_reorder without an output", tool_osh_reorder, {a}, 0},
  };
    auto& b = bad[size_t(k)];
  if (c.describing()) c.note("%s, %d ranks", bad[size_t(k)].what, n);
  fs_::wipe(dir);
  mkdir(dir.c_str(), 0755);
  with_mesh(c, 1, the_mesh(false), vector<int>(4, 0), [&](oh::Mesh& m) { oh::binary::write(a, &m); });
  auto before = fs_::contents(dir);
  auto r = invoke(c, n, b.tool, b.args);
  MKREQ(r.failed || (r.status & 255) != 0, "misuse", "reports success");
  MKREQ(r.failed == (b.fails == 1), "misuse", "%s", r.failed ? "stops with a message instead of a status" : "returns a status");
  MKREQ(fs_::contents(dir) == before, "touched", "leaves or changes files");
  fs_::wipe(dir);
}

// ---- what a mesh holds, however it is distributed
struct Held {
  int dim = 0, nparts = 0;
  std::multiset<vector<double>> elems;              // corner coordinates, sorted by corner
  std::map<string, std::multiset<vector<double>>> tags;  // entity corners then values
};
static Held held(mc::Ctx& c, int n, string const& path, bool strict) {
  Held h;
  Options o;
  o.nranks = n;
  o.explore = false;
  minimpi::run(c, o, [&](int) {
    oh::Library lib;
    oh::Mesh m(&lib);
    h.nparts = oh::binary::read(path, lib.world(), &m, strict);
    h.dim = m.dim();
    auto x = vec(m.coords());
    for (int d = 0; d <= m.dim(); ++d) {
      auto own = vec(m.owned(d));
      auto vs = mk::verts_of(m, d);
      vector<vector<double>> at;
      for (auto& e : vs) {
        vector<vector<double>> p;
        for (int v : e) p.emplace_back(x.begin() + long(v) * m.dim(), x.begin() + long(v + 1) * m.dim());
        if (p.size() > 1) std::sort(p.begin(), p.end());
        vector<double> w;
        for (auto& q : p) w.insert(w.end(), q.begin(), q.end());
        at.push_back(w);
      }
      for (size_t e = 0; e < vs.size(); ++e)
        if (d == m.dim() && own[e]) h.elems.insert(at[e]);
      for (int t = 0; t < m.ntags(d); ++t) {
        auto b = m.get_tag(d, t);
        if (b->name() == "global") continue;
        auto& set = h.tags[std::to_string(d) + " " + b->name()];
        vector<double> v;
        if (b->type() == OMEGA_H_I8) for (auto y : vec(m.get_array<I8>(d, b->name()))) v.push_back(y);
        if (b->type() == OMEGA_H_I32) for (auto y : vec(m.get_array<I32>(d, b->name()))) v.push_back(y);
        if (b->type() == OMEGA_H_I64) for (auto y : vec(m.get_array<I64>(d, b->name()))) v.push_back(double(y));
        if (b->type() == OMEGA_H_F64) v = vec(m.get_array<Real>(d, b->name()));
        size_t nc = size_t(b->ncomps());
        for (size_t e = 0; e < vs.size(); ++e)
          if (own[e]) {
            auto w = at[e];
            w.insert(w.end(), v.begin() + long(e * nc), v.begin() + long((e + 1) * nc));
            set.insert(w);
          }
      }
    }
  });
  return h;
}
static double area(Held const& h) {
  double a = 0;
  for (auto& e : h.elems)
    if (h.dim == 2) a += 0.5 * std::fabs((e[2] - e[0]) * (e[5] - e[1]) - (e[4] - e[0]) * (e[3] - e[1]));
    else if (h.dim == 1) a += std::fabs(e[1] - e[0]);
  return a;
}
static void partition(mc::Ctx& c) {
  int n = 1 + c.choose(4), nin = 1 + c.choose(n), nout = 1 + c.choose(n);
  c.split();
  int shape = c.choose(c.thorough() ? 4 : 2), dim = 1 + c.choose(3);
    if (c.describing()) c.note("%d ranks make %d parts of a mesh of %d parts, dimension %d, shape %d", n, nout, nin, dim, shape);
  if (nout > nin && (nout & (nout - 1))) return;  // balancing is for powers of two
  string dir = c.scratch() + "/c32", in = dir + "/in.osh", out = dir + "/out.osh";
  fs_::wipe(dir);
  mkdir(dir.c_str(), 0755);
  auto mcase = box_case(dim, dim == 3 ? 1 : 3, 2, 1, shape);
  with_mesh(c, nin, mcase, round_robin(mcase.s.elems.size(), nin), [&](oh::Mesh& m) {
    describe_fields(m, SAME);
    if (dim > 1) classify(m);
    oh::binary::write(in, &m);
  });
  auto before = fs_::contents(in);
  auto r = invoke(c, n, tool_osh_part, {in, std::to_string(nout), out});
  MKREQ(fs_::contents(in) == before, "touched", "the input changed");
  if (nout < nin) {
    MKREQ(r.failed || (r.status & 255), "fewer", "reports success for fewer parts");
    fs_::wipe(dir);
    return;
  }
  MKREQ(!r.failed && r.status == 0, "part", "returns %d%s", r.status, r.failed ? " (failed)" : "");
  auto a = held(c, nin, in, true), b = held(c, nout, out, true);
  MKREQ(b.nparts == nout, "parts", "%d parts", b.nparts);
  MKREQ(a.elems == b.elems, "elements", "%zu elements became %zu others", a.elems.size(), b.elems.size());
  MKREQ(a.tags == b.tags, "tags", "the tags are not the same");
  if (nout == nin) {
    auto after = fs_::contents(out);
    MKREQ(after.size() == before.size(), "unchanged", "a mesh which had that many parts is written as other files");
  }
  fs_::wipe(dir);
}
static void boxes(mc::Ctx& c) {
  int n = 1 + c.choose(2), dim = 1 + c.choose(3), fam = c.choose(3), sym = c.choose(2);
  int nx = 1 + c.choose(2), ny = dim > 1 ? 1 + c.choose(2) : 0, nz = dim > 2 ? 1 + c.choose(2) : 0;
    bool hyper = fam == 2;
  if (c.describing()) c.note("%d ranks, %d x %d x %d, %s%s", n, nx, ny, nz, fam == 0 ? "default" : hyper ? "hypercube" : "simplex", sym ? ", symmetric" : "");
  string dir = c.scratch() + "/c32", out = dir + "/out.osh", ref = dir + "/ref.osh";
  fs_::wipe(dir);
  mkdir(dir.c_str(), 0755);
  vector<string> args = {"1.5", dim > 1 ? "2.5" : "0", dim > 2 ? "3.5" : "0", std::to_string(nx), std::to_string(ny), std::to_string(nz), out};
  if (fam) args.insert(args.begin() + (sym ? 0 : 7), {"--family", hyper ? "hypercube" : "simplex"});
  if (sym) args.push_back("--symmetric");
  auto r = invoke(c, n, tool_osh_box, args);
  MKREQ(!r.failed && r.status == 0, "box", "returns %d%s", r.status, r.failed ? " (failed)" : "");
  Options o;
  o.nranks = n;
  o.explore = false;
  minimpi::run(c, o, [&](int) {
    oh::Library lib;
    auto m = oh::build_box(lib.world(), hyper ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX, 1.5, dim > 1 ? 2.5 : 0, dim > 2 ? 3.5 : 0, nx, ny, nz, sym);
    oh::binary::write(ref, &m);
  });
  MKREQ(fs_::contents(out) == fs_::contents(ref), "box", "not the box the library builds");
  fs_::wipe(dir);
}
// tools which are one call of the library
static void simple(mc::Ctx& c) {
  int n = 1 + c.choose(3), what = c.choose(5), dim = 1 + c.choose(3), nin = 1 + c.choose(n), shape = c.choose(3);
  static char const* const names[] = {"osh2vtk", "osh2vtk with dimension", "osh_reorder", "msh2osh", "osh_eval_implied"};
    if (c.describing()) c.note("%s on %d ranks, a mesh of %d parts, dimension %d, shape %d", names[what], n, nin, dim, shape);
  if (what == 3 && (nin > 1 || dim == 1 || n == 3)) return;  // Gmsh files are spread over powers of two
  string dir = c.scratch() + "/c32", in = dir + "/in.osh", out = dir + "/out", ref = dir + "/ref";
  fs_::wipe(dir);
  mkdir(dir.c_str(), 0755);
  auto mcase = box_case(dim, 2, dim == 3 ? 1 : 2, 1, shape);
  with_mesh(c, nin, mcase, round_robin(mcase.s.elems.size(), nin), [&](oh::Mesh& m) {
    describe_fields(m, SAME);
    if (dim > 1) classify(m);
    if (what == 4) m.add_tag(0, "metric", 1, oh::Reals(m.nverts(), 3.0));
    if (what == 3) {
      oh::gmsh::write(in, &m);
    } else
      oh::binary::write(in, &m);
  });
  auto before = fs_::contents(in);
  vector<string> args = {in, out};
  Tool tools[] = {tool_osh2vtk, tool_osh2vtk, tool_osh_reorder, tool_msh2osh, tool_osh_eval_implied};
  if (what == 1) args = {in, std::to_string(dim - 1), out};
  auto r = invoke(c, n, tools[what], args);
  MKREQ(fs_::contents(in) == before, "touched", "the input changed");
  if (what == 2 && n > 1) {  // says that it works on one rank only
    MKREQ(r.failed && access(out.c_str(), F_OK), names[what], "returns %d and writes %s", r.status, out.c_str());
    fs_::wipe(dir);
    return;
  }
  MKREQ(!r.failed && r.status == 0, names[what], "returns %d%s", r.status, r.failed ? " (failed)" : "");
  Options o;
  o.nranks = n;
  o.explore = false;
  minimpi::run(c, o, [&](int) {
    oh::Library lib;
    oh::Mesh m(&lib);
    if (what == 3) m = oh::gmsh::read(in, lib.world());
    else oh::binary::read(in, lib.world(), &m);
    if (what == 0) oh::vtk::write_parallel(ref, &m, dim);
    if (what == 1) oh::vtk::write_parallel(ref, &m, dim - 1);
    if (what == 2) oh::reorder_by_hilbert(&m);
    if (what == 4) {
      m.remove_tag(0, "metric");
      oh::add_implied_metric_tag(&m);
      m.ask_lengths();
      m.ask_qualities();
    }
    if (what > 1) oh::binary::write(ref, &m);
  });
  auto a = fs_::contents(out), b = fs_::contents(ref);
  MKREQ(!a.empty() && a == b, names[what], "its files are not those of the library call");
  fs_::wipe(dir);
}
// tools which adapt: the domain stays, the metric goes, the size is met
static void adapting(mc::Ctx& c) {
  int n = 1 + c.choose(2), what = c.choose(c.thorough() ? 4 : 3), k = c.choose(3), shape = c.choose(2);
  static char const* const names[] = {"osh_scale", "osh_fix", "osh_fix --length", "osh_fix --isotropic"};
    static double const target[] = {16, 40, 90}, length[] = {0.9, 0.6, 0.45};
  if (c.describing()) c.note("%s on %d ranks to %g elements / length %g, shape %d", names[what], n, target[k], length[k], shape);
  if (what == 1 && k) return;
  if (what == 3 && k) return;
  // osh_fix takes no step that lowers the least quality, not even by rounding
  if (what == 2 && shape) return;
  string dir = c.scratch() + "/c32", in = dir + "/in.osh", out = dir + "/out.osh";
  fs_::wipe(dir);
  mkdir(dir.c_str(), 0755);
  auto mcase = box_case(2, 3, 2, 1, shape ? 3 : 0);
  with_mesh(c, n, mcase, round_robin(mcase.s.elems.size(), n), [&](oh::Mesh& m) {
    classify(m);
    oh::binary::write(in, &m);
  });
  auto before = fs_::contents(in);
  char num[40];
  double unit = shape ? 1e-3 : 1;
  snprintf(num, sizeof(num), "%g", what == 0 ? target[k] : length[k] * unit);
  vector<string> args = {in, out};
  if (what == 0) args = {in, num, out};
  if (what == 2) args = {in, out, "--length", num};
  if (what == 3) args = {"--isotropic", in, out};
  auto r = invoke(c, n, what ? tool_osh_fix : tool_osh_scale, args);
  MKREQ(!r.failed && r.status == 0, names[what], "returns %d%s", r.status, r.failed ? " (failed)" : "");
  MKREQ(fs_::contents(in) == before, "touched", "the input changed");
  auto a = held(c, n, in, true), b = held(c, n, out, true);
  MKREQ(!b.tags.count("0 metric"), "metric", "the metric is left in the result");
  MKREQ(std::fabs(area(a) - area(b)) < 1e-9 * area(a), "domain", "area %g becomes %g", area(a), area(b));
  double want = what == 0 ? target[k] : what == 2 ? area(a) / (std::sqrt(3.0) / 4 * length[k] * length[k] * unit * unit) : double(a.elems.size());
  MKREQ(double(b.elems.size()) > want / 3 && double(b.elems.size()) < want * 3, "count", "%zu elements, asked for about %g", b.elems.size(), want);
  c.outcome(b.elems.size() * 4 + uint64_t(what));
  fs_::wipe(dir);
}
static void adapt_msh(mc::Ctx& c) {
  int k = c.choose(3), shape = c.choose(2);
  bool mout = c.flip(), aniso = c.flip();
    static double const length[] = {1.2, 0.7, 0.5};
  if (c.describing()) c.note("osh_adapt to length %g%s, shape %d%s", length[k], aniso ? " (twice along x)" : "", shape, mout ? ", metric written" : "");
  string dir = c.scratch() + "/c32", in = dir + "/in.msh", out = dir + "/out.msh", mi = dir + "/mi.txt", mo = dir + "/mo.txt", ia = dir + "/a.osh", ob = dir + "/b.osh";
  fs_::wipe(dir);
  mkdir(dir.c_str(), 0755);
  auto mcase = box_case(2, 3, 2, 1, shape ? 3 : 0);
  double l = length[k] * (shape ? 1e-3 : 1), mx = 1 / (l * l) / (aniso ? 4 : 1), my = 1 / (l * l);
  with_mesh(c, 1, mcase, vector<int>(mcase.s.elems.size(), 0), [&](oh::Mesh& m) {
    classify(m);
    oh::gmsh::write(in, &m);
    oh::binary::write(ia, &m);
    std::ofstream f(mi);
    f << std::setprecision(17);
    for (int v = 0; v < m.nverts(); ++v) f << mx << " 0 " << my << "\n";
  });
  vector<string> args = {"--mesh-in", in, "--mesh-out", out, "--metric-in", mi};
  if (mout) args.insert(args.begin(), {"--metric-out", mo});
  auto r = invoke(c, 1, tool_osh_adapt, args);
  MKREQ(!r.failed && r.status == 0, "osh_adapt", "returns %d%s", r.status, r.failed ? " (failed)" : "");
  int nverts = 0;
  Options o;
  o.explore = false;
  minimpi::run(c, o, [&](int) {
    oh::Library lib;
    auto m = oh::gmsh::read(out, lib.world());
    nverts = m.nverts();
    oh::binary::write(ob, &m);
  });
  auto a = held(c, 1, ia, true), b = held(c, 1, ob, true);
  MKREQ(std::fabs(area(a) - area(b)) < 1e-9 * area(a), "domain", "area %g becomes %g", area(a), area(b));
  double want = area(a) * std::sqrt(mx * my) / (std::sqrt(3.0) / 4);
  MKREQ(double(b.elems.size()) > want / 3 && double(b.elems.size()) < want * 3, "count", "%zu elements, asked for about %g", b.elems.size(), want);
  if (mout) {
    std::ifstream f(mo);
    int lines = 0;
    for (double p, q, s; f >> p >> q >> s; ++lines)
      MKREQ(std::fabs(p - mx) < 1e-6 * mx && std::fabs(q) < 1e-6 * mx && std::fabs(s - my) < 1e-6 * my, "metric-out", "line %d holds %g %g %g, the metric is %g 0 %g everywhere", lines, p, q, s, mx, my);
    MKREQ(lines == nverts, "metric-out", "%d lines for %d vertices", lines, nverts);
  } else
    MKREQ(access(mo.c_str(), F_OK), "metric-out", "written without being asked for");
  c.outcome(b.elems.size());
  fs_::wipe(dir);
}

// ---- the calculator
struct Term {
  string text;
  double v;
  int prec;  // 0 sum, 1 product, 2 negation, 3 power, 4 atom
};
static Term term(mc::Ctx& c, int depth) {
  int k = c.choose(depth ? 9 : 3);
  auto wrap = [](Term t, int p) { return t.prec < p ? "(" + t.text + ")" : t.text; };
  switch (k) {
    case 0: return {"2", 2, 4};
    case 1: return {"0.5", 0.5, 4};
    case 2: return {"x", 3, 4};
    case 3: case 4: {
      auto a = term(c, depth - 1), b = term(c, depth - 1);
      return {wrap(a, 0) + (k == 3 ? " + " : "-") + wrap(b, 1), k == 3 ? a.v + b.v : a.v - b.v, 0};
    }
    case 5: case 6: {
      auto a = term(c, depth - 1), b = term(c, depth - 1);
      return {wrap(a, 1) + (k == 5 ? "*" : " / ") + wrap(b, 3), k == 5 ? a.v * b.v : a.v / b.v, 1};
    }
    case 7: {
      auto a = term(c, depth - 1), b = term(c, depth - 1);
      return {wrap(a, 4) + "^" + wrap(b, 3), std::pow(a.v, b.v), 3};
    }
    default: {
      auto a = term(c, depth - 1);
      return {"-" + wrap(a, 2), -a.v, 2};
    }
  }
}
static void calculator(mc::Ctx& c) {
  int form = c.choose(7);
  c.split();
  auto a = term(c, form == 0 || (c.thorough() && form != 1 && form != 2 && form != 5) ? 2 : 1);
  Term b{"", 0, 0};
  if (form == 1 || form == 2 || form == 5) b = term(c, 1);
  string text = a.text;
  double v = a.v;
  int fn = 0;
  if (form == 1) {
    static char const* const op[] = {">", "<", ">=", "<=", "=="};
    fn = c.choose(5);
    bool r = fn == 0 ? a.v > b.v : fn == 1 ? a.v < b.v : fn == 2 ? a.v >= b.v : fn == 3 ? a.v <= b.v : a.v == b.v;
    text = a.text + " " + op[fn] + b.text + " ? 10 : 20";
    v = r ? 10 : 20;
  } else if (form == 2) {
    bool p = a.v > 1, q = b.v > 1;
    fn = c.choose(4);
    text = fn == 0 ? a.text + " > 1 && " + b.text + " > 1 ? 10 : 20" : fn == 1 ? a.text + " > 1 || " + b.text + " > 1 ? 10 : 20" : fn == 2 ? a.text + " > 1 || " + b.text + " > 1 && x < 0 ? 10 : 20" : "(" + a.text + " > 1 || " + b.text + " > 1) && x < 0 ? 10 : 20";
    v = (fn == 0 ? p && q : fn == 1 ? p || q : fn == 2 ? p : false) ? 10 : 20;
  } else if (form == 3) {
    static struct { char const* n; double (*f)(double); } const fs[] = {{"sqrt", std::sqrt}, {"sin", std::sin}, {"cos", std::cos}, {"tan", std::tan}, {"asin", std::asin}, {"acos", std::acos}, {"atan", std::atan}, {"exp", std::exp}, {"log", std::log}, {"log10", std::log10}};
    fn = c.choose(10);
    text = string(fs[fn].n) + "(" + a.text + ")";
    v = fs[fn].f(a.v);
  } else if (form == 4) {
    text = "y = " + a.text + "; y + 1";
    v = a.v + 1;
  } else if (form == 5) {
    text = "atan2(" + a.text + ", " + b.text + ")";
    v = std::atan2(a.v, b.v);
  } else if (form == 6) {
    fn = c.choose(6);
    static char const* const wrong[] = {"z", "sinh(1)", "", "2 +", "atan2(1,2,3)", "y = "};
    text = fn == 2 ? "y = " + a.text + ";" : string(wrong[fn]);
  }
    if (c.describing()) c.note("x = 3; 0, then %s", text.c_str());
  std::istringstream in("x = 3; 0\n" + text + "\nx\n");
  auto was = std::cin.rdbuf(in.rdbuf());
  std::cin.clear();
  c.exec();
  Quiet out;
  bool failed = false;
  try {
    tool_osh_calc();
  } catch (std::exception const&) {
    failed = true;
  }
  std::cin.rdbuf(was);
  std::ostringstream want;
  want << 0.0 << '\n';
  if (form != 6) want << v << '\n' << 3.0 << '\n';
  MKREQ(failed == (form == 6), "calculator", "%s", failed ? "rejected" : "accepted");
  auto got = out.text.str();
  auto w = want.str();
  // the sign of a value that is not a number is nobody's
  for (auto* s : {&got, &w})
    for (size_t i; (i = s->find("-nan")) != string::npos;) s->erase(i, 1);
  MKREQ(got == w, "calculator", "prints \"%s\", expected \"%s\"", got.c_str(), w.c_str());
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C32",
      {
          {"oshdiff", oshdiff, 40, false, "15 changes of one of two meshes x 4 tolerances x 3 floors x -superset x order of files and flags, files of 1 and 2 parts compared by 1 to 3 (thorough 4) ranks"},
          {"onestep", onestep, 40, false, "the same over VTK directories"},
          {"series", series, 60, false, "series of 0 to 2 (thorough 3) steps: equal, one step more, another time, a change in any one step, a field which begins with any step, all flags"},
          {"misuse", misuse, 20, false, "13 invocations that cannot be obeyed on 1 and 2 ranks"},
          {"partition", partition, 40, false, "every world of up to 4 ranks, every number of parts before and after, 3 dimensions"},
          {"boxes", boxes, 30, false, "boxes of up to 2 cells a side in 3 dimensions, both families, symmetric or not, 1 and 2 ranks"},
          {"simple", simple, 40, false, "osh2vtk, osh_reorder, msh2osh, osh_eval_implied on 1 to 3 ranks over meshes of 1 to 3 parts in 3 dimensions: the same files as the library call"},
          {"adapting", adapting, 60, false, "osh_scale and osh_fix to three sizes, 2 meshes, 1 and 2 ranks"},
          {"adapt-msh", adapt_msh, 60, false, "osh_adapt to three sizes, uniform or stretched, with and without metric output"},
          {"calculator", calculator, 40, false, "every expression tree of depth 2 over three atoms and six operators, and every form built on depth 1 (thorough 2)"},
      });
}
