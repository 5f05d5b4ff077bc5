// C19, writing: whatever file operation fails, and wherever the process dies,
// a writer that returns has written everything, and what a dead one leaves
// behind is refused, or is the old or the new mesh.
#include <Omega_h_box.hpp>
#include <Omega_h_file.hpp>
#include <Omega_h_vtk.hpp>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include "distkit.hpp"
#include "image.hpp"
#include "soups.hpp"
using namespace mk;
using namespace minimpi;
using im::Image;
using std::string;

// ---- the fault plan, applied to file operations while `armed`
enum Kind { NONE, FAIL_ONCE, FAIL_FROM, SHORT_THEN_FAIL, SHORT_ALWAYS, INTERRUPT, DIE };
static char const* kind_name[] = {"none", "one error", "errors from", "short write then errors from", "short writes from", "interruption at", "death at"};
static bool armed = false;
static int op_no, plan_op, plan_kind, plan_torn, op_limit;
static bool dead;
static std::set<int> my_fds;

enum Act { PASS, ERR, SHORT, NOTHING, INTR };
static Act next_op(bool is_write) {
  if (!armed) return PASS;
  int k = op_no++;
  if (dead) return NOTHING;
  if (k < plan_op || plan_kind == NONE) return PASS;
  switch (plan_kind) {
    case FAIL_ONCE: return k == plan_op ? ERR : PASS;
    case FAIL_FROM: return ERR;
    case SHORT_THEN_FAIL: return k == plan_op && is_write ? SHORT : ERR;
    case SHORT_ALWAYS: return is_write ? SHORT : PASS;
    case INTERRUPT: return is_write && k == plan_op ? INTR : PASS;
    case DIE: dead = true; return is_write ? SHORT : NOTHING;
  }
  return PASS;
}
template <class F>
static F* real(F*, char const* name) {
  return reinterpret_cast<F*>(dlsym(RTLD_NEXT, name));
}
extern "C" {
ssize_t write(int fd, void const* p, size_t n) {
  static auto f = real((ssize_t(*)(int, void const*, size_t))nullptr, "write");
  if (!armed || !my_fds.count(fd)) return f(fd, p, n);
  switch (next_op(true)) {
    case PASS: return f(fd, p, n);
    case ERR: errno = ENOSPC; return -1;
    case INTR: errno = EINTR; return -1;
    case SHORT:
      if (dead) {  // torn: some of the data reach the disk
        size_t k = plan_torn == 0 ? 0 : plan_torn == 1 ? n / 2 : plan_torn == 2 ? (n ? n - 1 : 0) : (n ? 1 : 0);
        if (k) f(fd, p, k);
        return ssize_t(n);
      }
      return f(fd, p, n > 1 ? n / 2 : n);
    case NOTHING: return ssize_t(n);
  }
  return -1;
}
ssize_t writev(int fd, iovec const* v, int n) {
  static auto f = real((ssize_t(*)(int, iovec const*, int))nullptr, "writev");
  if (!armed || !my_fds.count(fd)) return f(fd, v, n);
  // as one write of the gathered data
  string s;
  for (int i = 0; i < n; ++i) s.append(static_cast<char*>(v[i].iov_base), v[i].iov_len);
  return write(fd, s.data(), s.size());
}
static FILE* open_file(char const* p, char const* m, FILE* (*f)(char const*, char const*)) {
  if (!armed) return f(p, m);
  if (strchr(m, 'w') == nullptr && strchr(m, '+') == nullptr && strchr(m, 'a') == nullptr) return f(p, m);
  auto a = next_op(false);
  if (a == ERR) {
    errno = ENOSPC;
    return nullptr;
  }
  FILE* r = a == NOTHING ? f("/dev/null", m) : f(p, m);
  if (r && a != NOTHING) my_fds.insert(fileno(r));
  return r;
}
FILE* fopen(char const* p, char const* m) { return open_file(p, m, real((FILE * (*)(char const*, char const*)) nullptr, "fopen")); }
FILE* fopen64(char const* p, char const* m) { return open_file(p, m, real((FILE * (*)(char const*, char const*)) nullptr, "fopen64")); }
int fclose(FILE* f) {
  static auto g = real((int (*)(FILE*))nullptr, "fclose");
  if (!armed || !my_fds.count(fileno(f))) return g(f);
  my_fds.erase(fileno(f));
  auto a = next_op(false);
  int r = g(f);
  if (a == ERR) {
    errno = EIO;
    return EOF;
  }
  return r;
}
int mkdir(char const* p, mode_t m) noexcept {
  static auto g = real((int (*)(char const*, mode_t))nullptr, "mkdir");
  if (!armed) return g(p, m);
  auto a = next_op(false);
  if (a == ERR) {
    errno = ENOSPC;
    return -1;
  }
  if (a == NOTHING) return 0;
  return g(p, m);
}
}

static void wipe(string const& d) {
  DIR* h = opendir(d.c_str());
  if (!h) {
    unlink(d.c_str());
    return;
  }
  while (auto e = readdir(h)) {
    string n = e->d_name;
    if (n == "." || n == "..") continue;
    string p = d + "/" + n;
    struct stat st;
    if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode))
      wipe(p);
    else
      unlink(p.c_str());
  }
  closedir(h);
  rmdir(d.c_str());
}
static void list(string const& d, string const& rel, std::map<string, string>& out) {
  DIR* h = opendir((d + rel).c_str());
  if (!h) return;
  while (auto e = readdir(h)) {
    string n = e->d_name;
    if (n == "." || n == "..") continue;
    string r = rel + "/" + n;
    struct stat st;
    if (lstat((d + r).c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) {
      out[r + "/"] = "";
      list(d, r, out);
    } else
      out[r] = im::slurp(d + r);
  }
  closedir(h);
}
static std::map<string, string> contents(string const& d) {
  std::map<string, string> m;
  list(d, "", m);
  return m;
}

enum Writer { OSH1, OSH2, OSH_OVER, VTU, VTK1, VTK2, SERIES, MSH, TXT, NWRITERS };
static char const* writer_name[] = {".osh, 1 rank", ".osh, 2 ranks", ".osh over an older one", ".vtu", "parallel vtk, 1 rank", "parallel vtk, 2 ranks", "vtk time series", ".msh", "text"};

static oh::Mesh mesh_of(oh::Library& lib, oh::CommPtr comm, int big) {
  auto m = oh::build_box(comm, OMEGA_H_SIMPLEX, 1, 1, 0, 1 + big, 1, 0);
  m.add_tag<Real>(0, "r", 1, oh::Reals(m.nverts(), 0.25, 0.125));
  if (big) {
    // incompressible, longer than any stream buffer
    vector<I64> v;
    uint64_t x = 88172645463325252ull;
    for (LO i = 0; i < m.nverts() * 100; ++i) {
      x ^= x << 13;
      x ^= x >> 7;
      x ^= x << 17;
      v.push_back(I64(x));
    }
    m.add_tag<I64>(0, "noise", 100, arr(v));
    m.add_tag<I64>(m.dim(), "noise2", 100, oh::Read<I64>(arr(vector<I64>(v.begin(), v.begin() + m.nelems() * 100))));
  }
  m.class_sets["s"] = {{1, 2}};
  (void)lib;
  return m;
}
// what one rank does, with the plan armed; returns how many steps of a series were recorded
static int recorded;
static void write_all(oh::Library& lib, oh::CommPtr comm, int w, int big, string const& dir) {
  auto m = mesh_of(lib, comm, big);
  comm->barrier();
  armed = true;
  switch (w) {
    case OSH1: case OSH2: case OSH_OVER: oh::binary::write(dir + "/m.osh", &m); break;
    case VTU: oh::vtk::write_vtu(dir + "/m.vtu", &m); break;
    case VTK1: case VTK2: oh::vtk::write_parallel(dir + "/v", &m); break;
    case SERIES: {
      oh::vtk::Writer wr(dir + "/v", &m);
      for (int i = 0; i < 3; ++i) {
        wr.write(Real(i) / 4);
        if (!dead) recorded = i + 1;
      }
      break;
    }
    case MSH: oh::gmsh::write(dir + "/m.msh", &m); break;
    case TXT: oh::write_reals_txt(oh::filesystem::path(dir + "/m.txt"), m.coords(), 2); break;
  }
}
// true when every rank's writer returned
static bool attempt(mc::Ctx& c, int w, int big, string const& dir, int op, int kind, int torn) {
  op_no = 0;
  plan_op = op;
  plan_kind = kind;
  plan_torn = torn;
  dead = false;
  my_fds.clear();
  recorded = 0;
  Options o;
  o.explore = false;
  o.nranks = (w == OSH2 || w == VTK2) ? 2 : 1;
  bool ok = true;
  try {
    run(c, o, [&](int) {
      oh::Library lib;
      write_all(lib, lib.world(), w, big, dir);
      lib.world()->barrier();
      armed = false;
    });
  } catch (mc::Failure const& f) {
    if (f.key != "rank-exception") {
      armed = false;
      throw;
    }
    ok = false;
  }
  armed = false;
  return ok;
}
struct Reference {
  bool ready = false;
  int nops;
  std::map<string, string> files;
};
static string fresh(mc::Ctx& c, int w, int big) {
  string dir = c.scratch() + "/out";
  wipe(dir);
  mkdir(dir.c_str(), 0700);
  if (w == OSH_OVER) {
    oh::Library lib;
    auto m = mesh_of(lib, lib.world(), !big);
    oh::binary::write(dir + "/m.osh", &m);
  }
  return dir;
}
static Reference& reference(mc::Ctx& c, int w, int big) {
  static std::map<std::pair<int, int>, Reference> all;
  auto& r = all[{w, big}];
  if (!r.ready) {
    auto dir = fresh(c, w, big);
    bool ok = attempt(c, w, big, dir, 0, NONE, 0);
    MKREQ(ok, "fault-free", "writing fails without any fault");
    r.nops = op_no;
    r.files = contents(dir);
    MKREQ(r.nops >= 2, "shim", "the file operations are not intercepted");
    r.ready = true;
  }
  return r;
}
static void same_files(Reference const& r, string const& dir, char const* what) {
  auto f = contents(dir);
  for (auto& p : r.files) {
    MKREQ(f.count(p.first), "lost-file", "%s, yet %s is missing", what, p.first.c_str());
    MKREQ(f[p.first] == p.second, "lost-data", "%s, yet %s has %zu bytes that differ from the %zu it should have", what, p.first.c_str(), f[p.first].size(), p.second.size());
  }
  MKREQ(f.size() == r.files.size(), "extra-file", "%s: unexpected files", what);
}

static void faults(mc::Ctx& c) {
  int w = c.choose(NWRITERS), big = c.choose(2);
  c.split();
  auto& ref = reference(c, w, big);
  int op = c.choose(ref.nops);
  int kind = 1 + c.choose(INTERRUPT);
  c.note("%s%s: %s operation %d of %d", writer_name[w], big ? " (large)" : "", kind_name[kind], op, ref.nops);
  auto dir = fresh(c, w, big);
  bool ok = attempt(c, w, big, dir, op, kind, 0);
  char what[200];
  snprintf(what, sizeof what, "%s%s with %s operation %d of %d: the writer returned", writer_name[w], big ? " (large)" : "", kind_name[kind], op, ref.nops);
  if (ok) same_files(ref, dir, what);
  if (kind == SHORT_ALWAYS || kind == INTERRUPT) MKREQ(ok, "gave-up", "%s with %s operation %d: the writer gave up", writer_name[w], kind_name[kind], op);
  c.outcome(uint64_t(w * 100 + kind * 10 + ok));
  c.state(mc::Hash().add(w).add(big).add(op).add(kind).h);
  c.step(uint64_t(op_no));
}
static void crashes(mc::Ctx& c) {
  static int const ws[] = {OSH1, OSH2, OSH_OVER, SERIES, VTU, MSH};
  int w = ws[c.choose(6)], big = c.choose(2);
  c.split();
  auto& ref = reference(c, w, big);
  int op = c.choose(ref.nops);
  int torn = c.choose(4);
  c.note("%s%s: death at operation %d of %d, torn %d", writer_name[w], big ? " (large)" : "", op, ref.nops, torn);
  auto dir = fresh(c, w, big);
  attempt(c, w, big, dir, op, DIE, torn);
  auto f = contents(dir);
  oh::Library lib;
  int outcome = 0;
  if (w == SERIES) {
    // restarting at any time keeps every step recorded before that time
    int done = recorded;
    int from = c.choose(4);
    mkdir((dir + "/v").c_str(), 0700);
    {
      auto m = mesh_of(lib, lib.world(), big);
      oh::vtk::Writer wr(dir + "/v", &m, -1, Real(from) / 4);
      for (int i = from; i < 4; ++i) wr.write(I64(i), Real(i) / 4, oh::vtk::get_all_vtk_tags(&m, 2));
    }
    vector<Real> t;
    vector<oh::filesystem::path> p;
    oh::vtk::read_pvd(dir + "/v/steps.pvd", &t, &p);
    vector<Real> want;
    for (int i = 0; i < 4; ++i)
      if (i < done || i >= from) want.push_back(Real(i) / 4);
    vector<Real> want2;  // the step in progress may have been recorded as well
    for (int i = 0; i < 4; ++i)
      if (i <= done || i >= from) want2.push_back(Real(i) / 4);
    MKREQ(t == want || t == want2, "series", "died at operation %d after recording %d steps, restarted at step %d: the series lists %s", op, done, from, str(t).c_str());
    auto s = im::slurp(dir + "/v/steps.pvd");
    MKREQ(s.size() > 30 && s.substr(s.size() - 27) == "</Collection>\n</VTKFile>\n" + string() ? true : s.rfind("</Collection>\n</VTKFile>\n") == s.size() - 25, "series-end", "the series file does not end properly");
    outcome = int(t.size());
  } else if (w == VTU || w == MSH) {
    string name = w == VTU ? "/m.vtu" : "/m.msh";
    bool ok = false;
    try {
      auto b = oh::read_mesh_file(dir + name, lib.world());
      ok = true;
    } catch (std::exception const&) {
    }
    auto& want = ref.files[name];
    auto got = f[name];
    MKREQ(!ok || got.size() + 1 >= want.size(), "torn", "%s: a file torn at operation %d is accepted", writer_name[w], op);
    outcome = ok;
  } else {
    int n = w == OSH2 ? 2 : 1;
    Options o;
    o.explore = false;
    o.nranks = n;
    bool ok = true;
    vector<Image> got(static_cast<size_t>(n));
    try {
      run(c, o, [&](int me) {
        oh::Library l2;
        auto b = oh::binary::read(dir + "/m.osh", l2.world());
        got[size_t(me)] = im::take(b);
      });
    } catch (mc::Failure const& e) {
      if (e.key != "rank-exception") throw;
      ok = false;
    }
    if (ok) {
      for (int r = 0; r < n; ++r) {
        auto part = "/m.osh/" + std::to_string(r) + ".osh";
        bool is_new = im::diff(im::parse(ref.files[part]), got[size_t(r)]).empty();
        bool is_old = false;
        if (w == OSH_OVER) is_old = im::diff(im::parse(reference(c, OSH1, !big).files[part]), got[size_t(r)]).empty();
        MKREQ(is_new || is_old, "torn", "%s: death at operation %d leaves another mesh", writer_name[w], op);
        outcome = 1 + is_old;
      }
    }
  }
  c.outcome(uint64_t(w * 10 + outcome));
  c.state(mc::Hash().add(w).add(big).add(op).add(torn).h);
  c.step(uint64_t(op_no));
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C19",
      {
          {"faults", faults, 60, false, "9 writers x small and large x every file operation x 5 kinds of failure"},
          {"crashes", crashes, 60, false, "6 writers x small and large x every file operation x 4 torn writes (time series: x restart at each step)"},
      });
}
