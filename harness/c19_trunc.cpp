// C19, reading: a file cut short at any byte is refused, or the cut removed
// nothing that matters; memory stays safe (built with sanitizers).
#include <Omega_h_amr.hpp>
#include <Omega_h_box.hpp>
#include <Omega_h_file.hpp>
#include <Omega_h_vtk.hpp>
#include <sys/stat.h>
#include <unistd.h>
#include "image.hpp"
#include "soups.hpp"
using namespace mk;
using im::Image;
using std::string;

struct File {
  string text;
  Image image;
};
static void decorate(oh::Mesh& m) {
  m.add_tag<I8>(0, "b", 2, oh::Read<I8>(m.nverts() * 2, 7));
  m.add_tag<I64>(m.dim(), "l", 1, oh::Read<I64>(m.nelems(), 1ll << 40, 3));
  m.add_tag<Real>(m.dim(), "r", 4, oh::Reals(m.nelems() * 4, 0.1));
  auto r = std::make_shared<oh::inertia::Rib>();
  r->axes.push_back(oh::vector_3(0, 0.6, 0.8));
  m.set_rib_hints(r);
  m.class_sets["left"] = {{1, 3}, {0, 4}};
  m.class_sets["right"] = {{2, 5}};
}
static oh::Mesh make(oh::Library& lib, int k) {
  switch (k) {
    case 0: return oh::build_box(lib.world(), OMEGA_H_SIMPLEX, 1, 1, 0, 1, 1, 0);
    case 1: return oh::build_box(lib.world(), OMEGA_H_HYPERCUBE, 1, 1, 0, 1, 1, 0);
    case 2: return oh::build_box(lib.world(), OMEGA_H_SIMPLEX, 1, 1, 1, 1, 1, 1);
    default: {
      auto m = oh::build_box(lib.world(), OMEGA_H_HYPERCUBE, 1, 1, 0, 2, 1, 0);
      oh::amr::refine(&m, oh::Read<I8>(m.nelems(), 1, 0), oh::TransferOpts());
      return m;
    }
  }
}
// runs f; true when it returned
template <class F>
static bool accepted(F f) {
  try {
    f();
    return true;
  } catch (oh::exception const&) {
  } catch (mc::Failure const&) {
    throw;
  } catch (std::bad_alloc const&) {
    throw mc::Failure{"memory", "a truncated file made the reader ask for absurd amounts of memory"};
  } catch (std::exception const&) {
  }
  return false;
}
static int step_of(mc::Ctx& c, size_t size) {
  // every length below the full one
  int b = c.choose(int(size / 64 + 1));
  c.split();
  int l = b * 64 + c.choose(64);
  if (l > int(size)) c.prune();
  return l;
}

static void osh_stream(mc::Ctx& c) {
  oh::Library lib;
  int k = c.choose(4), zip = c.choose(2);
  auto m = make(lib, k);
  decorate(m);
  auto x = im::take(m);
  auto s = im::emit(x, 9, zip, false);
  int l = step_of(c, s.size());
  c.note("mesh %d zip %d: %d of %zu bytes", k, zip, l, s.size());
  oh::Mesh b(&lib);
  std::istringstream i(s.substr(0, size_t(l)));
  bool ok = accepted([&] {
    b.set_comm(lib.world());
    oh::binary::read(i, &b, 9);
  });
  MKREQ(ok == (size_t(l) == s.size()), ok ? "accepted" : "refused", ".osh stream of %zu bytes cut to %d: %s", s.size(), l, ok ? "accepted" : "refused");
  if (ok) MKREQ(im::diff(x, im::take(b)).empty(), "content", "the full stream reads back differently");
  c.state(mc::Hash().add(k).add(zip).add(l).h);
}
// the three files of a directory, each cut or missing
static void osh_dir(mc::Ctx& c) {
  oh::Library lib;
  auto m = make(lib, 0);
  decorate(m);
  auto x = im::take(m);
  string dir = c.scratch() + "/t.osh";
  mkdir(dir.c_str(), 0700);
  unlink((dir + "/0").c_str());
  string f[3] = {im::emit(x, 9, c.flip(), false), "1\n", "9\n"};
  char const* n[3] = {"/0.osh", "/nparts", "/version"};
  int which = c.choose(3);
  int keep = which == 0 ? step_of(c, f[0].size()) : c.choose(int(f[which].size()) + 2) - 1;
  if (which) c.split();
  for (int i = 0; i < 3; ++i) {
    if (i == which && keep < 0)
      unlink((dir + n[i]).c_str());
    else
      im::spit(dir + n[i], i == which ? f[i].substr(0, size_t(keep)) : f[i]);
  }
  c.note("%s kept %d bytes", n[which], keep);
  oh::Mesh b(&lib);
  bool ok = accepted([&] { b = oh::binary::read(dir, lib.world(), c.flip()); });
  bool harmless = keep >= 0 && keep >= int(f[which].size()) - (which ? 1 : 0);
  MKREQ(ok == harmless, ok ? "accepted" : "refused", "%s cut to %d bytes: %s", n[which], keep, ok ? "accepted" : "refused");
  if (ok) MKREQ(im::diff(x, im::take(b)).empty(), "content", "%s cut to %d bytes: another mesh", n[which], keep);
  c.state(mc::Hash().add(which).add(keep).h);
}
static Image bare(oh::Mesh& m) {
  auto x = im::take(m);
  return x;
}
static void vtu(mc::Ctx& c) {
  oh::Library lib;
  int k = c.choose(3);
  bool zip = c.flip();
  auto m = make(lib, k);
  m.add_tag<I8>(0, "b", 2, oh::Read<I8>(m.nverts() * 2, 7));
  m.add_tag<Real>(m.dim(), "r", 4, oh::Reals(m.nelems() * 4, 0.1));
  std::ostringstream o;
  oh::vtk::write_vtu(o, &m, m.dim(), oh::vtk::get_all_vtk_tags(&m, m.dim()), zip);
  auto s = o.str();
  auto read = [&](string const& t, oh::Mesh& b) {
    std::istringstream i(t);
    oh::vtk::read_vtu(i, lib.world(), &b);
  };
  oh::Mesh full(&lib);
  read(s, full);
  auto x = bare(full);
  int l = step_of(c, s.size());
  c.note("mesh %d zip %d: %d of %zu bytes", k, zip, l, s.size());
  oh::Mesh b(&lib);
  bool ok = accepted([&] { read(s.substr(0, size_t(l)), b); });
  MKREQ(ok == (size_t(l) + 1 >= s.size()), ok ? "accepted" : "refused", ".vtu of %zu bytes cut to %d: %s", s.size(), l, ok ? "accepted" : "refused");
  if (ok) MKREQ(im::diff(x, bare(b)).empty(), "content", "the full file reads back differently");
  c.state(mc::Hash().add(k).add(zip).add(l).h);
}
static void msh(mc::Ctx& c) {
  oh::Library lib;
  int k = c.choose(3);
  auto m = make(lib, k);
  std::ostringstream o;
  oh::gmsh::write(o, &m);
  auto s = o.str();
  auto read = [&](string const& t) {
    std::istringstream i(t);
    return oh::gmsh::read(i, lib.world());
  };
  auto full = read(s);
  auto x = bare(full);
  int l = step_of(c, s.size());
  c.note("mesh %d: %d of %zu bytes", k, l, s.size());
  oh::Mesh b(&lib);
  bool ok = accepted([&] { b = read(s.substr(0, size_t(l))); });
  MKREQ(ok == (size_t(l) + 1 >= s.size()), ok ? "accepted" : "refused", ".msh of %zu bytes cut to %d: %s", s.size(), l, ok ? "accepted" : "refused");
  if (ok) MKREQ(im::diff(x, bare(b)).empty(), "content", "the full file reads back differently");
  c.state(mc::Hash().add(k).add(l).h);
}
static void reals(mc::Ctx& c) {
  oh::Library lib;
  int n = 1 + c.choose(3), w = 1 + c.choose(2);
  c.split();
  vector<Real> v;
  for (int i = 0; i < n * w; ++i) v.push_back(i % 2 ? -0.1 * i : 1.0 / (i + 3));
  std::ostringstream o;
  oh::write_reals_txt(o, arr(v), w);
  auto s = o.str();
  int l = c.choose(int(s.size()) + 1);
  std::istringstream i(s.substr(0, size_t(l)));
  oh::Reals b;
  bool ok = accepted([&] { b = oh::read_reals_txt(i, n, w); });
  // a cut inside the last number leaves a number: only complete files promise values
  bool whole = size_t(l) + 1 >= s.size();
  size_t last = s.find_last_of(" \n", s.size() - 2);
  bool inside_last = last == string::npos || size_t(l) > last + 1;
  if (whole || !inside_last) MKREQ(ok == whole, ok ? "accepted" : "refused", "text of %zu bytes cut to %d: %s", s.size(), l, ok ? "accepted" : "refused");
  if (whole) MKREQ(vec(b) == v, "content", "values read back differ");
  c.state(mc::Hash().add(n).add(w).add(l).h);
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C19",
      {
          {"osh-stream", osh_stream, 60, false, "every proper prefix of the .osh stream of 4 meshes, compressed and not"},
          {"osh-dir", osh_dir, 60, false, "every proper prefix (or absence) of each file of an .osh directory"},
          {"vtu", vtu, 60, false, "every proper prefix of the .vtu of 3 meshes, compressed and not"},
          {"msh", msh, 60, false, "every proper prefix of the .msh of 3 meshes"},
          {"reals", reals, 60, false, "every prefix of 6 value files"},
      });
}
