// C18: .osh files give back exactly the mesh that was written: serially, in
// parallel, onto more ranks, and from every version of the format.
#include <Omega_h_amr.hpp>
#include <Omega_h_box.hpp>
#include <Omega_h_file.hpp>
#include <sys/stat.h>
#include <unistd.h>
#include <limits>
#include "distkit.hpp"
#include "image.hpp"
#include "soups.hpp"
using namespace mk;
using namespace dk;
using namespace minimpi;
using im::Image;
using std::string;

static vector<double> const reals = {0.1, -0.0, 1e308 * 10, -1e308 * 10, std::numeric_limits<double>::quiet_NaN(), 4.9e-324, 1.7976931348623157e308, -1.0 / 3};
static vector<I64> const longs = {0, -1, INT64_MAX, INT64_MIN, 1ll << 32, 0x0102030405060708ll};
static vector<I32> const ints = {0, -1, INT32_MAX, INT32_MIN, 0x01020304, 256};
static vector<I8> const bytes = {0, -1, 127, -128, 26, 10};

// ---- arrays and scalars, both byte orders
static string swapped(string s, size_t item) {
  for (size_t i = 0; i + item <= s.size(); i += item) std::reverse(s.begin() + long(i), s.begin() + long(i + item));
  return s;
}
template <class T>
static void one_array(mc::Ctx& c, vector<T> const& values) {
  int n = c.choose(c.thorough() ? 6 : 5);
  vector<T> v;
  for (int i = 0; i < n; ++i) v.push_back(values[size_t(c.choose(int(values.size())))]);
  bool zip = c.flip(), swap = c.flip();
  c.note("type size %zu, %s zip=%d swap=%d", sizeof(T), str(v).c_str(), zip, swap);
  std::ostringstream o;
  auto a = arr(v);
  oh::binary::write_array(o, a, zip, swap);
  oh::binary::write_value(o, T(values[2]), swap);
  oh::binary::write(o, string("tail"), swap);
  string s = o.str();
  MKREQ(im::raw(oh::Read<T>(a)) == string(reinterpret_cast<char const*>(v.data()), v.size() * sizeof(T)), "array-touched", "writing changed the array");
  // the stream itself
  im::Out want;
  auto put32 = [&](I32 x) {
    string b(reinterpret_cast<char*>(&x), 4);
    want.s += swap ? swapped(b, 4) : b;
  };
  string body(reinterpret_cast<char const*>(v.data()), v.size() * sizeof(T));
  if (swap) body = swapped(body, sizeof(T));
  T tail = values[2];
  string tb(reinterpret_cast<char*>(&tail), sizeof tail);
  if (swap) tb = swapped(tb, sizeof(T));
  put32(n);
  if (!zip) {
    want.s += body;
    want.s += tb;
    put32(4);
    want.s += "tail";
    MKREQ(s == want.s, "array-bytes", "the written bytes differ from the format");
  } else {
    MKREQ(s.substr(0, 4) == want.s, "array-bytes", "the written length differs from the format");
    string zb = s.substr(4, 8);
    if (swap) zb = swapped(zb, 8);
    I64 z;
    memcpy(&z, zb.data(), 8);
    MKREQ(z > 0 && 12 + size_t(z) + sizeof(T) + 8 == s.size(), "array-bytes", "compressed size %lld in a stream of %zu bytes", (long long)z, s.size());
    string out(body.size() + 1, 'x');
    uLong got = uLong(body.size());
    MKREQ(uncompress(reinterpret_cast<Bytef*>(&out[0]), &got, reinterpret_cast<Bytef const*>(s.data() + 12), uLong(z)) == Z_OK && got == body.size() &&
              out.substr(0, got) == body,
        "array-bytes", "the compressed bytes differ from the format");
    MKREQ(s.substr(12 + size_t(z), sizeof(T)) == tb, "value-bytes", "the value after the array");
  }
  std::istringstream i(s);
  oh::Read<T> back;
  T t2;
  string name;
  oh::binary::read_array(i, back, zip, swap);
  oh::binary::read_value(i, t2, swap);
  oh::binary::read(i, name, swap);
  MKREQ(im::raw(back) == string(reinterpret_cast<char const*>(v.data()), v.size() * sizeof(T)), "array-back", "read back %s", str(vec(back)).c_str());
  MKREQ(memcmp(&t2, &tail, sizeof tail) == 0 && name == "tail", "value-back", "value or string read back");
  c.state(hash_of(v) ^ uint64_t(zip * 2 + swap + 4 * int(sizeof(T))));
}
static void arrays(mc::Ctx& c) {
  int t = c.choose(4);
  c.split();
  if (t == 0) one_array(c, bytes);
  if (t == 1) one_array(c, ints);
  if (t == 2) one_array(c, longs);
  if (t == 3) one_array(c, reals);
}

// ---- one rank: every combination of things a mesh may hold
template <class T>
static void add_special(oh::Mesh& m, int d, string const& name, int nc, vector<T> const& values, int shift) {
  vector<T> v;
  for (LO i = 0; i < m.nents(d) * nc; ++i) v.push_back(values[size_t(i + shift) % values.size()]);
  m.add_tag<T>(d, name, nc, arr(v));
}
static char const* names[] = {"edges4", "strip4", "tets3", "quads4", "hexes2", "tetring4"};
static void some_tags(mc::Ctx& c, oh::Mesh& m) {
  int which = c.choose(6), nc = 1 + c.choose(3);
  for (int d = 0; d <= m.dim(); ++d) {
    if (which == 0) continue;
    if (which == 1 || which == 5) add_special<I8>(m, d, "b", nc, bytes, d);
    if (which == 2 || which == 5) add_special<I32>(m, d, "two words", nc + (which == 5), ints, d);
    if (which == 3 || which == 5) add_special<I64>(m, d, "\xc3\xa9\n\"<", nc, longs, d);
    if (which == 4 || which == 5) add_special<Real>(m, d, string(300, 'n'), which == 5 ? 127 : nc, reals, d);
  }
}
static void some_meta(mc::Ctx& c, oh::Mesh& m) {
  int h = c.choose(4);
  if (h) {
    auto r = std::make_shared<oh::inertia::Rib>();
    for (int i = 0; i < h - 1; ++i) r->axes.push_back(oh::vector_3(0.1 * i, -0.0, 1 / 3.0));
    m.set_rib_hints(r);
  }
  switch (c.choose(4)) {
    case 1: m.class_sets["left"] = {{2, 7}}; break;
    case 2:
      m.class_sets["a"] = {{0, -1}, {m.dim(), INT32_MAX}};
      m.class_sets["b b"] = {{1, 3}, {1, 2}, {1, 3}};
      break;
    case 3:
      m.class_sets["empty"] = {};
      m.class_sets[""] = {{3, 0}};
      break;
  }
}
static void round_trip(mc::Ctx& c, oh::Library& lib, oh::Mesh& m, string const& what) {
  auto before = im::take(m);
  std::ostringstream o;
  oh::binary::write(o, &m);
  auto s = o.str();
  auto d0 = im::diff(before, im::take(m));
  MKREQ(d0.empty(), "written-mesh", "%s: writing changed the mesh: %s", what.c_str(), d0.c_str());
  auto parsed = im::parse(s);
  auto d1 = im::diff(before, parsed);
  MKREQ(d1.empty(), "written", "%s: the stream holds another mesh: %s", what.c_str(), d1.c_str());
  std::istringstream i(s);
  oh::Mesh b(&lib);
  b.set_comm(lib.world());
  oh::binary::read(i, &b, oh::binary::latest_version);
  auto d2 = im::diff(before, im::take(b));
  MKREQ(d2.empty(), "read", "%s: reading gives another mesh: %s", what.c_str(), d2.c_str());
  MKREQ(size_t(i.tellg()) == s.size(), "read-length", "%s: the reader stopped at byte %zd of %zu", what.c_str(), ssize_t(i.tellg()), s.size());
  check_adjacencies(b, false);
  c.state(mc::Hash().add(s).h);
  c.outcome(mc::Hash().add(s).h);
}
static void serial(mc::Ctx& c) {
  oh::Library lib;
  int k = c.choose(9);
  oh::Mesh m(&lib);
  string what;
  if (k < 6) {
    m = mk::build(lib, base(names[k]).s);
    what = names[k];
  } else if (k == 6) {
    m = oh::build_box(lib.world(), OMEGA_H_SIMPLEX, 1, 1, 0, 1, 2, 0);
    what = "box";
  } else {
    m = k == 7 ? oh::build_box(lib.world(), OMEGA_H_HYPERCUBE, 1, 1, 0, 2, 1, 0) : oh::build_box(lib.world(), OMEGA_H_HYPERCUBE, 1, 1, 1, 2, 1, 1);
    oh::TransferOpts x;
    x.type_map["level"] = OMEGA_H_INHERIT;
    oh::Write<I8> mark(m.nelems(), 0);
    mark[0] = 1;
    oh::amr::refine(&m, mark, oh::TransferOpts());
    what = "amr";
  }
  c.split();
  some_tags(c, m);
  some_meta(c, m);
  int part = c.choose(3);
  if (part == 1) m.set_parting(OMEGA_H_GHOSTED, 2, false);
  if (part == 2) m.set_parting(OMEGA_H_VERT_BASED, false);
  c.note("%s, parting %d", what.c_str(), part);
  round_trip(c, lib, m, what);
}

// ---- every version of the format, with and without compression
static void versions(mc::Ctx& c) {
  oh::Library lib;
  int version = 1 + c.choose(9);
  bool zip = c.flip();
  int place = c.choose(3);  // version in the stream; stream given the number; directory
  int k = c.choose(6);
  c.split();
  auto m = mk::build(lib, base(names[k]).s);
  if (version < 7 && m.family() != OMEGA_H_SIMPLEX) c.prune();
  some_tags(c, m);
  some_meta(c, m);
  auto x = im::take(m);
  if (version < 8) x.sets.clear();
  if (version >= 9 && c.flip()) {
    x.parents = true;
    for (int d = 0; d <= x.dim; ++d) {
      x.pidx[d] = im::raw(arr(vector<LO>(size_t(x.nents[d]), d ? 0 : -1)));
      x.pcodes[d] = im::raw(arr(vector<I8>(size_t(x.nents[d]), I8(d * 5))));
    }
  }
  if (version < 3) x.layers = 0;
  bool in_stream = place == 0;
  c.note("version %d zip=%d place=%d %s", version, zip, place, names[k]);
  oh::Mesh b(&lib);
  if (place < 2) {
    std::istringstream i(im::emit(x, version, zip, in_stream));
    b.set_comm(lib.world());
    oh::binary::read(i, &b, in_stream ? -1 : version);
  } else {
    string dir = c.scratch() + "/v.osh";
    mkdir(dir.c_str(), 0700);
    unlink((dir + "/0").c_str());
    unlink((dir + "/0.osh").c_str());
    unlink((dir + "/version").c_str());
    im::spit(dir + "/nparts", "1\n");
    if (version >= 4) im::spit(dir + "/version", std::to_string(version) + "\n");
    im::spit(dir + (version >= 4 ? "/0.osh" : "/0"), im::emit(x, version, zip, version < 4));
    b = oh::binary::read(dir, lib.world(), c.flip());
  }
  auto d = im::diff(x, im::take(b));
  MKREQ(d.empty(), "version", "version %d%s: %s", version, zip ? " compressed" : "", d.c_str());
  c.state(mc::Hash().add(version).add(zip).add(place).add(k).add(x.tags[0].size()).h ^ c.pos_);
}

// ---- several ranks
struct Scn {
  Soup s;
  int n, readers, shape, strict;
  vector<int> owner;
};
static void play(mc::Ctx& c, Scn const& sc, Options o) {
  string text = sc.s.text() + str(sc.owner) + " writers=" + std::to_string(sc.n) + " readers=" + std::to_string(sc.readers) + " shape=" + std::to_string(sc.shape);
  c.note("%s", text.c_str());
  mc::Hash h;
  h.add(text).add(o.eager).add(sc.strict);
  c.state(h.h);
  o.config = h.h;
  o.nranks = std::max(sc.n, sc.readers);
  string dir = c.scratch() + "/p.osh";
  for (int r = 0; r < 4; ++r) unlink((dir + "/" + std::to_string(r) + ".osh").c_str());
  unlink((dir + "/nparts").c_str());
  unlink((dir + "/version").c_str());
  rmdir(dir.c_str());
  vector<Image> before(size_t(sc.n)), after(size_t(o.nranks));
  Snap s1, s2;
  s1.what = "before writing";
  s2.what = "after reading";
  s1.r.resize(size_t(sc.n));
  s2.r.resize(size_t(sc.readers));
  bool explored = o.explore;
  run(c, o, [&](int me) {
    explore(false);
    oh::Library lib;
    auto world = lib.world();
    bool writer = me < sc.n;
    auto comm = world->split(writer ? 0 : 1, me);
    if (writer) {
      auto m = build_parted(lib, comm, sc.s, sc.owner);
      add_identity_tags(m);
      m.class_sets["set"] = {{1, 2}};
      m.class_sets["nothing"] = {};
      auto vg = m.globals(0);
      vector<Real> co;
      for (LO v = 0; v < m.nverts(); ++v)
        for (int k = 0; k < sc.s.dim; ++k) co.push_back(Real(vg[v] * (k + 3) % 5));
      m.add_coords(arr(co));
      if (sc.shape == 1) m.set_parting(OMEGA_H_VERT_BASED);
      if (sc.shape >= 2) m.set_parting(OMEGA_H_GHOSTED, sc.shape - 1, false);
      if (sc.shape == 0 && sc.n == 2 && sc.strict) m.balance();  // leaves hints
      auto s = snapshot(m);
      s1.r[size_t(s.rank)] = s;
      before[size_t(me)] = im::take(m);
      comm->barrier();
      explore(explored);
      oh::binary::write(dir, &m);
      explore(false);
      // everything is on disk as soon as any rank returns
      for (int r = 0; r < sc.n; ++r) {
        auto f = im::slurp(dir + "/" + std::to_string(r) + ".osh");
        require(!f.empty(), "part-missing", "write() returned on rank %d before part %d was on disk", me, r);
        try {
          auto d = im::diff(before[size_t(r)], im::parse(f));
          require(d.empty(), "part-content", "part %d: %s", r, d.c_str());
        } catch (mc::Failure const& e) {
          minimpi::fail("part-incomplete", "write() returned on rank %d while part %d was: %s", me, r, e.msg.c_str());
        }
      }
      require(im::slurp(dir + "/nparts") == std::to_string(sc.n) + "\n", "nparts", "nparts file");
      require(im::slurp(dir + "/version") == "9\n", "version-file", "version file");
    }
    world->barrier();
    if (sc.strict == 2) {
      // a strict reader with another number of ranks has to refuse
      bool refused = false;
      auto two = world->split(me < sc.readers ? 0 : 1, me);
      if (me < sc.readers) {
        try {
          oh::binary::read(dir, two, true);
        } catch (oh::exception const&) {
          refused = true;
        }
        require(refused == (sc.readers != sc.n), "strict", "strict read by %d ranks of %d parts: %s", sc.readers, sc.n, refused ? "refused" : "accepted");
      }
      world->barrier();
      return;
    }
    auto rc = world->split(me < sc.readers ? 0 : 1, me);
    if (me < sc.readers) {
      explore(explored);
      oh::Mesh b(&lib);
      I32 np = oh::binary::read(dir, rc, &b, sc.strict == 1 && sc.readers == sc.n);
      explore(false);
      require(np == sc.n, "nparts-returned", "read() says %d parts", np);
      require(b.comm() == rc, "read-comm", "the mesh is not on the reader's communicator");
      auto s = snapshot(b);
      s2.r[size_t(s.rank)] = s;
      check_adjacencies(b, false);
      after[size_t(me)] = im::take(b);
      rc->barrier();
    }
    world->barrier();
  });
  Expect x;
  x.sorted_local = false;
  check_global(s1, sc.s, x);
  c.step(mpi_calls());
  if (sc.strict == 2) return;
  for (int r = 0; r < sc.n; ++r) {
    auto a = after[size_t(r)];
    if (sc.readers != sc.n) {
      MKREQ(!a.hints, "hints", "hints after reading onto more ranks");
      a.hints = before[size_t(r)].hints;
      a.axes = before[size_t(r)].axes;
      a.size = sc.n;
    }
    auto d = im::diff(before[size_t(r)], a);
    MKREQ(d.empty(), "parallel-read", "part %d: %s", r, d.c_str());
  }
  for (int r = sc.n; r < sc.readers; ++r) {
    auto& e = after[size_t(r)];
    for (int d = 0; d <= sc.s.dim; ++d) {
      MKREQ(e.nents[d] == 0, "extra-rank", "rank %d is beyond the parts but has entities", r);
      std::map<string, std::pair<int, int>> want, got;
      for (auto& t : after[0].tags[d]) want[t.name] = {t.type, t.ncomps};
      for (auto& t : e.tags[d]) got[t.name] = {t.type, t.ncomps};
      MKREQ(want == got, "extra-rank-tags", "rank %d, which is beyond the parts, does not have the tags of dimension %d", r, d);
    }
    MKREQ(e.sets == after[0].sets, "extra-rank-sets", "rank %d, which is beyond the parts, does not have the class sets", r);
    MKREQ(e.parting == after[0].parting && e.layers == after[0].layers && e.dim == after[0].dim && e.family == after[0].family, "extra-rank-kind",
        "rank %d, which is beyond the parts, does not have the parting, dimension or family", r);
  }
  check_global(s2, sc.s, x);
  mc::Hash out;
  for (auto& r : s2.r)
    for (int d = 0; d <= sc.s.dim; ++d) out.add(r.ents[d].size());
  c.outcome(out.h);
}
static void parallel(mc::Ctx& c, vector<char const*> which, int n) {
  Scn sc;
  sc.n = n;
  sc.s = base(which[size_t(c.choose(int(which.size())))]).s;
  sc.owner = choose_digits(c, int(sc.s.elems.size()), n);
  c.split();
  sc.readers = 1 + c.choose(4);
  sc.shape = c.choose(4);
  sc.strict = c.choose(3);
  if (sc.readers < n && sc.strict != 2) c.prune();
  Options o;
  o.explore = false;
  play(c, sc, o);
}
static void schedules(mc::Ctx& c, int n, int bound) {
  Scn sc;
  sc.n = n;
  sc.s = base("strip4").s;
  for (size_t e = 0; e < sc.s.elems.size(); ++e) sc.owner.push_back(int(e) % n);
  sc.readers = n + c.choose(2);
  sc.shape = 2 * c.choose(2);
  sc.strict = c.choose(2);
  Options o;
  o.eager = !c.flip();
  c.split();
  c.deviation_bound = bound;
  play(c, sc, o);
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C18",
      {
          {"arrays", arrays, 60, false, "all arrays of up to 4 (thorough 5) special values of each type x compressed x byte order"},
          {"serial", serial, 60, false, "9 meshes (2 with refinement parents) x 6 tag sets x 3 widths x 4 hints x 4 class sets x 3 partings"},
          {"versions", versions, 60, false, "formats 1-9 written independently x compressed x where the version is x 6 meshes x tags, hints, sets, parents"},
          {"par2", [](mc::Ctx& c) { parallel(c, {"edges4", "strip4", "tets3", "quads4", "hexes2"}, 2); }, 60, false,
              "5 meshes, every assignment to 2 parts, 1-4 reading ranks, 4 partings, strict and not"},
          {"par3", [](mc::Ctx& c) { c.thorough() ? parallel(c, {"edges4", "strip4", "tets3", "quads4"}, 3) : parallel(c, {"tets3", "hexes2"}, 3); }, 60, false,
              "2 (thorough 4) meshes, every assignment to 3 parts, 1-4 reading ranks, 4 partings, strict and not"},
          {"sched2", [](mc::Ctx& c) { schedules(c, 2, c.thorough() ? 2 : 1); }, 60, false, "2 writers, all schedules with <=1 (thorough 2) deviations"},
          {"sched3", [](mc::Ctx& c) { schedules(c, 3, 1); }, 60, true, "3 writers, all schedules with <=1 deviation"},
      });
}
