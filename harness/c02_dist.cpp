// C02: the distributor delivers exactly the described packets, whatever the
// map, the rank schedule and the later life of the object.
#include <Omega_h_dist.hpp>
#include <Omega_h_linpart.hpp>
#include <Omega_h_map.hpp>
#include <Omega_h_owners.hpp>
#include "osh.hpp"
using namespace minimpi;
using std::pair;
using std::vector;

template <class F>
static void with_world(mc::Ctx& c, Options const& o, F f) {
  run(c, o, [&](int r) {
    bool was = explore(false);
    oh::Library lib;
    auto world = lib.world();
    explore(was);
    f(r, world);
    explore(false);
  });
}

struct Map {
  int n;
  vector<vector<pair<int, int>>> dest;  // per rank, per item: (rank, root)
  vector<int> nroots;
  oh::Remotes remotes(int r) const {
    vector<I32> a;
    vector<LO> b;
    for (auto& d : dest[size_t(r)]) {
      a.push_back(d.first);
      b.push_back(d.second);
    }
    return oh::Remotes(arr(a), arr(b));
  }
  // items (rank, item) arriving at root (rank, root)
  vector<pair<int, int>> at(int r, int root) const {
    vector<pair<int, int>> v;
    for (int a = 0; a < n; ++a)
      for (size_t i = 0; i < dest[size_t(a)].size(); ++i)
        if (dest[size_t(a)][i] == std::make_pair(r, root)) v.push_back({a, int(i)});
    return v;
  }
  std::string text() const {
    std::string s;
    for (auto& d : dest) {
      s += "[";
      for (auto& p : d) s += " " + std::to_string(p.first) + "." + std::to_string(p.second);
      s += " ]";
    }
    return s;
  }
  uint64_t hash() const {
    mc::Hash h;
    for (auto& d : dest) {
      h.add(d.size());
      for (auto& p : d) h.add(p.first).add(p.second);
    }
    return h.h;
  }
};

static Map choose_map(mc::Ctx& c, int n, vector<int> items, int roots) {
  Map m;
  m.n = n;
  m.nroots.assign(size_t(n), roots);
  m.dest.resize(size_t(n));
  for (int r = 0; r < n; ++r)
    for (int i = 0; i < items[size_t(r)]; ++i) {
      int k = c.choose(n * roots);
      m.dest[size_t(r)].push_back({k / roots, k % roots});
    }
  return m;
}

// checks that the data delivered to the reverse items of root `root` are the
// multiset of the values that its senders sent
template <class T>
static void check_roots(Map const& m, int r, vector<LO> const& fan, vector<T> const& got, int width,
    std::function<T(int, int, int)> value, char const* what) {
  require(int(fan.size()) == m.nroots[size_t(r)] + 1, "dist-fan", "%s: %zu reverse roots", what, fan.size());
  require(int(got.size()) == fan.back() * width, "dist-size", "%s: %zu values for %d items", what, got.size(), int(fan.back()));
  for (int root = 0; root < m.nroots[size_t(r)]; ++root) {
    auto src = m.at(r, root);
    require(fan[size_t(root) + 1] - fan[size_t(root)] == int(src.size()), "dist-degree", "%s: root %d.%d has %d items, %zu were sent",
        what, r, root, int(fan[size_t(root) + 1] - fan[size_t(root)]), src.size());
    vector<vector<T>> a, b;
    for (auto& p : src) {
      vector<T> v;
      for (int w = 0; w < width; ++w) v.push_back(value(p.first, p.second, w));
      a.push_back(v);
    }
    for (int i = fan[size_t(root)]; i < fan[size_t(root) + 1]; ++i)
      b.push_back(vector<T>(got.begin() + i * width, got.begin() + (i + 1) * width));
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    require(a == b, "dist-data", "%s: root %d.%d received other packets than were sent to it", what, r, root);
  }
}

static void check_dist(Map const& m, int r, oh::Dist const& d, vector<int> const& newrank, char const* what, bool light) {
  int n = m.n;
  auto items = int(m.dest[size_t(r)].size());
  require(d.nitems() == items, "dist-nitems", "%s: nitems", what);
  require(d.ndests() == m.nroots[size_t(r)], "dist-ndests", "%s: ndests", what);
  require(d.nsrcs() == items, "dist-nsrcs", "%s: nsrcs", what);
  auto inv = d.invert();
  auto fan = vec(inv.roots2items());
  {
    vector<I32> data;
    for (int i = 0; i < items; ++i) data.push_back(100 * r + i);
    auto got = vec(d.exch(arr(data), 1));
    check_roots<I32>(m, r, fan, got, 1, [](int a, int i, int) { return 100 * a + i; }, what);
  }
  auto back = d.items2dests();
  auto br = vec(back.ranks);
  auto bi = vec(back.idxs);
  for (int i = 0; i < items; ++i) {
    auto p = m.dest[size_t(r)][size_t(i)];
    require(br.size() == size_t(items) && bi.size() == size_t(items) && br[size_t(i)] == newrank[size_t(p.first)] && bi[size_t(i)] == p.second,
        "dist-items2dests", "%s: items2dests of item %d.%d says %d.%d, not %d.%d", what, r, i, br[size_t(i)], bi[size_t(i)],
        newrank[size_t(p.first)], p.second);
  }
  // roots answer their items
  {
    vector<Real> v;
    for (int i = 0; i < m.nroots[size_t(r)]; ++i)
      for (int w = 0; w < 3; ++w) v.push_back(r + i * 0.25 + w * 0.0625);
    auto got = vec(inv.exch(arr(v), 3));
    for (int i = 0; i < items; ++i)
      for (int w = 0; w < 3; ++w) {
        auto p = m.dest[size_t(r)][size_t(i)];
        require(got.size() == size_t(3 * items) && got[size_t(3 * i + w)] == p.first + p.second * 0.25 + w * 0.0625, "dist-inverse",
            "%s: item %d.%d received something else than the data of its root", what, r, i);
      }
  }
  if (light) return;
  {
    vector<I8> data;
    for (int i = 0; i < items; ++i) {
      data.push_back(I8(10 * r + i));
      data.push_back(I8(-i - 1));
    }
    auto got = vec(d.exch(arr(data), 2));
    check_roots<I8>(m, r, fan, got, 2, [](int a, int i, int w) { return w ? I8(-i - 1) : I8(10 * a + i); }, what);
  }
  {
    vector<I64> data;
    for (int i = 0; i < items; ++i) data.push_back((I64(1) << 40) * (r + 1) - i);
    auto val = [](int a, int i) { return (I64(1) << 40) * (a + 1) - i; };
    auto mn = vec(d.exch_reduce(arr(data), 1, OMEGA_H_MIN));
    auto mx = vec(d.exch_reduce(arr(data), 1, OMEGA_H_MAX));
    auto sm = vec(d.exch_reduce(arr(data), 1, OMEGA_H_SUM));
    require(int(mn.size()) == m.nroots[size_t(r)], "dist-reduce", "%s: exch_reduce size", what);
    for (int root = 0; root < m.nroots[size_t(r)]; ++root) {
      auto src = m.at(r, root);
      I64 s = 0, lo = 0, hi = 0;
      for (size_t k = 0; k < src.size(); ++k) {
        auto v = val(src[k].first, src[k].second);
        s += v;
        lo = k ? std::min(lo, v) : v;
        hi = k ? std::max(hi, v) : v;
      }
      require(sm[size_t(root)] == s, "dist-reduce", "%s: SUM at %d.%d", what, r, root);
      if (!src.empty())
        require(mn[size_t(root)] == lo && mx[size_t(root)] == hi, "dist-reduce", "%s: MIN/MAX at %d.%d", what, r, root);
    }
  }
  auto ir = vec(d.items2ranks());
  for (int i = 0; i < items; ++i)
    require(ir[size_t(i)] == newrank[size_t(m.dest[size_t(r)][size_t(i)].first)], "dist-items2ranks", "%s: items2ranks", what);
  auto mr = vec(d.msgs2ranks());
  std::set<int> peers;
  for (auto& p : m.dest[size_t(r)]) peers.insert(newrank[size_t(p.first)]);
  require(std::set<int>(mr.begin(), mr.end()) == peers && mr.size() == peers.size(), "dist-msgs2ranks", "%s: msgs2ranks %s", what, str(mr).c_str());
  (void)n;
}

static void map_suite(mc::Ctx& c, int n, vector<int> items, int roots, int devs, bool light) {
  auto m = choose_map(c, n, items, roots);
  c.split();
  Options o;
  o.nranks = n;
  o.eager = c.choose(2) == 0;
  c.deviation_bound = devs;
  o.config = m.hash();
  c.note("ranks=%d map(item->rank.root)=%s eager=%d", n, m.text().c_str(), int(o.eager));
  vector<int> id;
  for (int i = 0; i < n; ++i) id.push_back(i);
  with_world(c, o, [&](int r, oh::CommPtr world) {
    oh::Dist d(world, m.remotes(r), m.nroots[size_t(r)]);
    check_dist(m, r, d, id, "Dist", light);
  });
  c.outcome(m.hash());
}

// asynchronous exchange outliving the distributor it was started from
static void iexch_suite(mc::Ctx& c, int n, vector<int> items, int roots, int devs) {
  auto m = choose_map(c, n, items, roots);
  int life = c.choose(3, "lifetime");  // 0 alive, 1 temporary, 2 reassigned before get
  int polls = c.choose(3);
  c.split();
  Options o;
  o.nranks = n;
  o.eager = c.choose(2) == 0;
  c.deviation_bound = devs;
  o.config = m.hash() + uint64_t(life * 3 + polls);
  c.note("ranks=%d map=%s lifetime=%d polls=%d eager=%d", n, m.text().c_str(), life, polls, int(o.eager));
  with_world(c, o, [&](int r, oh::CommPtr world) {
    auto d = std::unique_ptr<oh::Dist>(new oh::Dist(world, m.remotes(r), m.nroots[size_t(r)]));
    auto fan = vec(d->invert().roots2items());
    vector<Real> data;
    for (size_t i = 0; i < m.dest[size_t(r)].size(); ++i)
      for (int w = 0; w < 2; ++w) data.push_back(10 * r + double(i) + 0.5 * w);
    auto want = vec(d->exch(arr(data), 2));
    vector<Real> answers;
    for (int i = 0; i < m.nroots[size_t(r)]; ++i)
      for (int w = 0; w < 2; ++w) answers.push_back(100 * r + i + 0.25 * w);
    auto want2 = vec(d->invert().exch(arr(answers), 2));
    auto fut = d->iexch(arr(data), 2);
    auto fut2 = d->invert().iexch(arr(answers), 2);
    if (life == 1) d.reset();
    if (life == 2) *d = oh::Dist(world, oh::identity_remotes(world, 1), 1);
    for (int i = 0; i < polls; ++i) fut.completed();
    auto got = vec(fut.get());
    require(got == want, "iexch", "iexch gave %s, exch gave %s", str(got).c_str(), str(want).c_str());
    auto got2 = vec(fut2.get());
    require(got2 == want2, "iexch", "iexch from the roots gave %s, exch gave %s", str(got2).c_str(), str(want2).c_str());
    for (size_t i = 0; i < m.dest[size_t(r)].size(); ++i)
      for (size_t w = 0; w < 2; ++w) {
        auto t = m.dest[size_t(r)][i];
        require(got2[2 * i + w] == 100 * t.first + t.second + 0.25 * double(w), "iexch", "iexch from the roots gave item %zu %g", i, got2[2 * i + w]);
      }
    check_roots<Real>(m, r, fan, got, 2, [](int a, int i, int w) { return 10 * a + i + 0.5 * w; }, "iexch");
  });
}

static void change_comm_suite(mc::Ctx& c, int n, vector<int> items, int roots, int devs) {
  auto m = choose_map(c, n, items, roots);
  auto perm = choose_perm(c, n);  // new rank of each old rank
  bool twice = c.flip("and-back");
  c.split();
  Options o;
  o.nranks = n;
  o.eager = c.choose(2) == 0;
  c.deviation_bound = devs;
  o.config = m.hash() + hash_of(perm);
  c.note("ranks=%d map=%s newranks=%s back=%d", n, m.text().c_str(), str(perm).c_str(), int(twice));
  vector<int> id;
  for (int i = 0; i < n; ++i) id.push_back(i);
  with_world(c, o, [&](int r, oh::CommPtr world) {
    oh::Dist d(world, m.remotes(r), m.nroots[size_t(r)]);
    auto nc = world->split(0, perm[size_t(r)]);
    require(nc->rank() == perm[size_t(r)], "split", "split");
    auto d2 = d;
    d2.change_comm(nc);
    require(d2.parent_comm() == nc, "dist-parent", "parent_comm after change_comm");
    check_dist(m, r, d2, perm, "after change_comm", true);
    check_dist(m, r, d, id, "copied from", true);
    if (twice) {
      d2.change_comm(world);
      check_dist(m, r, d2, id, "after changing back", true);
    }
  });
}

// fan on the sending side, ordering by globals on the receiving side
static void fan_suite(mc::Ctx& c, int n, int maxdeg, int roots, int devs) {
  vector<vector<int>> deg{size_t(n)};
  Map m;
  m.n = n;
  m.nroots.assign(size_t(n), 2);
  m.dest.resize(size_t(n));
  for (int r = 0; r < n; ++r) deg[size_t(r)] = choose_digits(c, roots, maxdeg + 1);
  bool by_globals = c.flip("globals");
  for (int r = 0; r < n; ++r) {
    int k = 0;
    for (int d : deg[size_t(r)]) k += d;
    for (int i = 0; i < k; ++i) {
      int x = by_globals ? c.choose(n) * 2 : c.choose(n * 2);
      m.dest[size_t(r)].push_back({x / 2, x % 2});
    }
  }
  c.split();
  Options o;
  o.nranks = n;
  o.eager = c.choose(2) == 0;
  c.deviation_bound = devs;
  o.config = m.hash();
  c.note("ranks=%d degrees=%s map=%s by_globals=%d", n, str(deg).c_str(), m.text().c_str(), int(by_globals));
  // distinct global of each item, not monotone in rank or index
  auto global = [&](int a, int i) { return GO((a * 7 + i * 5 + 3) % 31); };
  with_world(c, o, [&](int r, oh::CommPtr world) {
    vector<LO> fan{0};
    for (int d : deg[size_t(r)]) fan.push_back(fan.back() + d);
    vector<int> item2root;
    auto root_of = [&](int a, int i) {
      int k = 0;
      for (int q = 0;; ++q) {
        k += deg[size_t(a)][size_t(q)];
        if (i < k) return q;
      }
    };
    oh::Dist d;
    d.set_parent_comm(world);
    auto rem = m.remotes(r);
    d.set_dest_ranks(rem.ranks);
    if (by_globals) {
      vector<GO> g;
      for (size_t i = 0; i < m.dest[size_t(r)].size(); ++i) g.push_back(global(r, int(i)));
      d.set_dest_globals(arr(g));
    } else
      d.set_dest_idxs(rem.idxs, 2);
    d.set_roots2items(arr(fan));
    require(d.nroots() == int(deg[size_t(r)].size()), "dist-nroots", "nroots");
    vector<I32> data;
    for (int i = 0; i < int(deg[size_t(r)].size()); ++i) data.push_back(1000 * (r + 1) + i);
    auto got = vec(d.exch(arr(data), 1));
    if (by_globals) {
      vector<pair<GO, I32>> want;
      for (int root = 0; root < 2; ++root)
        for (auto& p : m.at(r, root)) want.push_back({global(p.first, p.second), I32(1000 * (p.first + 1) + root_of(p.first, p.second))});
      std::sort(want.begin(), want.end());
      vector<I32> w;
      for (auto& p : want) w.push_back(p.second);
      require(got == w, "dist-globals", "rank %d received %s, in order of globals it should be %s", r, str(got).c_str(), str(w).c_str());
    } else {
      auto rf = vec(d.invert().roots2items());
      check_roots<I32>(m, r, rf, got, 1, [&](int a, int i, int) { return I32(1000 * (a + 1) + root_of(a, i)); }, "fan");
      // reverse: every forward root reduces over the answers to its items
      vector<I64> v{r * 2 + 1, r * 2 + 2};
      auto inv = d.invert();
      auto s = vec(inv.exch_reduce(arr(v), 1, OMEGA_H_SUM));
      for (int q = 0; q < int(deg[size_t(r)].size()); ++q) {
        I64 want = 0;
        for (int i = fan[size_t(q)]; i < fan[size_t(q) + 1]; ++i) {
          auto p = m.dest[size_t(r)][size_t(i)];
          want += p.first * 2 + 1 + p.second;
        }
        require(s[size_t(q)] == want, "dist-reverse-reduce", "reverse reduction at root %d.%d", r, q);
      }
    }
  });
}

// owners from global numbers: every copy agrees on one owner, which is a copy
static void owners_suite(mc::Ctx& c, int n, int nglobals, int devs, bool prefs) {
  vector<vector<GO>> have{size_t(n)};
  for (int r = 0; r < n; ++r) {
    int mask = c.choose(1 << nglobals);
    for (int g = 0; g < nglobals; ++g)
      if (mask >> g & 1) have[size_t(r)].push_back(g);
    if (have[size_t(r)].size() > 1 && c.flip("descending")) std::reverse(have[size_t(r)].begin(), have[size_t(r)].end());
  }
  vector<int> pref(size_t(nglobals), -1);
  if (prefs)
    for (int g = 0; g < nglobals; ++g) {
      vector<int> holders;
      for (int r = 0; r < n; ++r)
        if (std::count(have[size_t(r)].begin(), have[size_t(r)].end(), g)) holders.push_back(r);
      if (!holders.empty()) pref[size_t(g)] = holders[size_t(c.choose(int(holders.size())))];
    }
  c.split();
  Options o;
  o.nranks = n;
  o.eager = c.choose(2) == 0;
  c.deviation_bound = devs;
  mc::Hash hh;
  for (auto& h : have) hh.add(hash_of(h));
  o.config = hh.h;
  c.note("ranks=%d globals=%s preferred=%s", n, str(have).c_str(), str(pref).c_str());
  with_world(c, o, [&](int r, oh::CommPtr world) {
    oh::Read<I32> own;
    if (prefs) {
      vector<I32> v;
      for (auto g : have[size_t(r)]) v.push_back(pref[size_t(g)]);
      own = arr(v);
    }
    auto rem = oh::owners_from_globals(world, arr(have[size_t(r)]), own);
    auto ranks = vec(rem.ranks);
    auto idxs = vec(rem.idxs);
    require(ranks.size() == have[size_t(r)].size() && idxs.size() == ranks.size(), "owners-size", "owners sizes");
    for (size_t i = 0; i < ranks.size(); ++i) {
      auto g = have[size_t(r)][i];
      int want = -1;
      if (prefs)
        want = pref[size_t(g)];
      else
        for (int q = 0; q < n; ++q)
          if (std::count(have[size_t(q)].begin(), have[size_t(q)].end(), g))
            if (want < 0 || have[size_t(q)].size() < have[size_t(want)].size()) want = q;
      require(ranks[i] == want, "owners-rank", "global %d is owned by %d according to rank %d, should be %d", int(g), ranks[i], r, want);
      auto& h = have[size_t(want)];
      require(idxs[i] >= 0 && idxs[i] < int(h.size()) && h[size_t(idxs[i])] == g, "owners-index", "owner index of global %d", int(g));
    }
  });
}

// variable-sized data of shared actors: copies get the owner's packets
static void varsize_suite(mc::Ctx& c, int n, int nact, int devs) {
  // actor g lives on every rank of a non-empty holder set, owned by one
  vector<vector<int>> held{size_t(n)};
  vector<int> owner, size;
  for (int g = 0; g < nact; ++g) {
    int mask = 1 + c.choose((1 << n) - 1);
    vector<int> hs;
    for (int r = 0; r < n; ++r)
      if (mask >> r & 1) hs.push_back(r), held[size_t(r)].push_back(g);
    owner.push_back(hs[size_t(c.choose(int(hs.size())))]);
    size.push_back(c.choose(3));
  }
  c.split();
  Options o;
  o.nranks = n;
  o.eager = c.choose(2) == 0;
  c.deviation_bound = devs;
  o.config = hash_of(owner) + 3 * hash_of(size) + 5 * [&] { mc::Hash h; for (auto& x : held) h.add(hash_of(x)); return h.h; }();
  c.note("ranks=%d actors=%s owners=%s sizes=%s", n, str(held).c_str(), str(owner).c_str(), str(size).c_str());
  with_world(c, o, [&](int r, oh::CommPtr world) {
    vector<I32> ra;
    vector<LO> ix, fan{0};
    for (int g : held[size_t(r)]) {
      ra.push_back(owner[size_t(g)]);
      auto& h = held[size_t(owner[size_t(g)])];
      ix.push_back(LO(std::find(h.begin(), h.end(), g) - h.begin()));
      fan.push_back(fan.back() + size[size_t(g)]);
    }
    oh::Dist c2o(world, oh::Remotes(arr(ra), arr(ix)), LO(ra.size()));
    auto vd = oh::create_dist_for_variable_sized(c2o, arr(fan));
    vector<I64> mine, want;
    for (int g : held[size_t(r)])
      for (int i = 0; i < size[size_t(g)]; ++i) {
        mine.push_back(1000 * r + 10 * g + i);
        want.push_back(1000 * owner[size_t(g)] + 10 * g + i);
      }
    auto got = vec(vd.invert().exch(arr(mine), 1));
    require(got == want, "variable-sized", "rank %d holds %s after the owners sent their data, should be %s", r, str(got).c_str(), str(want).c_str());
  });
}

int main(int argc, char** argv) {
  vector<mc::Suite> s;
  auto add = [&](char const* n, std::function<void(mc::Ctx&)> f, char const* b, bool th = false) {
    mc::Suite x;
    x.name = n;
    x.body = f;
    x.bounds = b;
    x.thorough_only = th;
    s.push_back(x);
  };
  add("map1", [](mc::Ctx& c) { map_suite(c, 1, {c.choose(4)}, 2, 0, false); }, "1 rank, <=3 items, 2 roots");
  add("map2", [](mc::Ctx& c) { int a = c.choose(3), b = c.choose(3); map_suite(c, 2, {a, b}, 2, c.thorough() ? 2 : 1, false); }, "2 ranks, <=2 items each, 2 roots each, <=1 (thorough 2) deviations");
  add("map2big", [](mc::Ctx& c) { map_suite(c, 2, {3, c.thorough() ? 3 : 2}, 2, 0, false); }, "2 ranks, 3+2 (thorough 3+3) items, all maps");
  add("map3", [](mc::Ctx& c) { int a = c.choose(2), b = c.choose(2), d = c.choose(3); map_suite(c, 3, {a, b, d}, 2, c.thorough() ? 1 : 0, !c.thorough()); }, "3 ranks, <=1,1,2 items, 2 roots each (thorough <=1 deviation)");
  add("map3big", [](mc::Ctx& c) { map_suite(c, 3, {2, 2, 2}, 1, 1, true); }, "3 ranks, 2 items each, 1 root each, <=1 deviation", true);
  add("map4", [](mc::Ctx& c) { map_suite(c, 4, {1, 1, 1, 1}, 1, c.thorough() ? 1 : 0, true); }, "4 ranks, 1 item each, 1 root each");
  add("iexch2", [](mc::Ctx& c) { int a = c.choose(3); iexch_suite(c, 2, {a, 2}, 2, c.thorough() ? 2 : 1); }, "2 ranks, distributor alive / destroyed / reassigned before get, <=1 (thorough 2) deviations");
  add("iexch3", [](mc::Ctx& c) { iexch_suite(c, 3, {1, 1, 1}, 1, c.thorough() ? 2 : 1); }, "3 ranks, <=1 (thorough 2) deviations");
  add("change2", [](mc::Ctx& c) { change_comm_suite(c, 2, {2, 1}, 2, 1); }, "2 ranks, all rank permutations, <=1 deviation");
  add("change3", [](mc::Ctx& c) { change_comm_suite(c, 3, {1, 1, c.thorough() ? 2 : 1}, 2, 0); }, "3 ranks, all rank permutations");
  add("fan2", [](mc::Ctx& c) { fan_suite(c, 2, 2, c.thorough() ? 2 : 1, c.thorough() ? 1 : 0); }, "2 ranks, fans of <=2, ordering by index or by global");
  add("fan2wide", [](mc::Ctx& c) { fan_suite(c, 2, 1, 2, 1); }, "2 ranks, 2 forward roots of degree <=1, <=1 deviation");
  add("fan3", [](mc::Ctx& c) { fan_suite(c, 3, 1, c.thorough() ? 2 : 1, 0); }, "3 ranks");
  add("owners2", [](mc::Ctx& c) { owners_suite(c, 2, 3, c.thorough() ? 1 : 0, c.flip()); }, "2 ranks, every placement of 3 globals");
  add("owners3", [](mc::Ctx& c) { owners_suite(c, 3, c.thorough() ? 3 : 2, 0, c.flip()); }, "3 ranks, every placement of 2 (thorough 3) globals");
  add("varsize2", [](mc::Ctx& c) { varsize_suite(c, 2, 2, c.thorough() ? 1 : 0); }, "2 ranks, 2 actors, sizes 0..2");
  add("varsize3", [](mc::Ctx& c) { varsize_suite(c, 3, 2, 0); }, "3 ranks, 2 actors, sizes 0..2");
  return mc::main(argc, argv, "C02", s);
}
