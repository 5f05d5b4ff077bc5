// C01: communicator semantics under every rank schedule (bounded deviations),
// both MPI progress modes.
#include "osh.hpp"
#include <limits>
using namespace minimpi;
using std::vector;

static void modes(mc::Ctx& c, Options& o) {
  o.eager = c.choose(2, "mode") == 0;
}

struct Rank {
  oh::Library lib;
  oh::CommPtr world;
  Rank() : lib() { world = lib.world(); }
};

template <class F>
static void with_world(mc::Ctx& c, Options const& o, F f) {
  run(c, o, [&](int r) {
    bool was = explore(false);
    oh::Library lib;
    auto world = lib.world();
    explore(was);
    f(r, world);
    explore(false);
  });
}

// ---- neighborhood communication ----
static void graph_suite(mc::Ctx& c, int n, int devs, int max_width, bool order_matters) {
  // destinations of each rank
  vector<vector<int>> dst(static_cast<size_t>(n));
  for (int r = 0; r < n; ++r) {
    int mask = c.choose(1 << n, "dsts");
    for (int d = 0; d < n; ++d)
      if (mask >> d & 1) dst[size_t(r)].push_back(d);
    if (order_matters && dst[size_t(r)].size() > 1 && c.flip("reversed"))
      std::reverse(dst[size_t(r)].begin(), dst[size_t(r)].end());
  }
  int width = 1 + c.choose(max_width, "width");
  int cnt = c.choose(3, "counts");
  c.split();
  Options o;
  o.nranks = n;
  modes(c, o);
  c.deviation_bound = devs;
  o.config = hash_of(vector<int>{n, width, cnt}) ^ [&] {
    mc::Hash h;
    for (auto& d : dst) h.add(hash_of(d));
    return h.h;
  }();
  // number of packets rank a sends to its k-th destination b
  auto count = [&](int a, int b) { return cnt == 0 ? 1 : 1 + (a * (cnt == 2 ? 3 : 1) + b * 2) % 3; };
  vector<vector<int>> src(static_cast<size_t>(n));
  for (int a = 0; a < n; ++a)
    for (int b : dst[size_t(a)]) src[size_t(b)].push_back(a);
  c.note("ranks=%d dsts=%s width=%d counts=%d eager=%d", n, str(dst).c_str(), width, cnt, int(o.eager));
  with_world(c, o, [&](int r, oh::CommPtr world) {
    auto const& D = dst[size_t(r)];
    auto const& S = src[size_t(r)];
    auto g = world->graph(arr(vector<I32>(D.begin(), D.end())));
    require(vec(g->sources()) == S, "graph-sources", "graph(%s) reports sources %s, senders are %s",
        str(D).c_str(), str(vec(g->sources())).c_str(), str(S).c_str());
    require(vec(g->destinations()) == D, "graph-destinations", "destinations changed");
    require(g->rank() == r && g->size() == n, "graph-rank", "graph communicator renumbered the ranks");
    // a second discovery right behind the first one, with other neighbours
    auto const& D2 = dst[size_t((r + 1) % n)];
    auto g2 = world->graph(arr(vector<I32>(D2.begin(), D2.end())));
    vector<int> S2;
    for (int a = 0; a < n; ++a)
      for (int b : dst[size_t((a + 1) % n)])
        if (b == r) S2.push_back(a);
    require(vec(g2->sources()) == S2, "graph-sources-2", "a second graph(%s) reports sources %s, senders are %s", str(D2).c_str(),
        str(vec(g2->sources())).c_str(), str(S2).c_str());
    auto inv = g->graph_inverse();
    require(vec(inv->sources()) == D && vec(inv->destinations()) == S, "graph-inverse", "graph_inverse is not the inverse");
    auto ag = vec(g->allgather(I64(r * 10 + 7)));
    for (size_t k = 0; k < S.size(); ++k)
      require(ag.size() == S.size() && ag[k] == S[k] * 10 + 7, "allgather", "allgather got %s from %s", str(ag).c_str(), str(S).c_str());
    vector<I32> one;
    for (int b : D) one.push_back(r * 100 + b);
    auto aa = vec(g->alltoall(arr(one)));
    require(aa.size() == S.size(), "alltoall", "alltoall size");
    for (size_t k = 0; k < S.size(); ++k)
      require(aa[k] == S[k] * 100 + r, "alltoall", "alltoall got %s from %s", str(aa).c_str(), str(S).c_str());
    // variable-sized
    vector<LO> sd{0}, rd{0};
    vector<Real> sb, want;
    for (int b : D) {
      for (int i = 0; i < count(r, b) * width; ++i) sb.push_back(r * 1000 + b * 100 + i + 0.5);
      sd.push_back(sd.back() + count(r, b));
    }
    for (int a : S) {
      for (int i = 0; i < count(a, r) * width; ++i) want.push_back(a * 1000 + r * 100 + i + 0.5);
      rd.push_back(rd.back() + count(a, r));
    }
    auto got = vec(g->alltoallv(arr(sb), arr(sd), arr(rd), width));
    require(got == want, "alltoallv", "rank %d got %s wants %s", r, str(got).c_str(), str(want).c_str());
    // and back along the inverse graph
    auto back = vec(inv->alltoallv(arr(got), arr(rd), arr(sd), width));
    require(back == sb, "alltoallv-inverse", "rank %d got its data back as %s", r, str(back).c_str());
    mc::Hash h;
    h.add(hash_of(got));
    c.outcome(h.h);
  });
}

// ---- futures ----
static void future_suite(mc::Ctx& c, int n, int devs) {
  int shape = c.choose(3, "shape");     // ring, all-to-all, gather to 0
  int polls = c.choose(4, "polls");     // polls before get(), 3 = until complete
  int nfut = 1 + c.choose(2, "futures");
  bool reverse_get = nfut > 1 && c.flip("reverse");
  bool two_comms = nfut > 1 && c.flip("two-comms");
  bool callback = c.flip("callback");
  bool between = c.flip("traffic-between");
  c.split();
  Options o;
  o.nranks = n;
  modes(c, o);
  c.deviation_bound = devs;
  o.config = hash_of(vector<int>{1, n, shape, polls, nfut, reverse_get, two_comms, callback, between});
  c.note("ranks=%d shape=%d polls=%d futures=%d reverse_get=%d two_comms=%d callback=%d eager=%d", n, shape, polls, nfut,
      int(reverse_get), int(two_comms), int(callback), int(o.eager));
  vector<vector<int>> dst(static_cast<size_t>(n)), src(static_cast<size_t>(n));
  for (int r = 0; r < n; ++r) {
    if (shape == 0) dst[size_t(r)] = {(r + 1) % n};
    if (shape == 1)
      for (int d = 0; d < n; ++d) dst[size_t(r)].push_back(d);
    if (shape == 2) dst[size_t(r)] = {0};
    for (int d : dst[size_t(r)]) src[size_t(d)].push_back(r);
  }
  with_world(c, o, [&](int r, oh::CommPtr world) {
    auto const& D = dst[size_t(r)];
    auto const& S = src[size_t(r)];
    bool was = explore(false);
    auto g0 = world->graph_adjacent(arr(vector<I32>(S.begin(), S.end())), arr(vector<I32>(D.begin(), D.end())));
    auto g1 = two_comms ? world->graph_adjacent(arr(vector<I32>(S.begin(), S.end())), arr(vector<I32>(D.begin(), D.end()))) : g0;
    explore(was);
    vector<oh::Future<I32>> fut;
    vector<vector<I32>> want(static_cast<size_t>(nfut));
    vector<int> calls(static_cast<size_t>(nfut), 0);
    for (int f = 0; f < nfut; ++f) {
      vector<I32> sb;
      vector<LO> sd{0}, rd{0};
      for (int b : D) {
        int m = 1 + (f + b) % 2;
        for (int i = 0; i < m; ++i) sb.push_back(1000 * f + 100 * r + 10 * b + i);
        sd.push_back(sd.back() + m);
      }
      for (int a : S) {
        int m = 1 + (f + r) % 2;
        for (int i = 0; i < m; ++i) want[size_t(f)].push_back(1000 * f + 100 * a + 10 * r + i);
        rd.push_back(rd.back() + m);
      }
      // the buffers are owned by the future alone
      fut.push_back((f ? g1 : g0)->ialltoallv(arr(sb), arr(sd), arr(rd), 1));
      if (callback) {
        auto* count = &calls[size_t(f)];
        fut.back().add_callback([count](oh::Read<I32> b) {
          ++*count;
          oh::Write<I32> w(b.size());
          for (LO i = 0; i < b.size(); ++i) w[i] = 2 * b[i];
          return oh::Read<I32>(w);
        });
        fut.back().add_callback([](oh::Read<I32> b) {
          oh::Write<I32> w(b.size());
          for (LO i = 0; i < b.size(); ++i) w[i] = b[i] + 1;
          return oh::Read<I32>(w);
        });
        for (auto& x : want[size_t(f)]) x = 2 * x + 1;
      }
    }
    if (between) {
      auto s = world->allreduce(I32(r + 1), OMEGA_H_SUM);
      require(s == n * (n + 1) / 2, "allreduce", "allreduce while messages are in flight gave %d", s);
    }
    for (int k = 0; k < nfut; ++k) {
      int f = reverse_get ? nfut - 1 - k : k;
      bool done = false;
      if (polls == 3) {
        while (!done) done = fut[size_t(f)].completed();
      } else
        for (int i = 0; i < polls; ++i) {
          bool now = fut[size_t(f)].completed();
          require(!(done && !now), "future-regress", "completed() went from true to false");
          done = now;
        }
      auto calls_before = mpi_calls();
      auto got = vec(fut[size_t(f)].get());
      (void)calls_before;
      require(got == want[size_t(f)], "future-value", "rank %d future %d after %d polls (completed=%d): got %s, sent %s", r, f,
          polls, int(done), str(got).c_str(), str(want[size_t(f)]).c_str());
      if (callback) require(calls[size_t(f)] == 1, "future-callback", "callback ran %d times", calls[size_t(f)]);
      bool threw = false;
      try {
        fut[size_t(f)].get();
      } catch (oh::exception const&) {
        threw = true;
      }
      require(threw, "future-twice", "get() answered twice");
    }
  });
}

// ---- collectives ----
template <class T>
static vector<T> alphabet();
template <> vector<I8> alphabet<I8>() { return {0, 1, -1, 127, -128}; }
template <> vector<I32> alphabet<I32>() { return {0, 3, -7, 1000000000, -1000000000}; }
template <> vector<I64> alphabet<I64>() { return {0, 5, -9, (I64(1) << 60), -(I64(1) << 60)}; }
template <> vector<Real> alphabet<Real>() { return {0, 0.5, -2.25, 1048576.0, -1.0 / 1024}; }

template <class T>
static void reduce_suite(mc::Ctx& c, int n) {
  auto A = alphabet<T>();
  vector<T> x;
  for (int i = 0; i < n; ++i) x.push_back(A[size_t(c.choose(int(A.size())))]);
  c.split();
  Options o;
  o.nranks = n;
  modes(c, o);
  o.reduce_order = c.choose(3, "order");
  c.deviation_bound = 0;
  o.config = hash_of(x);
  c.note("ranks=%d x=%s type-size=%d", n, str(x).c_str(), int(sizeof(T)));
  auto wrap = [](long double v) { return T(I64(v)); };
  (void)wrap;
  with_world(c, o, [&](int r, oh::CommPtr world) {
    T mn = *std::min_element(x.begin(), x.end()), mx = *std::max_element(x.begin(), x.end());
    require(world->allreduce(x[size_t(r)], OMEGA_H_MIN) == mn, "allreduce-min", "MIN over %s", str(x).c_str());
    require(world->allreduce(x[size_t(r)], OMEGA_H_MAX) == mx, "allreduce-max", "MAX over %s", str(x).c_str());
    // all partial sums of these values are exact in every order, except I8
    // and I32 which wrap around
    typedef typename std::conditional<std::is_same<T, Real>::value, Real, uint64_t>::type Acc;
    Acc s = 0, pre = 0;
    for (int i = 0; i < n; ++i) {
      if (i < r) pre += Acc(x[size_t(i)]);
      s += Acc(x[size_t(i)]);
    }
    auto sum = world->allreduce(x[size_t(r)], OMEGA_H_SUM);
    require(sum == T(s), "allreduce-sum", "SUM over %s", str(x).c_str());
    auto ex = world->exscan(x[size_t(r)], OMEGA_H_SUM);
    require(ex == T(pre), "exscan-sum", "exscan over %s on rank %d gave %.17g", str(x).c_str(), r, double(ex));
    if (r > 0) {
      T pm = *std::max_element(x.begin(), x.begin() + r);
      require(world->exscan(x[size_t(r)], OMEGA_H_MAX) == pm, "exscan-max", "exscan MAX over %s on rank %d", str(x).c_str(), r);
    } else
      world->exscan(x[size_t(r)], OMEGA_H_MAX);
    for (int root = 0; root < n; ++root) {
      T v = x[size_t(r)];
      world->bcast(v, root);
      require(v == x[size_t(root)], "bcast", "bcast of %s from %d", str(x).c_str(), root);
    }
    bool any = false, all = true;
    for (auto v : x) {
      any = any || v > 0;
      all = all && v > 0;
    }
    require(world->reduce_or(x[size_t(r)] > 0) == any, "reduce_or", "reduce_or over %s > 0", str(x).c_str());
    require(world->reduce_and(x[size_t(r)] > 0) == all, "reduce_and", "reduce_and over %s > 0", str(x).c_str());
  });
  c.outcome(hash_of(x));
}

static void int128_suite(mc::Ctx& c, int n) {
  static const oh::Int128 A[] = {oh::Int128(0, 0), oh::Int128(0, ~0ull), oh::Int128(-1, ~0ull), oh::Int128(5, 1ull << 63), oh::Int128(-7, 3)};
  vector<int> ix = choose_digits(c, n, 5);
  c.split();
  Options o;
  o.nranks = n;
  modes(c, o);
  o.reduce_order = c.choose(3);
  o.config = hash_of(ix);
  unsigned __int128 want = 0;
  for (int i : ix) want += (unsigned __int128)(uint64_t(A[i].high)) << 64 | A[i].low;
  c.note("ranks=%d values=%s", n, str(ix).c_str());
  with_world(c, o, [&](int r, oh::CommPtr world) {
    auto got = world->add_int128(A[ix[size_t(r)]]);
    require(uint64_t(got.high) == uint64_t(want >> 64) && got.low == uint64_t(want), "add_int128", "wrong 128-bit sum");
  });
}

static void string_suite(mc::Ctx& c, int n, int devs) {
  static const char* S[] = {"", "a", "omega", "0123456789abcdef0123456789abcdef"};
  vector<int> ix = choose_digits(c, n, 4);
  int root = c.choose(n);
  c.split();
  Options o;
  o.nranks = n;
  modes(c, o);
  c.deviation_bound = devs;
  o.config = hash_of(ix) + uint64_t(root);
  c.note("ranks=%d strings=%s root=%d", n, str(ix).c_str(), root);
  with_world(c, o, [&](int r, oh::CommPtr world) {
    std::string s = S[ix[size_t(r)]];
    world->bcast_string(s, root);
    require(s == S[ix[size_t(root)]], "bcast_string", "rank %d got \"%s\" from root %d which sent \"%s\"", r, s.c_str(), root,
        S[ix[size_t(root)]]);
    I32 v = r;
    world->bcast(v, root);
    require(v == root, "bcast", "bcast after bcast_string");
  });
}

static void split_suite(mc::Ctx& c, int n, int devs) {
  vector<int> color = choose_digits(c, n, 2), key = choose_digits(c, n, n);
  bool nested = c.flip("nested");
  c.split();
  Options o;
  o.nranks = n;
  modes(c, o);
  c.deviation_bound = devs;
  o.config = hash_of(color) * 31 + hash_of(key) + nested;
  c.note("ranks=%d colors=%s keys=%s nested=%d", n, str(color).c_str(), str(key).c_str(), int(nested));
  with_world(c, o, [&](int r, oh::CommPtr world) {
    auto sub = world->split(color[size_t(r)], key[size_t(r)]);
    vector<std::pair<int, int>> m;
    for (int i = 0; i < n; ++i)
      if (color[size_t(i)] == color[size_t(r)]) m.push_back({key[size_t(i)], i});
    std::sort(m.begin(), m.end());
    require(sub->size() == int(m.size()), "split-size", "split gave %d members", sub->size());
    require(m[size_t(sub->rank())].second == r, "split-rank", "split gave rank %d", sub->rank());
    int sum = 0;
    for (auto& p : m) sum += p.second + 1;
    auto d = sub->dup();
    // collectives of the parent and the child interleave without mixing
    require(sub->allreduce(I32(r + 1), OMEGA_H_SUM) == sum, "split-reduce", "reduction in the split communicator");
    require(world->allreduce(I32(r + 1), OMEGA_H_SUM) == n * (n + 1) / 2, "split-world", "reduction in the parent");
    require(d->allreduce(I32(r + 1), OMEGA_H_MAX) == [&] { int x = 0; for (auto& p : m) x = std::max(x, p.second + 1); return x; }(), "dup-reduce", "reduction in the duplicate");
    if (nested) {
      int me = d->rank(), sz = d->size();
      auto g = d->graph(arr(vector<I32>{I32((me + 1) % sz)}));
      auto got = vec(g->allgather(I32(r)));
      int from = m[size_t((me + sz - 1) % sz)].second;
      require(got.size() == 1 && got[0] == from, "split-graph", "ring in the split communicator");
    }
    d->barrier();
  });
}

int main(int argc, char** argv) {
  vector<mc::Suite> s;
  auto add = [&](char const* n, std::function<void(mc::Ctx&)> f, char const* b, bool th = false) {
    mc::Suite x;
    x.name = n;
    x.body = f;
    x.bounds = b;
    x.thorough_only = th;
    s.push_back(x);
  };
  add("graph1", [](mc::Ctx& c) { graph_suite(c, 1, 2, 2, false); }, "1 rank, all destination sets");
  add("graph2", [](mc::Ctx& c) { graph_suite(c, 2, c.thorough() ? 3 : 2, 2, true); }, "2 ranks, all ordered destination sets, all schedules with <=1 (thorough 2) deviations, eager and rendezvous");
  add("graph3", [](mc::Ctx& c) { graph_suite(c, 3, 1, 1, c.thorough()); }, "3 ranks, all destination sets, default schedule (thorough: <=1 deviation)");
  add("graph3dev", [](mc::Ctx& c) { 
        graph_suite(c, 3, 2, 1, false); }, "3 ranks, all destination sets, all schedules with <=2 deviations", true);
  add("future2", [](mc::Ctx& c) { future_suite(c, 2, c.thorough() ? 4 : 3); }, "2 ranks, 3 neighbour shapes, <=2 (thorough 3) deviations");
  add("future3", [](mc::Ctx& c) { future_suite(c, 3, c.thorough() ? 3 : 2); }, "3 ranks, 3 neighbour shapes, <=1 (thorough 2) deviations");
  for (int n = 1; n <= 4; ++n) {
    bool th = false;
    auto nm = std::to_string(n);
    s.push_back({"reduce-i8-" + nm, [n](mc::Ctx& c) { reduce_suite<I8>(c, n); }, 60, th, "all 5^n inputs, 3 reduction orders"});
    s.push_back({"reduce-i32-" + nm, [n](mc::Ctx& c) { reduce_suite<I32>(c, n); }, 60, th, "all 5^n inputs, 3 reduction orders"});
    s.push_back({"reduce-i64-" + nm, [n](mc::Ctx& c) { reduce_suite<I64>(c, n); }, 60, th, "all 5^n inputs, 3 reduction orders"});
    s.push_back({"reduce-real-" + nm, [n](mc::Ctx& c) { reduce_suite<Real>(c, n); }, 60, th, "all 5^n inputs, 3 reduction orders"});
    s.push_back({"int128-" + nm, [n](mc::Ctx& c) { int128_suite(c, n); }, 60, false, "all 5^n inputs, 3 reduction orders"});
    s.push_back({"string-" + nm, [n](mc::Ctx& c) { string_suite(c, n, n <= 3 ? 2 : 0); }, 60, th, "all 4^n strings, all roots, <=2 deviations"});
  }
  add("split2", [](mc::Ctx& c) { split_suite(c, 2, 2); }, "2 ranks, all colors and keys, <=2 deviations");
  add("split3", [](mc::Ctx& c) { split_suite(c, 3, c.thorough() ? 2 : 1); }, "3 ranks, all colors and keys (thorough: <=1 deviation)");
  add("split4", [](mc::Ctx& c) { split_suite(c, 4, 0); }, "4 ranks, all colors and keys", true);
  return mc::main(argc, argv, "C01", s);
}
