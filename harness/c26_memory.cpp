// C26: arrays share their storage, keep it alive exactly as long as a handle
// refers to it, and the allocation record and the pool agree with that.
#include <Omega_h_for.hpp>
#include <Omega_h_malloc.hpp>
#include <Omega_h_pool.hpp>
#include <Omega_h_shared_alloc.hpp>
#include <fcntl.h>
#include <unistd.h>
#include "osh.hpp"
using std::vector;

struct Block {
  vector<I32> data;
  std::string name;
  int users = 0;
  bool tracked = false;
};
typedef std::shared_ptr<Block> BP;

static oh::Library* the_lib() {
  static oh::Library* l = new oh::Library();
  return l;
}
struct Quiet {
  int saved;
  Quiet() {
    fflush(stdout);
    saved = dup(1);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    close(n);
  }
  ~Quiet() {
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
  }
};

struct World {
  static const int NH = 3;
  oh::Write<I32> w[NH];
  BP m[NH];
  std::vector<BP> order;  // tracked blocks in order of allocation
  bool tracking = false;
  size_t high = 0;
  vector<std::pair<std::string, size_t>> high_records;
  int stamp = 0;

  void drop(BP& b) {
    if (b && --b->users == 0)
      for (size_t i = 0; i < order.size(); ++i)
        if (order[i] == b) order.erase(order.begin() + long(i));
    b.reset();
  }
  void assign(BP& a, BP b) {
    if (b) ++b->users;
    drop(a);
    a = b;
  }
  size_t total() const {
    size_t t = 0;
    for (auto& b : order) t += 4 * b->data.size();
    return t;
  }
  BP born(int size, std::string const& name) {
    auto b = std::make_shared<Block>();
    b->data.assign(size_t(size), 0);
    b->name = name;
    if (tracking) {
      b->tracked = true;
      order.push_back(b);
      if (total() > high) {
        high = total();
        high_records.clear();
        for (auto& x : order) high_records.push_back({x->name, 4 * x->data.size()});
      }
    }
    return b;
  }
  void check(mc::Ctx& c) {
    for (int i = 0; i < NH; ++i) {
      auto& b = m[i];
      c.require(w[i].exists() == bool(b), "array-exists", "handle %d exists: %d", i, int(w[i].exists()));
      if (!b) continue;
      c.require(w[i].size() == int(b->data.size()), "array-size", "handle %d has %d values, should have %zu", i, int(w[i].size()), b->data.size());
      c.require(w[i].use_count() == b->users, "use-count", "handle %d: use count %d, %d handles refer to it", i, w[i].use_count(), b->users);
      c.require(w[i].name() == b->name, "array-name", "handle %d is called %s", i, w[i].name().c_str());
      c.require(vec(w[i]) == b->data, "array-data", "handle %d holds %s, should hold %s", i, str(vec(w[i])).c_str(), str(b->data).c_str());
      for (int j = 0; j < i; ++j)
        if (m[j] && m[j]->data.size() && b->data.size())
          c.require((w[i].data() == w[j].data()) == (m[i] == m[j]), "array-alias", "handles %d and %d share storage: %d", i, j, int(w[i].data() == w[j].data()));
    }
    c.require((oh::global_allocs != nullptr) == tracking, "tracking", "tracking");
    if (tracking) {
      auto g = oh::global_allocs;
      c.require(g->total_bytes == total(), "tracked-total", "record says %zu bytes, %zu are allocated", g->total_bytes, total());
      c.require(g->high_water_bytes == high, "tracked-high-water", "record says the most was %zu bytes, it was %zu", g->high_water_bytes, high);
      vector<std::pair<std::string, size_t>> rec, fwd, bwd, want;
      for (auto& r : g->high_water_records) rec.push_back({r.name, r.bytes});
      c.require(rec == high_records, "tracked-records", "high water record has %zu entries, %zu blocks were allocated", rec.size(), high_records.size());
      int n = 0;
      for (auto a = g->first; a && n < 50; a = a->next, ++n) fwd.push_back({a->name, a->size});
      n = 0;
      for (auto a = g->last; a && n < 50; a = a->prev, ++n) bwd.push_back({a->name, a->size});
      std::reverse(bwd.begin(), bwd.end());
      for (auto& b : order) want.push_back({b->name, 4 * b->data.size()});
      c.require(fwd == want, "tracked-list", "the record lists %zu blocks, %zu are allocated", fwd.size(), want.size());
      c.require(bwd == want, "tracked-list", "the record lists %zu blocks backwards, %zu are allocated", bwd.size(), want.size());
    }
    mc::Hash h;
    for (int i = 0; i < NH; ++i) {
      h.add(m[i] ? int(m[i]->data.size()) : -1).add(m[i] ? m[i]->users : 0).add(m[i] ? m[i]->tracked : false);
      for (int j = 0; j < i; ++j) h.add(m[i] && m[i] == m[j]);
    }
    h.add(tracking).add(high).add(order.size());
    c.state(h.h);
  }
};

static void arrays(mc::Ctx& c, int depth, bool tracking_ops, bool pool) {
  the_lib();
  struct Guard {
    bool pool;
    ~Guard() {
      if (oh::global_allocs) {
        Quiet q;
        oh::stop_tracking_allocations(the_lib());
      }
      if (pool) oh::disable_pooling();
    }
  } guard{pool};
  if (pool) oh::enable_pooling();
  {
    World s;
    for (int step = 0; step < depth; ++step) {
      int nops = tracking_ops ? 8 : 7;
      int op = c.choose(nops);
      int i = op == 7 ? 0 : c.choose(World::NH);
      int j = (op == 1 || op == 2) ? c.choose(World::NH) : 0;
      int k = op == 0 ? c.choose(tracking_ops ? 2 : 3) : 0;
      if (step == 1) c.split();
      c.step();
      ++s.stamp;
      switch (op) {
        case 0: {
          int size = tracking_ops ? 1 + 2 * k : (k == 0 ? 0 : k == 1 ? 1 : 5);
          std::string name = "n" + std::to_string(s.stamp);
          c.note("h%d = new %d values", i, size);
          auto b = s.born(size, name);
          s.w[i] = oh::Write<I32>(size, name);
          for (int q = 0; q < size; ++q) s.w[i][q] = b->data[size_t(q)] = s.stamp * 10 + q;
          s.assign(s.m[i], b);
          break;
        }
        case 1:
          c.note("h%d = h%d", i, j);
          s.w[i] = s.w[j];
          s.assign(s.m[i], s.m[j]);
          break;
        case 2: {
          c.note("h%d = move(h%d)", i, j);
          auto* p = &s.w[j];
          s.w[i] = std::move(*p);
          if (i == j) {
            // the value of a self-moved handle is its own or none
            if (!s.w[i].exists()) s.drop(s.m[i]);
          } else {
            BP b = s.m[j];
            s.assign(s.m[i], b);
            s.drop(s.m[j]);
          }
          break;
        }
        case 3:
          c.note("h%d dropped", i);
          s.w[i] = oh::Write<I32>();
          s.drop(s.m[i]);
          break;
        case 4:
          if (s.m[i] && s.m[i]->data.size()) {
            c.note("h%d written", i);
            auto b = s.m[i];
            auto x = s.w[i];
            int st = s.stamp;
            auto f = OMEGA_H_LAMBDA(LO q) { x[q] = st * 100 + q; };
            oh::parallel_for(x.size(), f);
            for (size_t q = 0; q < b->data.size(); ++q) b->data[q] = st * 100 + int(q);
          } else
            c.prune();
          break;
        case 5: {
          // a kernel that takes over the handle it captured
          c.note("h%d moved into a kernel", i);
          if (!s.m[i]) c.prune();
          int sum = 0, want = 0;
          for (int q : s.m[i]->data) want += q;
          int n = s.w[i].size();
          {
            auto x = std::move(s.w[i]);
            int* ps = &sum;
            auto f = [=](LO q) { *ps += x[q] + 0 * x.size(); };
            { auto y = std::move(x); (void)y; oh::parallel_for(n, [=](LO q) { *ps += y[q]; }); }
            (void)f;
          }
          c.require(sum == want, "kernel", "a kernel over h%d summed %d, should be %d", i, sum, want);
          s.drop(s.m[i]);
          break;
        }
        case 6: {
          c.note("h%d copied and released", i);
          {
            auto x = s.w[i];
            oh::Read<I32> r(x);
            auto y = x;
            x = oh::Write<I32>();
            if (s.m[i]) {
              int used = y.use_count();
              c.require(used == s.m[i]->users + 2, "use-count", "two copies of h%d make %d users", i, used);
              auto got = vec(r);
              c.require(got == s.m[i]->data, "array-data", "a copy of h%d holds %s", i, str(got).c_str());
            }
          }
          break;
        }
        case 7: {
          c.note("tracking %s", s.tracking ? "stopped" : "started");
          if (s.tracking) {
            Quiet q;
            oh::stop_tracking_allocations(the_lib());
            for (auto& b : s.order) b->tracked = false;
            s.order.clear();
            s.tracking = false;
          } else {
            oh::start_tracking_allocations();
            s.tracking = true;
            s.high = 0;
            s.high_records.clear();
          }
          break;
        }
      }
      s.check(c);
    }
    for (int i = 0; i < World::NH; ++i) {
      s.w[i] = oh::Write<I32>();
      s.drop(s.m[i]);
    }
    s.check(c);
  }
}

// the pool against a list of blocks
static vector<std::pair<void*, size_t>> under;
static int refuse = 0;
static void* under_malloc(size_t n) {
  if (refuse > 0) {
    --refuse;
    return nullptr;
  }
  void* p = std::malloc(n);
  under.push_back({p, n});
  return p;
}
static size_t bad_free = 0;
static void under_free(void* p, size_t n) {
  for (size_t i = 0; i < under.size(); ++i)
    if (under[i].first == p) {
      if (under[i].second != n) ++bad_free;
      under.erase(under.begin() + long(i));
      std::free(p);
      return;
    }
  ++bad_free;
}
static void pools(mc::Ctx& c, int depth) {
  static size_t const sizes[] = {0, 1, 2, 3, 4, 5, 1000};
  the_lib();
  under.clear();
  bad_free = 0;
  refuse = 0;
  struct Live {
    unsigned char* p;
    size_t n;
    unsigned char stamp;
  };
  vector<Live> live;
  {
    oh::Pool pool(under_malloc, under_free);
    for (int s = 0; s < depth; ++s) {
      int op = c.choose(int(7 + 3 + live.size()));
      if (s == 1) c.split();
      c.step();
      if (op < 7) {
        c.note("allocate %zu", sizes[op]);
        Live l{static_cast<unsigned char*>(oh::allocate(pool, sizes[op])), sizes[op], (unsigned char)(s + 1)};
        c.require(l.p != nullptr, "pool-null", "no block");
        bool inside = false;
        for (auto& u : under)
          if (u.first == l.p && u.second >= l.n) inside = true;
        c.require(inside, "pool-small", "the block of %zu bytes is not an underlying block of that size", l.n);
        for (auto& o : live) c.require(o.p != l.p, "pool-twice", "a block in use was given out again");
        memset(l.p, l.stamp, l.n);
        live.push_back(l);
      } else if (op < 10) {
        // the underlying allocator fails once or twice
        int fails = op == 7 ? 1 : 2;
        if (op == 9) {
          // a foreign block is refused
          bool threw = false;
          int x;
          c.note("release a foreign block");
          try {
            oh::deallocate(pool, &x, 4);
          } catch (std::exception const&) {
            threw = true;
          }
          c.require(threw, "pool-foreign", "a foreign block was accepted");
          continue;
        }
        c.note("allocate 3 while the system refuses %d times", fails);
        refuse = fails;
        bool threw = false;
        void* p = nullptr;
        try {
          p = oh::allocate(pool, 3);
        } catch (std::exception const&) {
          threw = true;
        }
        int left = refuse;
        refuse = 0;
        // a free block serves without asking; one refusal is survived by giving
        // the free blocks back; two are an error
        if (threw)
          c.require(fails == 2 && left == 0, "pool-refused", "allocation failed after %d refusals", fails);
        else {
          c.require(p != nullptr && (fails == 1 || left == 2), "pool-refused", "allocation succeeded against %d refusals", fails);
          memset(p, s + 1, 3);
          live.push_back({static_cast<unsigned char*>(p), 3, (unsigned char)(s + 1)});
        }
      } else {
        size_t i = size_t(op - 10);
        c.note("release block %zu", i);
        oh::deallocate(pool, live[i].p, live[i].n);
        live.erase(live.begin() + long(i));
      }
      for (auto& l : live)
        for (size_t q = 0; q < l.n; ++q) c.require(l.p[q] == l.stamp, "pool-overlap", "a block in use changed");
      c.require(bad_free == 0, "pool-free", "a block was freed with another size or twice");
      mc::Hash h;
      for (auto& l : live) h.add(l.n);
      h.add(under.size());
      c.state(h.h);
    }
  }
  c.require(bad_free == 0, "pool-free", "a block was freed with another size or twice");
  c.require(under.empty(), "pool-leak", "%zu blocks were not returned to the system", under.size());
}

int main(int argc, char** argv) {
  vector<mc::Suite> s;
  auto add = [&](char const* n, std::function<void(mc::Ctx&)> f, char const* b, bool th = false) {
    mc::Suite x;
    x.name = n;
    x.body = f;
    x.bounds = b;
    x.thorough_only = th;
    s.push_back(x);
  };
  add("arrays", [](mc::Ctx& c) { arrays(c, c.thorough() ? 5 : 4, false, false); }, "every sequence of 4 (thorough 5) of 7 operations on 3 handles");
  add("tracked", [](mc::Ctx& c) { arrays(c, c.thorough() ? 6 : 4, true, false); }, "same with starting and stopping the allocation record, 4 (thorough 6) operations");
  add("pooled", [](mc::Ctx& c) { arrays(c, c.thorough() ? 5 : 4, false, true); }, "same with pooled storage");
  add("pool", [](mc::Ctx& c) { pools(c, c.thorough() ? 7 : 5); }, "every sequence of 5 (thorough 7) allocations, releases and refusals");
  return mc::main(argc, argv, "C26", s);
}
