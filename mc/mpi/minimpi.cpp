#include "minimpi.hpp"
#include "mpi.h"
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <deque>
#include <exception>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <sys/mman.h>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif

extern "C" {
struct minimpi_type const minimpi_types[] = {{1, 0}, {1, 1}, {1, 2},
    {1, 3}, {2, 4}, {2, 5}, {4, 6}, {4, 7}, {8, 8}, {8, 9}, {8, 10}, {8, 11},
    {4, 12}, {8, 13}, {1, 14}, {1, 1}, {2, 4}, {4, 6}, {8, 8}, {1, 2}, {2, 5},
    {4, 7}, {8, 9}, {1, 23}};

}
extern "C" struct minimpi_op minimpi_ops[9];
struct minimpi_op minimpi_ops[9] = {{0, 0, 1}, {1, 0, 1}, {2, 0, 1}, {3, 0, 1},
    {4, 0, 1}, {5, 0, 1}, {6, 0, 1}, {7, 0, 1}, {8, 0, 1}};

using std::string;
using std::vector;

struct Coll {
  string kind;
  long long count = 0;
  int root = 0;
  MPI_Datatype type = nullptr;
  MPI_Op op = nullptr;
  int arrived = 0, left = 0;
  bool reduced = false;
  vector<char> here;
  vector<vector<char>> data;    // contributions
  vector<vector<int>> ints;     // extra integer arrays
  vector<char> result;
  void* made = nullptr;         // dup/split products, per color
  std::map<int, void*> by_color;
};

struct Msg;
struct minimpi_comm {
  int id = 0;
  vector<int> world;                 // world rank of each member
  vector<char> freed;
  vector<long> seq;                  // next collective of each member
  std::map<long, std::shared_ptr<Coll>> colls;
  vector<std::list<Msg*>> unexpected;        // by destination member
  vector<std::list<minimpi_req*>> posted;    // by receiving member
  bool predefined = false;
};

struct minimpi_req {
  enum Kind { SEND, RECV, COLL } kind;
  int owner = 0;
  bool complete = false;
  // send
  Msg* msg = nullptr;
  // recv
  void* buf = nullptr;
  long long cap = 0;
  int src = 0, tag = 0;
  MPI_Datatype type = nullptr;
  minimpi_comm* comm = nullptr;
  // collective
  std::shared_ptr<Coll> coll;
  int crank = 0;
  void* rbuf = nullptr;
};

struct Msg {
  int src = 0, dst = 0, tag = 0;
  MPI_Datatype type = nullptr;
  void const* sbuf = nullptr;
  long long bytes = 0;
  vector<char> staging;
  bool staged = false;
  minimpi_req* sreq = nullptr;   // pending sender, if it still waits
  bool matched = false;
  bool received = false;
};

namespace {

struct Fiber {
  void* sp = nullptr;
  void* stack = nullptr;
  int rank = 0;
  bool done = false, started = false;
  std::function<bool()> ready;
  char const* waiting_for = "";
  long polls = 0;
  long long poll_epoch = -1;
  long ops = 0;
  bool explore = true;
  void* eh[2] = {nullptr, nullptr};
#if defined(__SANITIZE_ADDRESS__)
  void* fake = nullptr;
#endif
};

constexpr size_t STACK = size_t(1) << 20;

struct World {
  mc::Ctx* c = nullptr;
  minimpi::Options o;
  minimpi_comm world, selfs[16];
  vector<minimpi_comm*> comms;
  vector<Fiber> fibers;
  std::function<void(int)> const* body = nullptr;
  int cur = 0;
  bool in_fiber = false;
  long long epoch = 0;
  uint64_t calls = 0;
  long live_reqs = 0, live_ops = 0;
  bool failed = false;
  mc::Failure failure;
  std::exception_ptr control;  // Prune/Stop raised by the explorer
  void* main_sp = nullptr;
  int next_id = 3;
  int finalized = 0;
};

World* W = nullptr;
vector<void*> free_stacks;

void init_comm(minimpi_comm& c, int id, vector<int> world, bool pre) {
  c.id = id;
  c.world = world;
  size_t n = world.size();
  c.freed.assign(n, 0);
  c.seq.assign(n, 0);
  c.unexpected.resize(n);
  c.posted.resize(n);
  c.predefined = pre;
}

World* make_world(minimpi::Options const& o, mc::Ctx* c) {
  auto w = new World;
  w->o = o;
  w->c = c;
  vector<int> all;
  for (int i = 0; i < o.nranks; ++i) {
    all.push_back(i);
    init_comm(w->selfs[i], 2, {i}, true);
  }
  init_comm(w->world, 1, all, true);
  return w;
}

World* world() {
  if (!W) {
    minimpi::Options o;
    W = make_world(o, nullptr);
  }
  return W;
}

// ---- fibers ----
extern "C" void minimpi_switch(void** save, void* to);
asm(R"(
.text
.globl minimpi_switch
.type minimpi_switch,@function
minimpi_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size minimpi_switch,.-minimpi_switch
)");

#if defined(__SANITIZE_ADDRESS__)
void const* main_bottom = nullptr;
size_t main_size = 0;
#endif

void to_main() {
  auto& f = W->fibers[size_t(W->cur)];
  auto eh = reinterpret_cast<void**>(abi::__cxa_get_globals());
  f.eh[0] = eh[0];
  f.eh[1] = eh[1];
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_start_switch_fiber(f.done ? nullptr : &f.fake, main_bottom, main_size);
#endif
  minimpi_switch(&f.sp, W->main_sp);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_finish_switch_fiber(f.fake, &main_bottom, &main_size);
#endif
  eh[0] = f.eh[0];
  eh[1] = f.eh[1];
}

extern "C" void minimpi_fiber_main() {
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
#endif
  World* w = W;
  auto eh = reinterpret_cast<void**>(abi::__cxa_get_globals());
  eh[0] = eh[1] = nullptr;
  int r = w->cur;
  try {
    (*w->body)(r);
  } catch (mc::Failure const& f) {
    if (!w->failed) w->failed = true, w->failure = f;
  } catch (mc::Prune const&) {
    w->control = std::current_exception();
  } catch (mc::Stop const&) {
    w->control = std::current_exception();
  } catch (std::exception const& e) {
    if (!w->failed) {
      w->failed = true;
      w->failure = mc::Failure{"rank-exception",
          "rank " + std::to_string(r) + " threw: " + e.what()};
    }
  }
  w->fibers[size_t(r)].done = true;
  ++w->epoch;
  to_main();
  abort();
}

void enter(int r) {
  auto& f = W->fibers[size_t(r)];
  W->cur = r;
  W->in_fiber = true;
  auto eh = reinterpret_cast<void**>(abi::__cxa_get_globals());
  void* save[2] = {eh[0], eh[1]};
  if (!f.started) {
    f.started = true;
    if (free_stacks.empty()) {
      f.stack = mmap(nullptr, STACK, PROT_READ | PROT_WRITE,
          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (f.stack == MAP_FAILED) abort();
      mprotect(f.stack, 4096, PROT_NONE);
    } else {
      f.stack = free_stacks.back();
      free_stacks.pop_back();
    }
    auto top = reinterpret_cast<char*>(f.stack) + STACK - 64;
    auto sp = reinterpret_cast<void**>(top);
    *--sp = nullptr;
    *--sp = reinterpret_cast<void*>(&minimpi_fiber_main);
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    --sp;
    unsigned mx;
    unsigned short cw;
    asm volatile("stmxcsr %0" : "=m"(mx));
    asm volatile("fnstcw %0" : "=m"(cw));
    memcpy(sp, &mx, 4);
    memcpy(reinterpret_cast<char*>(sp) + 4, &cw, 2);
    f.sp = sp;
  }
#if defined(__SANITIZE_ADDRESS__)
  void* fake = nullptr;
  __sanitizer_start_switch_fiber(&fake, f.stack, STACK);
#endif
  minimpi_switch(&W->main_sp, f.sp);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
#endif
  eh[0] = save[0];
  eh[1] = save[1];
  W->in_fiber = false;
}

[[noreturn]] void fail_now(string const& key, string const& msg) {
  World* w = world();
  if (w->in_fiber) {
    if (!w->failed) {
      w->failed = true;
      w->failure = mc::Failure{key, "rank " + std::to_string(w->cur) + ": " + msg};
    }
    to_main();  // never resumed
    abort();
  }
  throw mc::Failure{key, msg};
}

[[noreturn]] void failf(char const* key, char const* fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  fail_now(key, buf);
}

int deviate(int n) {
  World* w = W;
  if (!w->c || !w->o.explore || n <= 1) return 0;
  if (w->in_fiber && !w->fibers[size_t(w->cur)].explore) return 0;
  try {
    return w->c->deviate(n);
  } catch (mc::Failure const& f) {
    fail_now(f.key, f.msg);
  } catch (...) {
    w->control = std::current_exception();
    if (w->in_fiber) {
      to_main();
      abort();
    }
    throw;
  }
}

bool poll_blocked(Fiber const& f) {
  return f.poll_epoch == W->epoch && f.polls >= 12;
}

bool runnable(Fiber& f) {
  if (f.done) return false;
  if (f.ready) return f.ready();
  return true;
}

// runnable ranks other than `from`, in cyclic order after it
void candidates(int from, vector<int>& out, bool spinners) {
  int n = int(W->fibers.size());
  for (int k = 1; k < n; ++k) {
    int r = (from + k) % n;
    auto& f = W->fibers[size_t(r)];
    if (runnable(f) && (spinners || !poll_blocked(f))) out.push_back(r);
  }
}

int next_rank = 0;

void note_state() {
  World* w = W;
  if (!w->c) return;
  mc::Hash h;
  h.add(w->o.config).add(w->cur);
  for (auto& f : w->fibers) {
    h.add(f.ops);
    h.add(int(f.done) * 2 + int(bool(f.ready)));
  }
  w->c->state(h.h);
  w->c->step();
}

// a scheduling point of the running fiber; it stays runnable
void point() {
  World* w = world();
  ++w->calls;
  if (!w->in_fiber) {
    if (w->failed) {
      w->failed = false;
      throw w->failure;
    }
    return;
  }
  auto& f = w->fibers[size_t(w->cur)];
  ++f.ops;
  if (f.ops > w->o.ops_limit) fail_now("livelock", "too many MPI calls");
  note_state();
  if (w->fibers.size() == 1) return;
  if (!w->o.explore || !w->c || w->c->devs_ >= w->c->deviation_bound) return;
  vector<int> cand;
  candidates(w->cur, cand, false);
  int k = deviate(int(cand.size()) + 1);
  if (k) {
    next_rank = cand[size_t(k - 1)];
    to_main();
  }
}

void pick_next_after_block() {
  World* w = W;
  vector<int> cand;
  candidates(w->cur, cand, false);
  if (cand.empty()) {
    auto& self = w->fibers[size_t(w->cur)];
    if (!self.done && runnable(self) && !poll_blocked(self)) {
      next_rank = w->cur;
      return;
    }
    // only ranks that poll without any change in sight are left
    candidates(w->cur, cand, true);
    if (!self.done && runnable(self)) cand.push_back(w->cur);
    bool all_spun = true;
    int pick = -1;
    for (int r : cand) {
      auto& f = w->fibers[size_t(r)];
      if (!(f.poll_epoch == w->epoch && f.polls > 3000)) {
        all_spun = false;
        if (pick < 0) pick = r;
      }
    }
    if (all_spun) {
      string s;
      for (auto& f : w->fibers)
        if (!f.done)
          s += " rank " + std::to_string(f.rank) +
               (f.ready ? string(" waits in ") + f.waiting_for : string(" polls")) + ";";
      if (!w->failed) {
        w->failed = true;
        w->failure = mc::Failure{cand.empty() ? "deadlock" : "livelock", "no rank can make progress:" + s};
      }
      next_rank = -1;
      return;
    }
    next_rank = pick;
    return;
  }
  int k = deviate(int(cand.size()));
  next_rank = cand[size_t(k)];
}

void block_until(char const* what, std::function<bool()> cond) {
  World* w = world();
  if (cond()) return;
  if (!w->in_fiber) failf("deadlock", "blocked for ever in %s", what);
  auto& f = w->fibers[size_t(w->cur)];
  f.ready = cond;
  f.waiting_for = what;
  pick_next_after_block();
  to_main();
  f.ready = nullptr;
}

void failed_poll() {
  World* w = world();
  if (!w->in_fiber) {
    static long spins = 0;
    if (++spins > 10000000) failf("livelock", "polling for ever");
    return;
  }
  auto& f = w->fibers[size_t(w->cur)];
  if (f.poll_epoch != w->epoch) {
    f.poll_epoch = w->epoch;
    f.polls = 0;
  }
  ++f.polls;
  pick_next_after_block();
  if (next_rank != w->cur) to_main();
  else if (next_rank < 0) to_main();
}

void changed() { ++world()->epoch; }

int member(minimpi_comm* c, char const* what) {
  World* w = world();
  if (!c) failf("mpi-misuse", "%s on MPI_COMM_NULL", what);
  for (size_t i = 0; i < c->world.size(); ++i)
    if (c->world[i] == w->cur) {
      if (c->freed[i]) failf("mpi-misuse", "%s on a freed communicator", what);
      return int(i);
    }
  failf("mpi-misuse", "%s on a communicator this rank is not in", what);
}

void stage(Msg* m) {
  if (m->staged) return;
  m->staging.resize(size_t(m->bytes));
  if (m->bytes) memcpy(m->staging.data(), m->sbuf, size_t(m->bytes));
  m->staged = true;
}

bool types_match(MPI_Datatype a, MPI_Datatype b) {
  auto loose = [](int k) { return k == 3 || k == 14; };
  return a->kind == b->kind || loose(a->kind) || loose(b->kind);
}

void match(minimpi_req* r, Msg* m) {
  if (m->bytes > r->cap)
    failf("mpi-truncation", "message of %lld bytes from %d tag %d into a receive of %lld bytes",
        m->bytes, m->src, m->tag, r->cap);
  if (!types_match(m->type, r->type))
    failf("mpi-type-mismatch", "message from %d tag %d has another datatype than its receive", m->src, m->tag);
  m->matched = true;
  r->msg = m;
  if (m->sreq) m->sreq->complete = true;
  r->complete = true;
  changed();
}

minimpi_req* new_req(minimpi_req::Kind k) {
  auto r = new minimpi_req;
  r->kind = k;
  r->owner = world()->cur;
  ++world()->live_reqs;
  return r;
}

void drop_msg(Msg* m) {
  if (m->received && !m->sreq) delete m;
}

// the request completed and its owner learns so now
void finish(minimpi_req* r, MPI_Status* st) {
  if (st != MPI_STATUS_IGNORE && st) {
    st->MPI_ERROR = 0;
    st->MPI_SOURCE = MPI_ANY_SOURCE;
    st->MPI_TAG = MPI_ANY_TAG;
    st->minimpi_bytes = 0;
  }
  if (r->kind == minimpi_req::SEND) {
    if (r->msg) {
      stage(r->msg);
      r->msg->sreq = nullptr;
      drop_msg(r->msg);
    }
  } else if (r->kind == minimpi_req::RECV) {
    Msg* m = r->msg;
    stage(m);
    if (m->bytes) memcpy(r->buf, m->staging.data(), size_t(m->bytes));
    if (st != MPI_STATUS_IGNORE && st) {
      st->MPI_SOURCE = m->src;
      st->MPI_TAG = m->tag;
      st->minimpi_bytes = m->bytes;
    }
    m->received = true;
    drop_msg(m);
  } else {
    auto& c = r->coll;
    if (r->rbuf && !c->result.empty())
      memcpy(r->rbuf, c->result.data(), c->result.size());
  }
  --world()->live_reqs;
  delete r;
  changed();
}

void check_req(minimpi_req* r, char const* what) {
  if (r->owner != world()->cur)
    failf("mpi-misuse", "%s on another rank's request", what);
}

minimpi_req* start_send(void const* buf, int count, MPI_Datatype type, int dst,
    int tag, minimpi_comm* c, bool sync, char const* what) {
  int me = member(c, what);
  if (count < 0) failf("mpi-misuse", "%s with count %d", what, count);
  if (dst < 0 || dst >= int(c->world.size()))
    failf("mpi-misuse", "%s to rank %d of %zu", what, dst, c->world.size());
  auto m = new Msg;
  m->src = me;
  m->dst = dst;
  m->tag = tag;
  m->type = type;
  m->sbuf = buf;
  m->bytes = (long long)count * type->size;
  auto r = new_req(minimpi_req::SEND);
  r->msg = m;
  m->sreq = r;
  bool eager = world()->o.eager && !sync;
  if (eager) {
    stage(m);
    r->complete = true;
    r->msg = nullptr;
    m->sreq = nullptr;
  }
  auto& posted = c->posted[size_t(dst)];
  changed();
  for (auto it = posted.begin(); it != posted.end(); ++it) {
    auto rr = *it;
    if ((rr->src == MPI_ANY_SOURCE || rr->src == me) &&
        (rr->tag == MPI_ANY_TAG || rr->tag == tag)) {
      posted.erase(it);
      match(rr, m);
      return r;
    }
  }
  c->unexpected[size_t(dst)].push_back(m);
  return r;
}

// unexpected messages of `me` which (src, tag) could match: the first of each
// sender
vector<std::list<Msg*>::iterator> matches(minimpi_comm* c, int me, int src, int tag) {
  vector<std::list<Msg*>::iterator> out;
  vector<char> seen(c->world.size(), 0);
  auto& u = c->unexpected[size_t(me)];
  for (auto it = u.begin(); it != u.end(); ++it) {
    auto m = *it;
    if ((src == MPI_ANY_SOURCE || src == m->src) && (tag == MPI_ANY_TAG || tag == m->tag)) {
      if (seen[size_t(m->src)]) continue;
      seen[size_t(m->src)] = 1;
      out.push_back(it);
    }
  }
  return out;
}

minimpi_req* start_recv(void* buf, int count, MPI_Datatype type, int src,
    int tag, minimpi_comm* c, char const* what) {
  int me = member(c, what);
  if (count < 0) failf("mpi-misuse", "%s with count %d", what, count);
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= int(c->world.size())))
    failf("mpi-misuse", "%s from rank %d of %zu", what, src, c->world.size());
  auto r = new_req(minimpi_req::RECV);
  r->buf = buf;
  r->cap = (long long)count * type->size;
  r->src = src;
  r->tag = tag;
  r->type = type;
  r->comm = c;
  auto ms = matches(c, me, src, tag);
  if (ms.empty()) {
    c->posted[size_t(me)].push_back(r);
    changed();
    return r;
  }
  int k = deviate(int(ms.size()));
  Msg* m = *ms[size_t(k)];
  c->unexpected[size_t(me)].erase(ms[size_t(k)]);
  match(r, m);
  return r;
}

template <class T>
void apply_t(int kind, T* io, T const* in, long long n) {
  for (long long i = 0; i < n; ++i) switch (kind) {
      case 0: io[i] = in[i] > io[i] ? in[i] : io[i]; break;
      case 1: io[i] = in[i] < io[i] ? in[i] : io[i]; break;
      case 2: io[i] = T(io[i] + in[i]); break;
      case 3: io[i] = T(io[i] * in[i]); break;
      case 4: io[i] = T(io[i] && in[i]); break;
      case 5: io[i] = T(io[i] || in[i]); break;
      default: failf("mpi-misuse", "bitwise operation on a floating type");
    }
}
template <class T>
void apply_i(int kind, T* io, T const* in, long long n) {
  if (kind < 6) return apply_t(kind, io, in, n);
  for (long long i = 0; i < n; ++i) switch (kind) {
      case 6: io[i] = T(io[i] & in[i]); break;
      case 7: io[i] = T(io[i] | in[i]); break;
      default: io[i] = T(io[i] ^ in[i]); break;
    }
}

// io = in op io
void apply_op(MPI_Op op, vector<char>& io, vector<char> const& in, long long n, MPI_Datatype t) {
  if (op->fn) {
    vector<char> tmp(in);
    int len = int(n);
    op->fn(tmp.data(), io.data(), &len, &t);
    return;
  }
  void* a = io.data();
  void const* b = in.data();
#define CASE(K, T) \
  case K: return apply_i(op->kind, static_cast<T*>(a), static_cast<T const*>(b), n)
  switch (t->kind) {
    CASE(0, signed char);
    CASE(1, signed char);
    CASE(2, unsigned char);
    CASE(3, unsigned char);
    CASE(4, short);
    CASE(5, unsigned short);
    CASE(6, int);
    CASE(7, unsigned);
    CASE(8, long);
    CASE(9, unsigned long);
    CASE(10, long long);
    CASE(11, unsigned long long);
    CASE(23, unsigned char);
    case 12: return apply_t(op->kind, static_cast<float*>(a), static_cast<float const*>(b), n);
    case 13: return apply_t(op->kind, static_cast<double*>(a), static_cast<double const*>(b), n);
    default: failf("mpi-misuse", "predefined operation on MPI_PACKED");
  }
#undef CASE
}

// combine the contributions of members [0, end)
vector<char> combine(Coll& c, int end) {
  int order = c.op->commute ? world()->o.reduce_order : 0;
  vector<int> seq;
  for (int i = 0; i < end; ++i) seq.push_back(i);
  if (order == 1) std::vector<int>(seq.rbegin(), seq.rend()).swap(seq);
  if (seq.empty()) return {};
  if (order == 2) {
    vector<vector<char>> lvl;
    for (int i : seq) lvl.push_back(c.data[size_t(i)]);
    while (lvl.size() > 1) {
      vector<vector<char>> nx;
      for (size_t i = 0; i < lvl.size(); i += 2) {
        if (i + 1 == lvl.size()) {
          nx.push_back(lvl[i]);
          continue;
        }
        vector<char> x = lvl[i + 1];
        apply_op(c.op, x, lvl[i], c.count, c.type);
        nx.push_back(x);
      }
      lvl.swap(nx);
    }
    return lvl[0];
  }
  // left fold: acc = acc op next   (io = in op io with io = next, in = acc)
  vector<char> acc = c.data[size_t(seq[0])];
  for (size_t i = 1; i < seq.size(); ++i) {
    vector<char> x = c.data[size_t(seq[i])];
    apply_op(c.op, x, acc, c.count, c.type);
    acc.swap(x);
  }
  return acc;
}

struct Arrival {
  std::shared_ptr<Coll> coll;
  int me;
  long idx;
};

Arrival arrive(minimpi_comm* c, char const* kind, long long count, MPI_Datatype t,
    MPI_Op op, int root, void const* contrib, long long bytes) {
  int me = member(c, kind);
  long idx = c->seq[size_t(me)]++;
  auto& slot = c->colls[idx];
  if (!slot) {
    slot = std::make_shared<Coll>();
    slot->kind = kind;
    slot->count = count;
    slot->type = t;
    slot->op = op;
    slot->root = root;
    slot->here.assign(c->world.size(), 0);
    slot->data.resize(c->world.size());
    slot->ints.resize(c->world.size());
  }
  auto cp = slot;
  auto same_op = [](MPI_Op a, MPI_Op b) {
    if (a == b) return true;
    return a && b && a->fn && a->fn == b->fn && a->commute == b->commute;
  };
  if (cp->kind != kind)
    failf("collective-mismatch", "%s meets %s", kind, cp->kind.c_str());
  if (cp->count != count || cp->root != root || !same_op(cp->op, op) ||
      (t && cp->type && t->kind != cp->type->kind))
    failf("collective-mismatch", "ranks disagree on the arguments of %s (count %lld/%lld root %d/%d)",
        kind, cp->count, count, cp->root, root);
  if (contrib && bytes)
    cp->data[size_t(me)].assign(static_cast<char const*>(contrib), static_cast<char const*>(contrib) + bytes);
  cp->here[size_t(me)] = 1;
  cp->arrived++;
  if (cp->arrived == int(c->world.size())) c->colls.erase(idx);
  changed();
  return {cp, me, idx};
}

void wait_all_arrived(Arrival const& a, char const* what) {
  auto cp = a.coll;
  block_until(what, [cp] { return cp->arrived == int(cp->here.size()); });
  changed();
}

bool req_done(minimpi_req* r) {
  if (r->kind == minimpi_req::COLL)
    return r->coll->arrived == int(r->coll->here.size());
  return r->complete;
}

minimpi_comm* new_comm(vector<int> world_ranks) {
  auto c = new minimpi_comm;
  init_comm(*c, W->next_id++, world_ranks, false);
  W->comms.push_back(c);
  return c;
}

}  // namespace

extern "C" {

minimpi_comm* minimpi_world_handle(void) { return &world()->world; }
minimpi_comm* minimpi_self_handle(void) { return &world()->selfs[world()->cur]; }

int MPI_Init(int*, char***) { return 0; }
int MPI_Init_thread(int*, char***, int, int* p) { if (p) *p = MPI_THREAD_FUNNELED; return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Abort(MPI_Comm, int code) { failf("mpi-abort", "MPI_Abort(%d)", code); }
double MPI_Wtime(void) {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}
int MPI_Error_string(int, char* s, int* n) { strcpy(s, "error"); *n = 5; return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = member(c, "MPI_Comm_rank"); return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) {
  member(c, "MPI_Comm_size");
  *s = int(c->world.size());
  return 0;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) {
  *r = a == b ? MPI_IDENT : (a->world == b->world ? MPI_CONGRUENT : MPI_UNEQUAL);
  return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) {
  point();
  auto a = arrive(c, "MPI_Comm_dup", 0, nullptr, nullptr, 0, nullptr, 0);
  if (!a.coll->made) a.coll->made = new_comm(c->world);
  auto made = static_cast<minimpi_comm*>(a.coll->made);
  if (c->world.size() > 1) wait_all_arrived(a, "MPI_Comm_dup");
  *out = made;
  return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) {
  point();
  auto a = arrive(c, "MPI_Comm_split", 0, nullptr, nullptr, 0, nullptr, 0);
  a.coll->ints[size_t(a.me)] = {color, key};
  wait_all_arrived(a, "MPI_Comm_split");
  if (color == MPI_UNDEFINED) {
    *out = MPI_COMM_NULL;
    return 0;
  }
  auto& made = a.coll->by_color[color];
  if (!made) {
    vector<std::pair<std::pair<int, int>, int>> v;
    for (size_t i = 0; i < c->world.size(); ++i)
      if (a.coll->ints[i][0] == color) v.push_back({{a.coll->ints[i][1], int(i)}, c->world[i]});
    std::map<std::pair<int, int>, int> sorted;
    for (auto& x : v) sorted[x.first] = x.second;
    vector<int> ranks;
    for (auto& x : sorted) ranks.push_back(x.second);
    made = new_comm(ranks);
  }
  *out = static_cast<minimpi_comm*>(made);
  return 0;
}
int MPI_Comm_free(MPI_Comm* pc) {
  auto c = *pc;
  World* w = world();
  if (w->failed) return 0;
  // runs inside destructors: never switches, never throws
  auto bad = [&](char const* m) {
    w->failed = true;
    w->failure = mc::Failure{"mpi-misuse", "rank " + std::to_string(w->cur) + ": " + m};
  };
  if (!c) { bad("MPI_Comm_free of MPI_COMM_NULL"); return 0; }
  if (c->predefined) { bad("MPI_Comm_free of a predefined communicator"); return 0; }
  for (size_t i = 0; i < c->world.size(); ++i)
    if (c->world[i] == w->cur) {
      if (c->freed[i]) { bad("MPI_Comm_free twice"); return 0; }
      c->freed[i] = 1;
    }
  *pc = MPI_COMM_NULL;
  if (!w->in_fiber && w->o.nranks == 1 && !w->c) {
    for (size_t i = 0; i < w->comms.size(); ++i)
      if (w->comms[i] == c) {
        w->comms[i] = w->comms.back();
        w->comms.pop_back();
        break;
      }
    delete c;
  }
  return 0;
}

static int do_wait(minimpi_req** pr, MPI_Status* st, char const* what) {
  auto r = *pr;
  if (!r) {
    if (st && st != MPI_STATUS_IGNORE) {
      st->MPI_SOURCE = MPI_ANY_SOURCE;
      st->MPI_TAG = MPI_ANY_TAG;
      st->minimpi_bytes = 0;
    }
    return 0;
  }
  check_req(r, what);
  block_until(what, [r] { return req_done(r); });
  finish(r, st);
  *pr = nullptr;
  return 0;
}

static int send_mode(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, bool sync, char const* what) {
  point();
  if (d == MPI_PROC_NULL) return 0;
  auto r = start_send(b, n, t, d, tag, c, sync, what);
  return do_wait(&r, MPI_STATUS_IGNORE, what);
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  return send_mode(b, n, t, d, tag, c, false, "MPI_Send");
}
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  return send_mode(b, n, t, d, tag, c, true, "MPI_Ssend");
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
  point();
  if (d == MPI_PROC_NULL) { *r = nullptr; return 0; }
  *r = start_send(b, n, t, d, tag, c, false, "MPI_Isend");
  return 0;
}
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
  point();
  if (d == MPI_PROC_NULL) { *r = nullptr; return 0; }
  *r = start_send(b, n, t, d, tag, c, true, "MPI_Issend");
  return 0;
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) {
  point();
  if (s == MPI_PROC_NULL) return 0;
  auto r = start_recv(b, n, t, s, tag, c, "MPI_Recv");
  return do_wait(&r, st, "MPI_Recv");
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) {
  point();
  if (s == MPI_PROC_NULL) { *r = nullptr; return 0; }
  *r = start_recv(b, n, t, s, tag, c, "MPI_Irecv");
  return 0;
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stt, int d, int stag, void* rb, int rn,
    MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* st) {
  MPI_Request a, b;
  MPI_Irecv(rb, rn, rt, s, rtag, c, &b);
  MPI_Isend(sb, sn, stt, d, stag, c, &a);
  do_wait(&a, MPI_STATUS_IGNORE, "MPI_Sendrecv");
  return do_wait(&b, st, "MPI_Sendrecv");
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int* flag, MPI_Status* st) {
  point();
  int me = member(c, "MPI_Iprobe");
  auto ms = matches(c, me, src, tag);
  *flag = 0;
  if (ms.empty()) {
    failed_poll();
    return 0;
  }
  int k = deviate(int(ms.size()) + 1);
  if (k == int(ms.size())) {  // the message has not arrived yet
    changed();
    failed_poll();
    return 0;
  }
  // messages of other senders may have been matched meanwhile: still valid
  Msg* m = *ms[size_t(k)];
  *flag = 1;
  if (st != MPI_STATUS_IGNORE) {
    st->MPI_SOURCE = m->src;
    st->MPI_TAG = m->tag;
    st->minimpi_bytes = m->bytes;
  }
  return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* st) {
  point();
  int me = member(c, "MPI_Probe");
  block_until("MPI_Probe", [=] { return !matches(c, me, src, tag).empty(); });
  auto ms = matches(c, me, src, tag);
  Msg* m = *ms[size_t(deviate(int(ms.size())))];
  if (st != MPI_STATUS_IGNORE) {
    st->MPI_SOURCE = m->src;
    st->MPI_TAG = m->tag;
    st->minimpi_bytes = m->bytes;
  }
  return 0;
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) {
  *n = int(st->minimpi_bytes / t->size);
  return 0;
}
int MPI_Wait(MPI_Request* r, MPI_Status* st) {
  point();
  return do_wait(r, st, "MPI_Wait");
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) {
  point();
  vector<minimpi_req*> v;
  for (int i = 0; i < n; ++i)
    if (r[i]) {
      check_req(r[i], "MPI_Waitall");
      v.push_back(r[i]);
    }
  block_until("MPI_Waitall", [v] {
    for (auto q : v)
      if (!req_done(q)) return false;
    return true;
  });
  for (int i = 0; i < n; ++i)
    if (r[i]) {
      finish(r[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i);
      r[i] = nullptr;
    }
  return 0;
}
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* st) {
  point();
  vector<minimpi_req*> v;
  for (int i = 0; i < n; ++i)
    if (r[i]) v.push_back(r[i]);
  if (v.empty()) { *idx = MPI_UNDEFINED; return 0; }
  block_until("MPI_Waitany", [v] {
    for (auto q : v)
      if (req_done(q)) return true;
    return false;
  });
  vector<int> ready;
  for (int i = 0; i < n; ++i)
    if (r[i] && req_done(r[i])) ready.push_back(i);
  *idx = ready[size_t(deviate(int(ready.size())))];
  finish(r[*idx], st);
  r[*idx] = nullptr;
  return 0;
}
int MPI_Test(MPI_Request* r, int* flag, MPI_Status* st) {
  return MPI_Testall(1, r, flag, st);
}
int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status* st) {
  point();
  bool all = true, any = false;
  for (int i = 0; i < n; ++i)
    if (r[i]) {
      check_req(r[i], "MPI_Testall");
      any = true;
      if (!req_done(r[i])) all = false;
    }
  *flag = 0;
  if (!all) {
    failed_poll();
    return 0;
  }
  if (any && deviate(2)) {  // complete, but this call does not notice it yet
    changed();
    failed_poll();
    return 0;
  }
  *flag = 1;
  for (int i = 0; i < n; ++i)
    if (r[i]) {
      finish(r[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i);
      r[i] = nullptr;
    }
  return 0;
}
int MPI_Testany(int n, MPI_Request* r, int* idx, int* flag, MPI_Status* st) {
  point();
  bool any = false;
  *flag = 0;
  *idx = MPI_UNDEFINED;
  vector<int> ready;
  for (int i = 0; i < n; ++i)
    if (r[i]) {
      any = true;
      if (req_done(r[i])) ready.push_back(i);
    }
  if (!any) { *flag = 1; return 0; }
  int k = ready.empty() ? 0 : deviate(int(ready.size()) + 1);
  if (ready.empty() || k == int(ready.size())) {
    if (!ready.empty()) changed();
    failed_poll();
    return 0;
  }
  *flag = 1;
  *idx = ready[size_t(k)];
  finish(r[*idx], st);
  r[*idx] = nullptr;
  return 0;
}
int MPI_Request_free(MPI_Request* r) {
  failf("mpi-unsupported", "MPI_Request_free");
  *r = nullptr;
  return 0;
}
int MPI_Barrier(MPI_Comm c) {
  point();
  auto a = arrive(c, "MPI_Barrier", 0, nullptr, nullptr, 0, nullptr, 0);
  wait_all_arrived(a, "MPI_Barrier");
  return 0;
}
int MPI_Ibarrier(MPI_Comm c, MPI_Request* r) {
  point();
  auto a = arrive(c, "MPI_Ibarrier", 0, nullptr, nullptr, 0, nullptr, 0);
  *r = new_req(minimpi_req::COLL);
  (*r)->coll = a.coll;
  (*r)->crank = a.me;
  return 0;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  point();
  int me = member(c, "MPI_Bcast");
  if (root < 0 || root >= int(c->world.size())) failf("mpi-misuse", "MPI_Bcast root %d", root);
  long long bytes = (long long)n * t->size;
  auto a = arrive(c, "MPI_Bcast", n, t, nullptr, root, me == root ? b : nullptr, bytes);
  if (me == root) {
    if (!world()->o.eager) wait_all_arrived(a, "MPI_Bcast");
    return 0;
  }
  auto cp = a.coll;
  bool eager = world()->o.eager;
  block_until("MPI_Bcast", [=] {
    return eager ? bool(cp->here[size_t(root)]) : cp->arrived == int(cp->here.size());
  });
  if (bytes) memcpy(b, cp->data[size_t(root)].data(), size_t(bytes));
  changed();
  return 0;
}
static void const* inplace(void const* s, void* r) { return s == MPI_IN_PLACE ? r : s; }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  point();
  long long bytes = (long long)n * t->size;
  auto a = arrive(c, "MPI_Allreduce", n, t, op, 0, inplace(s, r), bytes);
  wait_all_arrived(a, "MPI_Allreduce");
  auto& cp = *a.coll;
  if (!cp.reduced) {
    cp.result = combine(cp, int(cp.here.size()));
    cp.reduced = true;
  }
  if (bytes) memcpy(r, cp.result.data(), size_t(bytes));
  return 0;
}
int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*) {
  failf("mpi-unsupported", "MPI_Iallreduce");
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  point();
  long long bytes = (long long)n * t->size;
  int me = member(c, "MPI_Reduce");
  auto a = arrive(c, "MPI_Reduce", n, t, op, root, me == root ? inplace(s, r) : s, bytes);
  if (me == root || !world()->o.eager) wait_all_arrived(a, "MPI_Reduce");
  if (me == root) {
    auto res = combine(*a.coll, int(a.coll->here.size()));
    if (bytes) memcpy(r, res.data(), size_t(bytes));
  }
  return 0;
}
static int scan_like(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, bool ex) {
  point();
  long long bytes = (long long)n * t->size;
  auto what = ex ? "MPI_Exscan" : "MPI_Scan";
  auto a = arrive(c, what, n, t, op, 0, inplace(s, r), bytes);
  auto cp = a.coll;
  int me = a.me;
  bool eager = world()->o.eager;
  block_until(what, [=] {
    if (!eager) return cp->arrived == int(cp->here.size());
    for (int i = 0; i < me; ++i)
      if (!cp->here[size_t(i)]) return false;
    return true;
  });
  changed();
  if (ex && me == 0) {
    // the result on rank 0 is undefined
    if (bytes && s != MPI_IN_PLACE) memset(r, 0x5a, size_t(bytes));
    return 0;
  }
  auto res = combine(*cp, ex ? me : me + 1);
  if (bytes) memcpy(r, res.data(), size_t(bytes));
  return 0;
}
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  return scan_like(s, r, n, t, op, c, false);
}
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  return scan_like(s, r, n, t, op, c, true);
}
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int, MPI_Datatype, int root, MPI_Comm c) {
  point();
  long long bytes = (long long)sn * st->size;
  auto a = arrive(c, "MPI_Gather", bytes, nullptr, nullptr, root, s, bytes);
  if (a.me == root || !world()->o.eager) wait_all_arrived(a, "MPI_Gather");
  if (a.me == root && bytes)
    for (size_t i = 0; i < a.coll->data.size(); ++i)
      memcpy(static_cast<char*>(r) + i * size_t(bytes), a.coll->data[i].data(), size_t(bytes));
  return 0;
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c) {
  point();
  int me = member(c, "MPI_Allgather");
  long long bytes = (long long)rn * rt->size;
  (void)sn;
  (void)st;
  auto src = s == MPI_IN_PLACE ? static_cast<char*>(r) + me * bytes : s;
  auto a = arrive(c, "MPI_Allgather", bytes, nullptr, nullptr, 0, src, bytes);
  wait_all_arrived(a, "MPI_Allgather");
  if (bytes)
    for (size_t i = 0; i < a.coll->data.size(); ++i)
      memcpy(static_cast<char*>(r) + i * size_t(bytes), a.coll->data[i].data(), size_t(bytes));
  return 0;
}
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* dis,
    MPI_Datatype rt, MPI_Comm c) {
  point();
  int me = member(c, "MPI_Allgatherv");
  bool in = s == MPI_IN_PLACE;
  auto src = in ? static_cast<char*>(r) + dis[me] * rt->size : s;
  auto a = arrive(c, "MPI_Allgatherv", 0, nullptr, nullptr, 0, src,
      in ? (long long)rn[me] * rt->size : (long long)sn * st->size);
  wait_all_arrived(a, "MPI_Allgatherv");
  for (size_t i = 0; i < a.coll->data.size(); ++i) {
    if ((long long)a.coll->data[i].size() > (long long)rn[i] * rt->size) failf("mpi-truncation", "MPI_Allgatherv");
    if (!a.coll->data[i].empty())
      memcpy(static_cast<char*>(r) + dis[i] * rt->size, a.coll->data[i].data(), a.coll->data[i].size());
  }
  return 0;
}
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* r, int, MPI_Datatype, MPI_Comm c) {
  point();
  size_t n = c->world.size();
  long long bytes = (long long)sn * st->size;
  auto a = arrive(c, "MPI_Alltoall", bytes, nullptr, nullptr, 0, s, bytes * (long long)n);
  wait_all_arrived(a, "MPI_Alltoall");
  if (bytes)
    for (size_t i = 0; i < n; ++i)
      memcpy(static_cast<char*>(r) + i * size_t(bytes),
          a.coll->data[i].data() + size_t(a.me) * size_t(bytes), size_t(bytes));
  return 0;
}
int MPI_Alltoallv(const void* s, const int* sn, const int* sd, MPI_Datatype st, void* r,
    const int* rn, const int* rd, MPI_Datatype rt, MPI_Comm c) {
  point();
  size_t n = c->world.size();
  auto a = arrive(c, "MPI_Alltoallv", 0, nullptr, nullptr, 0, nullptr, 0);
  auto& data = a.coll->data[size_t(a.me)];
  auto& ints = a.coll->ints[size_t(a.me)];
  for (size_t i = 0; i < n; ++i) {
    auto b = static_cast<char const*>(s) + sd[i] * st->size;
    ints.push_back(int(data.size()));
    data.insert(data.end(), b, b + sn[i] * st->size);
    ints.push_back(sn[i] * st->size);
  }
  wait_all_arrived(a, "MPI_Alltoallv");
  for (size_t i = 0; i < n; ++i) {
    int off = a.coll->ints[i][2 * size_t(a.me)], len = a.coll->ints[i][2 * size_t(a.me) + 1];
    if (len > rn[i] * rt->size) failf("mpi-truncation", "MPI_Alltoallv");
    if (len) memcpy(static_cast<char*>(r) + rd[i] * rt->size, a.coll->data[i].data() + off, size_t(len));
  }
  return 0;
}
int MPI_Op_create(MPI_User_function* f, int commute, MPI_Op* op) {
  *op = new minimpi_op{100, f, commute};
  ++world()->live_ops;
  return 0;
}
int MPI_Op_free(MPI_Op* op) {
  if (*op >= minimpi_ops && *op < minimpi_ops + 9) failf("mpi-misuse", "MPI_Op_free of a predefined operation");
  delete *op;
  *op = nullptr;
  --world()->live_ops;
  return 0;
}
int MPI_Type_size(MPI_Datatype t, int* s) { *s = t->size; return 0; }
}

namespace minimpi {

int rank() { return world()->cur; }
static uint64_t last_calls = 0;  // of the last run
uint64_t mpi_calls() { return W && !W->fibers.empty() && W->body ? W->calls : last_calls; }

void fail(std::string const& key, char const* fmt, ...) {
  char buf[6000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  fail_now(key, buf);
}
void require(bool ok, std::string const& key, char const* fmt, ...) {
  if (ok) return;
  char buf[6000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  fail_now(key, buf);
}

static int pending(minimpi_comm& c) {
  int n = 0;
  for (auto& u : c.unexpected) n += int(u.size());
  for (auto& p : c.posted) n += int(p.size());
  return n;
}

bool explore(bool on) {
  auto& f = W->fibers[size_t(W->cur)];
  bool was = f.explore;
  f.explore = on;
  return was;
}

int pending_messages() {
  int n = pending(W->world);
  for (auto c : W->comms) n += pending(*c);
  return n;
}

void run(mc::Ctx& c, Options const& o, std::function<void(int)> const& body) {
  World* outer = W;
  W = make_world(o, &c);
  World* w = W;
  w->body = &body;
  w->fibers.resize(size_t(o.nranks));
  for (int i = 0; i < o.nranks; ++i) w->fibers[size_t(i)].rank = i;
  next_rank = 0;
  try {
    if (o.nranks > 1) next_rank = deviate(o.nranks);
  } catch (...) {
    W = outer;
    throw;
  }
  int left = o.nranks;
  while (left > 0 && !w->failed && !w->control) {
    int r = next_rank;
    if (r < 0) break;
    next_rank = -2;
    enter(r);
    if (w->failed || w->control) break;
    if (w->fibers[size_t(r)].done) {
      --left;
      if (left == 0) break;
      w->cur = r;
      try {
        pick_next_after_block();
      } catch (...) {
        w->control = std::current_exception();
      }
      if (next_rank == -1 && !w->failed) {
        w->failed = true;
        w->failure = mc::Failure{"deadlock", "no rank can make progress"};
      }
    }
  }
  if (!w->failed && !w->control) {
    if (pending_messages()) {
      w->failed = true;
      w->failure = mc::Failure{"mpi-unmatched", "a message was never received (or a receive never matched) when all ranks finished"};
    } else if (w->live_reqs) {
      w->failed = true;
      w->failure = mc::Failure{"mpi-request-leak", "a request was never completed"};
    } else if (w->live_ops) {
      w->failed = true;
      w->failure = mc::Failure{"mpi-op-leak", "an operation was never freed"};
    } else {
      for (auto cm : w->comms) {
        if (!cm->colls.empty()) {
          w->failed = true;
          w->failure = mc::Failure{"collective-mismatch", "a collective was not entered by every rank"};
        }
        for (char f : cm->freed)
          if (!f && !w->failed) {
            w->failed = true;
            w->failure = mc::Failure{"mpi-comm-leak", "a communicator was never freed"};
          }
      }
    }
  }
  bool failed = w->failed;
  mc::Failure failure = w->failure;
  auto control = w->control;
  last_calls = w->calls;
  W = outer;
  if (!failed && !control) {
    for (auto& f : w->fibers)
      if (f.stack) free_stacks.push_back(f.stack);
    for (auto cm : w->comms) delete cm;
    delete w;
  }  // otherwise the ranks' stacks are abandoned, with what they refer to
  if (failed) throw failure;
  if (control) std::rethrow_exception(control);
}

}  // namespace minimpi
