#include "miniomp.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <memory>
#include <new>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

using std::string;
using std::vector;

extern "C" void minimpi_switch(void** save, void* to);

namespace {
constexpr size_t STACK = size_t(512) << 10;
struct Region;
typedef vector<uint32_t> Clock;

struct Strand {
  Region* region = nullptr;
  int id = 0, tid = 0;
  bool task = false;
  Strand* parent = nullptr;
  void (*fn)(void*) = nullptr;
  void* data = nullptr;
  void* owned = nullptr;
  void* sp = nullptr;
  void* stack = nullptr;
  bool started = false, done = false;
  enum { RUN, BARRIER, TASKWAIT, CRITICAL } wait = RUN;
  int live_children = 0;
  Clock clock, children_clock;
  void* eh[2] = {nullptr, nullptr};
};

struct Access {
  uint32_t strand, clock;
  uint8_t mask;
  bool write, atomic;
  void* pc;
};
struct Cell {
  bool has_orig = false;
  uint8_t orig[8];
  vector<Access> acc;
};
struct Pending {  // a write which conflicts unless it changes nothing
  uintptr_t at;
  uint8_t size;
  uint8_t before[16];
  Access other, self;
};

struct Region {
  vector<std::unique_ptr<Strand>> strands;
  int nthreads = 1, at_barrier = 0, unfinished_tasks = 0;
  Strand* cur = nullptr;
  void* main_sp = nullptr;
  std::unordered_map<uintptr_t, Cell> shadow;
  vector<Pending> pending;
  std::exception_ptr thrown;
  bool failed = false;
  mc::Failure failure;
  int critical = -1;
  Clock critical_clock;
  uint64_t points = 0;
};

int nthreads_ = 1;
int order_ = 0;
bool explore_ = true;
mc::Ctx* ctx_ = nullptr;
Region* R = nullptr;      // the active region
bool in_runtime = false;  // not code under test
// every suite is explored with several teams, unless it chooses its own
void choose_team(mc::Ctx& c) {
  static int const teams[][2] = {{2, 0}, {3, 2}, {2, 1}, {5, 1}};
  auto& t = teams[c.choose(c.thorough() ? 4 : 2)];
  nthreads_ = t[0];
  order_ = t[1];
  explore_ = false;
  ctx_ = &c;
  c.note("threads %d, order %d\n", t[0], t[1]);
}
struct Hook {
  Hook() { mc::before = choose_team; }
} hook_;
miniomp::Counts count_ = {0, 0, 0, 0, 0};
vector<void*> stacks;

struct Runtime {
  bool was;
  Runtime() : was(in_runtime) { in_runtime = true; }
  ~Runtime() { in_runtime = was; }
};

void join(Clock& a, Clock const& b) {
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); ++i)
    if (b[i] > a[i]) a[i] = b[i];
}
uint32_t& at(Clock& c, int i) {
  if (c.size() <= size_t(i)) c.resize(size_t(i) + 1, 0);
  return c[size_t(i)];
}
string where(void* pc) {
  Dl_info i;
  char cmd[200], line[600] = "";
  if (dladdr(pc, &i)) {
    snprintf(cmd, sizeof cmd, "addr2line -fCe /proc/%d/exe %#lx 2>/dev/null", int(getpid()),
        (unsigned long)(uintptr_t(pc) - uintptr_t(i.dli_fbase)) - 1);
    if (FILE* f = popen(cmd, "r")) {
      if (!fgets(line, sizeof line, f)) line[0] = 0;
      pclose(f);
    }
  }
  string s = line;
  while (!s.empty() && s.back() == '\n') s.pop_back();
  if (s.empty() || s == "??") {
    snprintf(cmd, sizeof cmd, "%p", pc);
    return cmd;
  }
  if (s.size() > 200) s.resize(200);
  return s;
}
void fail_region(string const& key, string const& msg) {
  if (!R->failed) {
    R->failed = true;
    R->failure = mc::Failure{key, msg};
  }
}
void report(Access const& a, Access const& b, uintptr_t p) {
  auto kind = [](Access const& x) { return string(x.atomic ? "atomic " : "") + (x.write ? "write" : "read"); };
  (void)p;
  fail_region("race", "threads " + std::to_string(R->strands[a.strand]->tid) + " and " + std::to_string(R->strands[b.strand]->tid) + " of " +
                          std::to_string(R->nthreads) + " touch the same memory at the same time: " + kind(a) + " in " + where(a.pc) + ", " + kind(b) +
                          " in " + where(b.pc));
}
void settle() {
  if (R->pending.empty()) return;
  for (auto& p : R->pending) {
    if (memcmp(p.before, reinterpret_cast<void*>(p.at), p.size))
      report(p.other, p.self, p.at);
    else
      ++count_.benign;
  }
  R->pending.clear();
}
bool ordered(Access const& a, Strand const& s) {
  if (int(a.strand) == s.id) return true;
  return a.strand < s.clock.size() && a.clock <= s.clock[a.strand];
}
void touch(uintptr_t p, size_t n, bool write, bool atomic, void* pc) {
  if (!R || in_runtime || !R->cur || R->nthreads + int(R->strands.size()) <= 2) return;
  Runtime rt;
  ++count_.accesses;
  settle();
  auto& s = *R->cur;
  uint32_t now = at(s.clock, s.id);
  while (n) {
    size_t off = p & 7, k = std::min(n, 8 - off);
    uint8_t mask = uint8_t(((1u << k) - 1) << off);
    auto& c = R->shadow[p >> 3];
    bool mine = false;
    for (size_t i = 0; i < c.acc.size();) {
      auto& a = c.acc[i];
      if (int(a.strand) == s.id && a.write == write && a.atomic == atomic && a.mask == mask) {
        a.clock = now;
        a.pc = pc;
        mine = true;
      } else if ((a.mask & mask) && (a.write || write) && !(a.atomic && atomic) && !ordered(a, s)) {
        Access self{uint32_t(s.id), now, mask, write, atomic, pc};
        if (write) {
          Pending q;
          q.at = p;
          q.size = uint8_t(k);
          memcpy(q.before, reinterpret_cast<void*>(p), k);
          q.other = a;
          q.self = self;
          bool dup = false;
          for (auto& x : R->pending) dup = dup || x.at == p;
          if (!dup) R->pending.push_back(q);
        } else if (c.has_orig) {
          uint8_t cur[8];
          memcpy(cur, reinterpret_cast<void*>((p >> 3) << 3), 8);
          bool same = true;
          for (int b = 0; b < 8; ++b)
            if ((a.mask & mask & (1 << b)) && cur[b] != c.orig[b]) same = false;
          if (!same)
            report(a, self, p);
          else
            ++count_.benign;
        }
      }
      ++i;
    }
    if (write && !c.has_orig) {
      c.has_orig = true;
      memcpy(c.orig, reinterpret_cast<void*>((p >> 3) << 3), 8);
    }
    if (!mine) c.acc.push_back({uint32_t(s.id), now, mask, write, atomic, pc});
    p += k;
    n -= k;
  }
}
void forget(void* q, size_t n) {
  if (!R || !q || R->shadow.empty()) return;
  Runtime rt;
  auto p = reinterpret_cast<uintptr_t>(q);
  if (n > (1 << 16)) {
    for (auto it = R->shadow.begin(); it != R->shadow.end();)
      if (it->first >= (p >> 3) && it->first <= ((p + n) >> 3)) it = R->shadow.erase(it);
      else ++it;
    return;
  }
  for (uintptr_t c = p >> 3; c <= (p + n) >> 3; ++c) R->shadow.erase(c);
}

void to_scheduler() {
  auto& s = *R->cur;
  auto eh = reinterpret_cast<void**>(abi::__cxa_get_globals());
  s.eh[0] = eh[0];
  s.eh[1] = eh[1];
  bool was = in_runtime;
  minimpi_switch(&s.sp, R->main_sp);
  in_runtime = was;
  eh[0] = s.eh[0];
  eh[1] = s.eh[1];
}
void finish_strand(Strand& s) {
  s.done = true;
  if (s.task) {
    --R->unfinished_tasks;
    if (s.parent) {
      --s.parent->live_children;
      join(s.parent->children_clock, s.clock);
    }
    free(s.owned);
    s.owned = nullptr;
  }
}
extern "C" void miniomp_strand_main() {
  auto eh = reinterpret_cast<void**>(abi::__cxa_get_globals());
  eh[0] = eh[1] = nullptr;
  auto& s = *R->cur;
  in_runtime = false;
  try {
    s.fn(s.data);
  } catch (mc::Failure const& f) {
    in_runtime = true;
    fail_region(f.key, f.msg);
  } catch (std::exception const& e) {
    in_runtime = true;
    fail_region("thread-exception", string("an exception left a parallel region: ") + e.what());
  } catch (...) {
    in_runtime = true;
    if (!R->thrown) R->thrown = std::current_exception();
  }
  in_runtime = true;
  settle();
  finish_strand(s);
  to_scheduler();
  abort();
}
void enter(Strand& s) {
  R->cur = &s;
  auto eh = reinterpret_cast<void**>(abi::__cxa_get_globals());
  void* save[2] = {eh[0], eh[1]};
  if (!s.started) {
    s.started = true;
    if (stacks.empty()) {
      s.stack = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (s.stack == MAP_FAILED) abort();
      mprotect(s.stack, 4096, PROT_NONE);
    } else {
      s.stack = stacks.back();
      stacks.pop_back();
    }
    auto sp = reinterpret_cast<void**>(reinterpret_cast<char*>(s.stack) + STACK - 64);
    *--sp = nullptr;
    *--sp = reinterpret_cast<void*>(&miniomp_strand_main);
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    --sp;
    unsigned mx;
    unsigned short cw;
    asm volatile("stmxcsr %0" : "=m"(mx));
    asm volatile("fnstcw %0" : "=m"(cw));
    memcpy(sp, &mx, 4);
    memcpy(reinterpret_cast<char*>(sp) + 4, &cw, 2);
    s.sp = sp;
  }
  minimpi_switch(&R->main_sp, s.sp);
  eh[0] = save[0];
  eh[1] = save[1];
  R->cur = nullptr;
}
bool barrier_open() {
  int waiting = 0;
  for (auto& s : R->strands)
    if (!s->task && (s->done || s->wait == Strand::BARRIER)) ++waiting;
  return waiting == R->nthreads && R->unfinished_tasks == 0;
}
bool runnable(Strand& s) {
  if (s.done) return false;
  switch (s.wait) {
    case Strand::RUN: return true;
    case Strand::BARRIER: return false;
    case Strand::TASKWAIT: return s.live_children == 0;
    case Strand::CRITICAL: return R->critical < 0;
  }
  return false;
}
int wanted_ = -1;
// the running strand may be preempted here
void point() {
  ++count_.points;
  ++R->points;
  if (order_ != 2 && (!ctx_ || !explore_ || ctx_->devs_ >= ctx_->deviation_bound)) {
    if (ctx_) ctx_->step();
    return;
  }
  vector<int> cand;
  int n = int(R->strands.size());
  for (int k = 1; k < n; ++k) {
    int i = (R->cur->id + k) % n;
    if (runnable(*R->strands[size_t(i)])) cand.push_back(i);
  }
  if (cand.empty()) return;
  int k = 0;
  if (order_ == 2)
    k = 1;
  else {
    mc::Hash h;
    h.add(R->points).add(R->cur->id);
    for (auto& s : R->strands) h.add(int(s->done) * 8 + int(s->wait));
    ctx_->state(h.h);
    ctx_->step();
    try {
      k = ctx_->deviate(int(cand.size()) + 1);
    } catch (...) {
      R->thrown = std::current_exception();
    }
  }
  if (R->thrown || k) {
    wanted_ = k ? cand[size_t(k - 1)] : -1;
    to_scheduler();
  }
}
void open_barrier() {
  Clock all;
  for (auto& s : R->strands) join(all, s->clock);
  for (auto& s : R->strands)
    if (!s->task && !s->done) {
      join(s->clock, all);
      ++at(s->clock, s->id);
      s->wait = Strand::RUN;
    }
  R->shadow.clear();  // everything before is ordered before everything after
}
void schedule() {
  int last = -1;
  for (;;) {
    if (R->thrown || R->failed) return;
    bool all = true;
    for (auto& s : R->strands) all = all && s->done;
    if (all) return;
    int n = int(R->strands.size()), pick = -1;
    if (wanted_ >= 0) pick = wanted_, wanted_ = -1;
    if (pick < 0)
      for (int k = 0; k < n; ++k) {
        int i = order_ == 1 ? n - 1 - k : order_ == 2 ? (last + 1 + k) % n : k;
        if (runnable(*R->strands[size_t(i)])) {
          pick = i;
          break;
        }
      }
    if (pick < 0) {
      if (barrier_open()) {
        open_barrier();
        continue;
      }
      fail_region("omp-deadlock", "no thread of the region can continue");
      return;
    }
    auto& s = *R->strands[size_t(pick)];
    if (s.wait == Strand::TASKWAIT) {
      join(s.clock, s.children_clock);
      s.wait = Strand::RUN;
    }
    if (s.wait == Strand::CRITICAL) s.wait = Strand::RUN;
    last = pick;
    enter(s);
  }
}
Strand& add_strand(int tid) {
  R->strands.emplace_back(new Strand);
  auto& s = *R->strands.back();
  s.region = R;
  s.id = int(R->strands.size()) - 1;
  s.tid = tid;
  at(s.clock, s.id) = 1;
  ++count_.strands;
  return s;
}
void atomic_point(void* p, size_t n, bool write, void* pc) {
  if (!R || !R->cur || in_runtime) return;
  {
    Runtime rt;
    point();
  }
  touch(reinterpret_cast<uintptr_t>(p), n, write, true, pc);
  // an atomic write is not a plain change that a later reader may overlook
}
}  // namespace

namespace miniomp {
void set_threads(int n) { nthreads_ = n; }
int threads() { return nthreads_; }
void set_ctx(mc::Ctx* c) { ctx_ = c; }
void set_order(int o) { order_ = o; }
bool explore(bool on) {
  bool was = explore_;
  explore_ = on;
  return was;
}
Counts counts() { return count_; }
}  // namespace miniomp

extern "C" {
int omp_get_num_threads() { return R ? R->nthreads : 1; }
int omp_get_thread_num() { return R && R->cur ? R->cur->tid : 0; }
int omp_get_max_threads() { return nthreads_; }
int omp_in_parallel() { return R != nullptr; }
int omp_get_num_procs() { return nthreads_; }
int omp_get_level() { return R != nullptr; }
void omp_set_num_threads(int n) { nthreads_ = n; }
double omp_get_wtime() { return 0; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned num_threads, unsigned) {
  if (R) {  // nested: one thread
    auto was = R;
    int n = R->nthreads;
    R->nthreads = 1;
    int tid = R->cur->tid;
    R->cur->tid = 0;
    fn(data);
    was->nthreads = n;
    was->cur->tid = tid;
    return;
  }
  ++count_.regions;
  bool was = in_runtime;
  in_runtime = true;
  auto region = new Region;
  R = region;
  R->nthreads = num_threads ? int(num_threads) : nthreads_;
  wanted_ = -1;
  for (int i = 0; i < R->nthreads; ++i) {
    auto& s = add_strand(i);
    s.fn = fn;
    s.data = data;
  }
  schedule();
  for (auto& s : R->strands)
    if (s->stack) stacks.push_back(s->stack);
  R = nullptr;
  in_runtime = was;
  std::unique_ptr<Region> owned(region);
  // the callers of a parallel region are compiled as if it never threw
  if (owned->thrown) mc::abandon(nullptr, owned->thrown);
  if (owned->failed) mc::abandon(&owned->failure, nullptr);
}
void GOMP_barrier() {
  if (!R || !R->cur) return;
  if (R->nthreads == 1 && !R->unfinished_tasks) return;
  Runtime rt;
  settle();
  R->cur->wait = Strand::BARRIER;
  to_scheduler();
}
void GOMP_taskwait() {
  if (!R || !R->cur) return;
  Runtime rt;
  settle();
  if (!R->cur->live_children) {
    join(R->cur->clock, R->cur->children_clock);
    return;
  }
  R->cur->wait = Strand::TASKWAIT;
  to_scheduler();
}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool if_clause, unsigned, void**, int) {
  if (!R || !R->cur || !if_clause) {
    if (cpy) {
      char* b = static_cast<char*>(malloc(size_t(size + align)));
      char* a = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(b) + uintptr_t(align) - 1) & ~(uintptr_t(align) - 1));
      cpy(a, data);
      fn(a);
      free(b);
    } else
      fn(data);
    return;
  }
  Runtime rt;
  settle();
  char* b = static_cast<char*>(malloc(size_t(size + align)));
  char* a = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(b) + uintptr_t(align) - 1) & ~(uintptr_t(align) - 1));
  forget(b, size_t(size + align));
  if (cpy)
    cpy(a, data);
  else
    memcpy(a, data, size_t(size));
  auto parent = R->cur;
  auto& s = add_strand(parent->tid);
  s.task = true;
  s.parent = parent;
  s.fn = fn;
  s.data = a;
  s.owned = b;
  join(s.clock, parent->clock);
  at(s.clock, s.id) = 1;
  ++at(parent->clock, parent->id);
  ++parent->live_children;
  ++R->unfinished_tasks;
  point();
}
void GOMP_taskgroup_start() { fail_region("omp", "taskgroup is not modelled"); }
void GOMP_taskgroup_end() {}
bool GOMP_single_start() { return omp_get_thread_num() == 0; }
static void lock() {
  if (!R || !R->cur) return;
  Runtime rt;
  settle();
  point();
  while (R->critical >= 0) {
    R->cur->wait = Strand::CRITICAL;
    to_scheduler();
  }
  R->critical = R->cur->id;
  join(R->cur->clock, R->critical_clock);
}
static void unlock() {
  if (!R || !R->cur) return;
  Runtime rt;
  settle();
  R->critical = -1;
  join(R->critical_clock, R->cur->clock);
  ++at(R->cur->clock, R->cur->id);
}
void GOMP_critical_start() { lock(); }
void GOMP_critical_end() { unlock(); }
void GOMP_atomic_start() { lock(); }
void GOMP_atomic_end() { unlock(); }

// ---- instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define ACC(N)                                                                                                                    \
  void __tsan_read##N(void* p) { touch(reinterpret_cast<uintptr_t>(p), N, false, false, __builtin_return_address(0)); }           \
  void __tsan_write##N(void* p) { touch(reinterpret_cast<uintptr_t>(p), N, true, false, __builtin_return_address(0)); }           \
  void __tsan_unaligned_read##N(void* p) { touch(reinterpret_cast<uintptr_t>(p), N, false, false, __builtin_return_address(0)); } \
  void __tsan_unaligned_write##N(void* p) { touch(reinterpret_cast<uintptr_t>(p), N, true, false, __builtin_return_address(0)); } \
  void __tsan_volatile_read##N(void* p) { touch(reinterpret_cast<uintptr_t>(p), N, false, false, __builtin_return_address(0)); }  \
  void __tsan_volatile_write##N(void* p) { touch(reinterpret_cast<uintptr_t>(p), N, true, false, __builtin_return_address(0)); }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
void __tsan_read_range(void* p, unsigned long n) { touch(reinterpret_cast<uintptr_t>(p), n, false, false, __builtin_return_address(0)); }
void __tsan_write_range(void* p, unsigned long n) { touch(reinterpret_cast<uintptr_t>(p), n, true, false, __builtin_return_address(0)); }

#define ATOMIC(B, T)                                                                                                              \
  T __tsan_atomic##B##_load(T const volatile* p, int) {                                                                           \
    atomic_point(const_cast<T*>(p), sizeof(T), false, __builtin_return_address(0));                                               \
    return *p;                                                                                                                    \
  }                                                                                                                               \
  void __tsan_atomic##B##_store(T volatile* p, T v, int) {                                                                        \
    atomic_point(const_cast<T*>(p), sizeof(T), true, __builtin_return_address(0));                                                \
    *p = v;                                                                                                                       \
  }                                                                                                                               \
  T __tsan_atomic##B##_exchange(T volatile* p, T v, int) {                                                                        \
    atomic_point(const_cast<T*>(p), sizeof(T), true, __builtin_return_address(0));                                                \
    T o = *p;                                                                                                                     \
    *p = v;                                                                                                                       \
    return o;                                                                                                                     \
  }                                                                                                                               \
  T __tsan_atomic##B##_fetch_add(T volatile* p, T v, int) {                                                                       \
    atomic_point(const_cast<T*>(p), sizeof(T), true, __builtin_return_address(0));                                                \
    T o = *p;                                                                                                                     \
    *p = T(o + v);                                                                                                                \
    return o;                                                                                                                     \
  }                                                                                                                               \
  T __tsan_atomic##B##_fetch_sub(T volatile* p, T v, int) {                                                                       \
    atomic_point(const_cast<T*>(p), sizeof(T), true, __builtin_return_address(0));                                                \
    T o = *p;                                                                                                                     \
    *p = T(o - v);                                                                                                                \
    return o;                                                                                                                     \
  }                                                                                                                               \
  T __tsan_atomic##B##_fetch_and(T volatile* p, T v, int) {                                                                       \
    atomic_point(const_cast<T*>(p), sizeof(T), true, __builtin_return_address(0));                                                \
    T o = *p;                                                                                                                     \
    *p = T(o & v);                                                                                                                \
    return o;                                                                                                                     \
  }                                                                                                                               \
  T __tsan_atomic##B##_fetch_or(T volatile* p, T v, int) {                                                                        \
    atomic_point(const_cast<T*>(p), sizeof(T), true, __builtin_return_address(0));                                                \
    T o = *p;                                                                                                                     \
    *p = T(o | v);                                                                                                                \
    return o;                                                                                                                     \
  }                                                                                                                               \
  int __tsan_atomic##B##_compare_exchange_strong(T volatile* p, T* e, T v, int, int) {                                            \
    atomic_point(const_cast<T*>(p), sizeof(T), true, __builtin_return_address(0));                                                \
    if (*p == *e) {                                                                                                               \
      *p = v;                                                                                                                     \
      return 1;                                                                                                                   \
    }                                                                                                                             \
    *e = *p;                                                                                                                      \
    return 0;                                                                                                                     \
  }                                                                                                                               \
  int __tsan_atomic##B##_compare_exchange_weak(T volatile* p, T* e, T v, int a, int b) {                                          \
    return __tsan_atomic##B##_compare_exchange_strong(p, e, v, a, b);                                                             \
  }                                                                                                                               \
  T __tsan_atomic##B##_compare_exchange_val(T volatile* p, T e, T v, int, int) {                                                  \
    atomic_point(const_cast<T*>(p), sizeof(T), true, __builtin_return_address(0));                                                \
    T o = *p;                                                                                                                     \
    if (o == e) *p = v;                                                                                                           \
    return o;                                                                                                                     \
  }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// block operations are called, not instrumented
void* __real_memcpy(void*, void const*, size_t);
void* __real_memmove(void*, void const*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, void const* s, size_t n) {
  if (R && !in_runtime) {
    touch(reinterpret_cast<uintptr_t>(s), n, false, false, __builtin_return_address(0));
    touch(reinterpret_cast<uintptr_t>(d), n, true, false, __builtin_return_address(0));
  }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, void const* s, size_t n) {
  if (R && !in_runtime) {
    touch(reinterpret_cast<uintptr_t>(s), n, false, false, __builtin_return_address(0));
    touch(reinterpret_cast<uintptr_t>(d), n, true, false, __builtin_return_address(0));
  }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n) {
  if (R && !in_runtime) touch(reinterpret_cast<uintptr_t>(d), n, true, false, __builtin_return_address(0));
  return __real_memset(d, v, n);
}
}

// storage handed out again inside a region starts without history
void* operator new(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (R && !in_runtime) forget(p, n);
  return p;
}
void* operator new(size_t n, std::nothrow_t const&) noexcept {
  void* p = malloc(n ? n : 1);
  if (R && !in_runtime) forget(p, n);
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
