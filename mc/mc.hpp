// Bounded-exhaustive explorer.  A suite body calls Ctx::choose() for every
// input, operation, environment answer and scheduling decision; the explorer
// enumerates ALL choice sequences (stateless depth-first search), distributing
// the subtrees below Ctx::split() over forked workers.  A crash, a hang or a
// failed check of one execution is a violation, re-executed alone before it is
// reported.
#ifndef MC_HPP
#define MC_HPP
#include <cstdint>
#include <cstdio>
#include <exception>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Prune {};
struct Stop {};
struct Failure {
  std::string key;
  std::string msg;
};

// 64-bit FNV-ish hash accumulation
struct Hash {
  uint64_t h = 0xcbf29ce484222325ull;
  void bytes(void const* p, size_t n);
  template <class T>
  Hash& add(T const& v) {
    bytes(&v, sizeof(v));
    return *this;
  }
  Hash& add(std::string const& s) {
    bytes(s.data(), s.size());
    return *this;
  }
};

class Ctx {
 public:
  // enumerate 0..n-1
  int choose(int n, char const* label = nullptr);
  bool flip(char const* label = nullptr) { return choose(2, label) != 0; }
  // 0 is free; anything else costs one deviation; past the bound always 0
  int deviate(int n, char const* label = nullptr);
  int deviation_bound = 0;
  int deviations_used() const { return devs_; }
  // spreads a schedule space over the workers: chooses one of n stripes and
  // calls split(); the first deviation of an execution may then only happen at
  // every n-th deviation point (the union over the stripes is the whole space)
  void stripes(int n);
  void split();
  void prune() { throw Prune(); }
  void state(uint64_t h);
  void step(uint64_t n = 1) { steps_ += n; }
  // evaluations that count as separate executions of the code under test
  void exec(uint64_t n = 1) { execs_ += n; }
  void outcome(uint64_t h);  // distinct observed outcomes
  bool describing() const { return describing_; }
  void note(char const* fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail(std::string const& key, char const* fmt, ...)
      __attribute__((format(printf, 3, 4)));
  void require(bool ok, std::string const& key, char const* fmt, ...)
      __attribute__((format(printf, 4, 5)));
  bool thorough() const;
  std::string scratch() const;  // private scratch directory of this worker

  // internals
  struct Point {
    int chosen, n;
    bool dev;
  };
  std::vector<Point> path_;
  size_t pos_ = 0;
  int devs_ = 0, stripe_ = 0, nstripes_ = 1, dev_points_ = 0;
  uint64_t steps_ = 0, execs_ = 0;
  bool describing_ = false, replaying_ = false, did_split_ = false;
  std::string notes_;
  void* impl_ = nullptr;
};

struct Suite {
  std::string name;
  std::function<void(Ctx&)> body;
  double timeout = 60;     // seconds for one execution before it is a hang
  bool thorough_only = false;
  std::string bounds;      // human description of the bound
};

// called before every execution of a suite's body (a build's own choices)
extern void (*before)(Ctx&);

// ends the execution from a place that cannot be unwound
[[noreturn]] void abandon(Failure const* f, std::exception_ptr by);

// parses argv, explores, writes the evidence part; returns the exit status
int main(int argc, char** argv, char const* property, std::vector<Suite> suites);

}  // namespace mc
#endif
