#ifndef MINIMPI_HPP
#define MINIMPI_HPP
#include <functional>
#include "../mc.hpp"

namespace minimpi {
struct Options {
  int nranks = 1;
  // eager: sends complete at once, collectives let ranks leave as early as MPI
  // permits; otherwise every send is a rendezvous and collectives synchronize
  bool eager = true;
  // order in which commutative reductions combine the ranks' contributions:
  // 0 ascending, 1 descending, 2 pairwise tree
  int reduce_order = 0;
  // schedule exploration on/off (off: default schedule only)
  bool explore = true;
  uint64_t config = 0;  // hash of the driver's inputs, mixed into state hashes
  int ops_limit = 2000000;
};
// Runs body(rank) on every rank; each scheduling or MPI decision that differs
// from the default costs one deviation of c.  Any failure is thrown here.
void run(mc::Ctx& c, Options const& o, std::function<void(int)> const& body);
int rank();            // of the running fiber (0 outside run)
uint64_t mpi_calls();  // number of MPI calls in the last/current run
// harness-level failure from inside a rank body
[[noreturn]] void fail(std::string const& key, char const* fmt, ...)
    __attribute__((format(printf, 2, 3)));
void require(bool ok, std::string const& key, char const* fmt, ...)
    __attribute__((format(printf, 3, 4)));
// switch exploration on or off for the calling rank
bool explore(bool on);
// messages which are sent or expected but not matched right now
int pending_messages();
}  // namespace minimpi
#endif
