// OpenMP regions under the explorer's control: every thread and task of a
// region is a strand on its own stack, switched only at synchronization
// (atomic operations, critical sections, barriers, task creation and waits);
// every memory access between two of them is checked against all accesses it
// is not ordered with.  A race is reported unless the bytes end up the same
// whichever access comes first (equal values written by several threads).
#ifndef MINIOMP_HPP
#define MINIOMP_HPP
#include "../mc.hpp"

namespace miniomp {
// number of threads of the following regions
void set_threads(int n);
int threads();
// explore the schedules of regions with c's deviations (null: default order)
void set_ctx(mc::Ctx* c);
// 0: lowest strand first, 1: highest first, 2: switch at every point
void set_order(int order);
bool explore(bool on);
struct Counts {
  uint64_t regions, strands, points, accesses, benign;
};
Counts counts();
}  // namespace miniomp
#endif
