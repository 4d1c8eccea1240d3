// Control of thread interleavings.  In the "sched" variant (VERIF_SCHED) at most one thread runs
// at a time and the strategy decides at every synchronisation operation (and, when asked, at
// memory accesses of the code under test) which one; elsewhere Run just calls the body.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <functional>
#include <string>
#include <vector>

namespace sched {
struct Opt {
  enum Kind { RANDOM, PCT, DFS } kind = RANDOM;
  uint64_t seed = 1;
  double p_sync = 0.3;     // RANDOM: probability of a switch at a synchronisation operation
  double p_mem = 0;        // probability of a switch at a memory access
  int depth = 3;           // PCT: number of priority changes
  int preemptions = 2;     // DFS: bound
  int spurious = 0;        // number of spurious wake-ups allowed
  long max_steps = 2000000;
  bool races = true;       // run the race detector
};
struct Info {
  long steps = 0, switches = 0, choices = 0;
  std::vector<std::string> races;
};
// Runs body under the strategy. Deadlock and step limit end the process with an event.
Info Run(const Opt& o, const std::function<void()>& body);
// DFS over all schedules within the bound: before each execution Reset..., until Exhausted.
void DfsReset();
bool DfsNext();                 // moves on to the next schedule; false: all explored
int Self();                     // number of the running thread: 0 for the one that called Run
int Live();                     // started threads that have not ended
void Forget(void* p, size_t n);
void Point();                   // explicit preemption point
bool Active();
struct Quiet { Quiet(); ~Quiet(); };   // no switches and no race detection inside

extern const bool kControlled;  // true in the sched variant
}  // namespace sched
