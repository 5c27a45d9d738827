// Simulated callers: real threads of which exactly one runs at a time, the
// switch points being chosen by the plan.  The code under test is compiled
// with -fsanitize=thread but linked against the hooks of sched.cpp, which
// count memory accesses (the preemption points), switch callers, and detect
// conflicting accesses not ordered by any synchronisation.
#ifndef VERIF_SIM_SCHED_H
#define VERIF_SIM_SCHED_H
#include <functional>
#include <string>
#include <vector>
#include "sim/core.h"

namespace sched {
enum { MAXT = 4 };
struct Slice {
  int who;
  sim::u64 len;
};
struct Report {
  bool race = false, deadlock = false, process_state = false;
  std::string what;
  sim::u64 accesses[MAXT] = {0, 0, 0, 0};
  sim::u64 switches = 0, conflict_switches = 0, lock_waits = 0, syncs = 0, shared_granules = 0;
  bool shadow_full = false;
};
struct Options {
  double global_p = 0;    // switch at an access to static storage
  double conflict_p = 0;  // switch at an access to memory another caller has touched
  double quantum = 0;     // mean length of the slices that follow the planned ones (0: run to completion)
  sim::u64 seed = 0;
};
Report run(const std::vector<std::function<void()>> &bodies, const std::vector<Slice> &slices, const Options &o);
bool in_caller();  // true inside a simulated caller
}  // namespace sched
#endif
