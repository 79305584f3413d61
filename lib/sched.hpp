// A controlled thread scheduler for property-based testing of concurrent code.
//
// While a session runs, exactly one of its threads runs at a time. The code under test uses the real pthread API
// (through boost or std); mutexes, condition variables, thread creation and joining, once-guards, futexes, sleeping and
// the clock are interposed and modelled here, and the code is compiled with
// -fsanitize-coverage=trace-pc,trace-loads,trace-stores so that a thread can also be preempted between any two memory
// accesses. Where a switch happens is decided by a Plan drawn from the case's Source, so that schedules are generated,
// replayed and shrunk like any other input. A state in which no thread can run is reported as a deadlock.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

#include "pbt.hpp"

namespace sched {

struct Preempt {
  uint32_t sync = 0;    ///< after this many synchronisation operations of the session ...
  uint32_t mem = 0;     ///< ... and this many further memory accesses or basic blocks
  uint32_t target = 0;  ///< the thread to run instead, counted among the others that can
};
struct Plan {
  std::vector<Preempt> preempts;
  std::vector<uint32_t> choices;   ///< who runs next when a thread blocks, who is woken by a notification
  std::vector<uint32_t> spurious;  ///< synchronisation operations at which a waiting thread wakes up spuriously
  bool walk = false;               ///< additionally a random walk
  uint64_t seed = 1;
  uint32_t syncRate = 0, memRate = 0;  ///< one switch per so many operations on average, 0: none
  std::string text() const;
};
/// horizon: synchronisation operations after which drawn preemptions no longer fall
Plan draw(pbt::Source& s, unsigned horizon = 100, bool spurious = true);

struct Stats {
  uint64_t switches = 0, syncs = 0, steps = 0, preempted = 0, blocked = 0, threads = 0;
};
/// Runs body as thread 0 under the plan and returns when every thread made by it has ended. Deadlock, livelock and
/// misuse of a synchronisation object print a report and abort the process (the engine attributes that to the case).
Stats run(const Plan& plan, const std::function<void()>& body);

/// inside a session: number of the calling thread, -1 outside
int self();
/// a point at which the scheduler may switch
void point();
/// the session's clock, in ns since the epoch; it stands still except for sleeping and advance()
int64_t clockNs();
void advance(int64_t ns);
/// every reading of the clock moves it by so much
void tick(int64_t ns);

/// no preemption in the scope (for the harness's own bookkeeping)
struct Quiet {
  Quiet();
  ~Quiet();
};
/// report and abort
[[noreturn]] void bad(const std::string& msg);

}  // namespace sched
#endif
