// Controlled scheduler: runs the real threads of a scenario one at a time, and asks the explorer
// which one runs next at every synchronisation operation (mutex, condition variable, semaphore,
// thread creation/join, sleep, atomic access of std::atomic objects).
#pragma once
#include <cstdint>
#include <functional>
#include <string>

namespace sched {

struct Config {
  uint64_t maxSteps = 20000; // scheduling steps before the execution is reported as a livelock
  bool freeSwitchAtBlock = true; // choosing who runs when the current thread blocks costs nothing
  int switchCost = 1; // cost of a preemption
  int timeoutCost = 1; // cost of letting a timed wait expire while other threads could run
  bool atomicsArePoints = true;
  double startTime = 1000.0; // virtual clock at the start, seconds
};

/// Run f as thread 0 of a controlled execution, and wait until all its threads have ended.
/// A deadlock, a livelock, or a thread left behind is a violation.
void run(const std::function<void()>& f, const Config& config = {});

/// True inside run().
bool active();
/// An explicit scheduling point (for harness-level shared objects, e.g. a simulated device).
void point(const char* label);
/// Current virtual time.
double now();
/// Advance the virtual clock (a slow operation).
void advance(double sec);
/// Id of the calling thread (0 is the first).
int self();
/// Give a name to the calling thread (for traces).
void nameThread(const char* name);
/// Block the calling thread until pred() holds; pred is evaluated by the scheduler.
void waitUntil(const char* label, const std::function<bool()>& pred);
/// Number of scheduling steps so far.
uint64_t steps();

} // namespace sched
