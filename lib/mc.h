// Bounded exhaustive exploration of executions: the explorer core.
//
// A scenario is a deterministic function that asks choose() for every decision that is not its own:
// the next operation, the size of a buffer, the thread to run, the write that fails, the byte at
// which the process dies. The explorer runs the scenario once per distinct sequence of answers, by
// re-execution: it enumerates every such sequence whose total deviation cost is within the
// scenario's bound, smallest cost first, over a pool of worker processes.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Violation {
  std::string key; // short, stable: what fails
  std::string detail; // this instance
};

// Thrown by fail() when no controlled schedule is running; unwinds to the explorer.
struct ViolationException {
  Violation v;
};

struct Scenario {
  std::string name;
  std::function<void()> body;
  int bound = 1 << 20; // max total deviation cost
  std::function<void()> warmup; // optional: run once per worker process, without choices
};

// ---- used by scenario bodies ----

/// Answer in [0, n). Alternative 0 is free; any other costs `cost` deviations.
int choose(int n, const char* label = "", int cost = 0);
/// As choose(), with one cost for each alternative (costs[0] must be 0).
int chooseCosts(int n, const uint8_t* costs, const char* label);
/// Pick one of a list.
template <class T>
const T& pick(const std::vector<T>& v, const char* label = "", int cost = 0) {
  return v[choose(static_cast<int>(v.size()), label, cost)];
}

/// Record that a distinct (abstract) state was reached; counted in a set shared by all workers.
void state(uint64_t hash);
/// Count transitions (operations applied, scheduling steps).
void transition(uint64_t n = 1);
/// Count traces of a model that were run against the implementation and compared.
void traceValidated(uint64_t n = 1);
/// Count anything else, by name (shows up in the evidence).
void count(const char* name, uint64_t n = 1);
/// Append to the human-readable trace of this execution (kept for samples and replays only).
void note(const std::string& s);
bool noting();

[[noreturn]] void fail(const std::string& key, const std::string& detail);
inline void check(bool ok, const char* key, const std::string& detail = {}) {
  if (!ok) {
    fail(key, detail);
  }
}

bool thorough();
/// A scratch directory private to this worker process (under /dev/shm), emptied by the caller.
const std::string& scratch();

uint64_t hashBytes(const void* p, size_t n, uint64_t seed = 0x9E3779B97F4A7C15ull);
inline uint64_t hashStr(const std::string& s, uint64_t seed = 0x9E3779B97F4A7C15ull) {
  return hashBytes(s.data(), s.size(), seed);
}
inline uint64_t hashInt(uint64_t v, uint64_t seed = 0x9E3779B97F4A7C15ull) {
  return hashBytes(&v, sizeof(v), seed);
}

// ---- used by main() ----

void add(Scenario s);
int main(int argc, char** argv, const char* property);

// ---- used by the scheduler ----
void reportAndExit(const Violation& v); // report a violation from any thread, and end the process
uint64_t currentExecution();
const char* currentLabel();

} // namespace mc
