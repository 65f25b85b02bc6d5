// Simulated threads: real threads that run strictly one at a time, the seeded
// stream SCHED deciding who runs. The code under test is compiled with
// -fsanitize=thread, but linked against the runtime in sched.cc, so that every
// memory access, atomic operation and synchronisation call is a scheduling
// point, and so that unsynchronised accesses are recognised (vector clocks).
#ifndef SIM_SCHED_H_
#define SIM_SCHED_H_
#include "core.h"
namespace sim {
namespace sched {
// The calling thread becomes simulated thread 0. Knobs are drawn from CFG.
struct Options {
  bool create_failures = false;   // pthread_create may fail
  bool spurious = true;           // condition variables may wake up spuriously
  bool races = true;              // report data races
  uint64_t max_steps = 4000000;   // scheduling points
};
void Begin(World& w, const Options& o);
// Every other thread must have ended by now.
void End();
bool Active();
// Ends the process, reporting a violation. Usable on any simulated thread.
[[noreturn]] void Fatal(const std::string& kind, const std::string& detail);
// Client threads of the scenario.
int Spawn(void (*fn)(void*), void* arg);
void Join(int handle);
// What instrumentation would report for code that is not instrumented.
void Touch(const void* p, size_t n, bool write);
void Point();                     // a plain scheduling point
int Self();
uint64_t CreateFailures();
uint64_t Created();
}  // namespace sched
}  // namespace sim
#endif
