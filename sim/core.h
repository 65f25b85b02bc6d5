// Deterministic simulation core: seeded decision streams, event log, replay.
//
// Every nondeterministic choice of a run is one *decision*: the k-th decision
// of stream S has a value, 0 being the most boring one (no fault, deliver
// everything, do not preempt, smallest image...). In search mode values are
// drawn from a PRNG that depends only on (seed, stream); in replay mode they
// are looked up in a sparse table (default 0). A run is a pure function of its
// decision table and of the code under test.
#ifndef SIM_CORE_H_
#define SIM_CORE_H_

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace sim {

typedef std::vector<uint8_t> Bytes;

inline uint64_t Mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline uint64_t Mix2(uint64_t a, uint64_t b) { return Mix(Mix(a) ^ (b * 0xD6E8FEB86659FD93ull)); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(Mix(seed)) {}
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};

enum Stream {
  WORK = 0,   // workload: what the JPEG looks like
  MUT,        // damage done to bytes in storage / in transit
  CFG,        // swarm knobs of this run
  IN,         // sizes of delivered input fragments
  OUT,        // capacities offered to the consumer side
  FAULT,      // sink / file / JVM / clock style faults
  ALLOC,      // allocation failures
  SCHED,      // thread interleaving
  NSTREAMS
};
extern const char* const kStreamNames[NSTREAMS];

struct Violation {
  std::string kind;    // short and stable: used to recognise "the same" failure
  std::string detail;  // free text
};

// The run hit something that makes its outcome meaningless (workload could not
// be built, ...): not a failure, counted apart.
struct Discard {
  std::string why;
};

// stream -> (index -> value); absent means 0.
typedef std::vector<std::map<uint64_t, uint64_t>> Table;

class World {
 public:
  World(uint64_t seed, uint64_t work_seed);
  // Replay of an explicit decision table.
  explicit World(const Table& table);

  // Draws a decision. `gen` maps the stream's PRNG to a value.
  template <typename G>
  uint64_t decide(Stream s, const G& gen) {
    uint64_t k = count_[s]++;
    uint64_t v;
    if (replay_) {
      auto it = table_[s].find(k);
      v = it == table_[s].end() ? 0 : it->second;
    } else {
      v = gen(rng_[s]);
    }
    if (v && tap) Tap(s, k, v);
    return v;
  }
  // Uniform in [0, n).
  uint64_t pick(Stream s, uint64_t n) {
    uint64_t v = decide(s, [n](Rng& r) { return r.below(n); });
    return v < n ? v : n - 1;
  }
  // 0 with probability 1 - num/den, otherwise uniform in [1, n).
  uint64_t rare(Stream s, uint32_t num, uint32_t den, uint64_t n) {
    uint64_t v = decide(s, [=](Rng& r) -> uint64_t {
      if (!r.chance(num, den) || n < 2) return 0;
      return 1 + r.below(n - 1);
    });
    return v < n ? v : n - 1;
  }
  bool flip(Stream s, uint32_t num, uint32_t den) {
    return decide(s, [=](Rng& r) -> uint64_t { return r.chance(num, den); }) != 0;
  }
  uint64_t bits64(Stream s) {
    return decide(s, [](Rng& r) { return r.next(); });
  }

  // Event log. The hash of all events identifies the execution.
  void ev(const char* tag, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0);
  void ev_bytes(const char* tag, const uint8_t* p, size_t n);
  uint64_t hash() const { return hash_; }
  uint64_t events() const { return nevents_; }

  // Simulated time: one tick per externally visible step.
  void tick(uint64_t n = 1) { time_ += n; }
  uint64_t time() const { return time_; }

  // Fault / probe counters.
  void fault(const char* kind, uint64_t n = 1);
  void probe(const char* name, uint64_t n = 1);

  [[noreturn]] void fail(const std::string& kind, const std::string& detail);

  // Receives every non-zero decision as it is taken.
  void (*tap)(int stream, uint64_t k, uint64_t v) = nullptr;
  // First violation reported; survives if the exception is swallowed on its
  // way through the system under test.
  bool violated = false;
  Violation first;
  // Runs of the same scenario may be asked to bound their own effort.
  bool replaying() const { return replay_; }
  bool verbose = false;
  // fail() must not unwind: report and end the process at once.
  bool fatal_mode = false;
  std::vector<std::string> log;
  std::map<std::string, uint64_t> faults;
  std::map<std::string, uint64_t> probes;

 private:
  void Tap(int stream, uint64_t k, uint64_t v);
  bool replay_;
  Rng rng_[NSTREAMS];
  uint64_t count_[NSTREAMS];
  Table table_;
  uint64_t hash_ = 0xCBF29CE484222325ull;
  uint64_t nevents_ = 0;
  uint64_t time_ = 0;
};

uint64_t HashBytes(const uint8_t* p, size_t n, uint64_t h = 0xCBF29CE484222325ull);
inline uint64_t HashBytes(const Bytes& b) { return HashBytes(b.data(), b.size()); }

std::string Fmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// A scenario is one simulated system plus its oracle.
struct Scenario {
  const char* name;
  // How many runs share one workload (JPEG) - a throughput knob.
  uint32_t work_share;
  // Runs per forked process.
  uint32_t batch;
  void (*run)(World&);
};
// Registry; scenario files add themselves through a static Register object.
std::vector<Scenario>& Scenarios();
struct Register {
  Register(const char* name, uint32_t work_share, uint32_t batch, void (*run)(World&)) {
    Scenarios().push_back(Scenario{name, work_share, batch, run});
  }
};

}  // namespace sim

#endif  // SIM_CORE_H_
