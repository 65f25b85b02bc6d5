#include "core.h"
#include "seam_alloc.h"

#include <cstdlib>

#include <cstdarg>

namespace sim {

void FatalViolation(World& w, const std::string& kind, const std::string& detail);

const char* const kStreamNames[NSTREAMS] = {"work", "mut",   "cfg",   "in",
                                            "out",  "fault", "alloc", "sched"};

World::World(uint64_t seed, uint64_t work_seed) : replay_(false), table_(NSTREAMS) {
  for (int s = 0; s < NSTREAMS; ++s) {
    rng_[s] = Rng(Mix2(s == WORK ? work_seed : seed, 1000 + s));
    count_[s] = 0;
  }
}

World::World(const Table& table)
    : replay_(true), table_(table) {
  table_.resize(NSTREAMS);
  for (int s = 0; s < NSTREAMS; ++s) count_[s] = 0;
}

uint64_t HashBytes(const uint8_t* p, size_t n, uint64_t h) {
  while (n >= 8) {
    uint64_t v;
    memcpy(&v, p, 8);
    h = (h ^ v) * 0x9FB21C651E98DF25ull;
    h ^= h >> 32;
    p += 8;
    n -= 8;
  }
  for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 0x100000001B3ull;
  return h ^ (h >> 29);
}

// The harness's own bookkeeping is not an allocation of the system under test.
void World::Tap(int stream, uint64_t k, uint64_t v) {
  HostScope host;
  tap(stream, k, v);
}

void World::ev(const char* tag, uint64_t a, uint64_t b, uint64_t c) {
  HostScope host;
  uint64_t h = HashBytes(reinterpret_cast<const uint8_t*>(tag), strlen(tag), hash_);
  h = Mix(h ^ a);
  h = Mix(h ^ (b + 0x1234567));
  h = Mix(h ^ (c + 0x7654321));
  hash_ = h;
  static const bool dump = getenv("SIM_DUMP") != nullptr;   // a debugging aid
  if (dump) fprintf(stderr, "  %s %llx %llx %llx\n", tag, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
  ++nevents_;
  if (verbose && log.size() < 100000) {
    log.push_back(Fmt("t=%llu %s %llu %llu %llu", (unsigned long long)time_, tag,
                      (unsigned long long)a, (unsigned long long)b, (unsigned long long)c));
  }
}

void World::ev_bytes(const char* tag, const uint8_t* p, size_t n) {
  ev(tag, n, HashBytes(p, n));
}

void World::fault(const char* kind, uint64_t n) {
  HostScope host;
  faults[kind] += n;
}
void World::probe(const char* name, uint64_t n) {
  HostScope host;
  probes[name] += n;
}

void World::fail(const std::string& kind, const std::string& detail) {
  if (!violated) {
    violated = true;
    first = Violation{kind, detail};
  }
  if (fatal_mode) FatalViolation(*this, kind, detail);
  throw Violation{kind, detail};
}

std::vector<Scenario>& Scenarios() {
  static std::vector<Scenario> v;
  return v;
}

std::string Fmt(const char* fmt, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  return buf;
}

}  // namespace sim
