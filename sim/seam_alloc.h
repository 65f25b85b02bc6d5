// Allocator seam: every allocation made while a SutScope is active belongs to
// the system under test. Those allocations are counted, filled with a seeded
// junk pattern, checked for leaks, limited and made to fail on request.
#ifndef SIM_SEAM_ALLOC_H_
#define SIM_SEAM_ALLOC_H_
#include <cstddef>
#include <cstdint>
namespace sim {
namespace alloc {
struct Stats {
  uint64_t allocs;       // allocations attempted by the SUT
  uint64_t failed;       // of those, made to fail
  uint64_t live_blocks;  // outstanding now
  uint64_t live_bytes;
  uint64_t peak_bytes;
  uint64_t bad_frees;    // freed twice / freed with the wrong deallocator
};
// Starts accounting. Junk byte pattern depends on `fill`.
void Begin(uint64_t fill);
// Allocation number `first` (1-based), and the `count - 1` following, fail.
// first = 0: none.
void FailAt(uint64_t first, uint64_t count);
// Refuse allocations that would bring the total of live bytes over `bytes`.
void Limit(uint64_t bytes);
Stats Get();
void End();
// Forget live SUT blocks (they are not reported by the next run).
void Forget();
// Told about every block that is handed out or taken back while set.
void SetHooks(void (*on_alloc)(void*, size_t), void (*on_free)(void*, size_t));
extern thread_local int in_sut;
}  // namespace alloc
struct SutScope {
  int saved;
  SutScope() : saved(alloc::in_sut) { alloc::in_sut = 1; }
  ~SutScope() { alloc::in_sut = saved; }
};
struct HostScope {
  int saved;
  HostScope() : saved(alloc::in_sut) { alloc::in_sut = 0; }
  ~HostScope() { alloc::in_sut = saved; }
};
}  // namespace sim
#endif
