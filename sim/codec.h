// Drivers around the public API of the system under test. Everything here goes
// through the shipped headers only.
#ifndef SIM_CODEC_H_
#define SIM_CODEC_H_
#include "core.h"
#include "jpeggen.h"
#include "seam_alloc.h"
namespace sim {

enum Verdict {
  V_DONE = 0,      // stream declared complete and correct
  V_ERROR = 1,     // stream rejected
  V_STARVED = 2,   // everything delivered, the decoder still wants more input
  V_OOM = 3,       // std::bad_alloc came out
  V_ABANDONED = 4  // the caller walked away
};
const char* VerdictName(int v);

// JPEG -> Brunsli through ReadJpeg + BrunsliEncodeJpeg. Returns 0 on success,
// 1 = not parsed, 2 = not encoded, 3 = bad_alloc.
int Encode(const Bytes& jpeg, Bytes* brn, bool legacy = false);
// JPEG -> Brunsli bypass container.
bool EncodeBypass(const Bytes& jpeg, Bytes* brn);
// BrunsliDecodeJpeg + WriteJpeg with a sink that accepts everything.
// Output appended to `out` is whatever the sink got.
int DecodeOneShot(const Bytes& brn, Bytes* out);

// The consumer / producer side of a simulated stream.
struct ChannelCfg {
  int in_mode = 0;    // how fragments are sized, see codec.cc
  int out_mode = 0;
  size_t in_fixed = 0, out_fixed = 0;   // no draws: always this much
  int stall = 0;      // chance (of 64) of an empty delivery / no room at all
  bool regroup = true;   // leftover input is moved and merged with new bytes
  size_t cut = ~size_t(0);  // the producer dies after this many bytes
  bool check_progress = true;
  bool record = true;   // log the calls
  size_t max_out = 0;   // discard runs that emit more than this
  bool check_buffers = false;   // offered input must stay untouched
  uint64_t abandon_after = 0;   // the caller walks away before this call
  int post_calls = 0;   // calls made after the final verdict
};
// Accounts for the allocations of one run and bounds them.
struct SutGuard {
  explicit SutGuard(World& w, uint64_t limit = 256u << 20) {
    alloc::Begin(w.bits64(ALLOC));
    alloc::Limit(limit);
  }
  ~SutGuard() { alloc::End(); }
};
struct StreamResult {
  int verdict = V_STARVED;
  Bytes out;
  uint64_t calls = 0;
  uint64_t suspended_in = 0, suspended_out = 0;
  size_t consumed = 0;
};
ChannelCfg DrawChannel(World& w, size_t in_size, size_t out_size);
// Feeds `brn` through a BrunsliDecoder. All fragments live in exact-size
// heap buffers that are destroyed as soon as the API says they are consumed.
// Throws Violation for contract violations that do not need an oracle
// (buffer accounting, progress, stickiness).
StreamResult DecodeStream(World& w, const Bytes& brn, const ChannelCfg& cfg, size_t expect_out);

// Workload cache: last few (work decisions -> jpeg, brunsli).
struct Workload {
  Bytes jpeg, brn;
  JpegInfo info;
  int enc = 0;
  bool legacy = false;
};
const Workload& GetWorkload(World& w, const GenOpts& opts);
void CountWorkload(World& w, const Workload& wl);

std::string Diff(const Bytes& got, const Bytes& want);

}  // namespace sim
#endif
