// Independent JPEG writer: produces random but valid JPEG files from decisions
// of stream WORK. Shares no code with the system under test.
#ifndef SIM_JPEGGEN_H_
#define SIM_JPEGGEN_H_
#include "core.h"
namespace sim {
struct GenOpts {
  int max_class = 3;      // largest size class (see jpeggen.cc)
  int big_num = 1;        // chance (per 64) of a size class above 1
  bool with_meta = true;  // APP / COM / tail / inter-marker data
  bool dense = false;     // only dense, high amplitude blocks
};
struct JpegInfo {
  int width = 0, height = 0, ncomp = 0;
  bool progressive = false;
  int scans = 0;
  int restart = 0;
  uint64_t features = 0;  // bit set, see kFeatureNames
};
// Features the format documents it may refuse.
const uint64_t kMayBeRefused = (1ull << 23) | (1ull << 24) | (1ull << 26) | (1ull << 33) |
    (1ull << 39) | (1ull << 40);
extern const char* const kFeatureNames[];
extern const int kNumFeatures;
Bytes GenJpeg(World& w, const GenOpts& opts, JpegInfo* info);
// Random damage to a byte string (stream MUT). `n` edits at least one.
void Damage(World& w, Bytes* data, int max_edits);
}  // namespace sim
#endif
