// The codec as it was when the reference copy in ../refcodec was taken: the
// other party of a mixed-version deployment.
#ifndef SIM_REFCODEC_H_
#define SIM_REFCODEC_H_
#include "core.h"
namespace sim {
namespace ref {
// 0: done, 1: not parsed, 2: not encoded.
int Encode(const Bytes& jpeg, bool legacy, Bytes* brn);
bool EncodeBypass(const Bytes& jpeg, Bytes* brn);
bool Decode(const Bytes& brn, Bytes* jpeg);
// Streaming, `step` bytes at a time. 0: done, 1: error, 2: wants more.
int DecodeStream(const Bytes& brn, size_t step, Bytes* jpeg);
}  // namespace ref
}  // namespace sim
#endif
