#ifndef SIM_RESTRUCTURE_H_
#define SIM_RESTRUCTURE_H_
#include "core.h"
namespace sim {
// Adds items with unknown tags where the format has room for them. False if
// the stream has no such place.
bool ExtendStream(World& w, Bytes* brn);
// 1..max_edits edits on sections, header items and compressed metadata.
void Restructure(World& w, Bytes* brn, int max_edits);
// 1..max_edits edits on marker segments.
void RestructureJpeg(World& w, Bytes* jpeg, int max_edits);
// Any mixture of the above with plain damage.
void DamageStream(World& w, Bytes* brn, int max_edits);
void DamageJpeg(World& w, Bytes* jpeg, int max_edits);
}  // namespace sim
#endif
