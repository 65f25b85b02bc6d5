// Groups mode without a pool: contents, dimensions, damage.
#include <memory>
#include <new>

#include "groups_util.h"
#include "restructure.h"

namespace sim {
namespace {
// The same without a pool, on larger and denser images and all kinds of group
// dimensions; the executor runs the tasks in
// an order drawn by the simulator.
void GroupsSequential(World& w) {
  JpegInfo info;
  GenOpts o;
  o.max_class = 3;
  o.big_num = 10;
  o.dense = w.flip(CFG, 1, 4);
  Bytes jpeg = GenJpeg(w, o, &info);
  w.ev_bytes("workload", jpeg.data(), jpeg.size());
  std::unique_ptr<brunsli::JPEGData> jd(new brunsli::JPEGData);
  if (!Parse(jpeg, jd.get())) {
    if (info.features & kMayBeRefused) throw Discard{"jpeg not encodable"};
    w.fail("valid-jpeg-refused", "not parsed");
  }
  Dims d = DrawDims(w, *jd);
  if (w.flip(CFG, 1, 3)) {
    d.ac = 32;   // the dimensions the tools use
    d.dc = 128;
  }
  size_t cap = 4 * brunsli::GetMaximumBrunsliEncodedSize(*jd) + (1 << 20);
  uint64_t seed = w.bits64(CFG);
  int next = 0;
  brunsli::Executor any_order = AnyOrder(seed, &next);
  Bytes out(cap);
  size_t n = cap;
  bool ok = brunsli::EncodeGroups(*jd, out.data(), &n, d.ac, d.dc, &any_order);
  w.ev("encoded", ok, n, d.ac * 65536 + d.dc);
  if (!ok) {
    if (d.odd || (info.features & kMayBeRefused)) throw Discard{"not encodable in groups mode"};
    w.fail("valid-jpeg-refused", Fmt("EncodeGroups, group dimensions %zu/%zu", d.ac, d.dc));
  }
  std::unique_ptr<uint8_t[]> in(new uint8_t[n]);
  memcpy(in.get(), out.data(), n);
  std::unique_ptr<brunsli::JPEGData> back(new brunsli::JPEGData);
  if (!brunsli::DecodeGroups(in.get(), n, back.get(), d.ac, d.dc, &any_order))
    w.fail("valid-stream-not-decoded", Fmt("DecodeGroups, group dimensions %zu/%zu", d.ac, d.dc));
  ToBytes t;
  bool wrote = brunsli::WriteJpeg(*back, brunsli::JPEGOutput(ToBytes::Hook, &t));
  if (!wrote || t.out != jpeg) w.fail("wrong-bytes", Diff(t.out, jpeg));
  size_t bw = jd->MCU_cols * jd->max_h_samp_factor;
  w.probe(bw > d.ac ? "several_groups" : "single_column_of_groups");
  if (o.dense) w.probe("dense");
}
Register r2s("groups_seq", 8, 64, GroupsSequential);


// Damaged group streams: no crash, and the order of the tasks does not matter.
void GroupsHostile(World& w) {
  JpegInfo info;
  Bytes jpeg = GenJpeg(w, GroupOpts(), &info);
  w.ev_bytes("workload", jpeg.data(), jpeg.size());
  std::unique_ptr<brunsli::JPEGData> jd(new brunsli::JPEGData);
  if (!Parse(jpeg, jd.get())) throw Discard{"not parsed"};
  Dims d = DrawDims(w, *jd);
  size_t cap = 4 * brunsli::GetMaximumBrunsliEncodedSize(*jd) + (1 << 20);
  Bytes stored(cap);
  size_t n = cap;
  brunsli::Executor seq = brunsli::SequentialExecutor;
  if (!brunsli::EncodeGroups(*jd, stored.data(), &n, d.ac, d.dc, &seq)) throw Discard{"not encodable in groups mode"};
  stored.resize(n);
  DamageStream(w, &stored, 6);
  w.ev_bytes("stored", stored.data(), stored.size());
  if (w.flip(CFG, 1, 8)) {
    // The reader has other ideas about the dimensions.
    d = DrawDims(w, *jd);
    w.fault("wrong_group_dimensions");
  }
  int rc[2];
  ToBytes t[2];
  uint64_t seed = w.bits64(CFG);
  for (int k = 0; k < 2; ++k) {
    std::unique_ptr<uint8_t[]> in(new uint8_t[stored.size()]);
    memcpy(in.get(), stored.data(), stored.size());
    int next = 0;
    brunsli::Executor ex = k ? AnyOrder(seed, &next) : seq;
    SutGuard g(w);
    try {
      SutScope sut;
      std::unique_ptr<brunsli::JPEGData> back(new brunsli::JPEGData);
      rc[k] = brunsli::DecodeGroups(in.get(), stored.size(), back.get(), d.ac, d.dc, &ex);
      if (rc[k]) rc[k] = 1 + brunsli::WriteJpeg(*back, brunsli::JPEGOutput(ToBytes::Hook, &t[k]));
    } catch (const std::bad_alloc&) {
      throw Discard{"out of memory limit"};
    }
  }
  w.ev("verdicts", rc[0], rc[1]);
  w.probe(rc[0] == 0 ? "damage_rejected" : rc[0] == 1 ? "damage_not_writable" : "damage_accepted");
  if (rc[0] != rc[1] || t[0].out != t[1].out)
    w.fail("order-dependent-verdict", Fmt("in order %d, shuffled %d: ", rc[0], rc[1]) + Diff(t[1].out, t[0].out));
}
Register r2("groups_hostile", 8, 128, GroupsHostile);

}  // namespace
}  // namespace sim
