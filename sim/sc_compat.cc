// Old and new versions of the codec talk to each other.
#include <brunsli/brunsli_encode.h>
#include <brunsli/jpeg_data_reader.h>

#include <algorithm>

#include "codec.h"
#include "refcodec.h"
#include "restructure.h"

namespace sim {
namespace {

void Compat(World& w) {
  GenOpts o;
  const Workload& wl = GetWorkload(w, o);
  Bytes jpeg = wl.jpeg;
  bool damaged = w.rare(MUT, 1, 4, 2);
  if (damaged) DamageJpeg(w, &jpeg, 4);
  bool bypass = w.rare(CFG, 1, 8, 2);
  if (w.flip(CFG, 2, 3)) {
    // Old writer, new reader.
    Bytes brn;
    if (bypass) {
      if (!ref::EncodeBypass(jpeg, &brn)) throw Discard{"not encoded"};
    } else if (ref::Encode(jpeg, wl.legacy, &brn) != 0) {
      throw Discard{"not encoded"};
    }
    Bytes back;
    // What the old version itself cannot read back is nobody's promise.
    if (!ref::Decode(brn, &back) || back != jpeg) throw Discard{"not readable by its own version"};
    SutGuard guard(w, 512u << 20);
    if (w.flip(CFG, 1, 4)) {
      Bytes got;
      int v = DecodeOneShot(brn, &got);
      if (v != V_DONE) w.fail("old-stream-refused", Fmt("one call: %s", VerdictName(v)));
      if (got != jpeg) w.fail("old-stream-misread", Diff(got, jpeg));
      w.probe("old_read_in_one_call");
    }
    ChannelCfg c = DrawChannel(w, brn.size(), jpeg.size());
    if (w.rare(FAULT, 1, 6, 2)) {
      c.cut = w.pick(FAULT, brn.size());
      w.fault("producer_died");
    }
    bool whole = c.cut >= brn.size();
    StreamResult r = DecodeStream(w, brn, c, jpeg.size());
    if (whole && r.verdict != V_DONE) w.fail("old-stream-refused", VerdictName(r.verdict));
    if (!whole && r.verdict != V_STARVED) w.fail("old-stream-cut", Fmt("cut at %zu of %zu: %s", c.cut, brn.size(), VerdictName(r.verdict)));
    if (whole && r.out != jpeg) w.fail("old-stream-misread", Diff(r.out, jpeg));
    if (r.out.size() > jpeg.size() || !std::equal(r.out.begin(), r.out.end(), jpeg.begin()))
      w.fail("old-stream-misread", "not a prefix: " + Diff(r.out, jpeg));
    w.probe(bypass ? "old_bypass_to_new" : "old_to_new");
  } else {
    // New writer, old reader.
    Bytes brn;
    int rc = 0;
    if (bypass) {
      if (!EncodeBypass(jpeg, &brn)) throw Discard{"not encoded"};
    } else if (!damaged) {
      rc = wl.enc;
      brn = wl.brn;
    } else {
      rc = Encode(jpeg, &brn, wl.legacy);
    }
    if (rc) throw Discard{"not encoded"};
    Bytes back;
    if (!ref::Decode(brn, &back)) w.fail("new-stream-refused", "one call");
    if (back != jpeg) w.fail("new-stream-misread", Diff(back, jpeg));
    size_t step = 1 + w.rare(IN, 1, 2, std::max<size_t>(brn.size() / 50, 60));
    if (brn.size() > 4000) step += brn.size() / 500;
    int v = ref::DecodeStream(brn, step, &back);
    if (v) w.fail("new-stream-refused", Fmt("%zu bytes at a time", step));
    if (back != jpeg) w.fail("new-stream-misread", Diff(back, jpeg));
    w.tick(brn.size() / step + 1);
    w.probe(bypass ? "new_bypass_to_old" : "new_to_old");
  }
}
Register r1("compat", 8, 128, Compat);

}  // namespace
}  // namespace sim
