// Streaming decoder under arbitrary delivery schedules and damage.
#include "codec.h"
#include "restructure.h"

#include <brunsli/brunsli_decode.h>

#include <memory>
#include <new>

#include <algorithm>

namespace sim {
namespace {

GenOpts SmallOpts() {
  GenOpts o;
  return o;
}

// The JPEG survives the trip whatever the delivery schedule.
void Lossless(World& w) {
  const Workload& wl = GetWorkload(w, SmallOpts());
  CountWorkload(w, wl);
  if (wl.enc) {
    if (wl.info.features & kMayBeRefused) throw Discard{"jpeg not encodable"};
    w.fail("valid-jpeg-refused", wl.enc == 1 ? "not parsed" : "not encoded");
  }
  ChannelCfg c = DrawChannel(w, wl.brn.size(), wl.jpeg.size());
  StreamResult r = DecodeStream(w, wl.brn, c, wl.jpeg.size());
  if (r.suspended_in > 1) w.probe("suspended_for_input");
  if (r.suspended_out > 0) w.probe("suspended_for_output");
  if (r.verdict != V_DONE) {
    w.fail("valid-stream-not-decoded", Fmt("verdict %s after %zu of %zu bytes", VerdictName(r.verdict),
                                           r.consumed, wl.brn.size()));
  }
  if (r.out != wl.jpeg) w.fail("wrong-bytes", Diff(r.out, wl.jpeg));
  if (r.consumed != wl.brn.size()) {
    w.fail("wrong-consumption", Fmt("DONE after %zu of %zu bytes", r.consumed, wl.brn.size()));
  }
}
Register r1("lossless", 8, 128, Lossless);

// Damaged streams: the verdict and the bytes do not depend on delivery.
void ChunkIndependent(World& w) {
  const Workload& wl = GetWorkload(w, SmallOpts());
  if (wl.enc) throw Discard{"jpeg not encodable"};
  Bytes brn = wl.brn;
  if (w.flip(CFG, 7, 8)) DamageStream(w, &brn, 4);
  w.ev_bytes("stored", brn.data(), brn.size());
  Bytes want;
  SutGuard g(w);
  int v1 = DecodeOneShot(brn, &want);
  if (v1 == V_OOM) throw Discard{"out of memory limit"};
  w.probe(v1 == V_DONE ? (want == wl.jpeg ? "damage_harmless" : "damage_accepted") : "damage_rejected");
  if (v1 != V_DONE && !want.empty()) w.probe("one_shot_partial_output");
  ChannelCfg c = DrawChannel(w, brn.size(), std::max(want.size(), wl.jpeg.size()));
  c.max_out = std::max(want.size(), wl.jpeg.size()) + (8u << 20);
  StreamResult r = DecodeStream(w, brn, c, std::max(want.size(), wl.jpeg.size()));
  if (r.verdict == V_OOM) throw Discard{"out of memory limit"};
  w.ev("oneshot", v1, want.size());
  int v2 = r.verdict;
  // The streaming decoder stops at the end of the stream and leaves what
  // follows to its caller; judge the part it took.
  if (v2 == V_DONE && v1 == V_ERROR && r.consumed < brn.size()) {
    Bytes taken(brn.begin(), brn.begin() + r.consumed);
    want.clear();
    v1 = DecodeOneShot(taken, &want);
    w.probe("trailing_bytes_left");
  }
  bool ok = v1 == V_DONE ? v2 == V_DONE : (v2 == V_ERROR || v2 == V_STARVED);
  if (!ok) {
    w.fail("verdicts-differ", Fmt("one call: %s, fragments: %s (%zu bytes stored, %zu consumed)", VerdictName(v1),
                                  VerdictName(v2), brn.size(), r.consumed));
  }
  if (v1 == V_DONE && r.out != want) w.fail("bytes-differ", Diff(r.out, want));
}
Register r2("chunk_independent", 8, 128, ChunkIndependent);

// The producer dies at byte `cut`; nothing wrong may have been delivered.
void Truncation(World& w) {
  const Workload& wl = GetWorkload(w, SmallOpts());
  if (wl.enc) throw Discard{"jpeg not encodable"};
  Bytes jpeg = wl.jpeg, brn = wl.brn;
  // Odd files that can be restored all the same.
  if (w.flip(CFG, 1, 8)) {
    RestructureJpeg(w, &jpeg, 2);
    Bytes back;
    if (Encode(jpeg, &brn, wl.legacy) != 0 || DecodeOneShot(brn, &back) != V_DONE || back != jpeg) {
      throw Discard{"jpeg not encodable"};
    }
    w.probe("odd_jpeg");
  }
  size_t n = brn.size();
  // Crash points cluster at the ends: that is where sections start and stop.
  size_t cut = w.decide(MUT, [&](Rng& r) -> uint64_t {
    switch (r.below(4)) {
      case 0: return r.below(n);
      case 1: return r.below(std::min<size_t>(n, 40));
      case 2: return n - 1 - r.below(std::min<size_t>(n, 24));
      default: return r.below(std::min<size_t>(n, 700));
    }
  });
  if (cut >= n) cut = n - 1;
  w.fault("producer_crash");
  w.ev("cut", cut, n);
  ChannelCfg c = DrawChannel(w, cut, jpeg.size());
  c.cut = cut;
  StreamResult r = DecodeStream(w, brn, c, jpeg.size());
  if (r.verdict == V_DONE) w.fail("truncated-accepted", Fmt("DONE after %zu of %zu bytes", cut, n));
  if (r.verdict == V_ERROR) {
    w.fail("truncated-rejected", Fmt("ERROR although the %zu bytes so far are a valid prefix (of %zu)", cut, n));
  }
  if (!r.out.empty()) w.probe("output_before_crash");
  if (r.out.size() > jpeg.size() || !std::equal(r.out.begin(), r.out.end(), jpeg.begin())) {
    w.fail("not-a-prefix", Diff(r.out, jpeg));
  }
  // The same prefix handed over at once.
  Bytes pre(brn.begin(), brn.begin() + cut), out;
  int v = DecodeOneShot(pre, &out);
  w.ev("oneshot", v, out.size());
  if (v == V_DONE) w.fail("truncated-accepted-at-once", Fmt("%zu of %zu bytes", cut, n));
}
Register r3("truncation", 8, 128, Truncation);

}  // namespace
}  // namespace sim

namespace sim {
namespace {

// A stream: either a regular one or one that merely wraps its payload.
struct Source {
  Bytes want, brn;
  bool bypass = false;
};
Bytes Blob(World& w, const Bytes& jpeg);

Source DrawSource(World& w, int bypass_num, int bypass_den) {
  Source s;
  s.bypass = w.flip(CFG, bypass_num, bypass_den);
  const Workload& wl = GetWorkload(w, SmallOpts());
  if (s.bypass) {
    s.want = Blob(w, wl.jpeg);
    if (!EncodeBypass(s.want, &s.brn)) w.fail("bypass-refused", Fmt("%zu bytes", s.want.size()));
    w.probe("bypass_stream");
  } else {
    if (wl.enc) throw Discard{"jpeg not encodable"};
    s.want = wl.jpeg;
    s.brn = wl.brn;
  }
  return s;
}

// Something that is, nearly is, or is not at all a JPEG.
Bytes Blob(World& w, const Bytes& jpeg) {
  Bytes b;
  switch (w.pick(MUT, 5)) {
    case 0: b = jpeg; break;
    case 1: b = jpeg; Damage(w, &b, 6); break;
    case 2: {
      uint64_t n = w.decide(MUT, [](Rng& r) -> uint64_t { return r.chance(1, 2) ? r.below(300) : r.below(40000); });
      Rng r(w.bits64(MUT));
      b.resize(std::min<uint64_t>(n, 40000));
      for (auto& x : b) x = r.next();
      break;
    }
    case 3: {
      // Sizes around the boundaries of the length field.
      static const int sizes[] = {1, 2, 126, 127, 128, 129, 16382, 16383, 16384, 16385, 0, 3};
      b.assign(sizes[w.pick(MUT, 12)], 0xFF);
      break;
    }
    default: b.assign(jpeg.begin(), jpeg.begin() + w.pick(MUT, jpeg.size())); break;
  }
  if (b.empty()) w.probe("empty_blob");
  return b;
}

// Offered buffers: consumed input is never looked at again, input is never
// written, output never overruns.
void Ownership(World& w) {
  Source s = DrawSource(w, 1, 2);
  ChannelCfg c = DrawChannel(w, s.brn.size(), s.want.size());
  c.check_buffers = true;
  // Consumer slower than producer: that is when leftovers matter.
  if (w.flip(CFG, 1, 2)) c.in_mode = 0;
  if (w.flip(MUT, 1, 4)) {
    // The rules hold for a stream that turns out to be damaged just as well.
    Bytes bad = s.brn;
    DamageStream(w, &bad, 3);
    w.ev_bytes("stored", bad.data(), bad.size());
    c.max_out = s.want.size() + (8u << 20);
    c.post_calls = w.pick(CFG, 3);
    SutGuard g(w);
    DecodeStream(w, bad, c, s.want.size());
    return;
  }
  StreamResult r = DecodeStream(w, s.brn, c, s.want.size());
  if (r.verdict != V_DONE) w.fail("valid-stream-not-decoded", VerdictName(r.verdict));
  if (r.out != s.want) w.fail("wrong-bytes", Diff(r.out, s.want));
  if (r.suspended_out) w.probe("suspended_for_output");
}
Register r4("ownership", 8, 128, Ownership);

// Every call makes progress or says why not; verdicts are final; walking away
// leaves nothing behind.
void Progress(World& w) {
  Source s = DrawSource(w, 1, 8);
  if (w.flip(CFG, 1, 2)) DamageStream(w, &s.brn, 3);
  ChannelCfg c = DrawChannel(w, s.brn.size(), s.want.size());
  c.post_calls = 3;
  c.max_out = s.want.size() + (8u << 20);
  if (w.flip(CFG, 1, 4)) {
    c.abandon_after = 1 + w.pick(FAULT, 60);
  }
  {
    SutGuard g(w);
    StreamResult r = DecodeStream(w, s.brn, c, s.want.size());
    if (r.verdict == V_OOM) throw Discard{"out of memory limit"};
    w.probe(r.verdict == V_DONE ? "done" : r.verdict == V_ERROR ? "error"
            : r.verdict == V_STARVED ? "starved" : "abandoned");
  }
  alloc::Stats st = alloc::Get();
  if (st.live_blocks) w.fail("leak", Fmt("%llu blocks, %llu bytes", (unsigned long long)st.live_blocks,
                                         (unsigned long long)st.live_bytes));
  if (st.bad_frees) w.fail("bad-free", Fmt("%llu", (unsigned long long)st.bad_frees));
}
Register r5("progress", 8, 128, Progress);

// Bypass container: arbitrary bytes come back, at once or in pieces.
void Bypass(World& w) {
  const Workload& wl = GetWorkload(w, SmallOpts());
  Bytes blob = Blob(w, wl.jpeg), brn;
  w.ev_bytes("blob", blob.data(), blob.size());
  if (!EncodeBypass(blob, &brn)) w.fail("bypass-refused", Fmt("%zu bytes", blob.size()));
  Bytes out;
  int v = DecodeOneShot(brn, &out);
  if (v != V_DONE || out != blob) w.fail("one-shot-differs", Fmt("%s; %s", VerdictName(v), Diff(out, blob).c_str()));
  // The producer may die.
  size_t cut = brn.size();
  if (w.flip(CFG, 1, 3)) {
    cut = w.pick(MUT, brn.size());
    w.fault("producer_crash");
  }
  ChannelCfg c = DrawChannel(w, cut, blob.size());
  c.cut = cut;
  c.check_buffers = true;
  StreamResult r = DecodeStream(w, brn, c, blob.size());
  if (cut == brn.size()) {
    if (r.verdict != V_DONE) w.fail("valid-stream-not-decoded", VerdictName(r.verdict));
    if (r.out != blob) w.fail("wrong-bytes", Diff(r.out, blob));
  } else {
    if (r.verdict != V_STARVED) w.fail("truncated-not-starved", VerdictName(r.verdict));
    if (r.out.size() > blob.size() || !std::equal(r.out.begin(), r.out.end(), blob.begin()))
      w.fail("not-a-prefix", Diff(r.out, blob));
  }
}
Register r6("bypass", 8, 128, Bypass);

// Memory safety on damaged streams: anything but a crash is fine here.
void Hostile(World& w) {
  Source s = DrawSource(w, 1, 16);
  DamageStream(w, &s.brn, w.flip(CFG, 1, 2) ? 2 : 12);
  ChannelCfg c = DrawChannel(w, s.brn.size(), s.want.size());
  c.max_out = s.want.size() + (8u << 20);
  c.check_progress = false;
  SutGuard g(w);
  Bytes out;
  if (w.flip(CFG, 1, 6)) {
    // What a cautious receiver does first.
    std::unique_ptr<uint8_t[]> in(new uint8_t[s.brn.size()]);
    memcpy(in.get(), s.brn.data(), s.brn.size());
    size_t need = 0;
    bool looks;
    {
      SutScope sut;
      looks = brunsli::IsBrunsli(in.get(), s.brn.size());
      try {
        need = brunsli::BrunsliEstimateDecoderPeakMemoryUsage(in.get(), s.brn.size());
      } catch (const std::bad_alloc&) {
      }
    }
    w.ev("estimate", looks, need);
    w.probe(need ? "estimated" : "estimate_refused");
  }
  int v = DecodeOneShot(s.brn, &out);
  w.ev("oneshot", v, out.size());
  StreamResult r = DecodeStream(w, s.brn, c, s.want.size());
  w.probe(r.verdict == V_DONE ? "done" : r.verdict == V_ERROR ? "error"
          : r.verdict == V_STARVED ? "starved" : "oom");
}
Register r7("hostile_stream", 8, 128, Hostile);

// A stream of a later writer has items this decoder does not know.
void Extensions(World& w) {
  Source s = DrawSource(w, 1, 8);
  if (!ExtendStream(w, &s.brn)) w.fail("unexpected-layout", "the stream does not consist of sections");
  w.ev_bytes("stored", s.brn.data(), s.brn.size());
  Bytes out;
  int v = DecodeOneShot(s.brn, &out);
  if (v != V_DONE) w.fail("extension-rejected", Fmt("in one call: %s", VerdictName(v)));
  if (out != s.want) w.fail("wrong-bytes", Diff(out, s.want));
  size_t cut = s.brn.size();
  if (w.flip(CFG, 1, 4)) {
    cut = w.pick(MUT, s.brn.size());
    w.fault("producer_crash");
  }
  ChannelCfg c = DrawChannel(w, cut, s.want.size());
  c.cut = cut;
  c.check_buffers = true;
  StreamResult r = DecodeStream(w, s.brn, c, s.want.size());
  if (cut < s.brn.size()) {
    if (r.verdict != V_STARVED) w.fail("truncated-not-starved", VerdictName(r.verdict));
    if (r.out.size() > s.want.size() || !std::equal(r.out.begin(), r.out.end(), s.want.begin()))
      w.fail("not-a-prefix", Diff(r.out, s.want));
    return;
  }
  if (r.verdict != V_DONE) {
    w.fail("extension-rejected", Fmt("in fragments: %s after %zu of %zu bytes", VerdictName(r.verdict), r.consumed, s.brn.size()));
  }
  if (r.out != s.want) w.fail("wrong-bytes", Diff(r.out, s.want));
}
Register r8("extensions", 8, 128, Extensions);

}  // namespace
}  // namespace sim
