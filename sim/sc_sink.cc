// Sinks that fail, buffers that are too small, allocations that are refused.
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <memory>
#include <new>

#include <brunsli/brunsli_decode.h>
#include <brunsli/brunsli_encode.h>
#include <brunsli/decode.h>
#include <brunsli/encode.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>

#include "codec.h"
#include "restructure.h"

namespace sim {
namespace {

GenOpts SmallOpts() {
  GenOpts o;
  o.big_num = 3;
  return o;
}

// A sink with a fault plan.
struct Sink {
  World* w = nullptr;
  Bytes got;            // bytes the sink acknowledged
  uint64_t calls = 0;
  uint64_t fail_at_byte = ~0ull;   // total byte count at which it misbehaves
  int mode = 0;
  bool failed = false;
  uint64_t calls_after_failure = 0;
  size_t Take(const uint8_t* buf, size_t n) {
    HostScope host;
    ++calls;
    w->tick();
    if (failed) {
      ++calls_after_failure;
      return n;
    }
    if (got.size() + n > fail_at_byte) {
      failed = true;
      size_t fits = std::min<size_t>(n - 1, fail_at_byte - got.size());
      size_t ret;
      switch (mode) {
        case 0: ret = 0; fits = 0; break;                 // refuses everything
        case 1: ret = fits; break;                        // short write
        case 2: ret = n - 1; fits = n - 1; break;         // short by one
        case 3: ret = n + 1; fits = 0; break;             // nonsense
        default: ret = ~size_t(0); fits = 0; break;       // -1
      }
      static const char* const names[] = {"sink_refused", "sink_short_write", "sink_short_by_one", "sink_overreport",
                                          "sink_minus_one"};
      w->fault(names[mode]);
      got.insert(got.end(), buf, buf + fits);
      w->ev("sink_fault", mode, n, ret);
      return ret;
    }
    got.insert(got.end(), buf, buf + n);
    w->ev("sink", n, got.size());
    return n;
  }
};
size_t SinkHook(void* data, const uint8_t* buf, size_t n) { return static_cast<Sink*>(data)->Take(buf, n); }

void PlanSink(World& w, Sink* s, size_t total) {
  s->w = &w;
  // About a fifth of the runs see a healthy sink.
  uint64_t plan = w.decide(FAULT, [&](Rng& r) -> uint64_t {
    switch (r.below(5)) {
      case 0: return 0;
      case 1: return 1;                                   // the very first byte
      case 2: return total;                               // the very last byte
      case 3: {
        uint64_t chunk = 16384 * (1 + r.below(1 + total / 16384));   // chunk edges
        return 1 + (chunk + r.below(3) - 1) % std::max<size_t>(1, total);
      }
      default: return 1 + r.below(std::max<size_t>(1, total));
    }
  });
  if (plan) {
    if (plan > total) plan = total;
    s->fail_at_byte = plan - 1;
    s->mode = w.pick(FAULT, 5);
  }
}

void CheckSinkOutcome(World& w, const Sink& s, bool ok, const Bytes& want, const char* what) {
  if (s.failed && ok) {
    w.fail("lost-write-reported-as-success", Fmt("%s returned success although the sink failed in mode %d after %zu of "
                                                 "%zu bytes", what, s.mode, s.got.size(), want.size()));
  }
  if (!s.failed && !ok) w.fail("spurious-failure", what);
  if (s.calls_after_failure) w.fail("sink-called-after-failure", Fmt("%s: %llu calls", what, (unsigned long long)s.calls_after_failure));
  if (s.got.size() > want.size() || !std::equal(s.got.begin(), s.got.end(), want.begin()))
    w.fail("not-a-prefix", std::string(what) + ": " + Diff(s.got, want));
  if (ok && s.got != want) w.fail("wrong-bytes", std::string(what) + ": " + Diff(s.got, want));
}

void DecoderSink(World& w) {
  const Workload& wl = GetWorkload(w, SmallOpts());
  if (wl.enc) throw Discard{"jpeg not encodable"};
  bool bypass = w.flip(CFG, 1, 8);
  Bytes brn = wl.brn;
  if (bypass && !EncodeBypass(wl.jpeg, &brn)) w.fail("bypass-refused", "");
  Sink s;
  PlanSink(w, &s, wl.jpeg.size());
  std::unique_ptr<uint8_t[]> in(new uint8_t[brn.size()]);
  memcpy(in.get(), brn.data(), brn.size());
  if (w.flip(CFG, 1, 2)) {
    int ok;
    {
      SutScope sut;
      ok = DecodeBrunsli(brn.size(), in.get(), &s, SinkHook);
    }
    w.ev("DecodeBrunsli", ok, s.got.size(), s.calls);
    if (ok != 0 && ok != 1) w.fail("bad-return", Fmt("DecodeBrunsli returned %d", ok));
    CheckSinkOutcome(w, s, ok == 1, wl.jpeg, "DecodeBrunsli");
  } else {
    SutScope sut;
    brunsli::JPEGData jd;
    if (brunsli::BrunsliDecodeJpeg(in.get(), brn.size(), &jd) != brunsli::BRUNSLI_OK)
      w.fail("valid-stream-not-decoded", "BrunsliDecodeJpeg");
    bool ok = brunsli::WriteJpeg(jd, brunsli::JPEGOutput(SinkHook, &s));
    HostScope host;
    w.ev("WriteJpeg", ok, s.got.size(), s.calls);
    CheckSinkOutcome(w, s, ok, wl.jpeg, "WriteJpeg");
    // Faults stop; the same image is written again.
    Sink s2;
    s2.w = &w;
    bool ok2;
    {
      SutScope sut2;
      ok2 = brunsli::WriteJpeg(jd, brunsli::JPEGOutput(SinkHook, &s2));
    }
    w.ev("retry", ok2, s2.got.size(), s2.calls);
    CheckSinkOutcome(w, s2, ok2, wl.jpeg, "WriteJpeg after a failed attempt");
  }
}
Register r1("decoder_sink", 8, 128, DecoderSink);

size_t EncSinkHook(void* data, const unsigned char* buf, size_t n) { return static_cast<Sink*>(data)->Take(buf, n); }

void EncoderSink(World& w) {
  const Workload& wl = GetWorkload(w, SmallOpts());
  if (wl.enc) throw Discard{"jpeg not encodable"};
  Sink ref;
  ref.w = &w;
  std::unique_ptr<uint8_t[]> in(new uint8_t[wl.jpeg.size()]);
  memcpy(in.get(), wl.jpeg.data(), wl.jpeg.size());
  int ok;
  {
    SutScope sut;
    ok = EncodeBrunsli(wl.jpeg.size(), in.get(), &ref, EncSinkHook);
  }
  w.ev("EncodeBrunsli", ok, ref.got.size(), ref.calls);
  if (ok != 1) w.fail("spurious-failure", Fmt("EncodeBrunsli returned %d with a healthy sink", ok));
  Bytes back;
  int v = DecodeOneShot(ref.got, &back);
  if (v != V_DONE || back != wl.jpeg) w.fail("delivered-stream-broken", Diff(back, wl.jpeg));
  Sink s;
  PlanSink(w, &s, ref.got.size());
  {
    SutScope sut;
    ok = EncodeBrunsli(wl.jpeg.size(), in.get(), &s, EncSinkHook);
  }
  w.ev("EncodeBrunsli", ok, s.got.size(), s.calls);
  if (ok != 0 && ok != 1) w.fail("bad-return", Fmt("EncodeBrunsli returned %d", ok));
  CheckSinkOutcome(w, s, ok == 1, ref.got, "EncodeBrunsli");
}
Register r2("encoder_sink", 8, 128, EncoderSink);

// ------------------------------------------------------------------ capacity
struct Guarded {
  static const size_t kGuard = 64;
  std::unique_ptr<uint8_t[]> mem;
  size_t n;
  explicit Guarded(size_t n) : n(n) {
#if defined(SIM_ASAN)
    mem.reset(new uint8_t[n]);
#else
    mem.reset(new uint8_t[n + 2 * kGuard]);
    memset(mem.get(), 0x5C, kGuard);
    memset(mem.get() + kGuard + n, 0x5C, kGuard);
#endif
  }
  uint8_t* data() {
#if defined(SIM_ASAN)
    return mem.get();
#else
    return mem.get() + kGuard;
#endif
  }
  bool intact() const {
#if !defined(SIM_ASAN)
    for (size_t i = 0; i < kGuard; ++i)
      if (mem[i] != 0x5C || mem[kGuard + n + i] != 0x5C) return false;
#endif
    return true;
  }
};

void Capacity(World& w) {
  GenOpts o;
  o.big_num = 2;
  uint64_t shape = w.rare(CFG, 1, 24, 4);
  (void)shape;
  const Workload& wl = GetWorkload(w, o);
  if (wl.enc) throw Discard{"jpeg not encodable"};
  const Bytes& jpeg = wl.jpeg;
  if (w.flip(CFG, 1, 6)) {
    // Bypass container.
    size_t rec = brunsli::GetBrunsliBypassSize(jpeg.size());
    size_t cap = w.decide(FAULT, [&](Rng& r) -> uint64_t { return r.chance(1, 4) ? 0 : 1 + r.below(rec + 1); });
    cap = cap == 0 || cap - 1 >= rec ? rec : cap - 1;
    Guarded buf(cap);
    size_t len = cap;
    bool ok;
    {
      SutScope sut;
      ok = brunsli::BrunsliEncodeJpegBypass(jpeg.data(), jpeg.size(), buf.data(), &len);
    }
    w.ev("bypass", cap, ok, ok ? len : 0);
    if (cap < rec) w.fault("buffer_too_small");
    if (!buf.intact()) w.fail("buffer-overrun", Fmt("bypass with capacity %zu of %zu", cap, rec));
    if (!ok && cap >= rec) w.fail("recommended-size-too-small", Fmt("bypass, %zu", rec));
    if (ok) {
      if (len > cap) w.fail("length-over-capacity", Fmt("%zu > %zu", len, cap));
      Bytes out;
      Bytes brn(buf.data(), buf.data() + len);
      if (DecodeOneShot(brn, &out) != V_DONE || out != jpeg) w.fail("truncated-result-reported-as-success", Diff(out, jpeg));
    }
    return;
  }
  SutScope sut;
  brunsli::JPEGData jd;
  if (!brunsli::ReadJpeg(jpeg.data(), jpeg.size(), brunsli::JPEG_READ_ALL, &jd)) w.fail("not-parsed", "");
  if (wl.legacy) jd.version = 0;
  size_t rec = brunsli::GetMaximumBrunsliEncodedSize(jd);
  HostScope host;
  size_t need = wl.brn.size();
  int tries = 1 + w.pick(CFG, 4);
  for (int t = 0; t < tries; ++t) {
    size_t cap = w.decide(FAULT, [&](Rng& r) -> uint64_t {
      switch (r.below(6)) {
        case 0: return 0;                                // the recommended size
        case 1: return 1 + r.below(need);
        case 2: return 1 + r.below(std::min<size_t>(need, 64));
        case 3: return 1 + need - std::min<size_t>(need, r.below(24));
        case 4: return 1 + need + r.below(24);
        default: return 1 + r.below(2 * need);
      }
    });
    cap = cap == 0 || cap - 1 >= rec ? rec : cap - 1;
    Guarded buf(cap);
    size_t len = cap;
    bool ok;
    {
      SutScope sut2;
      ok = brunsli::BrunsliEncodeJpeg(jd, buf.data(), &len);
    }
    w.tick();
    w.ev("encode", cap, ok, ok ? len : 0);
    if (cap < need) w.fault("buffer_too_small");
    if (cap >= need && cap < need + 24) w.probe("capacity_just_enough");
    if (!buf.intact()) w.fail("buffer-overrun", Fmt("capacity %zu, full size %zu", cap, need));
    if (!ok && cap >= rec) w.fail("recommended-size-too-small", Fmt("%zu", rec));
    // Length fields shrink with the buffer, so a little more than the usual
    // size is always enough.
    if (!ok && cap >= need + 8) w.fail("sufficient-buffer-refused", Fmt("capacity %zu, full size %zu", cap, need));
    if (ok) {
      if (len > cap) w.fail("length-over-capacity", Fmt("%zu > %zu", len, cap));
      Bytes out;
      Bytes brn(buf.data(), buf.data() + len);
      int v = DecodeOneShot(brn, &out);
      if (v != V_DONE || out != jpeg) {
        w.fail("truncated-result-reported-as-success", Fmt("capacity %zu of %zu: %s, %s", cap, need, VerdictName(v),
                                                           Diff(out, jpeg).c_str()));
      }
    }
  }
}
Register r3("capacity", 8, 128, Capacity);

// The recommended size is enough for the densest images, too.
void Recommended(World& w) {
  GenOpts o;
  o.dense = true;
  o.with_meta = w.flip(CFG, 1, 4);
  o.max_class = 4;
  o.big_num = 24;
  Bytes jpeg;
  JpegInfo info;
  jpeg = GenJpeg(w, o, &info);
  // More incompressible metadata than the reserve for headers.
  if (w.rare(WORK, 1, 8, 2)) {
    Rng r(w.bits64(WORK));
    size_t n = 1000000 + w.pick(WORK, 1200000);
    Bytes bulk;
    int kind = w.pick(WORK, 4);
    while (bulk.size() < n) {
      size_t len = kind < 2 ? 60000 + r.below(5000) : n;
      if (kind == 0) bulk.insert(bulk.end(), {0xff, 0xe5, uint8_t((len + 2) >> 8), uint8_t(len + 2)});
      if (kind == 1) bulk.insert(bulk.end(), {0xff, 0xfe, uint8_t((len + 2) >> 8), uint8_t(len + 2)});
      for (size_t i = 0; i < len; ++i) {
        uint8_t b = r.next();
        bulk.push_back(kind == 2 && b == 0xff ? 0 : b);
      }
    }
    jpeg.insert(kind == 3 ? jpeg.end() : jpeg.begin() + 2, bulk.begin(), bulk.end());
    w.fault("bulky_metadata");
  }
  w.ev_bytes("workload", jpeg.data(), jpeg.size());
  SutScope sut;
  brunsli::JPEGData jd;
  if (!brunsli::ReadJpeg(jpeg.data(), jpeg.size(), brunsli::JPEG_READ_ALL, &jd)) {
    if (info.features & kMayBeRefused) throw Discard{"jpeg not encodable"};
    w.fail("not-parsed", "");
  }
  if (w.flip(WORK, 1, 6)) jd.version = 0;
  size_t rec = brunsli::GetMaximumBrunsliEncodedSize(jd);
  HostScope host;
  Guarded buf(rec);
  size_t len = rec;
  bool ok;
  {
    SutScope sut2;
    ok = brunsli::BrunsliEncodeJpeg(jd, buf.data(), &len);
  }
  w.tick();
  w.ev("encode", rec, ok, ok ? len : 0);
  w.fault("dense_image");
  if (!buf.intact()) w.fail("buffer-overrun", Fmt("recommended capacity %zu", rec));
  if (!ok) {
    if (info.features & kMayBeRefused) throw Discard{"jpeg not encodable"};
    w.fail("recommended-size-too-small", Fmt("%dx%d, %d components, %zu bytes recommended", info.width, info.height, info.ncomp, rec));
  }
}
Register r4("recommended", 1, 8, Recommended);

// --------------------------------------------------------------- allocations
// One operation, made with allocations failing. Returns: 0 clean failure, 1
// success with `out` filled in.
int Operation(World& w, int op, const Workload& wl, const Bytes& bypass, Bytes* out) {
  out->clear();
  const Bytes& src = op == 5 ? bypass : op >= 3 ? wl.brn : wl.jpeg;
  std::unique_ptr<uint8_t[]> in;
  {
    HostScope host;
    in.reset(new uint8_t[src.size()]);
    memcpy(in.get(), src.data(), src.size());
  }
  Sink s;
  s.w = &w;
  int rc = 0;
  try {
    switch (op) {
      case 0: {   // encode
        SutScope sut;
        brunsli::JPEGData jd;
        if (!brunsli::ReadJpeg(in.get(), src.size(), brunsli::JPEG_READ_ALL, &jd)) return 0;
        size_t n = brunsli::GetMaximumBrunsliEncodedSize(jd);
        std::unique_ptr<uint8_t[]> buf;
        {
          HostScope host;
          buf.reset(new uint8_t[n]);
        }
        bool ok = brunsli::BrunsliEncodeJpeg(jd, buf.get(), &n);
        HostScope host;
        if (ok) {
          out->assign(buf.get(), buf.get() + n);
          rc = 1;
        }
        buf.reset();
        break;
      }
      case 1: {   // C API encode
        SutScope sut;
        rc = EncodeBrunsli(src.size(), in.get(), &s, EncSinkHook);
        break;
      }
      case 2: {   // bypass encode
        SutScope sut;
        size_t n = brunsli::GetBrunsliBypassSize(src.size());
        std::unique_ptr<uint8_t[]> buf;
        {
          HostScope host;
          buf.reset(new uint8_t[n]);
        }
        bool ok = brunsli::BrunsliEncodeJpegBypass(in.get(), src.size(), buf.get(), &n);
        HostScope host;
        if (ok) {
          out->assign(buf.get(), buf.get() + n);
          rc = 1;
        }
        buf.reset();
        break;
      }
      case 3: {   // C API decode
        SutScope sut;
        rc = DecodeBrunsli(src.size(), in.get(), &s, SinkHook);
        break;
      }
      default: {  // streaming decode
        ChannelCfg c;
        c.in_mode = w.pick(CFG, 5);
        c.out_mode = w.pick(CFG, 5);
        if (src.size() > 20000) c.in_mode = 0;
        if (wl.jpeg.size() > 20000) c.out_mode = 0;
        StreamResult r = DecodeStream(w, src, c, wl.jpeg.size() + bypass.size());
        rc = r.verdict == V_DONE;
        HostScope host;
        *out = r.out;
        if (r.verdict == V_STARVED) w.fail("starved", "complete stream, decoder asks for more");
        break;
      }
    }
  } catch (const std::bad_alloc&) {
    HostScope host;
    w.probe("bad_alloc_thrown");
    rc = 0;
  }
  HostScope host;
  in.reset();
  if (op == 1 || op == 3) *out = s.got;
  return rc;
}

void AllocFault(World& w) {
  const Workload& wl = GetWorkload(w, SmallOpts());
  if (wl.enc) throw Discard{"jpeg not encodable"};
  int op = w.pick(CFG, 6);
  Bytes bypass;
  EncodeBypass(wl.jpeg, &bypass);
  uint64_t fill = w.bits64(ALLOC);
  // Reference without faults, counting allocations.
  Bytes ref, got;
  World quiet((Table()));
  alloc::Begin(fill);
  int rc = Operation(quiet, op, wl, bypass, &ref);
  alloc::Stats base = alloc::Get();
  alloc::End();
  if (rc != 1) w.fail("spurious-failure", Fmt("operation %d failed without faults", op));
  if (base.live_blocks) w.fail("leak", Fmt("operation %d leaves %llu blocks", op, (unsigned long long)base.live_blocks));
  if (base.bad_frees) w.fail("bad-free", Fmt("operation %d", op));
  alloc::Forget();
  int tries = 1 + w.pick(CFG, 6);
  for (int t = 0; t < tries; ++t) {
    uint64_t first = w.decide(ALLOC, [&](Rng& r) -> uint64_t { return 1 + r.below(base.allocs + 1); });
    uint64_t count = w.decide(ALLOC, [&](Rng& r) -> uint64_t { return r.chance(2, 3) ? 1 : r.chance(1, 2) ? 1 + r.below(5) : 1000000; });
    alloc::Begin(fill + t);
    alloc::FailAt(first, count);
    rc = Operation(w, op, wl, bypass, &got);
    alloc::Stats st = alloc::Get();
    alloc::End();
    if (st.failed) w.fault("allocation_failure", st.failed);
    w.ev("op", op, first, rc * 2 + (st.failed ? 1 : 0));
    w.tick();
    if (rc == 1 && st.failed) w.probe("survived_allocation_failure");
    if (rc == 0 && !st.failed) w.fail("spurious-failure", Fmt("operation %d", op));
    if (rc == 1) {
      bool same = got == ref;
      if (!same && st.failed && op <= 1) {
        // A different but still correct encoding is fine.
        Bytes out;
        same = DecodeOneShot(got, &out) == V_DONE && out == wl.jpeg;
      }
      if (!same) w.fail("wrong-result-reported-as-success", Fmt("operation %d, allocation %llu failed: %s", op, (unsigned long long)first, Diff(got, ref).c_str()));
    }
    if (op >= 3 && (got.size() > ref.size() || !std::equal(got.begin(), got.end(), ref.begin())))
      w.fail("not-a-prefix", Diff(got, ref));
    if (st.bad_frees) w.fail("bad-free", Fmt("operation %d, allocation %llu failed", op, (unsigned long long)first));
    if (st.live_blocks) w.fail("leak", Fmt("operation %d, allocation %llu failed: %llu blocks, %llu bytes", op, (unsigned long long)first, (unsigned long long)st.live_blocks, (unsigned long long)st.live_bytes));
    alloc::Forget();
  }
  // Memory is back: the same operation works again.
  alloc::Begin(fill + 99);
  rc = Operation(w, op, wl, bypass, &got);
  alloc::End();
  alloc::Forget();
  if (rc != 1 || got != ref) w.fail("no-recovery", Fmt("operation %d after failures: rc %d, %s", op, rc, Diff(got, ref).c_str()));
}
Register r5("alloc_fault", 8, 64, AllocFault);

// A process without a past: forked before this one touched the system under
// test, it forks once more for every question.
struct Fresh {
  int to = -1, from = -1;
  static void Put(int fd, const void* p, size_t n) {
    const char* c = static_cast<const char*>(p);
    while (n) {
      ssize_t k = write(fd, c, n);
      if (k <= 0) _exit(0);
      c += k;
      n -= k;
    }
  }
  static bool Get(int fd, void* p, size_t n) {
    char* c = static_cast<char*>(p);
    while (n) {
      ssize_t k = read(fd, c, n);
      if (k <= 0) return false;
      c += k;
      n -= k;
    }
    return true;
  }
  void Start() {
    if (to >= 0) return;
    int a[2], b[2];
    if (pipe(a) || pipe(b)) return;
    pid_t pid = fork();
    if (pid < 0) return;
    if (pid == 0) {
      close(a[1]);
      close(b[0]);
      signal(SIGPIPE, SIG_DFL);
      Serve(a[0], b[1]);
      _exit(0);
    }
    close(a[0]);
    close(b[1]);
    to = a[1];
    from = b[0];
  }
  static void Serve(int in, int out) {
    for (;;) {
      uint64_t h[4];
      if (!Get(in, h, sizeof(h))) return;
      Workload wl;
      Bytes bypass;
      wl.jpeg.resize(h[1]);
      wl.brn.resize(h[2]);
      bypass.resize(h[3]);
      if (!Get(in, wl.jpeg.data(), h[1]) || !Get(in, wl.brn.data(), h[2]) || !Get(in, bypass.data(), h[3])) return;
      pid_t pid = fork();
      if (pid == 0) {
        World quiet((Table()));
        Bytes got;
        alloc::Begin(5);
        uint64_t a[3];
        a[0] = Operation(quiet, h[0], wl, bypass, &got);
        alloc::End();
        a[1] = got.size();
        a[2] = HashBytes(got);
        Put(out, a, sizeof(a));
        _exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      if (st) {
        uint64_t a[3] = {99, 0, 0};
        Put(out, a, sizeof(a));
      }
    }
  }
  bool Ask(uint64_t op, const Workload& wl, const Bytes& bypass, uint64_t* a) {
    if (to < 0) return false;
    uint64_t h[4] = {op, wl.jpeg.size(), wl.brn.size(), bypass.size()};
    Put(to, h, sizeof(h));
    Put(to, wl.jpeg.data(), wl.jpeg.size());
    Put(to, wl.brn.data(), wl.brn.size());
    Put(to, bypass.data(), bypass.size());
    return Get(from, a, 3 * sizeof(uint64_t));
  }
};

// Results do not depend on heap garbage, on what ran before, nor on the
// capacity beyond need.
void Repeatable(World& w) {
  static Fresh fresh;
  fresh.Start();
  const Workload& wl = GetWorkload(w, SmallOpts());
  if (wl.enc) throw Discard{"jpeg not encodable"};
  const uint64_t kRuns = 2;
  Bytes bypass;
  EncodeBypass(wl.jpeg, &bypass);
  int op = w.pick(CFG, 6);
  Bytes first;
  for (uint64_t k = 0; k < kRuns; ++k) {
    // Something unrelated in between: its leavings must not matter.
    if (k && w.flip(CFG, 1, 2)) {
      Bytes sink;
      if (w.flip(CFG, 1, 3)) {
        // Another image, or the same one in the older format.
        Bytes tmp;
        Encode(wl.jpeg, &tmp, !wl.legacy);
        w.fault("unrelated_encode_in_between");
      }
      if (w.flip(CFG, 1, 2)) {
        Bytes junk = wl.brn;
        DamageStream(w, &junk, 3);
        SutGuard g(w);
        DecodeOneShot(junk, &sink);
        w.fault("unrelated_decode_in_between");
      } else {
        Bytes junk = wl.jpeg;
        DamageJpeg(w, &junk, 3);
        SutGuard g(w);
        Encode(junk, &sink);
        w.fault("unrelated_encode_in_between");
      }
    }
    World quiet((Table()));
    alloc::Begin(w.bits64(ALLOC));
    w.fault("heap_junk");
    Bytes got;
    int rc = Operation(quiet, op, wl, bypass, &got);
    alloc::End();
    alloc::Forget();
    w.ev("op", op, rc, HashBytes(got));
    w.tick();
    if (rc != 1) w.fail("spurious-failure", Fmt("operation %d", op));
    if (k == 0) first = got;
    else if (got != first) w.fail("not-repeatable", Fmt("operation %d: %s", op, Diff(got, first).c_str()));
  }
  if (w.flip(CFG, 1, 3)) {
    uint64_t a[3];
    if (fresh.Ask(op, wl, bypass, a)) {
      w.fault("fresh_process");
      if (a[0] != 1) w.fail("spurious-failure", Fmt("operation %d in a fresh process", op));
      if (a[1] != first.size() || a[2] != HashBytes(first)) {
        w.fail("depends-on-history", Fmt("operation %d: %zu bytes, %llu in a fresh process", op, first.size(), (unsigned long long)a[1]));
      }
    }
  }
}
Register r6("repeatable", 4, 64, Repeatable);

// Any byte string given to the encoder as a JPEG.
void HostileJpeg(World& w) {
  const Workload& wl = GetWorkload(w, SmallOpts());
  Bytes jpeg = wl.jpeg;
  DamageJpeg(w, &jpeg, w.flip(CFG, 1, 2) ? 2 : 12);
  w.ev_bytes("stored", jpeg.data(), jpeg.size());
  std::unique_ptr<uint8_t[]> in(new uint8_t[jpeg.size()]);
  memcpy(in.get(), jpeg.data(), jpeg.size());
  SutGuard g(w);
  try {
    if (w.flip(CFG, 1, 3)) {
      Sink s;
      s.w = &w;
      int ok;
      {
        SutScope sut;
        ok = EncodeBrunsli(jpeg.size(), in.get(), &s, EncSinkHook);
      }
      w.ev("EncodeBrunsli", ok, s.got.size());
      w.probe(ok ? "encoded" : "refused");
      return;
    }
    SutScope sut;
    brunsli::JPEGData jd;
    int mode = w.pick(CFG, 3);
    bool ok = brunsli::ReadJpeg(in.get(), jpeg.size(),
                                mode == 0 ? brunsli::JPEG_READ_ALL
                                          : mode == 1 ? brunsli::JPEG_READ_TABLES : brunsli::JPEG_READ_HEADER, &jd);
    if (mode != 0 || !ok) {
      HostScope host;
      w.ev("ReadJpeg", mode, ok, jd.width * 65536 + jd.height);
      w.probe(ok ? "parsed" : "refused");
      return;
    }
    // What was parsed can be written and encoded without harm.
    bool wrote;
    {
      Sink s;
      s.w = &w;
      wrote = brunsli::WriteJpeg(jd, brunsli::JPEGOutput(SinkHook, &s));
      HostScope host;
      w.probe(wrote ? "parsed_and_written" : "parsed_not_written");
      w.ev("WriteJpeg", wrote, s.got.size());
      s.got = Bytes();
    }
    size_t n = brunsli::GetMaximumBrunsliEncodedSize(jd);
    bool small;
    {
      HostScope host;
      small = n < (64u << 20);
      if (!small) w.probe("too_large_to_encode");
    }
    if (small) {
      std::unique_ptr<uint8_t[]> buf;
      {
        HostScope host;
        buf.reset(new uint8_t[n]);
      }
      bool enc = brunsli::BrunsliEncodeJpeg(jd, buf.get(), &n);
      HostScope host;
      w.ev("encode", enc, enc ? n : 0);
      w.probe(enc ? "encoded" : "not_encoded");
      buf.reset();
    }
  } catch (const std::bad_alloc&) {
    HostScope host;
    w.probe("out_of_memory");
  }
}
Register r7("hostile_jpeg", 8, 128, HostileJpeg);

// A file damaged at rest before it is encoded: it is refused or it comes back
// exactly as it was.
void AcceptedRestored(World& w) {
  const Workload& wl = GetWorkload(w, SmallOpts());
  Bytes jpeg = wl.jpeg;
  if (w.flip(CFG, 15, 16)) DamageJpeg(w, &jpeg, w.flip(CFG, 1, 2) ? 2 : 8);
  w.ev_bytes("stored", jpeg.data(), jpeg.size());
  Bytes brn, back;
  // Parsed and written back without a Brunsli stream in between.
  if (w.flip(CFG, 1, 4)) {
    SutGuard g(w);
    try {
      Sink s;
      s.w = &w;
      SutScope sut;
      brunsli::JPEGData jd;
      bool ok = brunsli::ReadJpeg(jpeg.data(), jpeg.size(), brunsli::JPEG_READ_ALL, &jd) &&
                brunsli::WriteJpeg(jd, brunsli::JPEGOutput(SinkHook, &s));
      HostScope host;
      w.ev("write_back", ok, s.got.size());
      if (ok && s.got != jpeg) w.fail("written-back-altered", Diff(s.got, jpeg));
      if (ok) w.probe("written_back");
      s.got = Bytes();
    } catch (const std::bad_alloc&) {
      throw Discard{"out of memory limit"};
    }
  }
  {
    SutGuard g(w);
    int enc = Encode(jpeg, &brn, wl.legacy);
    w.ev("encode", enc, brn.size());
    w.tick();
    w.probe(enc == 0 ? "accepted" : "refused");
    if (enc) return;
  }
  SutGuard g(w);
  int v = DecodeOneShot(brn, &back);
  w.ev("decode", v, back.size());
  w.tick();
  if (v == V_OOM) throw Discard{"out of memory limit"};
  if (jpeg != wl.jpeg) w.probe("damaged_file_accepted");
  if (v != V_DONE) w.fail("accepted-but-not-restorable", VerdictName(v));
  if (back != jpeg) w.fail("accepted-but-altered", Diff(back, jpeg));
  ChannelCfg c = DrawChannel(w, brn.size(), jpeg.size());
  StreamResult r = DecodeStream(w, brn, c, jpeg.size());
  if (r.verdict == V_OOM) throw Discard{"out of memory limit"};
  if (r.verdict != V_DONE) w.fail("accepted-but-not-restorable", Fmt("in fragments: %s", VerdictName(r.verdict)));
  if (r.out != jpeg) w.fail("accepted-but-altered", "in fragments: " + Diff(r.out, jpeg));
}
Register r8("accepted_restored", 8, 128, AcceptedRestored);

}  // namespace
}  // namespace sim
