// Thread pool, groups mode and concurrent independent instances under a seeded
// scheduler.
#include <algorithm>
#include <memory>
#include <new>
#include <system_error>

#include <brunsli/brunsli_decode.h>
#include <brunsli/brunsli_encode.h>
#include <brunsli/decode.h>
#include <brunsli/encode.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>

#include "codec.h"
#include "groups_util.h"
#include "restructure.h"
#include "sched.h"

namespace sim {
namespace {

// ----------------------------------------------------------------------- pool
struct TaskError {
  int batch;
  size_t task;
};
struct TaskPlan {
  uint8_t points;   // scheduling points inside
  uint8_t throws;   // 0 no, 1 before, 2 after its work
};
struct Batch {
  World* w;
  int no;
  std::vector<TaskPlan> plan;
  std::vector<int> input;
  std::vector<int> started, finished;
  bool open = false;
};

void RunTask(Batch* b, size_t i) {
  World& w = *b->w;
  {
    HostScope host;
    w.ev("task", b->no, i, sched::Self());
    if (!b->open) w.fail("task-outside-its-batch", Fmt("task %zu of batch %d runs although execute() has returned", i, b->no));
    if (i >= b->plan.size()) w.fail("task-index-out-of-range", Fmt("%zu of %zu", i, b->plan.size()));
    if (b->started[i]++) w.fail("task-run-twice", Fmt("task %zu of batch %d", i, b->no));
  }
  const TaskPlan& p = b->plan[i];
  // What the caller prepared is visible here.
  sched::Touch(&b->input[i], sizeof(int), false);
  if (b->input[i] != int(i * 3 + b->no)) w.fail("input-not-visible", Fmt("task %zu", i));
  if (p.throws == 1) throw TaskError{b->no, i};
  for (int k = 0; k < p.points; ++k) sched::Point();
  sched::Touch(&b->finished[i], sizeof(int), true);
  b->finished[i] = 1;
  if (p.throws == 2) throw TaskError{b->no, i};
}

void Pool(World& w) {
  static const int kThreads[] = {2, 1, 3, 4, 6, 8};
  int n = kThreads[w.pick(CFG, 6)];
  int nb = w.pick(CFG, 5);
  uint32_t throw_num = w.rare(CFG, 1, 3, 8);
  std::vector<Batch> batches(nb);
  for (int i = 0; i < nb; ++i) {
    Batch& b = batches[i];
    b.w = &w;
    b.no = i;
    size_t m = w.pick(CFG, 4) == 0 ? w.pick(CFG, 3) : w.pick(CFG, 14);
    b.plan.resize(m);
    b.input.resize(m);
    b.started.assign(m, 0);
    b.finished.assign(m, 0);
    for (auto& p : b.plan) {
      p.points = w.rare(CFG, 1, 2, 4);
      p.throws = w.rare(CFG, throw_num, 16, 3);
      if (p.throws) w.fault("task_throws");
    }
  }
  sched::Options o;
  o.create_failures = true;
  sched::Begin(w, o);
  std::unique_ptr<brunsli::ParallelExecutor> pool;
  try {
    SutScope sut;
    pool.reset(new brunsli::ParallelExecutor(n));
  } catch (const std::system_error&) {
    if (!sched::CreateFailures()) w.fail("spurious-failure", "pool constructor threw");
    w.probe("pool_not_started");
    sched::End();
    return;
  }
  if (sched::CreateFailures()) w.probe("started_despite_thread_failure");
  for (Batch& b : batches) {
    size_t m = b.plan.size();
    for (size_t i = 0; i < m; ++i) {
      sched::Touch(&b.input[i], sizeof(int), true);
      b.input[i] = i * 3 + b.no;
    }
    bool any = false;
    for (auto& p : b.plan) any |= p.throws != 0;
    b.open = true;
    int got = -1;
    try {
      SutScope sut;
      brunsli::Executor ex = pool->getExecutor();
      brunsli::Runnable r = [&b](size_t i) { RunTask(&b, i); };
      ex(r, m);
    } catch (const TaskError& e) {
      got = e.task;
      if (e.batch != b.no) w.fail("stale-exception", Fmt("batch %d received an exception of batch %d", b.no, e.batch));
    }
    b.open = false;
    w.ev("executed", b.no, m, got + 1);
    for (size_t i = 0; i < m; ++i) {
      if (b.started[i] != 1) w.fail("task-lost", Fmt("task %zu of batch %d ran %d times by the time execute() returned", i, b.no, b.started[i]));
      sched::Touch(&b.finished[i], sizeof(int), false);
      if (b.plan[i].throws != 1 && b.finished[i] != 1) w.fail("task-unfinished", Fmt("task %zu of batch %d", i, b.no));
    }
    if (any && got < 0) w.fail("exception-lost", Fmt("batch %d", b.no));
    if (!any && got >= 0) w.fail("spurious-exception", Fmt("batch %d", b.no));
    if (got >= 0 && !b.plan[got].throws) w.fail("wrong-exception", Fmt("batch %d", b.no));
    if (any) w.probe("batch_with_exception");
    sched::Point();
  }
  {
    SutScope sut;
    pool.reset();
  }
  sched::End();
}
Register r1("pool", 1, 64, Pool);

// --------------------------------------------------------------------- groups
// A way to execute: in the caller's thread or by a pool.
struct Runner {
  std::unique_ptr<brunsli::ParallelExecutor> pool;
  brunsli::Executor ex;
  explicit Runner(int n) {
    if (n == 0) {
      ex = brunsli::SequentialExecutor;
    } else {
      pool.reset(new brunsli::ParallelExecutor(n));
      ex = pool->getExecutor();
    }
  }
};
int DrawThreads(World& w) {
  static const int k[] = {2, 1, 3, 4, 6, 8};
  return k[w.pick(CFG, 6)];
}

void GroupsRoundTrip(World& w) {
  JpegInfo info;
  Bytes jpeg = GenJpeg(w, GroupOpts(), &info);
  w.ev_bytes("workload", jpeg.data(), jpeg.size());
  std::unique_ptr<brunsli::JPEGData> jd(new brunsli::JPEGData);
  if (!Parse(jpeg, jd.get())) {
    if (info.features & kMayBeRefused) throw Discard{"jpeg not encodable"};
    w.fail("valid-jpeg-refused", "not parsed");
  }
  Dims d = DrawDims(w, *jd);
  size_t cap = 4 * brunsli::GetMaximumBrunsliEncodedSize(*jd) + (1 << 20);
  Bytes ref(cap);
  size_t ref_len = cap;
  brunsli::Executor seq = brunsli::SequentialExecutor;
  bool ok = brunsli::EncodeGroups(*jd, ref.data(), &ref_len, d.ac, d.dc, &seq);
  w.ev("sequential", ok, ref_len, d.ac * 65536 + d.dc);
  if (!ok) {
    if (d.odd || (info.features & kMayBeRefused)) throw Discard{"not encodable in groups mode"};
    w.fail("valid-jpeg-refused", Fmt("EncodeGroups, group dimensions %zu/%zu", d.ac, d.dc));
  }
  ref.resize(ref_len);
  // Parallel encoding, into a buffer that may be too small.
  uint64_t less = w.rare(FAULT, 1, 6, ref_len + 1);
  size_t room = ref_len - less;
  Bytes buf(room + 64, 0x5C);
  size_t len = room;
  int enc_threads = DrawThreads(w), dec_threads = DrawThreads(w);
  bool shared_pool = w.flip(CFG, 1, 2);
  std::unique_ptr<brunsli::JPEGData> back(new brunsli::JPEGData);
  std::unique_ptr<uint8_t[]> in(new uint8_t[ref_len]);
  memcpy(in.get(), ref.data(), ref_len);
  bool dec = false;
  SutGuard junk(w, ~0ull);
  sched::Options o;
  o.max_steps = 20000000;
  sched::Begin(w, o);
  {
    SutScope sut;
    std::unique_ptr<Runner> r(new Runner(enc_threads));
    ok = brunsli::EncodeGroups(*jd, buf.data(), &len, d.ac, d.dc, &r->ex);
    w.ev("encoded", ok, ok ? len : 0, enc_threads);
    if (!shared_pool) {
      r.reset();
      r.reset(new Runner(dec_threads));
    }
    dec = brunsli::DecodeGroups(in.get(), ref_len, back.get(), d.ac, d.dc, &r->ex);
    w.ev("decoded", dec, dec_threads);
  }
  sched::End();
  for (int i = 0; i < 64; ++i)
    if (buf[room + i] != 0x5C) w.fail("buffer-overrun", Fmt("EncodeGroups with capacity %zu of %zu", room, ref_len));
  if (less) w.fault("buffer_too_small");
  if (ok != (less == 0)) {
    w.fail(ok ? "truncated-result-reported-as-success" : "spurious-failure",
           Fmt("EncodeGroups returns %d with capacity %zu, needed %zu", ok, room, ref_len));
  }
  if (ok) {
    buf.resize(len);
    if (buf != ref) w.fail("schedule-dependent-output", Fmt("%d threads: ", enc_threads) + Diff(buf, ref));
  }
  if (!dec) w.fail("valid-stream-not-decoded", Fmt("DecodeGroups, %d threads", shared_pool ? enc_threads : dec_threads));
  ToBytes t;
  bool wrote = brunsli::WriteJpeg(*back, brunsli::JPEGOutput(ToBytes::Hook, &t));
  if (!wrote || t.out != jpeg) w.fail("wrong-bytes", Diff(t.out, jpeg));
  size_t bw = jd->MCU_cols * jd->max_h_samp_factor;
  w.probe(bw > d.ac ? "several_groups" : "single_column_of_groups");
}
Register r2("groups", 4, 32, GroupsRoundTrip);

// Damaged group streams: the verdict is the same under every schedule.
void GroupsDamage(World& w) {
  JpegInfo info;
  Bytes jpeg = GenJpeg(w, GroupOpts(), &info);
  w.ev_bytes("workload", jpeg.data(), jpeg.size());
  std::unique_ptr<brunsli::JPEGData> jd(new brunsli::JPEGData);
  if (!Parse(jpeg, jd.get())) throw Discard{"not parsed"};
  Dims d = DrawDims(w, *jd);
  size_t cap = 4 * brunsli::GetMaximumBrunsliEncodedSize(*jd) + (1 << 20);
  Bytes stored(cap);
  size_t n = cap;
  brunsli::Executor seq = brunsli::SequentialExecutor;
  if (!brunsli::EncodeGroups(*jd, stored.data(), &n, d.ac, d.dc, &seq)) throw Discard{"not encodable in groups mode"};
  stored.resize(n);
  // Damage one or more groups, staying behind the common sections most times.
  if (w.flip(CFG, 3, 4)) {
    int edits = 1 + w.pick(MUT, 3);
    for (int i = 0; i < edits; ++i) {
      uint64_t back = w.decide(MUT, [&](Rng& r) -> uint64_t { return r.below(n * 2 / 3); });
      if (back >= n) back = n - 1;
      stored[n - 1 - back] ^= 1 + w.pick(MUT, 255);
      w.fault("group_byte_corrupted");
    }
  } else {
    DamageStream(w, &stored, 3);
  }
  n = stored.size();
  w.ev_bytes("stored", stored.data(), n);
  std::unique_ptr<uint8_t[]> in(new uint8_t[n]);
  memcpy(in.get(), stored.data(), n);
  // Sequential verdict.
  int want = 0;
  ToBytes wt;
  {
    SutGuard g(w);
    try {
      std::unique_ptr<brunsli::JPEGData> back(new brunsli::JPEGData);
      SutScope sut;
      want = brunsli::DecodeGroups(in.get(), n, back.get(), d.ac, d.dc, &seq);
      if (want) want = 1 + brunsli::WriteJpeg(*back, brunsli::JPEGOutput(ToBytes::Hook, &wt));
    } catch (const std::bad_alloc&) {
      want = -1;
    }
  }
  if (want < 0) throw Discard{"out of memory limit"};
  w.probe(want == 0 ? "damage_rejected" : want == 1 ? "damage_not_writable" : "damage_accepted");
  int threads = DrawThreads(w);
  int got = 0;
  ToBytes gt;
  std::unique_ptr<brunsli::JPEGData> back(new brunsli::JPEGData);
  {
    SutGuard g(w);
    sched::Options o;
    o.max_steps = 20000000;
    sched::Begin(w, o);
    {
      SutScope sut;
      std::unique_ptr<Runner> r(new Runner(threads));
      try {
        got = brunsli::DecodeGroups(in.get(), n, back.get(), d.ac, d.dc, &r->ex);
      } catch (const std::bad_alloc&) {
        got = -1;
      }
    }
    sched::End();
  }
  w.ev("verdicts", want, got + 1);
  if (got < 0) throw Discard{"out of memory limit"};
  if (got) got = 1 + brunsli::WriteJpeg(*back, brunsli::JPEGOutput(ToBytes::Hook, &gt));
  if (want != got) w.fail("schedule-dependent-verdict", Fmt("sequential %d, %d threads %d (0 rejected, 1 not writable, 2 accepted)", want, threads, got));
  if (gt.out != wt.out) w.fail("schedule-dependent-output", Diff(gt.out, wt.out));
}
Register r3("groups_damage", 4, 32, GroupsDamage);

// Allocation failures inside the pool's tasks.
void GroupsAlloc(World& w) {
  JpegInfo info;
  Bytes jpeg = GenJpeg(w, GroupOpts(), &info);
  w.ev_bytes("workload", jpeg.data(), jpeg.size());
  std::unique_ptr<brunsli::JPEGData> jd(new brunsli::JPEGData);
  if (!Parse(jpeg, jd.get())) throw Discard{"not parsed"};
  Dims d = DrawDims(w, *jd);
  size_t cap = 4 * brunsli::GetMaximumBrunsliEncodedSize(*jd) + (1 << 20);
  Bytes ref(cap);
  size_t n = cap;
  brunsli::Executor seq = brunsli::SequentialExecutor;
  uint64_t fill = w.bits64(ALLOC);
  alloc::Begin(fill);
  bool ok;
  {
    SutScope sut;
    ok = brunsli::EncodeGroups(*jd, ref.data(), &n, d.ac, d.dc, &seq);
  }
  uint64_t enc_allocs = alloc::Get().allocs;
  alloc::End();
  alloc::Forget();
  if (!ok) throw Discard{"not encodable in groups mode"};
  ref.resize(n);
  std::unique_ptr<uint8_t[]> in(new uint8_t[n]);
  memcpy(in.get(), ref.data(), n);
  alloc::Begin(fill);
  {
    SutScope sut;
    std::unique_ptr<brunsli::JPEGData> back(new brunsli::JPEGData);
    ok = brunsli::DecodeGroups(in.get(), n, back.get(), d.ac, d.dc, &seq);
  }
  uint64_t dec_allocs = alloc::Get().allocs;
  alloc::End();
  alloc::Forget();
  if (!ok) w.fail("valid-stream-not-decoded", "sequential DecodeGroups");
  bool enc = w.flip(CFG, 1, 2);
  uint64_t total = enc ? enc_allocs : dec_allocs;
  uint64_t first = w.decide(ALLOC, [&](Rng& r) -> uint64_t { return 1 + r.below(total + 1); });
  uint64_t count = w.decide(ALLOC, [&](Rng& r) -> uint64_t { return r.chance(2, 3) ? 1 : 1 + r.below(6); });
  int threads = DrawThreads(w);
  Bytes out(cap);
  size_t len = cap;
  int rc = 0;
  alloc::Begin(fill);
  sched::Options o;
  o.max_steps = 20000000;
  sched::Begin(w, o);
  std::unique_ptr<brunsli::JPEGData> back(new brunsli::JPEGData);
  {
    std::unique_ptr<Runner> r;
    {
      SutScope sut;   // the workers allocate for the system under test
      r.reset(new Runner(threads));
    }
    alloc::FailAt(alloc::Get().allocs + first, count);
    try {
      SutScope sut;
      rc = enc ? brunsli::EncodeGroups(*jd, out.data(), &len, d.ac, d.dc, &r->ex)
               : brunsli::DecodeGroups(in.get(), n, back.get(), d.ac, d.dc, &r->ex);
    } catch (const std::bad_alloc&) {
      rc = -1;
    }
    alloc::FailAt(0, 0);
    w.ev("faulty", enc, rc + 1, alloc::Get().failed);
    // Memory is back, and so is the pool.
    if (w.flip(CFG, 1, 2)) {
      std::unique_ptr<brunsli::JPEGData> again(new brunsli::JPEGData);
      SutScope sut;
      if (!brunsli::DecodeGroups(in.get(), n, again.get(), d.ac, d.dc, &r->ex)) w.fail("no-recovery", "DecodeGroups after an allocation failure");
    }
  }
  sched::End();
  uint64_t failed = alloc::Get().failed;
  if (failed) w.fault("allocation_failure", failed);
  if (rc == -1) w.probe("bad_alloc_reached_caller");
  if (rc != 1 && !failed) w.fail("spurious-failure", "no allocation failed");
  if (rc == 1 && enc) {
    out.resize(len);
    if (out != ref) {
      // Still has to be correct.
      std::unique_ptr<brunsli::JPEGData> b2(new brunsli::JPEGData);
      ToBytes t;
      if (!brunsli::DecodeGroups(out.data(), len, b2.get(), d.ac, d.dc, &seq) ||
          !brunsli::WriteJpeg(*b2, brunsli::JPEGOutput(ToBytes::Hook, &t)) || t.out != jpeg)
        w.fail("wrong-result-reported-as-success", "EncodeGroups with failing allocations");
    }
  }
  if (rc == 1 && !enc) {
    ToBytes t;
    if (!brunsli::WriteJpeg(*back, brunsli::JPEGOutput(ToBytes::Hook, &t)) || t.out != jpeg)
      w.fail("wrong-result-reported-as-success", "DecodeGroups with failing allocations");
  }
  back.reset();
  alloc::Stats st = alloc::Get();
  alloc::End();
  if (st.live_blocks) w.fail("leak", Fmt("%llu blocks", (unsigned long long)st.live_blocks));
  if (st.bad_frees) w.fail("bad-free", "");
  alloc::Forget();
}
Register r4("groups_alloc", 4, 32, GroupsAlloc);

// ------------------------------------------------------------------ instances
struct Client {
  World* w;
  int op;
  const Bytes* in;
  Bytes out;
  int rc = -1;
  const brunsli::JPEGData* shared = nullptr;   // read-only, used by several
  size_t in_step = 1, out_step = 1;
};

void ClientMain(void* p) {
  SutScope sut;
  Client& c = *static_cast<Client*>(p);
  std::unique_ptr<uint8_t[]> in(new uint8_t[c.in->size()]);
  memcpy(in.get(), c.in->data(), c.in->size());
  size_t n = c.in->size();
  switch (c.op) {
    case 0: c.rc = Encode(*c.in, &c.out) == 0; break;
    case 1: {
      ToBytes t;
      c.rc = EncodeBrunsli(n, in.get(), &t, [](void* d, const unsigned char* b, size_t k) { return ToBytes::Hook(d, b, k); });
      c.out = t.out;
      break;
    }
    case 2: c.rc = EncodeBypass(*c.in, &c.out); break;
    case 3: {
      ToBytes t;
      c.rc = DecodeBrunsli(n, in.get(), &t, ToBytes::Hook);
      c.out = t.out;
      break;
    }
    case 4: c.rc = DecodeOneShot(*c.in, &c.out) == V_DONE; break;
    case 6: {
      size_t len = brunsli::GetMaximumBrunsliEncodedSize(*c.shared);
      c.out.resize(len);
      c.rc = brunsli::BrunsliEncodeJpeg(*c.shared, c.out.data(), &len);
      c.out.resize(c.rc ? len : 0);
      break;
    }
    case 7: {
      ToBytes t;
      c.rc = brunsli::WriteJpeg(*c.shared, brunsli::JPEGOutput(ToBytes::Hook, &t));
      c.out = t.out;
      break;
    }
    default: {
      ChannelCfg cfg;
      cfg.in_fixed = c.in_step;
      cfg.out_fixed = c.out_step;
      StreamResult r = DecodeStream(*c.w, *c.in, cfg, 20000);
      c.rc = r.verdict == V_DONE;
      c.out = r.out;
      break;
    }
  }
}

// Several callers, each with objects of its own: as if each were alone. The
// process is fresh, so this includes first-use initialisation.
void Instances(World& w) {
  int k = 2 + w.pick(CFG, 3);
  std::vector<Bytes> jpegs(k), streams(k);
  GenOpts o;
  o.max_class = 1;
  o.big_num = 0;
  for (int i = 0; i < k; ++i) {
    JpegInfo info;
    if (i && w.flip(CFG, 1, 4)) jpegs[i] = jpegs[0];
    else jpegs[i] = GenJpeg(w, o, &info);
    w.ev_bytes("workload", jpegs[i].data(), jpegs[i].size());
  }
  if (w.flip(CFG, 1, 4)) {
    // One of them works on damaged data.
    Damage(w, &jpegs[w.pick(CFG, k)], 3);
  }
  int damaged_stream = (int)w.rare(CFG, 1, 4, k + 1) - 1;
  std::vector<Client> enc(k), dec(k);
  for (int i = 0; i < k; ++i) {
    enc[i].w = dec[i].w = &w;
    enc[i].op = w.pick(CFG, 3);
    dec[i].op = 3 + w.pick(CFG, 3);
    dec[i].in_step = 1 + w.pick(CFG, 500);
    dec[i].out_step = 1 + w.pick(CFG, 2000);
    enc[i].in = &jpegs[i];
  }
  // Some encode, some re-serialise one and the same parsed image.
  std::unique_ptr<brunsli::JPEGData> shared;
  bool share = w.flip(CFG, 1, 3);
  int sharers = 2 + w.pick(CFG, 2);
  SutGuard junk(w, ~0ull);
  sched::Options so;
  so.max_steps = 20000000;
  sched::Begin(w, so);
  if (share) {
    shared.reset(new brunsli::JPEGData);
    if (!Parse(jpegs[0], shared.get())) share = false;
  }
  if (share) {
    w.probe("shared_parsed_image");
    for (int i = 0; i < std::min(k, sharers); ++i) {
      if (w.flip(CFG, 1, 2)) enc[i].op = 6;
      else dec[i].op = 7;
      enc[i].shared = dec[i].shared = shared.get();
    }
  }
  for (int phase = 0; phase < 2; ++phase) {
    std::vector<Client>& cs = phase ? dec : enc;
    if (phase) {
      for (int i = 0; i < k; ++i) {
        streams[i] = enc[i].out;
        if (i == damaged_stream && !streams[i].empty()) Damage(w, &streams[i], 2);
        dec[i].in = &streams[i];
      }
    }
    std::vector<int> h(k);
    for (int i = 0; i < k; ++i) h[i] = sched::Spawn(ClientMain, &cs[i]);
    for (int i = 0; i < k; ++i) sched::Join(h[i]);
    for (int i = 0; i < k; ++i) w.ev("client", cs[i].op, cs[i].rc, HashBytes(cs[i].out));
  }
  sched::End();
  // Alone, afterwards.
  for (int phase = 0; phase < 2; ++phase) {
    for (int i = 0; i < k; ++i) {
      const Client& c = phase ? dec[i] : enc[i];
      Client alone;
      alone.w = &w;
      alone.op = c.op;
      alone.in = c.in;
      alone.shared = c.shared;
      alone.in_step = c.in_step;
      alone.out_step = c.out_step;
      ClientMain(&alone);
      if (alone.rc != c.rc || alone.out != c.out)
        w.fail("interference", Fmt("operation %d gives %d among %d callers and %d alone: ", c.op, c.rc, k, alone.rc) + Diff(c.out, alone.out));
      // What it has to restore.
      const Bytes& orig = c.op == 7 || (phase && enc[i].op == 6) ? jpegs[0] : jpegs[i];
      if (phase && c.rc && (c.op == 7 || i != damaged_stream) && c.out != orig) w.fail("wrong-bytes", Diff(c.out, orig));
    }
  }
}
Register r5("instances", 1, 1, Instances);

}  // namespace
}  // namespace sim
