#include "codec.h"

#include <algorithm>
#include <memory>
#include <new>

#include <brunsli/brunsli_decode.h>
#include <brunsli/brunsli_encode.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>

namespace sim {

const char* VerdictName(int v) {
  static const char* n[] = {"DONE", "ERROR", "STARVED", "OOM", "ABANDONED"};
  return v >= 0 && v < 5 ? n[v] : "?";
}

std::string Diff(const Bytes& got, const Bytes& want) {
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  return Fmt("got %zu bytes, want %zu, first difference at %zu", got.size(), want.size(), i);
}

#if defined(SIM_ASAN)
const size_t kGuard = 0;
#else
const size_t kGuard = 16;
#endif

// Exact size heap buffer whose content is destroyed before it is released.
struct Buf {
  uint8_t* p;
  size_t n;
  explicit Buf(size_t n) : p(static_cast<uint8_t*>(malloc(n ? n : 1))), n(n) {}
  ~Buf() { memset(p, 0xA5, n); free(p); }
  Buf(const Buf&) = delete;
};

int Encode(const Bytes& jpeg, Bytes* brn, bool legacy) {
  Buf in(jpeg.size());
  memcpy(in.p, jpeg.data(), jpeg.size());
  brn->clear();
  try {
    SutScope sut;
    brunsli::JPEGData jd;
    if (!brunsli::ReadJpeg(in.p, in.n, brunsli::JPEG_READ_ALL, &jd)) return 1;
    if (legacy) jd.version = 0;
    size_t n = brunsli::GetMaximumBrunsliEncodedSize(jd);
    std::unique_ptr<uint8_t[]> buf(new uint8_t[n]);
    if (!brunsli::BrunsliEncodeJpeg(jd, buf.get(), &n)) return 2;
    HostScope host;
    brn->assign(buf.get(), buf.get() + n);
    return 0;
  } catch (const std::bad_alloc&) {
    return 3;
  }
}

bool EncodeBypass(const Bytes& jpeg, Bytes* brn) {
  Buf in(jpeg.size());
  memcpy(in.p, jpeg.data(), jpeg.size());
  SutScope sut;
  size_t n = brunsli::GetBrunsliBypassSize(in.n);
  std::unique_ptr<uint8_t[]> buf(new uint8_t[n]);
  bool ok = brunsli::BrunsliEncodeJpegBypass(in.p, in.n, buf.get(), &n);
  HostScope host;
  if (ok) brn->assign(buf.get(), buf.get() + n);
  return ok;
}

static size_t AppendSink(void* data, const uint8_t* buf, size_t n) {
  HostScope host;
  Bytes* out = static_cast<Bytes*>(data);
  out->insert(out->end(), buf, buf + n);
  return n;
}

int DecodeOneShot(const Bytes& brn, Bytes* out) {
  Buf in(brn.size());
  memcpy(in.p, brn.data(), brn.size());
  try {
    SutScope sut;
    brunsli::JPEGData jd;
    if (brunsli::BrunsliDecodeJpeg(in.p, in.n, &jd) != brunsli::BRUNSLI_OK) return V_ERROR;
    brunsli::JPEGOutput sink(AppendSink, out);
    return brunsli::WriteJpeg(jd, sink) ? V_DONE : V_ERROR;
  } catch (const std::bad_alloc&) {
    return V_OOM;
  }
}

ChannelCfg DrawChannel(World& w, size_t in_size, size_t out_size) {
  ChannelCfg c;
  c.in_mode = w.pick(CFG, 8);
  c.out_mode = w.pick(CFG, 8);
  c.stall = w.rare(CFG, 1, 3, 24);
  c.regroup = !w.flip(CFG, 1, 4);
  // Byte-wise traffic only for streams short enough.
  if (in_size > 40000 && (c.in_mode == 1)) c.in_mode = 2;
  if (out_size > 60000 && (c.out_mode == 1)) c.out_mode = 2;
  // A fragment costs as much as the room offered with it.
  if (std::max(in_size, out_size) > 400000) {
    if (c.in_mode == 1 || c.in_mode == 2 || c.in_mode == 4 || c.in_mode == 7) c.in_mode = 5 + c.in_mode % 2;
    if (c.out_mode == 1 || c.out_mode == 2) c.out_mode = 3;
  }
  return c;
}

// Size of the next fragment out of `left` bytes still to come. 0 = everything.
static size_t NextIn(World& w, const ChannelCfg& c, size_t left) {
  if (left == 0) return 0;
  if (c.in_fixed) return std::min(c.in_fixed, left);
  uint64_t v = w.decide(IN, [&](Rng& r) -> uint64_t {
    switch (c.in_mode) {
      case 0: return 0;
      case 1: return 1;
      case 2: return 1 + r.below(16);
      case 3: return 1 + r.below(1 + (left >> 1));
      case 4: return 1 + (r.chance(1, 2) ? r.below(3) : r.below(700));
      case 5: return 590 + r.below(20);  // around the decoder's read-ahead window
      case 6: return 1 + (r.next() & ((1ull << r.below(14)) - 1));
      default: return r.chance(1, 3) ? 1 : 1 + r.below(120);
    }
  });
  if (v == 0 || v > left) v = left;
  return v;
}

static size_t NextOut(World& w, const ChannelCfg& c, size_t plenty) {
  if (c.out_fixed) return std::min(c.out_fixed, plenty);
  uint64_t v = w.decide(OUT, [&](Rng& r) -> uint64_t {
    switch (c.out_mode) {
      case 0: return 0;
      case 1: return 1;
      case 2: return 1 + r.below(40);
      case 3: return 1 + r.below(2000);
      case 4: return 16000 + r.below(800);  // around the serializer's chunk size
      case 5: return 1 + (r.next() & ((1ull << r.below(15)) - 1));
      case 6: return r.chance(1, 4) ? 0 : 1 + r.below(6);
      default: return r.chance(1, 2) ? 1 : 1 + r.below(300);
    }
  });
  return v == 0 || v > plenty ? plenty : v;
}

StreamResult DecodeStream(World& w, const Bytes& brn, const ChannelCfg& cfg, size_t expect_out) {
  typedef brunsli::BrunsliDecoder D;
  StreamResult res;
  size_t total = std::min(cfg.cut, brn.size());
  std::unique_ptr<D> dec;
  try {
    {
      SutScope sut;
      dec.reset(new D());
    }
    size_t given = 0;      // bytes of brn handed over so far (incl. leftover)
    std::unique_ptr<Buf> cur(new Buf(0));
    size_t off = 0;        // consumed part of cur
    int idle = 0;
    bool finished = false;
    // Very generous: byte-wise both ways plus stalls.
    const uint64_t max_calls = 4000 + 4 * (total + 64) * (cfg.stall ? 3 : 1) +
                               4 * (expect_out + (1u << 20)) + 200000;
    while (!finished) {
      bool stall_in = false, stall_out = false;
      if (cfg.stall) {
        uint64_t s = w.rare(FAULT, cfg.stall, 64, 4);
        stall_in = s & 1;
        stall_out = s & 2;
        if (stall_in) w.fault("input_stall");
        if (stall_out) w.fault("output_stall");
      }
      // Input side: leftover plus the next fragment, at a fresh address.
      size_t leftover = cur->n - off;
      if (!stall_in && given < total && (leftover == 0 || cfg.regroup)) {
        size_t n = NextIn(w, cfg, total - given);
        std::unique_ptr<Buf> nb(new Buf(leftover + n));
        memcpy(nb->p, cur->p + off, leftover);
        memcpy(nb->p + leftover, brn.data() + given, n);
        given += n;
        cur = std::move(nb);
        off = 0;
      } else if (off) {
        std::unique_ptr<Buf> nb(new Buf(leftover));
        memcpy(nb->p, cur->p + off, leftover);
        cur = std::move(nb);
        off = 0;
      }
      size_t plenty = 4096 + (expect_out > res.out.size() ? expect_out - res.out.size() : 0);
      size_t room = stall_out ? 0 : NextOut(w, cfg, plenty);
      if (cfg.abandon_after && res.calls >= cfg.abandon_after) {
        w.fault("consumer_abandons");
        res.verdict = V_ABANDONED;
        break;
      }
      // Guard bytes behind the offered room (address sanitizer builds rely on
      // the exact size of the block instead).
      std::unique_ptr<Buf> ob(new Buf(room + kGuard));
      memset(ob->p + room, 0x5C, kGuard);
      size_t avail_in = cur->n, avail_out = room;
      const uint8_t* next_in = cur->p;
      uint8_t* next_out = ob->p;
      const uint64_t in_hash = cfg.check_buffers ? HashBytes(cur->p, cur->n) : 0;
      D::Status st;
      {
        SutScope sut;
        st = dec->Decode(&avail_in, &next_in, &avail_out, &next_out);
      }
      w.tick();
      ++res.calls;
      size_t used_in = cur->n - avail_in, made = room - avail_out;
      if (avail_in > cur->n || next_in != cur->p + used_in) {
        w.fail("bad-input-accounting", Fmt("offered %zu, available_in now %zu, next_in moved by %td",
                                           cur->n, avail_in, next_in - cur->p));
      }
      if (avail_out > room || next_out != ob->p + made) {
        w.fail("bad-output-accounting", Fmt("offered %zu, available_out now %zu, next_out moved by %td",
                                            room, avail_out, next_out - ob->p));
      }
      for (size_t i = 0; i < kGuard; ++i)
        if (ob->p[room + i] != 0x5C) w.fail("output-overrun", Fmt("byte %zu behind %zu offered was written", i, room));
      if (cfg.check_buffers && in_hash != HashBytes(cur->p, cur->n)) {
        w.fail("input-modified", "the input fragment was written to");
      }
      res.out.insert(res.out.end(), ob->p, ob->p + made);
      off = used_in;
      res.consumed += used_in;
      if (cfg.record) w.ev("decode", (uint64_t)st, used_in, made);
      if (used_in < cur->n && st != D::ERROR) w.probe("input_left_unconsumed");
      if (cfg.max_out && res.out.size() > cfg.max_out) throw Discard{"damage made the output huge"};
      if (res.out.size() > expect_out + (64u << 20)) {
        w.fail("runaway-output", Fmt("%zu bytes produced", res.out.size()));
      }
      bool all_in = given == total && cur->n - off == 0;
      switch (st) {
        case D::DONE: res.verdict = V_DONE; finished = true; break;
        case D::ERROR: res.verdict = V_ERROR; finished = true; break;
        case D::NEEDS_MORE_INPUT:
          ++res.suspended_in;
          if (all_in && !stall_out && made < room && used_in == 0 && made == 0) {
            // Nothing else will ever come.
            res.verdict = V_STARVED;
            finished = true;
          }
          break;
        case D::NEEDS_MORE_OUTPUT:
          ++res.suspended_out;
          if (made < room && cfg.check_progress) {
            w.fail("needs-output-with-room", Fmt("asks for output space with %zu of %zu bytes free",
                                                 room - made, room));
          }
          break;
        default: w.fail("bad-status", Fmt("status %d", (int)st));
      }
      if (!finished && cfg.check_progress) {
        // With room and (data or a complete stream) each call must move.
        bool could_move = room > 0 && cur->n > 0;
        if (used_in == 0 && made == 0 && could_move) ++idle;
        else if (used_in || made) idle = 0;
        if (idle > 3) w.fail("no-progress", Fmt("4 calls without progress, %zu bytes pending", cur->n - off));
        if (res.calls > max_calls) w.fail("no-progress", Fmt("%llu calls", (unsigned long long)res.calls));
      }
    }
    w.ev("verdict", res.verdict, res.out.size(), res.consumed);
    if (res.verdict == V_ABANDONED) return res;
    // A final verdict is final: later calls repeat it and emit nothing.
    if (cfg.post_calls && (res.verdict == V_DONE || res.verdict == V_ERROR)) {
      D::Status want = res.verdict == V_DONE ? D::DONE : D::ERROR;
      for (int i = 0; i < cfg.post_calls; ++i) {
        // More of the stream, junk, or nothing at all.
        size_t n = 0;
        Bytes more;
        uint64_t how = res.verdict == V_ERROR ? w.pick(IN, 3) : 0;
        if (how == 1) more.assign(brn.begin() + std::min(given, brn.size()), brn.end());
        if (how == 2) more.assign(1 + w.pick(IN, 64), 0x0A);
        n = more.size();
        Buf nb(n);
        memcpy(nb.p, more.data(), n);
        size_t room = w.pick(OUT, 2) ? 100 : 0;
        Buf ob(room);
        size_t ai = n, ao = room;
        const uint8_t* ni = nb.p;
        uint8_t* no = ob.p;
        D::Status st;
        {
          SutScope sut;
          st = dec->Decode(&ai, &ni, &ao, &no);
        }
        w.tick();
        w.ev("late", st, n - ai, room - ao);
        if (st != want) {
          w.fail("verdict-not-final", Fmt("%s was followed by status %d on later call %d", VerdictName(res.verdict),
                                          (int)st, i + 1));
        }
        if (ao != room) w.fail("output-after-end", Fmt("%zu bytes after %s", room - ao, VerdictName(res.verdict)));
        if (ai > n || ni != nb.p + (n - ai)) w.fail("bad-input-accounting", "after the final verdict");
      }
    }
    return res;
  } catch (const std::bad_alloc&) {
    res.verdict = V_OOM;
    w.ev("verdict", res.verdict, res.out.size(), res.consumed);
    return res;
  }
}

const Workload& GetWorkload(World& w, const GenOpts& opts) {
  // Drawing is cheap compared with encoding; the cache is keyed by content.
  static std::map<uint64_t, Workload> cache;
  JpegInfo info;
  Bytes jpeg = GenJpeg(w, opts, &info);
  // Streams of the first generation have another context model.
  bool legacy = w.flip(WORK, 1, 6);
  uint64_t key = Mix2(HashBytes(jpeg), legacy);
  auto it = cache.find(key);
  if (it == cache.end() || it->second.jpeg != jpeg) {
    if (cache.size() > 8) cache.clear();
    Workload wl;
    wl.jpeg = jpeg;
    wl.info = info;
    wl.legacy = legacy;
    wl.enc = Encode(jpeg, &wl.brn, legacy);
    it = cache.emplace(key, std::move(wl)).first;
  }
  if (const char* dump = getenv("SIM_DUMP")) {  // debugging aid
    FILE* f = fopen(dump, "wb");
    if (f) {
      fwrite(jpeg.data(), 1, jpeg.size(), f);
      fclose(f);
    }
    f = fopen((std::string(dump) + ".features").c_str(), "w");
    for (int i = 0; f && i < kNumFeatures; ++i)
      if (info.features >> i & 1) fprintf(f, "%s ", kFeatureNames[i]);
    if (f) fclose(f);
  }
  w.ev("workload", key, it->second.jpeg.size(), it->second.enc);
  return it->second;
}

void CountWorkload(World& w, const Workload& wl) {
  for (int f = 0; f < kNumFeatures; ++f)
    if (wl.info.features >> f & 1) w.probe(kFeatureNames[f]);
  if (wl.legacy) w.probe("legacy_model");
  if (wl.enc == 1) w.probe("jpeg_not_parsed");
  if (wl.enc == 2) w.probe("jpeg_not_encoded");
}

}  // namespace sim
