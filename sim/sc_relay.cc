// A chain of relays: each takes the image in the form the one before stored it
// in, and stores it in another one. Parsed images go from decoder to encoder
// without a file in between, stay in memory from one hop to the next, relays
// run out of memory, die while they write and start again from what is stored.
#include <brunsli/brunsli_decode.h>
#include <brunsli/brunsli_encode.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>

#include <map>
#include <memory>
#include <new>

#ifdef BRUNSLI_EXPERIMENTAL_GROUPS
#include "groups_util.h"
#else
#include "codec.h"
#endif

namespace sim {
namespace {
using brunsli::JPEGData;

enum Form { JPEG = 0, BRUNSLI = 1, LEGACY = 2, BYPASS = 3, GROUPS = 4 };
const char* const kForm[] = {"jpeg", "brunsli", "legacy", "bypass", "groups"};

size_t Append(void* data, const uint8_t* buf, size_t n) {
  HostScope host;
  Bytes* out = static_cast<Bytes*>(data);
  out->insert(out->end(), buf, buf + n);
  return n;
}

struct Stored {
  Form form = JPEG;
  size_t ac = 0, dc = 0;   // group dimensions
  Bytes bytes;
};

struct Chain {
  World& w;
  Bytes file;                 // what went in
  Stored cur;                 // durable
  std::map<int, Bytes> first; // form -> the bytes it always has
  // A relay's memory.
  std::unique_ptr<uint8_t[]> in;
  std::unique_ptr<JPEGData> image;
  Bytes made;

  explicit Chain(World& w) : w(w) {}
  void Forget() {
    image.reset();
    in.reset();
  }
#ifdef BRUNSLI_EXPERIMENTAL_GROUPS
  uint64_t seed = 0;
  int next = 0;
#endif

  // The stored form, parsed. Returns false if it is refused.
  bool Load() {
    Forget();
    const Bytes& b = cur.bytes;
    in.reset(new uint8_t[b.size()]);
    memcpy(in.get(), b.data(), b.size());
    SutScope sut;
    image.reset(new JPEGData);
    switch (cur.form) {
      case JPEG: return brunsli::ReadJpeg(in.get(), b.size(), brunsli::JPEG_READ_ALL, image.get());
#ifdef BRUNSLI_EXPERIMENTAL_GROUPS
      case GROUPS: {
        brunsli::Executor ex = AnyOrder(seed, &next);
        return brunsli::DecodeGroups(in.get(), b.size(), image.get(), cur.ac, cur.dc, &ex);
      }
#endif
      default: return brunsli::BrunsliDecodeJpeg(in.get(), b.size(), image.get()) == brunsli::BRUNSLI_OK;
    }
  }

  // The image in memory, in the form asked for.
  bool Make(Form form, size_t ac, size_t dc) {
    made.clear();
    SutScope sut;
    if (form == JPEG) return brunsli::WriteJpeg(*image, brunsli::JPEGOutput(Append, &made));
    size_t n = form == BYPASS ? brunsli::GetBrunsliBypassSize(file.size()) : brunsli::GetMaximumBrunsliEncodedSize(*image);
#ifdef BRUNSLI_EXPERIMENTAL_GROUPS
    if (form == GROUPS) n = 4 * n + (1 << 20);
#endif
    std::unique_ptr<uint8_t[]> buf(new uint8_t[n]);
    bool ok = false;
    switch (form) {
      case BYPASS: {
        Bytes f;
        ok = brunsli::WriteJpeg(*image, brunsli::JPEGOutput(Append, &f)) &&
             brunsli::BrunsliEncodeJpegBypass(f.data(), f.size(), buf.get(), &n);
        HostScope host;
        Bytes().swap(f);
        break;
      }
#ifdef BRUNSLI_EXPERIMENTAL_GROUPS
      case GROUPS: {
        brunsli::Executor ex = AnyOrder(seed, &next);
        image->version = 2;
        ok = brunsli::EncodeGroups(*image, buf.get(), &n, ac, dc, &ex);
        break;
      }
#endif
      default:
        image->version = form == LEGACY ? 0 : 2;
        ok = brunsli::BrunsliEncodeJpeg(*image, buf.get(), &n);
    }
    if (ok) {
      HostScope host;
      made.assign(buf.get(), buf.get() + n);
    }
    return ok;
  }
};

void Relay(World& w) {
  Chain c(w);
  const bool dense = w.flip(CFG, 1, 5);
#ifdef BRUNSLI_EXPERIMENTAL_GROUPS
  JpegInfo info;
  GenOpts o = GroupOpts();
  o.dense = dense;
  c.file = GenJpeg(w, o, &info);
  w.ev_bytes("workload", c.file.data(), c.file.size());
  c.seed = w.bits64(CFG);
  switch (Encode(c.file, &c.first[BRUNSLI])) {
    case 0: break;
    case 3: throw Discard{"out of memory limit"};
    default:
      if (info.features & kMayBeRefused) throw Discard{"jpeg not encodable"};
      w.fail("valid-jpeg-refused", "");
  }
  const int kForms = 5;
#else
  GenOpts o;
  o.dense = dense;
  const Workload& wl = GetWorkload(w, o);
  if (wl.enc) throw Discard{"jpeg not encodable"};
  c.file = wl.jpeg;
  c.first[wl.legacy ? LEGACY : BRUNSLI] = wl.brn;
  const int kForms = 4;
#endif
  c.first[JPEG] = c.file;
  c.cur.bytes = c.file;
  SutGuard g(w);
  int hops = 2 + w.pick(CFG, c.file.size() > 100000 ? 4 : 10);
  bool faulty = w.flip(CFG, 1, 3);
  for (int hop = 0; hop < hops; ++hop) {
    Form to = Form(w.pick(IN, kForms));
    // A bypass stream has no parsed image: it is written out first.
    if (c.cur.form == BYPASS) to = JPEG;
    size_t ac = 0, dc = 0;
    bool stream = c.cur.form != JPEG && c.cur.form != GROUPS && w.flip(IN, 1, 4);
    bool keep = c.image && w.flip(IN, 1, 2);   // the relay still has it in memory
    uint64_t fail_at = 0;
    if (faulty && w.flip(ALLOC, 1, 3)) fail_at = 1 + w.pick(ALLOC, 1ull << w.pick(ALLOC, 11));
    int torn = faulty && !keep ? w.flip(MUT, 1, 4) : 0;
    const std::string what = Fmt("hop %d, %s to %s: ", hop, kForm[c.cur.form], kForm[to]);
    w.ev("hop", c.cur.form * 8 + to, stream, keep);
    if (torn && c.cur.bytes.size() > 1 && c.cur.form != JPEG) {
      // The relay before died while it wrote; its work is done again.
      Bytes whole = c.cur.bytes;
      c.cur.bytes.resize(w.pick(MUT, whole.size()));
      w.fault("torn_write");
      bool ok = false;
      try {
        ok = c.Load();
      } catch (const std::bad_alloc&) {
        throw Discard{"out of memory limit"};
      }
      if (ok) w.fail("torn-stream-accepted", what + Fmt("%zu of %zu bytes", c.cur.bytes.size(), whole.size()));
      c.Forget();
      c.cur.bytes = whole;
    }
    if (stream) {
      // To a file first, as a consumer that decodes while it receives.
      ChannelCfg cfg = DrawChannel(w, c.cur.bytes.size(), c.file.size());
      StreamResult r = DecodeStream(w, c.cur.bytes, cfg, c.file.size());
      if (r.verdict == V_OOM) throw Discard{"out of memory limit"};
      if (r.verdict != V_DONE) w.fail("relay-refused", what + VerdictName(r.verdict));
      if (r.out != c.file) w.fail("wrong-bytes", what + Diff(r.out, c.file));
      c.cur.form = JPEG;
      c.cur.bytes = r.out;
      keep = false;
    }
    for (int attempt = 0;; ++attempt) {
      if (fail_at && !attempt) {
        alloc::FailAt(alloc::Get().allocs + fail_at, 1);
      }
      uint64_t failed = alloc::Get().failed;
      bool ok;
      try {
        ok = (keep && c.image) || c.Load();
        if (!ok && alloc::Get().failed == failed) w.fail("relay-refused", what + "not loaded");
#ifdef BRUNSLI_EXPERIMENTAL_GROUPS
        if (ok && to == GROUPS && !ac) {
          HostScope host;
          Dims d = DrawDims(w, *c.image);
          if (d.odd) throw Discard{"not encodable in groups mode"};
          ac = d.ac;
          dc = d.dc;
        }
#endif
        if (ok) ok = c.Make(to, ac, dc);
        if (!ok && alloc::Get().failed == failed) {
#ifdef BRUNSLI_EXPERIMENTAL_GROUPS
          HostScope host;
          if (to == GROUPS && (info.features & kMayBeRefused)) throw Discard{"not encodable in groups mode"};
#endif
          w.fail("relay-refused", what + "not stored");
        }
      } catch (const std::bad_alloc&) {
        ok = false;
        if (alloc::Get().failed == failed) throw Discard{"out of memory limit"};
      }
      alloc::FailAt(0, 0);
      if (alloc::Get().failed != failed) {
        if (attempt) throw Discard{"out of memory limit"};
        w.fault("alloc_failure");
      }
      if (ok) break;
      // Died, or gave up: a new one starts from what is stored.
      c.Forget();
      keep = false;
    }
    w.tick();
    w.ev_bytes(kForm[to], c.made.data(), c.made.size());
    if (to == JPEG) {
      if (c.made != c.file) w.fail("wrong-bytes", what + Diff(c.made, c.file));
    } else {
      int key = to == GROUPS ? int(GROUPS + 64 * ac + 65536 * dc) : to;
      auto it = c.first.find(key);
      if (it == c.first.end()) c.first[key] = c.made;
      else if (it->second != c.made) w.fail("stream-changed", what + Diff(c.made, it->second));
    }
    if (dense) w.probe("dense_hop");
    if (keep) w.probe("image_kept_in_memory");
    w.probe(Fmt("%s_to_%s", kForm[c.cur.form], kForm[to]).c_str());
    bool bypass = c.cur.form == BYPASS;
    c.cur.form = to;
    c.cur.ac = ac;
    c.cur.dc = dc;
    c.cur.bytes = c.made;
    if (bypass || w.flip(IN, 1, 3)) c.Forget();
  }
  c.Forget();
  uint64_t live = alloc::Get().live_blocks;
  if (live) w.fail("leak", Fmt("%llu blocks", (unsigned long long)live));
}
#ifdef BRUNSLI_EXPERIMENTAL_GROUPS
Register r("relay_groups", 8, 128, Relay);
#else
Register r("relay", 8, 128, Relay);
#endif

}  // namespace
}  // namespace sim
