// Somebody looks at a JPEG that is still arriving: its header, then its tables.
#include <brunsli/jpeg_data_reader.h>

#include <algorithm>
#include <memory>
#include <new>

#include "codec.h"
#include "restructure.h"

namespace sim {
namespace {
using brunsli::JPEGData;
using brunsli::JpegReadMode;

struct View {
  bool ok = false;
  int width = 0, height = 0;
  std::vector<int> facts;   // per component: id and sampling
  std::vector<int> tables;  // quantisation and Huffman tables, restart interval
};

View Look(const Bytes& file, size_t n, JpegReadMode mode) {
  std::unique_ptr<uint8_t[]> in(new uint8_t[n]);
  memcpy(in.get(), file.data(), n);
  View v;
  SutScope sut;
  JPEGData jd;
  v.ok = brunsli::ReadJpeg(in.get(), n, mode, &jd);
  HostScope host;
  if (!v.ok) return v;
  v.width = jd.width;
  v.height = jd.height;
  for (const auto& c : jd.components) {
    v.facts.push_back(c.id);
    v.facts.push_back(c.h_samp_factor);
    v.facts.push_back(c.v_samp_factor);
    v.facts.push_back(c.width_in_blocks);
    v.facts.push_back(c.height_in_blocks);
  }
  if (mode == brunsli::JPEG_READ_HEADER) return v;
  v.tables.push_back(jd.restart_interval);
  for (const auto& q : jd.quant) {
    v.tables.push_back(-1);
    v.tables.push_back(q.index);
    v.tables.push_back(q.precision);
    v.tables.push_back(q.is_last);
    for (int x : q.values) v.tables.push_back(x);
  }
  for (const auto& h : jd.huffman_code) {
    v.tables.push_back(-2);
    v.tables.push_back(h.slot_id);
    v.tables.push_back(h.is_last);
    for (int x : h.counts) v.tables.push_back(x);
    for (int x : h.values) v.tables.push_back(x);
  }
  return v;
}

// How much of the file is needed for the frame header; 0 if the way there is
// not an unbroken chain of ordinary segments.
size_t FrameHeaderEnd(const Bytes& f) {
  if (f.size() < 2 || f[0] != 0xFF || f[1] != 0xD8) return 0;
  size_t pos = 2;
  while (pos + 4 <= f.size() && f[pos] == 0xFF) {
    int m = f[pos + 1];
    size_t n = f[pos + 2] * 256 + f[pos + 3];
    if (m >= 0xC0 && m <= 0xC2) return pos + 2 + n <= f.size() ? pos + 2 + n : 0;
    if (n < 2 || !((m >= 0xE0 && m <= 0xEF) || m == 0xFE || m == 0xDB || m == 0xC4 || m == 0xDD)) return 0;
    pos += 2 + n;
  }
  return 0;
}

bool SameFacts(const View& a, const View& b) { return a.width == b.width && a.height == b.height && a.facts == b.facts; }

void Peek(World& w) {
  const Workload& wl = GetWorkload(w, GenOpts());
  Bytes file = wl.jpeg;
  bool damaged = w.flip(MUT, 1, 3);
  if (damaged) {
    DamageJpeg(w, &file, 3);
    w.ev_bytes("stored", file.data(), file.size());
    if (file.empty()) throw Discard{"nothing left"};
  }
  SutGuard g(w);
  try {
    const View all = Look(file, file.size(), brunsli::JPEG_READ_ALL);
    w.ev("all", all.ok, all.width, all.height);
    if (!damaged && wl.enc == 0 && !all.ok) w.fail("valid-jpeg-refused", "");
    const size_t enough = all.ok ? FrameHeaderEnd(file) : 0;
    View first;
    size_t have = 0;
    int looks = 2 + w.pick(CFG, 14);
    int pace = w.pick(CFG, 3);
    for (int i = 0; i < looks; ++i) {
      size_t left = file.size() - have;
      size_t more = i + 1 == looks ? left : w.decide(IN, [&](Rng& r) -> uint64_t {
        return pace == 0 ? r.below(left + 1) : pace == 1 ? r.below(60) : 1 + (r.next() & ((1ull << r.below(12)) - 1));
      });
      if (more == 0 && left == 0 && i + 1 != looks) continue;
      have += std::min(more, left);
      if (enough > have && w.flip(IN, 1, 3)) have = enough - w.pick(IN, 2);
      View h = Look(file, have, brunsli::JPEG_READ_HEADER);
      w.tick();
      w.ev("header", have, h.ok, h.width * 65536 + h.height);
      if (!h.ok && enough && have >= enough) w.fail("header-late", Fmt("%zu bytes are enough, not read with %zu", enough, have));
      if (!h.ok && first.ok) w.fail("header-lost", Fmt("read before, not any more with %zu bytes", have));
      if (h.ok && first.ok && !SameFacts(h, first)) w.fail("header-changed", Fmt("with %zu of %zu bytes", have, file.size()));
      if (h.ok && !first.ok) {
        first = h;
        w.probe(have < file.size() ? "header_before_the_end" : "header_at_the_end");
      }
      if (w.flip(CFG, 1, 3) || have == file.size()) {
        View t = Look(file, have, brunsli::JPEG_READ_TABLES);
        w.ev("tables", have, t.ok, t.tables.size());
        // The end of the image is behind all tables.
        if (t.ok && all.ok && !SameFacts(t, all)) w.fail("header-differs", Fmt("with tables, %zu bytes", have));
        if (t.ok && all.ok && t.tables != all.tables) w.fail("tables-differ", Fmt("%zu of %zu bytes", have, file.size()));
        if (have == file.size() && all.ok && !t.ok) w.fail("tables-not-read", "");
        if (t.ok) w.probe("tables");
      }
    }
    if (all.ok && !first.ok) w.fail("header-not-read", "");
    if (all.ok && !SameFacts(all, first)) w.fail("header-differs", "");
    if (!damaged && wl.enc == 0 && (first.width != wl.info.width || first.height != wl.info.height))
      w.fail("wrong-dimensions", Fmt("%dx%d, want %dx%d", first.width, first.height, wl.info.width, wl.info.height));
    w.probe(all.ok ? "complete_file_accepted" : "complete_file_refused");
  } catch (const std::bad_alloc&) {
    throw Discard{"out of memory limit"};
  }
  if (uint64_t live = alloc::Get().live_blocks) w.fail("leak", Fmt("%llu blocks", (unsigned long long)live));
}
Register r("peek", 8, 128, Peek);

}  // namespace
}  // namespace sim
