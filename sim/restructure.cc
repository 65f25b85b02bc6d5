// Edits that respect the structure of a file: whole sections, items, segments,
// and the compressed metadata. Damage() seldom gets past the framing.
#include "restructure.h"

#include <brotli/decode.h>
#include <brotli/encode.h>

#include <algorithm>

#include "jpeggen.h"
#include "seam_alloc.h"

namespace sim {
namespace {

struct Item {
  uint8_t tag = 0;      // complete tag byte
  bool section = false;
  uint64_t value = 0;   // if not a section
  Bytes body;
  int pad = 0;          // length field has that many bytes more than needed
};

bool GetVarint(const Bytes& b, size_t* pos, uint64_t* v, int* pad) {
  *v = 0;
  size_t start = *pos;
  for (int shift = 0; shift < 63; shift += 7) {
    if (*pos >= b.size()) return false;
    uint8_t x = b[(*pos)++];
    *v |= uint64_t(x & 127) << shift;
    if (!(x & 128)) {
      int need = 1;
      for (uint64_t t = *v >> 7; t; t >>= 7) ++need;
      *pad = int(*pos - start) - need;
      return true;
    }
  }
  return false;
}
void PutVarint(Bytes* b, uint64_t v, int pad) {
  while (v >= 128) {
    b->push_back(128 | (v & 127));
    v >>= 7;
  }
  if (pad == 0) {
    b->push_back(v);
    return;
  }
  b->push_back(128 | v);
  while (--pad) b->push_back(128);
  b->push_back(0);
}

// Splits what follows the signature. What can not be parsed ends up in `rest`.
std::vector<Item> Split(const Bytes& b, size_t pos, Bytes* rest) {
  std::vector<Item> items;
  while (pos < b.size()) {
    size_t start = pos;
    Item it;
    it.tag = b[pos++];
    it.section = (it.tag & 7) == 2;
    if (!GetVarint(b, &pos, &it.value, &it.pad) || (it.section && it.value > b.size() - pos)) {
      rest->assign(b.begin() + start, b.end());
      return items;
    }
    if (it.section) {
      it.body.assign(b.begin() + pos, b.begin() + pos + it.value);
      pos += it.value;
    }
    items.push_back(it);
  }
  rest->clear();
  return items;
}
void Join(const std::vector<Item>& items, const Bytes& rest, Bytes* out) {
  for (const Item& it : items) {
    out->push_back(it.tag);
    PutVarint(out, it.section ? it.body.size() : it.value, it.pad);
    if (it.section) out->insert(out->end(), it.body.begin(), it.body.end());
  }
  out->insert(out->end(), rest.begin(), rest.end());
}

Item UnknownItem(World& w, uint8_t tag) {
  Item it;
  it.section = w.flip(MUT, 2, 3);
  it.tag = (tag << 3) | (it.section ? 2 : 0);
  if (it.section) {
    size_t n = w.decide(MUT, [](Rng& r) -> uint64_t {
      return r.chance(1, 8) ? r.below(3000) : r.chance(1, 4) ? 120 + r.below(16) : r.below(24);
    });
    Rng r(w.bits64(MUT));
    it.body.resize(std::min<size_t>(n, 4000));
    for (auto& x : it.body) x = r.chance(1, 4) ? 0 : r.chance(1, 2) ? (1 + r.below(15)) << 3 | (r.below(2) * 2) : r.next();
  } else {
    it.value = w.decide(MUT, [](Rng& r) -> uint64_t { return r.next() >> (8 + r.below(56)); }) & ((uint64_t(1) << 56) - 1);
  }
  it.pad = 0;
  return it;
}

// Inserts items with unknown tags; `low` is the lowest of those.
void InsertUnknown(World& w, std::vector<Item>* items, int low, size_t first, size_t last, int count) {
  uint32_t used = 0;
  for (const Item& it : *items) used |= 1u << (it.tag >> 3);
  for (int i = 0; i < count; ++i) {
    int tag = low + w.pick(MUT, 16 - low);
    while (tag < 16 && (used >> tag & 1)) ++tag;
    if (tag >= 16) continue;
    used |= 1u << tag;
    size_t at = first + w.pick(MUT, last - first + 1);
    items->insert(items->begin() + std::min(at, last), UnknownItem(w, tag));
    ++last;
    w.fault("unknown_item_added");
  }
}

// Metadata sections hold their uncompressed size and a Brotli stream.
bool Unpack(const Bytes& body, Bytes* raw) {
  HostScope host;
  if (body.size() < 2) {
    *raw = body;
    return true;
  }
  size_t pos = 0;
  uint64_t n;
  int pad;
  if (!GetVarint(body, &pos, &n, &pad) || n > (4u << 20)) return false;
  raw->resize(n);
  size_t len = n;
  return BrotliDecoderDecompress(body.size() - pos, body.data() + pos, &len, raw->data()) == BROTLI_DECODER_RESULT_SUCCESS &&
         len == n;
}
bool Pack(const Bytes& raw, Bytes* body) {
  HostScope host;
  body->clear();
  if (raw.size() == 1) {
    *body = raw;
    return true;
  }
  Bytes tmp(BrotliEncoderMaxCompressedSize(raw.size()) + 64);
  size_t len = tmp.size();
  if (!BrotliEncoderCompress(2, 18, BROTLI_MODE_GENERIC, raw.size(), raw.data(), &len, tmp.data())) return false;
  PutVarint(body, raw.size(), 0);
  body->insert(body->end(), tmp.begin(), tmp.begin() + len);
  return true;
}

const size_t kSignature = 6;

}  // namespace

bool ExtendStream(World& w, Bytes* brn) {
  if (brn->size() <= kSignature) return false;
  Bytes rest, header_rest;
  std::vector<Item> items = Split(*brn, kSignature, &rest);
  // The last section is coefficient data: the stream ends with it.
  if (items.size() < 2 || !rest.empty() || items[0].tag != 0x12) return false;
  bool bypass = items[1].tag == (9 << 3 | 2);
  int what = 1 + w.pick(MUT, 3);
  if (bypass) what = 1;
  if (what & 1) {
    std::vector<Item> h = Split(items[0].body, 0, &header_rest);
    if (!header_rest.empty()) return false;
    InsertUnknown(w, &h, 5, 0, h.size(), 1 + w.pick(MUT, 3));
    items[0].body.clear();
    Join(h, Bytes(), &items[0].body);
  }
  if (what & 2) InsertUnknown(w, &items, 10, 1, items.size() - 1, 1 + w.pick(MUT, 4));
  Bytes out(brn->begin(), brn->begin() + kSignature);
  Join(items, rest, &out);
  *brn = out;
  return true;
}

void Restructure(World& w, Bytes* brn, int max_edits) {
  if (brn->size() <= kSignature) return;
  Bytes rest;
  std::vector<Item> items = Split(*brn, kSignature, &rest);
  int n = 1 + w.pick(MUT, max_edits);
  for (int i = 0; i < n && !items.empty(); ++i) {
    size_t at = w.pick(MUT, items.size());
    switch (w.pick(MUT, 14)) {
      case 0: InsertUnknown(w, &items, 10, 0, items.size(), 1); break;
      case 1: {
        Bytes hr;
        if (items[0].tag != 0x12) break;
        std::vector<Item> h = Split(items[0].body, 0, &hr);
        switch (w.pick(MUT, 5)) {
          case 0: InsertUnknown(w, &h, 5, 0, h.size(), 1 + w.pick(MUT, 2)); break;
          case 1: if (h.size()) { size_t k = w.pick(MUT, h.size()); h[k].value ^= uint64_t(1) << w.pick(MUT, 17); w.fault("header_value_changed"); } break;
          case 2: if (h.size()) { size_t k = w.pick(MUT, h.size()); h[k].value += w.flip(MUT, 1, 2) ? 1 : -1; h[k].value &= 0xFFFFFF; w.fault("header_value_changed"); } break;
          case 3: if (h.size() > 1) { std::swap(h[w.pick(MUT, h.size())], h[w.pick(MUT, h.size())]); w.fault("header_items_swapped"); } break;
          default: if (h.size()) { h[w.pick(MUT, h.size())].pad = w.pick(MUT, 6); w.fault("length_padded"); } break;
        }
        items[0].body.clear();
        Join(h, hr, &items[0].body);
        break;
      }
      case 2: items.erase(items.begin() + at); w.fault("section_lost"); break;
      case 3: items.insert(items.begin() + w.pick(MUT, items.size() + 1), Item(items[at])); w.fault("section_duplicated"); break;
      case 4: {
        size_t to = w.pick(MUT, items.size());
        Item it = items[at];
        items.erase(items.begin() + at);
        items.insert(items.begin() + std::min(to, items.size()), it);
        w.fault("section_moved");
        break;
      }
      case 5: items[at].pad = w.pick(MUT, 10); w.fault("length_padded"); break;
      case 6: items[at].tag ^= w.flip(MUT, 1, 2) ? 1u << w.pick(MUT, 8) : 2; w.fault("tag_changed"); break;
      case 7: {   // section grows or shrinks at its end, framing stays right
        Bytes& b = items[at].body;
        int d = w.pick(MUT, 4);
        if (w.flip(MUT, 1, 2)) b.resize(b.size() - std::min<size_t>(b.size(), 1 + d));
        else for (int k = 0; k <= d; ++k) b.push_back(w.pick(MUT, 256));
        w.fault("section_resized");
        break;
      }
      case 8: if (!items[at].body.empty()) { Damage(w, &items[at].body, 2); } break;
      case 9: {   // section is cut, what follows keeps its framing
        Bytes& b = items[at].body;
        if (!b.empty()) b.resize(w.pick(MUT, b.size()));
        w.fault("section_cut");
        break;
      }
      case 10: {  // one bit of a section that is not coefficients
        size_t n = 0;
        for (const Item& it : items) n += it.section && it.tag >> 3 < 7;
        if (n == 0) break;
        n = w.pick(MUT, n);
        for (Item& it : items) {
          if (!it.section || it.tag >> 3 >= 7 || n-- || it.body.empty()) continue;
          it.body[w.pick(MUT, it.body.size())] ^= 1 << w.pick(MUT, 8);
          w.fault("section_bit_flip");
        }
        break;
      }
      case 11: {  // the last fields of a section
        Bytes& b = items[at].body;
        if (b.empty()) break;
        size_t k = std::min<size_t>(b.size(), 1 + w.pick(MUT, 3));
        b[b.size() - k] ^= 1 << w.pick(MUT, 8);
        w.fault("section_end_changed");
        break;
      }
      default: {  // metadata, below the compression
        size_t k = 0;
        while (k < items.size() && items[k].tag != (3 << 3 | 2)) ++k;
        Bytes raw;
        if (k == items.size()) {
          if (items.size() < 2) break;
          Item it;
          it.tag = 3 << 3 | 2;
          it.section = true;
          Rng r(w.bits64(MUT));
          raw.resize(1 + w.pick(MUT, 60));
          for (auto& x : raw) x = r.chance(1, 3) ? 0xE0 + r.below(32) : r.chance(1, 2) ? r.below(24) : r.next();
          if (!Pack(raw, &it.body)) break;
          items.insert(items.begin() + 1 + w.pick(MUT, items.size() - 1), it);
          w.fault("metadata_invented");
          break;
        }
        if (!Unpack(items[k].body, &raw)) break;
        Damage(w, &raw, 3);
        if (raw.empty() || raw.size() > (1u << 20)) break;
        if (Pack(raw, &items[k].body)) w.fault("metadata_changed");
        break;
      }
    }
  }
  Bytes out(brn->begin(), brn->begin() + kSignature);
  Join(items, rest, &out);
  *brn = out;
}

void DamageStream(World& w, Bytes* brn, int max_edits) {
  switch (w.pick(MUT, 4)) {
    case 0: Damage(w, brn, max_edits); break;
    case 1: Restructure(w, brn, 1); break;
    case 2: Restructure(w, brn, max_edits); break;
    default: Restructure(w, brn, 2); Damage(w, brn, 2); break;
  }
}

// ---------------------------------------------------------------- JPEG side

namespace {
struct Segment {
  uint8_t marker = 0;
  Bytes body;     // without marker and length
  bool length = false;
  Bytes data;     // what follows: entropy coded data, fill bytes, ...
};
std::vector<Segment> SplitJpeg(const Bytes& j) {
  std::vector<Segment> r;
  size_t pos = 0;
  while (pos + 1 < j.size()) {
    Segment s;
    s.marker = j[pos + 1];
    pos += 2;
    s.length = !(s.marker == 0xD8 || s.marker == 0xD9 || (s.marker >= 0xD0 && s.marker <= 0xD7) || s.marker == 0x01);
    if (s.length && pos + 2 <= j.size()) {
      size_t n = j[pos] * 256 + j[pos + 1];
      n = std::max<size_t>(n, 2);
      size_t end = std::min(j.size(), pos + n);
      s.body.assign(j.begin() + pos + 2, j.begin() + end);
      pos = end;
    }
    size_t start = pos;
    while (pos + 1 < j.size() && !(j[pos] == 0xFF && j[pos + 1] != 0 && j[pos + 1] != 0xFF)) ++pos;
    if (pos + 1 >= j.size()) pos = j.size();
    s.data.assign(j.begin() + start, j.begin() + pos);
    r.push_back(s);
  }
  return r;
}
void JoinJpeg(const std::vector<Segment>& segs, Bytes* out) {
  for (const Segment& s : segs) {
    out->push_back(0xFF);
    out->push_back(s.marker);
    if (s.length) {
      size_t n = s.body.size() + 2;
      out->push_back(n >> 8);
      out->push_back(n);
      out->insert(out->end(), s.body.begin(), s.body.end());
    }
    out->insert(out->end(), s.data.begin(), s.data.end());
  }
}
}  // namespace

void RestructureJpeg(World& w, Bytes* jpeg, int max_edits) {
  std::vector<Segment> segs = SplitJpeg(*jpeg);
  if (segs.size() < 3) return;
  int n = 1 + w.pick(MUT, max_edits);
  auto find = [&](uint8_t a, uint8_t b) -> Segment* {
    std::vector<size_t> c;
    for (size_t i = 0; i < segs.size(); ++i) if (segs[i].marker == a || segs[i].marker == b) c.push_back(i);
    return c.empty() ? nullptr : &segs[c[w.pick(MUT, c.size())]];
  };
  for (int i = 0; i < n && segs.size() > 2; ++i) {
    size_t at = 1 + w.pick(MUT, segs.size() - 1);
    switch (w.pick(MUT, 14)) {
      case 0: segs.erase(segs.begin() + at); w.fault("segment_lost"); break;
      case 1: {
        Segment c = segs[at];
        segs.insert(segs.begin() + 1 + w.pick(MUT, segs.size()), c);
        w.fault("segment_duplicated");
        break;
      }
      case 2: {
        Segment c = segs[at];
        segs.erase(segs.begin() + at);
        segs.insert(segs.begin() + 1 + w.pick(MUT, segs.size()), c);
        w.fault("segment_moved");
        break;
      }
      case 3: {   // scan parameters
        Segment* s = find(0xDA, 0xDA);
        if (!s || s->body.size() < 6) break;
        size_t k = s->body.size() - 1 - w.pick(MUT, 3);
        if (w.flip(MUT, 1, 2)) s->body[k] ^= 1u << w.pick(MUT, 8);
        else s->body[k] += w.flip(MUT, 1, 2) ? 1 : -1;
        w.fault("scan_parameter_changed");
        break;
      }
      case 4: {   // component list of a scan
        Segment* s = find(0xDA, 0xDA);
        if (!s || s->body.size() < 6) break;
        size_t k = w.pick(MUT, s->body.size() - 3);
        s->body[k] ^= 1u << w.pick(MUT, 8);
        w.fault("scan_component_changed");
        break;
      }
      case 5: {   // frame header
        Segment* s = find(0xC0, 0xC2);
        if (!s) s = find(0xC1, 0xC1);
        if (!s || s->body.empty()) break;
        size_t k = w.pick(MUT, s->body.size());
        if (w.flip(MUT, 1, 2)) s->body[k] ^= 1u << w.pick(MUT, 8);
        else s->body[k] += w.flip(MUT, 1, 2) ? 1 : -1;
        w.fault("frame_header_changed");
        break;
      }
      case 6: {   // Huffman code: move a code word to another length
        Segment* s = find(0xC4, 0xC4);
        if (!s || s->body.size() < 17) break;
        size_t a = 1 + w.pick(MUT, 16), b = 1 + w.pick(MUT, 16);
        if (s->body[a]) {
          --s->body[a];
          ++s->body[b];
        }
        w.fault("huffman_length_changed");
        break;
      }
      case 7: {   // Huffman code: swap symbols
        Segment* s = find(0xC4, 0xC4);
        if (!s || s->body.size() < 19) break;
        size_t a = 17 + w.pick(MUT, s->body.size() - 17), b = 17 + w.pick(MUT, s->body.size() - 17);
        if (w.flip(MUT, 1, 2)) std::swap(s->body[a], s->body[b]);
        else s->body[a] = w.pick(MUT, 256);
        w.fault("huffman_symbol_changed");
        break;
      }
      case 8: {   // table slots and precision
        Segment* s = find(0xC4, 0xDB);
        if (!s || s->body.empty()) break;
        s->body[0] ^= 1u << w.pick(MUT, 8);
        w.fault("table_slot_changed");
        break;
      }
      case 9: {   // restart interval
        Segment* s = find(0xDD, 0xDD);
        if (s && s->body.size() == 2 && w.flip(MUT, 2, 3)) {
          s->body[1] += w.flip(MUT, 1, 2) ? 1 : -1;
        } else {
          Segment d;
          d.marker = 0xDD;
          d.length = true;
          d.body = {uint8_t(w.rare(MUT, 1, 4, 3)), uint8_t(w.pick(MUT, 12))};
          segs.insert(segs.begin() + at, d);
        }
        w.fault("restart_interval_changed");
        break;
      }
      case 10: {  // restart marker
        std::vector<size_t> c;
        for (size_t k = 0; k < segs.size(); ++k) if (segs[k].marker >= 0xD0 && segs[k].marker <= 0xD7) c.push_back(k);
        if (c.empty()) {
          Segment d;
          d.marker = 0xD0 + w.pick(MUT, 8);
          segs.insert(segs.begin() + at, d);
        } else {
          segs[c[w.pick(MUT, c.size())]].marker = 0xD0 + w.pick(MUT, 8);
        }
        w.fault("restart_marker_changed");
        break;
      }
      case 11: {  // entropy coded data
        std::vector<size_t> c;
        for (size_t k = 0; k < segs.size(); ++k) if (!segs[k].data.empty()) c.push_back(k);
        if (c.empty()) break;
        Bytes& d = segs[c[w.pick(MUT, c.size())]].data;
        size_t k = w.pick(MUT, d.size());
        switch (w.pick(MUT, 4)) {
          case 0: d[k] ^= 1u << w.pick(MUT, 8); w.fault("scan_data_bit_flip"); break;
          case 1: d.resize(k); w.fault("scan_data_cut"); break;
          case 2: d.push_back(w.pick(MUT, 256)); w.fault("scan_data_appended"); break;
          default: d.back() ^= 1u << w.pick(MUT, 8); w.fault("padding_changed"); break;
        }
        break;
      }
      case 12: {  // another marker
        Segment d;
        d.marker = w.flip(MUT, 1, 2) ? 0xC0 + w.pick(MUT, 64) : w.pick(MUT, 256);
        d.length = w.flip(MUT, 3, 4);
        d.body.resize(w.pick(MUT, 20));
        for (auto& x : d.body) x = w.pick(MUT, 256);
        segs.insert(segs.begin() + at, d);
        w.fault("segment_added");
        break;
      }
      default: {  // segment body
        Segment& s = segs[at];
        if (s.body.empty()) { s.data.push_back(0xFF); break; }
        Damage(w, &s.body, 2);
        break;
      }
    }
  }
  Bytes out;
  JoinJpeg(segs, &out);
  *jpeg = out;
}

void DamageJpeg(World& w, Bytes* jpeg, int max_edits) {
  switch (w.pick(MUT, 4)) {
    case 0: Damage(w, jpeg, max_edits); break;
    case 1: RestructureJpeg(w, jpeg, 1); break;
    case 2: RestructureJpeg(w, jpeg, max_edits); break;
    default: RestructureJpeg(w, jpeg, 2); Damage(w, jpeg, 2); break;
  }
}

}  // namespace sim
