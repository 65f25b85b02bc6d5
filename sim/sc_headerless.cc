// The coefficient stream without its signature and header: a container format
// that carries those facts itself drives parser and serializer on its own.
#include "codec.h"
#include "restructure.h"

#include <brunsli/brunsli_decode.h>
#include <brunsli/jpeg_data.h>
#include <brunsli/jpeg_data_reader.h>
#include "c/common/constants.h"
#include "c/dec/state.h"

#include <algorithm>
#include <memory>
#include <new>

namespace sim {
namespace {
using brunsli::JPEGData;
using brunsli::internal::dec::SerializationStatus;
using brunsli::internal::dec::Stage;
using brunsli::internal::dec::State;

// Length of signature and header section at the start of a stream.
size_t PrefixLength(const Bytes& brn) {
  size_t pos = 6;
  if (brn.size() < 8 || brn[pos] != 0x12) return 0;
  ++pos;
  size_t n = 0, shift = 0;
  do {
    n |= size_t(brn[pos] & 127) << shift;
    shift += 7;
  } while (brn[pos++] & 128);
  return pos + n <= brn.size() ? pos + n : 0;
}

// Feeds the body to the parser and pumps the serializer, at their own pace.
int Drive(World& w, const JPEGData& facts, const Bytes& body, size_t cut, size_t expect, Bytes* out, size_t* consumed) {
  typedef brunsli::BrunsliStatus BS;
  std::unique_ptr<JPEGData> jd;
  std::unique_ptr<State> st;
  const int version = facts.version;
  const uint32_t met = (1u << brunsli::kBrunsliSignatureTag) | (1u << brunsli::kBrunsliHeaderTag) |
                       (1u << brunsli::kBrunsliOriginalJpgTag);
  try {
    SutScope sut;
    jd.reset(new JPEGData);
    jd->version = version;
    jd->width = facts.width;
    jd->height = facts.height;
    jd->components.resize(facts.components.size());
    for (size_t i = 0; i < facts.components.size(); ++i) {
      jd->components[i].h_samp_factor = facts.components[i].h_samp_factor;
      jd->components[i].v_samp_factor = facts.components[i].v_samp_factor;
    }
    // "Use in headerless mode, ..."
    bool ok = brunsli::internal::dec::UpdateSubsamplingDerivatives(jd.get());
    if (!ok) {
      HostScope host;
      w.fail("header-facts-refused", "");
    }
    st.reset(new State);
    st->use_legacy_context_model = !(version & 2);
    st->stage = Stage::SECTION;
    st->tags_met = met;
    st->is_input_transient = true;
    brunsli::internal::dec::PrepareMeta(jd.get(), st.get());
  } catch (const std::bad_alloc&) {
    return V_OOM;
  }
  ChannelCfg c = DrawChannel(w, body.size(), expect);
  int pace = w.pick(CFG, 4);       // 0: strictly in turn, as the streaming decoder does
  bool moves = w.flip(CFG, 1, 3);  // the state object is moved around
  size_t total = std::min(cut, body.size()), given = 0;
  bool parsed = false, written = false, pumped_dry = false;
  uint64_t calls = 0;
  try {
    while (true) {
      if (moves && w.flip(IN, 1, 8)) {
        SutScope sut;
        st.reset(new State(std::move(*st)));
      }
      bool can_feed = !parsed && given < total;
      if (!can_feed && pumped_dry) break;
      bool feed = can_feed && (pace == 0 ? true : pace == 1 ? w.flip(IN, 1, 2) : pace == 2 ? !w.flip(IN, 1, 6) : pumped_dry || w.flip(IN, 1, 6));
      bool pump = !feed || pace == 0;
      if (feed) {
        size_t left = total - given;
        size_t n = w.decide(IN, [&](Rng& r) -> uint64_t {
          switch (c.in_mode) {
            case 0: return 0;
            case 1: return 1;
            case 2: return 1 + r.below(16);
            case 3: return 1 + r.below(1 + (left >> 1));
            case 5: return 590 + r.below(20);
            case 6: return 1 + (r.next() & ((1ull << r.below(14)) - 1));
            default: return 1 + r.below(700);
          }
        });
        if (n == 0 || n > left) n = left;
        std::unique_ptr<uint8_t[]> piece(new uint8_t[n]);
        memcpy(piece.get(), body.data() + given, n);
        st->data = piece.get();
        st->pos = 0;
        st->len = n;
        BS s;
        {
          SutScope sut;
          s = brunsli::internal::dec::ProcessJpeg(st.get(), jd.get());
        }
        w.tick();
        w.ev("parse", n, s, st->pos);
        if (st->data != piece.get() || st->pos > n || st->len != n) w.fail("bad-input-accounting", Fmt("%zu of %zu", st->pos, n));
        *consumed += st->pos;
        given += n;
        if (s == BS::BRUNSLI_OK) parsed = true;
        else if (s != BS::BRUNSLI_NOT_ENOUGH_DATA) return V_ERROR;
        else if (st->pos != n) w.fail("input-left", Fmt("asks for more, %zu of %zu taken", st->pos, n));
        st->data = nullptr;
        st->pos = st->len = 0;
        pumped_dry = false;
      }
      if (pump) {
        size_t room = w.decide(OUT, [&](Rng& r) -> uint64_t {
          switch (c.out_mode) {
            case 0: return 0;
            case 1: return 1;
            case 2: return 1 + r.below(40);
            case 3: return 1 + r.below(2000);
            case 4: return 16000 + r.below(800);
            default: return 1 + (r.next() & ((1ull << r.below(15)) - 1));
          }
        });
        if (room == 0 || room > expect + 100) room = expect + 100;
        std::unique_ptr<uint8_t[]> buf(new uint8_t[room + 16]);
        memset(buf.get() + room, 0x5C, 16);
        size_t ao = room;
        uint8_t* no = buf.get();
        SerializationStatus s;
        {
          SutScope sut;
          s = brunsli::internal::dec::SerializeJpeg(st.get(), *jd, &ao, &no);
        }
        w.tick();
        size_t made = room - ao;
        w.ev("serialize", room, (int)s, made);
        if (ao > room || no != buf.get() + made) w.fail("bad-output-accounting", "");
        for (int i = 0; i < 16; ++i)
          if (buf[room + i] != 0x5C) w.fail("output-overrun", Fmt("byte %d behind %zu", i, room));
        out->insert(out->end(), buf.get(), buf.get() + made);
        if (written && (made || s != SerializationStatus::DONE)) w.fail("completion-taken-back", Fmt("status %d, %zu bytes", (int)s, made));
        if (out->size() > expect + (8u << 20)) throw Discard{"damage made the output huge"};
        switch (s) {
          case SerializationStatus::ERROR: return V_ERROR;
          case SerializationStatus::DONE: written = true; pumped_dry = true; break;
          case SerializationStatus::NEEDS_MORE_INPUT: pumped_dry = true; break;
          case SerializationStatus::NEEDS_MORE_OUTPUT:
            if (made != room) w.fail("needs-output-with-room", Fmt("%zu of %zu", made, room));
            pumped_dry = false;
            break;
          default: w.fail("bad-status", Fmt("%d", (int)s));
        }
        if (!feed && parsed && pumped_dry) break;
      }
      if (++calls > 4000000) w.fail("no-progress", "");
    }
  } catch (const std::bad_alloc&) {
    return V_OOM;
  }
  return parsed && written ? V_DONE : V_STARVED;
}

void Headerless(World& w) {
  const Workload& wl = GetWorkload(w, GenOpts());
  if (wl.enc) throw Discard{"jpeg not encodable"};
  size_t skip = PrefixLength(wl.brn);
  if (!skip) w.fail("no-header", "");
  JPEGData facts;
  {
    SutScope sut;
    if (!brunsli::ReadJpeg(wl.jpeg.data(), wl.jpeg.size(), brunsli::JPEG_READ_HEADER, &facts)) facts.components.clear();
  }
  if (facts.components.empty()) w.fail("header-not-read", "");
  facts.version = wl.legacy ? 0 : 2;
  Bytes full = wl.brn;
  bool damaged = w.flip(MUT, 1, 3);
  if (damaged) {
    DamageStream(w, &full, 3);
    // The container's own facts are intact.
    if (full.size() < skip || !std::equal(full.begin(), full.begin() + skip, wl.brn.begin())) {
      full.assign(wl.brn.begin() + skip, wl.brn.end());
      Damage(w, &full, 3);
      full.insert(full.begin(), wl.brn.begin(), wl.brn.begin() + skip);
    }
    w.ev_bytes("stored", full.data(), full.size());
  }
  Bytes body(full.begin() + skip, full.end());
  size_t cut = body.size();
  if (!damaged && w.flip(CFG, 1, 4)) {
    cut = w.pick(MUT, body.size());
    w.fault("producer_crash");
  }
  SutGuard g(w);
  Bytes got;
  size_t consumed = 0;
  int v = Drive(w, facts, body, cut, wl.jpeg.size(), &got, &consumed);
  w.ev("verdict", v, got.size(), consumed);
  if (v == V_OOM) throw Discard{"out of memory limit"};
  if (!damaged) {
    if (cut == body.size()) {
      if (v != V_DONE) w.fail("body-not-decoded", VerdictName(v));
      if (got != wl.jpeg) w.fail("wrong-bytes", Diff(got, wl.jpeg));
    } else {
      if (v != V_STARVED) w.fail("truncated-not-starved", VerdictName(v));
      if (got.size() > wl.jpeg.size() || !std::equal(got.begin(), got.end(), wl.jpeg.begin()))
        w.fail("not-a-prefix", Diff(got, wl.jpeg));
    }
    return;
  }
  // The same damage with the header in place.
  if (v == V_DONE) full.resize(skip + consumed);
  Bytes want;
  int v1 = DecodeOneShot(full, &want);
  if (v1 == V_OOM) throw Discard{"out of memory limit"};
  w.ev("whole", v1, want.size());
  w.probe(v1 == V_DONE ? "damage_accepted" : "damage_rejected");
  if ((v == V_DONE) != (v1 == V_DONE)) w.fail("verdicts-differ", Fmt("whole stream: %s, body: %s", VerdictName(v1), VerdictName(v)));
  if (v == V_DONE && got != want) w.fail("bytes-differ", Diff(got, want));
}
Register r("headerless", 8, 128, Headerless);

}  // namespace
}  // namespace sim
