// The browser binding, driven the way its JavaScript client does: several
// instances at a time, whose calls interleave, fed block by block through the
// memory they share with the client.
#include <brunsli/brunsli_decode.h>

#include <algorithm>
#include <memory>

#include "codec.h"
#include "restructure.h"

extern "C" {
std::string* BrunsliToJpeg(const uint8_t* data, size_t length);
uintptr_t* BrunsliDecoderInit();
uintptr_t BrunsliDecoderProcess(uintptr_t* instance);
void BrunsliDecoderCleanup(uintptr_t* instance);
const char* GetJpegData(std::string* jpeg);
size_t GetJpegLength(std::string* jpeg);
void FreeJpeg(std::string* jpeg);
std::string* JpegToBrunsli(const uint8_t* data, size_t length);
const char* GetBrunsliData(std::string* brunsli);
size_t GetBrunsliLength(std::string* brunsli);
void FreeBrunsli(std::string* brunsli);
}

namespace sim {
namespace {

struct Client {
  Bytes in;                  // what it feeds
  Bytes whole;               // the stream as stored
  bool valid = false;        // `want` is what must come out
  Bytes want;
  uintptr_t* inst = nullptr;
  size_t fed = 0, cut = ~size_t(0);
  Bytes out;
  bool over = false;
  bool filled = false;       // a block is filled, and not processed yet
  size_t fill = 0;
  int mode = 0;
  size_t fixed = 1;
  bool feeding = true;       // false: drains output before it feeds on
  uint64_t die_at = 0, calls = 0;
  int late = 0;              // blocks it still has on the way at the verdict
  int verdict = 0;
  // The library, fed the same way.
  std::unique_ptr<brunsli::BrunsliDecoder> ref;
};

void Step(World& w, Client* c, size_t k) {
  if (!c->inst) {
    {
      SutScope sut;
      c->inst = BrunsliDecoderInit();
    }
    c->ref.reset(new brunsli::BrunsliDecoder());
    if (!c->inst) w.fail("no-instance", "BrunsliDecoderInit returned null");
    if (c->inst[1] == 0 || !c->inst[2] || c->inst[5] != 0) w.fail("bad-instance", "BrunsliDecoderInit: fields not set up");
    w.ev("init", k);
    return;
  }
  if (!c->filled) ++c->calls;
  if (!c->filled && c->calls == c->die_at) {
    w.fault("client_abandoned");
    c->over = true;
    return;
  }
  size_t cap = c->inst[1];
  uint8_t* in = reinterpret_cast<uint8_t*>(c->inst[2]);
  size_t end = std::min(c->in.size(), c->cut);
  size_t n = end - c->fed;
  if (c->filled) n = c->fill;
  else if (!c->feeding) n = 0;
  else if (c->verdict) n = w.pick(IN, 3) ? w.pick(IN, 300) : w.pick(IN, cap + 1);
  else if (c->mode == 0) n = std::min(n, cap);
  else if (c->mode == 1) n = std::min(n, c->fixed);
  else if (c->mode == 2) n = std::min(n, (size_t)w.pick(IN, 70));
  else n = std::min(n, (size_t)w.pick(IN, cap + 1));
  n = std::min(n, cap);
  if (!c->filled) {
    if (c->verdict && c->fed + n > c->in.size()) c->in.resize(c->fed + n, 0x0A);
    if (n) memcpy(in, c->in.data() + c->fed, n);
    // The block is filled while data arrives; others may run in between.
    if (w.flip(SCHED, 1, 3)) {
      c->filled = true;
      c->fill = n;
      return;
    }
  }
  c->filled = false;
  // What is left of the shared block keeps old bytes.
  c->fed += n;
  c->inst[3] = n;
  uintptr_t rc;
  {
    SutScope sut;
    rc = BrunsliDecoderProcess(c->inst);
  }
  w.tick();
  size_t produced = c->inst[5];
  if (produced > (1u << 16)) w.fail("bad-out-len", Fmt("%zu bytes in a 64 KiB block", produced));
  const uint8_t* out = reinterpret_cast<const uint8_t*>(c->inst[4]);
  c->out.insert(c->out.end(), out, out + produced);
  w.ev("process", k * 4 + rc, n, produced);
  w.ev_bytes("out", out, produced);
  // Reference, from memory of its own.
  Bytes ri(c->in.begin() + (c->fed - n), c->in.begin() + c->fed), ro(1 << 16);
  size_t ai = ri.size(), ao = ro.size();
  const uint8_t* ni = ri.data();
  uint8_t* no = ro.data();
  brunsli::BrunsliDecoder::Status s = c->ref->Decode(&ai, &ni, &ao, &no);
  unsigned expect = s == brunsli::BrunsliDecoder::DONE ? 1 : s == brunsli::BrunsliDecoder::ERROR ? 2 : 0;
  if (rc != expect) w.fail("wrong-status", Fmt("Process returns %u, the library says %u", (unsigned)rc, expect));
  if (rc != 2 && (produced != ro.size() - ao || memcmp(out, ro.data(), produced) != 0))
    w.fail("wrong-output", Fmt("call %d: output differs from the library's", (int)c->calls));
  if (c->valid && (c->out.size() > c->want.size() || memcmp(c->out.data(), c->want.data(), c->out.size()) != 0))
    w.fail("wrong-output", Diff(c->out, c->want));
  if (c->verdict) {
    if (c->verdict == 2 && rc != 2) w.fail("verdict-taken-back", Fmt("%d, now %u", c->verdict, (unsigned)rc));
    w.probe("late_block");
    if (--c->late <= 0) c->over = true;
    return;
  }
  if (rc == 1) {
    if (c->valid && c->out != c->want) w.fail("early-done", Diff(c->out, c->want));
    w.probe("stream_done");
    c->over = c->late == 0;
    c->verdict = rc;
  } else if (rc == 2) {
    if (c->valid) w.fail("spurious-failure", "intact stream rejected");
    w.probe("stream_rejected");
    c->over = c->late == 0;
    c->verdict = rc;
  } else {
    // A full block means there is more to come.
    if (produced == (1u << 16)) c->feeding = w.flip(CFG, 1, 2);
    else c->feeding = true;
    if (n == 0 && produced == 0 && c->fed == end) {
      if (c->valid && end == c->in.size()) w.fail("no-progress", "everything delivered, nothing comes out");
      w.probe("stream_starved");
      c->over = true;
    }
  }
}

void OneShot(World& w, const Bytes& in, bool decode, bool valid, const Bytes& want) {
  Bytes copy = in;
  std::string* s;
  const char* data;
  size_t size;
  {
    SutScope sut;
    s = decode ? BrunsliToJpeg(copy.data(), copy.size()) : JpegToBrunsli(copy.data(), copy.size());
    data = decode ? GetJpegData(s) : GetBrunsliData(s);
    size = decode ? GetJpegLength(s) : GetBrunsliLength(s);
  }
  w.tick();
  w.ev(decode ? "to_jpeg" : "to_brunsli", s != nullptr, size);
  if (copy != in) w.fail("input-changed", "the caller's buffer was written to");
  if (s) {
    Bytes got(data, data + size);
    if (decode) {
      Bytes ref;
      int v = DecodeOneShot(in, &ref);
      if (v == V_OOM) throw Discard{"damaged stream needs too much memory"};
      if (v != V_DONE) w.fail("damaged-stream-accepted", "BrunsliToJpeg succeeds where the library fails");
      if (got != ref || (valid && got != want)) w.fail("wrong-result", "BrunsliToJpeg: " + Diff(got, ref));
    } else {
      Bytes back;
      int v = DecodeOneShot(got, &back);
      if (v == V_OOM) throw Discard{"damaged stream needs too much memory"};
      if (v != V_DONE) w.fail("wrong-result", "JpegToBrunsli: result does not decode");
      if (back != in) w.fail("wrong-result", "JpegToBrunsli: " + Diff(back, in));
    }
    w.probe(decode ? "decoded" : "encoded");
  } else {
    if (data || size) w.fail("null-not-empty", "accessors of a failed operation return something");
    if (valid) w.fail("spurious-failure", decode ? "BrunsliToJpeg" : "JpegToBrunsli");
    w.probe("null_result");
  }
  SutScope sut;
  if (decode) FreeJpeg(s);
  else FreeBrunsli(s);
}

void Wasm(World& w) {
  SutGuard guard(w, 512u << 20);
  if (w.flip(CFG, 1, 8)) {
    SutScope sut;
    BrunsliDecoderCleanup(nullptr);
    FreeJpeg(nullptr);
    FreeBrunsli(nullptr);
  }
  size_t n = 1 + w.rare(CFG, 1, 2, 3);
  std::vector<Client> cs(n);
  struct Free {
    std::vector<Client>* cs;
    ~Free() {
      SutScope sut;
      for (auto& c : *cs) if (c.inst) BrunsliDecoderCleanup(c.inst);
    }
  };
  Bytes jpeg;
  bool jpeg_valid = false;
  {
    Free f{&cs};
    for (auto& c : cs) {
      const Workload& wl = GetWorkload(w, GenOpts());
      if (wl.enc != 0) throw Discard{"jpeg not encodable"};
      c.in = wl.brn;
      c.want = jpeg = wl.jpeg;
      c.valid = jpeg_valid = true;
      if (w.flip(CFG, 1, 6)) {
        if (!EncodeBypass(wl.jpeg, &c.in)) throw Discard{"bypass refused"};
      }
      if (w.flip(MUT, 1, 5)) {
        DamageStream(w, &c.in, 3);
        c.valid = false;
      }
      c.whole = c.in;
      if (w.flip(FAULT, 1, 8)) {
        c.cut = w.pick(FAULT, c.in.size() + 1);
        w.fault("producer_died");
      }
      if (w.flip(FAULT, 1, 8)) c.die_at = 1 + w.pick(FAULT, 12);
      if (w.flip(IN, 1, 3)) c.late = 1 + w.pick(IN, 3);
      c.mode = w.pick(CFG, 4);
      c.fixed = 1 + w.rare(CFG, 1, 2, 900);
      if (c.in.size() > 6000 && c.mode == 1) c.fixed += c.in.size() / 200;
      if (c.in.size() > 20000 && c.mode == 2) c.mode = 3;
    }
    try {
      for (uint64_t steps = 0;; ++steps) {
        std::vector<size_t> alive;
        for (size_t i = 0; i < n; ++i) if (!cs[i].over) alive.push_back(i);
        if (alive.empty()) break;
        if (steps > 200000) w.fail("no-progress", "clients do not come to an end");
        size_t i = alive[w.pick(SCHED, alive.size())];
        Step(w, &cs[i], i);
        if (cs[i].over && cs[i].inst && w.flip(CFG, 1, 2)) {
          SutScope sut;
          BrunsliDecoderCleanup(cs[i].inst);
          cs[i].inst = nullptr;
        }
        if (w.rare(CFG, 1, 40, 2)) {
          const Client& c = cs[w.pick(CFG, n)];
          OneShot(w, c.whole, true, c.valid, c.want);
        }
      }
      int k = w.pick(CFG, 3);
      for (int i = 0; i < k; ++i) {
        if (w.flip(MUT, 1, 4)) {
          DamageJpeg(w, &jpeg, 3);
          jpeg_valid = false;
        }
        OneShot(w, jpeg, false, jpeg_valid, jpeg);
        OneShot(w, cs[0].whole, true, cs[0].valid, cs[0].want);
      }
    } catch (const std::bad_alloc&) {
      throw Discard{"damaged stream needs too much memory"};
    }
  }
  alloc::Stats st = alloc::Get();
  if (st.bad_frees) w.fail("bad-free", Fmt("%d blocks released by the wrong function", (int)st.bad_frees));
  if (st.live_blocks) w.fail("leak", Fmt("%d blocks remain after everything was released", (int)st.live_blocks));
}
Register r1("wasm", 8, 64, Wasm);

}  // namespace
}  // namespace sim
