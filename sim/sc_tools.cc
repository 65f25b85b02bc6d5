// The command line tools on a simulated disk.
#include <brunsli/brunsli_encode.h>

#include <algorithm>
#include <new>

#include "codec.h"
#include "restructure.h"
#include "simdisk.h"
#ifdef SIM_SCHED
#include "groups_util.h"
#include "sched.h"
#endif

int cbrunsli_main(int argc, char** argv);
int dbrunsli_main(int argc, char** argv);

namespace sim {
namespace {

enum { C_TOOL, D_TOOL };

// Returns the exit status; a process that dies counts as a failure.
int RunTool(World& w, int tool, const std::vector<std::string>& args) {
  std::vector<std::string> copy = args;
  std::vector<char*> argv;
  for (auto& a : copy) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  struct Job {
    int tool, argc;
    char** argv;
  } job = {tool, (int)args.size(), argv.data()};
  auto body = [](void* p) -> int {
    Job& j = *static_cast<Job*>(p);
    SutScope sut;
    try {
      return j.tool == C_TOOL ? cbrunsli_main(j.argc, j.argv) : dbrunsli_main(j.argc, j.argv);
    } catch (const std::exception&) {
      return 134;
    }
  };
#ifdef SIM_SCHED
  sched::Begin(w, sched::Options());
#endif
  int rc = disk::RunProcess(body, &job);
#ifdef SIM_SCHED
  sched::End();
#endif
  disk::ProcessExit();
  w.ev(tool == C_TOOL ? "cbrunsli" : "dbrunsli", rc);
  return rc;
}

bool Restore(const Bytes& brn, Bytes* out) {
  out->clear();
#ifdef SIM_SCHED
  brunsli::JPEGData jd;
  int next = 0;
  brunsli::Executor ex = AnyOrder(1, &next);
  SutScope sut;
  try {
    if (!brunsli::DecodeGroups(brn.data(), brn.size(), &jd, 32, 128, &ex)) return false;
    ToBytes t;
    bool ok = brunsli::WriteJpeg(jd, brunsli::JPEGOutput(ToBytes::Hook, &t));
    HostScope host;
    *out = t.out;
    return ok;
  } catch (const std::exception&) {
    throw Discard{"damaged stream needs too much memory"};
  }
#else
  int v = DecodeOneShot(brn, out);
  if (v == V_OOM) throw Discard{"damaged stream needs too much memory"};
  return v == V_DONE;
#endif
}

disk::Config DrawDisk(World& w, size_t size) {
  disk::Config c;
  c.slow = w.rare(FAULT, 1, 2, 64);
  // Small buffers let small files meet the boundaries that matter.
  if (w.flip(CFG, 1, 2)) c.buffer = 1 << w.pick(CFG, 11);
  auto recovers = [&] {
    if (w.flip(FAULT, 1, 2)) c.refused = w.pick(FAULT, 3);
  };
  switch (w.pick(FAULT, 8)) {
    case 1: c.only_op = 1 + w.pick(FAULT, 24); c.burst = 1 + w.rare(FAULT, 1, 2, 4); break;
    case 2: c.only_op = 1 + w.pick(FAULT, 8); c.burst = 1 + w.rare(FAULT, 1, 2, 4); break;
    case 3: c.fault = 1 + w.pick(FAULT, 40); break;
    case 4: c.free_bytes = w.pick(FAULT, 2 * size + 200); recovers(); break;
    case 5: c.free_bytes = w.pick(FAULT, size + 1); recovers(); break;
    case 6: c.seekable = w.flip(FAULT, 1, 2); break;
    case 7: c.weird_size = w.flip(FAULT, 1, 2); break;
    default: break;
  }
  return c;
}

void Tools(World& w) {
  GenOpts o;
#ifdef SIM_SCHED
  o = GroupOpts();
#endif
  const Workload& wl = GetWorkload(w, o);
#ifdef SIM_SCHED
  brunsli::JPEGData jd;
  if (!Parse(wl.jpeg, &jd)) throw Discard{"jpeg not encodable"};
  auto pow2 = [](int v) { return (v & (v - 1)) == 0; };
  bool supported = pow2(jd.max_h_samp_factor) && pow2(jd.max_v_samp_factor);
#else
  bool supported = true;
#endif
  bool valid = wl.enc == 0 && supported;
  Bytes jpeg = wl.jpeg;
  if (w.flip(MUT, 1, 8)) {
    if (w.flip(MUT, 1, 6)) jpeg.clear();
    else DamageJpeg(w, &jpeg, 3);
    valid = false;
  }
  SutGuard sut_guard(w, 512u << 20);
  struct Guard {
    Guard(World& w) { disk::Mount(&w, disk::Config()); }
    ~Guard() { disk::Unmount(); }
  } guard(w);
  disk::Put("a.jpg", jpeg);
  bool named = w.flip(CFG, 1, 2);
  std::string brn_name = named ? "b.out" : "a.jpg.brn";
  // What was there before: longer or shorter.
  if (w.flip(CFG, 1, 3)) disk::Put(brn_name, Bytes(w.pick(CFG, 2 * jpeg.size() + 10), 0xA5));
  std::vector<std::string> args = {"cbrunsli", "a.jpg"};
  if (named) args.push_back(brn_name);
  int tries = 1 + w.pick(CFG, 3);
  Bytes brn;
  bool have = false;
  for (int t = 0; t < tries && !have; ++t) {
    disk::SetConfig(t + 1 == tries && t > 0 ? disk::Config() : DrawDisk(w, wl.brn.size()));
    int rc = RunTool(w, C_TOOL, args);
    disk::State& s = disk::Get();
    if (s.files["a.jpg"] != jpeg) w.fail("input-changed", "cbrunsli changed its input file");
    if (rc != 0 && valid && !s.hard_faults) w.fail("spurious-failure", Fmt("cbrunsli: exit %d although nothing failed", rc));
    if (rc == 0) {
      Bytes back;
      if (!s.files.count(brn_name)) w.fail("success-without-output", "cbrunsli");
      brn = s.files[brn_name];
      if (!Restore(brn, &back)) w.fail("success-with-bad-output", Fmt("cbrunsli: %zu bytes do not decode", brn.size()));
      if (back != jpeg) w.fail("success-with-bad-output", "cbrunsli: " + Diff(back, jpeg));
      have = true;
    } else {
      w.probe(s.hard_faults ? "encode_failed_by_fault" : "encode_refused");
    }
  }
  if (!have) return;
  w.probe("encoded");
  Bytes in = brn;
  bool intact = true;
  if (w.flip(MUT, 1, 8)) {
    if (w.flip(MUT, 1, 8)) in.clear();
    else DamageStream(w, &in, 3);
    intact = in == brn;
  }
  Bytes expect;
  bool decodable = Restore(in, &expect);
  disk::Put("c.brn", in);
  named = w.flip(CFG, 1, 2);
  std::string out_name = named ? "d.out" : "c.brn.jpg";
  if (w.flip(CFG, 1, 3)) disk::Put(out_name, Bytes(w.pick(CFG, 2 * jpeg.size() + 10), 0x5A));
  args = {"dbrunsli", "c.brn"};
  if (named) args.push_back(out_name);
  tries = 1 + w.pick(CFG, 3);
  for (int t = 0; t < tries; ++t) {
    disk::SetConfig(t + 1 == tries && t > 0 ? disk::Config() : DrawDisk(w, jpeg.size()));
    int rc = RunTool(w, D_TOOL, args);
    disk::State& s = disk::Get();
    if (s.files["c.brn"] != in) w.fail("input-changed", "dbrunsli changed its input file");
    if (rc != 0 && decodable && !s.hard_faults) w.fail("spurious-failure", Fmt("dbrunsli: exit %d although nothing failed", rc));
    if (rc == 0) {
      if (!decodable) w.fail("damaged-stream-accepted", "dbrunsli succeeds where the library does not");
      if (!s.files.count(out_name)) w.fail("success-without-output", "dbrunsli");
      const Bytes& want = intact ? jpeg : expect;
      if (s.files[out_name] != want) w.fail("success-with-bad-output", "dbrunsli: " + Diff(s.files[out_name], want));
      w.probe("decoded");
      break;
    }
    w.probe(s.hard_faults ? "decode_failed_by_fault" : "decode_refused");
  }
}
Register r1("tools", 8, 128, Tools);

}  // namespace
}  // namespace sim
