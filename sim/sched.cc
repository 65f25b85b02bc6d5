#include "sched.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <future>
#include <unordered_map>

#include "seam_alloc.h"

namespace sim {
void FatalViolation(World& w, const std::string& kind, const std::string& detail);  // main.cc

namespace sched {
namespace {

const int kMaxThreads = 24;
const size_t kStackSize = 1 << 20;

struct VC {
  uint32_t c[kMaxThreads];
  void Clear() { memset(c, 0, sizeof(c)); }
  void Join(const VC& o) {
    for (int i = 0; i < kMaxThreads; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

enum State { FREE, RUNNABLE, BLOCKED, DONE };
enum Why { W_NONE, W_MUTEX, W_COND, W_JOIN, W_FUTEX, W_GUARD, W_SLEEP, W_RWLOCK, W_ONCE, W_SEM };
const char* const kWhy[] = {"-", "mutex", "condition", "join", "future", "static-init", "sleep", "rwlock", "once", "semaphore"};

struct Thread {
  int id;
  State state;
  Why why;
  const void* obj;
  bool timed, timed_out, signalled;
  uint64_t deadline;
  std::atomic<int> baton;
  pthread_t real;
  bool joined, detached;
  VC vc;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  int in_sut;
};

Thread threads[kMaxThreads];
int nthreads = 0;
int cur = 0;
bool active = false;
World* world = nullptr;
Options opts;
uint64_t steps = 0, now_ns = 0;
uint64_t created = 0, create_failures = 0, switches = 0;
// Knobs.
uint32_t sync_num = 0;       // of 64: switch at a synchronisation point
uint32_t mean_gap = 0;       // accesses between preemptions, 0 = never
uint32_t spurious_num = 0;   // of 256
uint32_t create_fail_num = 0;
int victim = -1;             // runs only if nobody else can
int64_t budget = 0;          // accesses until the next preemption decision
bool preempt_next = false;

thread_local int self_id = -1;
thread_local int in_rt = 0;
struct RtScope {
  int sut;
  RtScope() {
    ++in_rt;
    sut = alloc::in_sut;
    alloc::in_sut = 0;
  }
  ~RtScope() {
    alloc::in_sut = sut;
    --in_rt;
  }
};
inline bool Managed() { return active && self_id >= 0 && in_rt == 0; }

char* stacks = nullptr;

long Futex(void* addr, int op, int val) { return syscall(SYS_futex, addr, op, val, nullptr, nullptr, 0); }
void Wake(Thread& t) {
  t.baton.store(1, std::memory_order_release);
  Futex(&t.baton, FUTEX_WAKE_PRIVATE, 1);
}
void Park(Thread& t) {
  while (t.baton.load(std::memory_order_acquire) == 0) Futex(&t.baton, FUTEX_WAIT_PRIVATE, 0);
  t.baton.store(0, std::memory_order_relaxed);
}

std::string Describe() {
  std::string s;
  for (int i = 0; i < nthreads; ++i) {
    const Thread& t = threads[i];
    if (t.state == BLOCKED) s += Fmt("%sthread %d waits for a %s", s.empty() ? "" : ", ", i, kWhy[t.why]);
  }
  return s;
}

int Runnable(int* list, bool with_self) {
  int n = 0;
  for (int i = 0; i < nthreads; ++i)
    if (threads[i].state == RUNNABLE && (with_self || i != cur)) list[n++] = i;
  if (n > 1 && victim >= 0) {
    for (int i = 0; i < n; ++i)
      if (list[i] == victim) {
        for (int j = i; j + 1 < n; ++j) list[j] = list[j + 1];
        --n;
        break;
      }
  }
  return n;
}

void NewBudget() {
  if (!mean_gap) {
    budget = INT64_MAX;
    preempt_next = false;
    return;
  }
  uint64_t v = world->decide(SCHED, [&](Rng& r) -> uint64_t {
    // Roughly geometric.
    uint64_t g = 1 + r.below(2 * mean_gap);
    if (r.chance(1, 8)) g = 1 + r.below(8);
    return g;
  });
  preempt_next = v != 0;
  budget = v ? (int64_t)v : 20000;
}

void SwitchTo(int next) {
  if (next == cur) return;
  Thread& me = threads[cur];
  ++switches;
  world->ev("run", next, steps);
  world->tick();
  int old = cur;
  cur = next;
  Wake(threads[next]);
  if (me.state == DONE) return;
  Park(me);
  (void)old;
}

void Step() {
  if (++steps > opts.max_steps) Fatal("livelock", Fmt("no end after %llu scheduling points", (unsigned long long)steps));
}

void MaybeSpurious() {
  if (!spurious_num) return;
  int list[kMaxThreads], n = 0;
  for (int i = 0; i < nthreads; ++i)
    if (threads[i].state == BLOCKED && threads[i].why == W_COND) list[n++] = i;
  if (!n) return;
  uint64_t v = world->rare(FAULT, spurious_num, 256, n + 1);
  if (!v) return;
  Thread& t = threads[list[v - 1]];
  t.state = RUNNABLE;
  t.why = W_NONE;
  t.signalled = true;
  world->fault("spurious_wakeup");
  world->ev("spurious", t.id);
}

// The current thread could go on, but maybe somebody else does.
void Preempt(bool always) {
  Step();
  MaybeSpurious();
  int list[kMaxThreads];
  int n = Runnable(list, false);
  if (!n) return;
  uint64_t v;
  if (always) {
    v = 1 + world->pick(SCHED, n);
  } else {
    v = world->rare(SCHED, cur == victim ? 60 : sync_num, 64, n + 1);
  }
  if (v) SwitchTo(list[v - 1]);
}

// The current thread cannot go on.
void Block(Why why, const void* obj) {
  Thread& me = threads[cur];
  me.state = BLOCKED;
  me.why = why;
  me.obj = obj;
  Step();
  MaybeSpurious();
  for (;;) {
    int list[kMaxThreads];
    int n = Runnable(list, true);
    if (n) {
      SwitchTo(list[n == 1 ? 0 : world->pick(SCHED, n)]);
      break;
    }
    // Nobody: let time pass.
    int best = -1;
    for (int i = 0; i < nthreads; ++i)
      if (threads[i].state == BLOCKED && threads[i].timed && (best < 0 || threads[i].deadline < threads[best].deadline))
        best = i;
    if (best < 0) Fatal("deadlock", Describe());
    if (threads[best].deadline > now_ns) now_ns = threads[best].deadline;
    threads[best].state = RUNNABLE;
    threads[best].timed_out = true;
    world->ev("timeout", best);
  }
  me.why = W_NONE;
}

void WakeAll(Why why, const void* obj) {
  for (int i = 0; i < nthreads; ++i)
    if (threads[i].state == BLOCKED && threads[i].why == why && threads[i].obj == obj) threads[i].state = RUNNABLE;
}

// ---------------------------------------------------------- happens-before
std::unordered_map<const void*, VC>* syncs = nullptr;
void Tick() { ++threads[cur].vc.c[cur]; }
void Acquire(const void* o) {
  auto it = syncs->find(o);
  if (it != syncs->end()) threads[cur].vc.Join(it->second);
}
void Release(const void* o) {
  VC& v = (*syncs)[o];
  v.Join(threads[cur].vc);
  Tick();
}

// ------------------------------------------------------------------ shadow
struct Rec {
  uint32_t clk;
  uint8_t tid, mask, write, atomic;   // write: 2 = free
  uintptr_t pc;
};
struct Cell {
  uint64_t tag;
  uint32_t next;
  Rec r[4];
};
const size_t kCells = 1 << 19;
Cell* shadow = nullptr;
uint64_t generation = 0;

inline Cell* Lookup(uintptr_t a8) {
  uint64_t h = a8 * 0x9E3779B97F4A7C15ull;
  Cell* c = &shadow[h >> 45];
  uint64_t tag = a8 | (generation << 46);
  if (c->tag != tag) {
    c->tag = tag;
    c->next = 0;
    memset(c->r, 0, sizeof(c->r));
  }
  return c;
}

std::string Where(uintptr_t pc) { return pc ? Fmt("@0x%llx", (unsigned long long)pc) : "the allocator"; }

void ReportRace(const Rec& a, const Rec& b) {
  if (a.write == 2 || b.write == 2) {
    Fatal("data-race:free", Fmt("thread %d frees memory that thread %d uses without synchronisation: %s and %s",
                                a.write == 2 ? a.tid : b.tid, a.write == 2 ? b.tid : a.tid, Where(a.pc).c_str(), Where(b.pc).c_str()));
  }
  Fatal("data-race", Fmt("thread %d %s at %s, thread %d %s at %s, unordered", a.tid, a.write ? "writes" : "reads",
                         Where(a.pc).c_str(), b.tid, b.write ? "writes" : "reads", Where(b.pc).c_str()));
}

inline void Check(uintptr_t a8, uint8_t mask, uint8_t write, uint8_t atomic, uintptr_t pc) {
  Cell* c = Lookup(a8);
  Thread& me = threads[cur];
  uint32_t clk = me.vc.c[cur];
  int slot = -1;
  for (int i = 0; i < 4; ++i) {
    Rec& r = c->r[i];
    if (!r.clk) {
      if (slot < 0) slot = i;
      continue;
    }
    if (!(r.mask & mask)) continue;
    if (r.tid == cur) {
      if (r.write == 2) Fatal("use-after-free", Fmt("thread %d uses memory it freed, %s", cur, Where(pc).c_str()));
      if (r.mask == mask && r.write >= write && r.atomic <= atomic) {
        if (r.clk == clk) return;
        if (r.write == write) slot = i;
      } else if (r.mask == mask && write > r.write && atomic <= r.atomic) {
        slot = i;
      }
      continue;
    }
    if (!r.write && !write) continue;
    if (r.atomic && atomic) continue;
    if (r.clk > me.vc.c[r.tid]) {
      if (opts.races) {
        Rec b = {clk, (uint8_t)cur, mask, write, atomic, pc};
        ReportRace(r, b);
      }
    } else if (r.write == 2) {
      Fatal("use-after-free", Fmt("thread %d uses memory freed by thread %d, %s", cur, r.tid, Where(pc).c_str()));
    }
  }
  if (slot < 0) slot = c->next++ & 3;
  Rec& r = c->r[slot];
  r.clk = clk;
  r.tid = cur;
  r.mask = mask;
  r.write = write;
  r.atomic = atomic;
  r.pc = pc;
}

inline void Range(uintptr_t a, size_t n, uint8_t write, uintptr_t pc) {
  while (n) {
    size_t o = a & 7, k = n < 8 - o ? n : 8 - o;
    Check(a >> 3, ((1u << k) - 1) << o, write, 0, pc);
    a += k;
    n -= k;
  }
}

void ForgetRange(uintptr_t a, size_t n) {
  uintptr_t e = (a + n + 7) >> 3;
  if (n > (kCells << 3)) return;
  for (uintptr_t x = a >> 3; x < e; ++x) {
    uint64_t h = x * 0x9E3779B97F4A7C15ull;
    Cell* c = &shadow[h >> 45];
    if (c->tag == (x | (generation << 46))) c->tag = 0;
  }
}

// Memory the harness allocates may be handed to the system too.
void OnAlloc(void* p, size_t n) {
  if (!active || self_id < 0) return;
  ForgetRange(reinterpret_cast<uintptr_t>(p), n);
}
void OnFree(void* p, size_t n) {
  if (!Managed()) return;
  RtScope rt;
  if (n > (1 << 16)) n = 1 << 16;
  Range(reinterpret_cast<uintptr_t>(p), n, 2, 0);
}

// A preemption happens before the access it precedes.
inline void Preemption() {
  if (nthreads > 1 && --budget <= 0) {
    RtScope rt;
    bool go = preempt_next;
    int list[kMaxThreads];
    if (Runnable(list, false) > 0) {
      NewBudget();
      if (go) Preempt(true);
    } else {
      budget = 2000;
      preempt_next = false;
    }
  }
}

inline void Access(const void* p, size_t n, bool write, void* pc) {
  if (!Managed()) return;
  ++in_rt;
  Preemption();
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  size_t o = a & 7;
  if (o + n <= 8) Check(a >> 3, ((1u << n) - 1) << o, write, 0, reinterpret_cast<uintptr_t>(pc));
  else Range(a, n, write, reinterpret_cast<uintptr_t>(pc));
  --in_rt;
}

void* Trampoline(void* p) {
  Thread& t = *static_cast<Thread*>(p);
  self_id = t.id;
  alloc::in_sut = t.in_sut;
  Park(t);
  NewBudget();
  t.ret = t.fn(t.arg);
  {
    ++in_rt;
    alloc::in_sut = 0;
    Release(&t);
    t.state = DONE;
    WakeAll(W_JOIN, &t);
    world->ev("exit", t.id);
    int list[kMaxThreads];
    int n;
    for (;;) {
      n = Runnable(list, true);
      if (n) break;
      int best = -1;
      for (int i = 0; i < nthreads; ++i)
        if (threads[i].state == BLOCKED && threads[i].timed && (best < 0 || threads[i].deadline < threads[best].deadline))
          best = i;
      if (best < 0) Fatal("deadlock", Describe());
      if (threads[best].deadline > now_ns) now_ns = threads[best].deadline;
      threads[best].state = RUNNABLE;
      threads[best].timed_out = true;
    }
    SwitchTo(list[n == 1 ? 0 : world->pick(SCHED, n)]);
  }
  return t.ret;
}

typedef int (*CreateFn)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
typedef int (*JoinFn)(pthread_t, void**);
template <typename F>
F Real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

Thread* ByReal(pthread_t p) {
  for (int i = 1; i < nthreads; ++i)
    if (threads[i].state != FREE && !threads[i].joined && pthread_equal(threads[i].real, p)) return &threads[i];
  return nullptr;
}

int Create(pthread_t* out, void* (*fn)(void*), void* arg, int in_sut) {
  static CreateFn real = Real<CreateFn>("pthread_create");
  if (nthreads >= kMaxThreads) Fatal("too-many-threads", Fmt("%d", nthreads));
  Thread& t = threads[nthreads];
  t.id = nthreads;
  t.state = RUNNABLE;
  t.why = W_NONE;
  t.timed = t.timed_out = t.signalled = t.joined = t.detached = false;
  t.baton.store(0);
  t.vc.Clear();
  t.vc.Join(threads[cur].vc);
  t.vc.c[t.id] = 1;
  Tick();
  t.fn = fn;
  t.arg = arg;
  t.in_sut = in_sut;
  char* st = stacks + kStackSize * t.id;
  ForgetRange(reinterpret_cast<uintptr_t>(st), kStackSize);
  pthread_attr_t attr;
  pthread_attr_init(&attr);
  pthread_attr_setstack(&attr, st, kStackSize);
  int rc = real(&t.real, &attr, Trampoline, &t);
  pthread_attr_destroy(&attr);
  if (rc) {
    fprintf(stderr, "cannot create a real thread: %d\n", rc);
    _exit(79);
  }
  ++nthreads;
  ++created;
  if (out) *out = t.real;
  world->ev("create", t.id);
  return 0;
}

void DoJoin(Thread& t, void** ret) {
  while (t.state != DONE) Block(W_JOIN, &t);
  Acquire(&t);
  static JoinFn real = Real<JoinFn>("pthread_join");
  real(t.real, nullptr);
  t.joined = true;
  if (ret) *ret = t.ret;
  world->ev("join", t.id);
}

// ------------------------------------------------------------------- objects
struct Mutex {
  int owner = -1;
  int depth = 0;
};
struct RwLock {
  int writer = -1;
  int readers = 0;
};
std::unordered_map<const void*, Mutex>* mutexes = nullptr;
std::unordered_map<const void*, RwLock>* rwlocks = nullptr;

bool TryLock(pthread_mutex_t* m) {
  Mutex& x = (*mutexes)[m];
  bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  if (x.owner == cur && recursive) {
    ++x.depth;
    return true;
  }
  if (x.owner >= 0) return false;
  x.owner = cur;
  x.depth = 1;
  Acquire(m);
  return true;
}
void Lock(pthread_mutex_t* m) {
  while (!TryLock(m)) {
    if ((*mutexes)[m].owner == cur) Fatal("deadlock", Fmt("thread %d locks a mutex it holds", cur));
    Block(W_MUTEX, m);
  }
}
void Unlock(pthread_mutex_t* m) {
  Mutex& x = (*mutexes)[m];
  if (x.owner != cur) Fatal("bad-unlock", Fmt("thread %d unlocks a mutex held by %d", cur, x.owner));
  if (--x.depth) return;
  x.owner = -1;
  Release(m);
  WakeAll(W_MUTEX, m);
}

int CondWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t deadline) {
  Preempt(false);
  Thread& me = threads[cur];
  if ((*mutexes)[m].owner != cur) Fatal("bad-wait", Fmt("thread %d waits without holding the mutex", cur));
  Unlock(m);
  me.signalled = false;
  me.timed = timed;
  me.timed_out = false;
  me.deadline = deadline;
  world->ev("wait", cur);
  Block(W_COND, c);
  me.timed = false;
  bool late = me.timed_out && !me.signalled;
  Lock(m);
  return late ? ETIMEDOUT : 0;
}
void CondSignal(pthread_cond_t* c, bool all) {
  int list[kMaxThreads], n = 0;
  for (int i = 0; i < nthreads; ++i)
    if (threads[i].state == BLOCKED && threads[i].why == W_COND && threads[i].obj == c) list[n++] = i;
  world->ev(all ? "broadcast" : "signal", cur, n);
  if (!n) return;
  if (all) {
    for (int i = 0; i < n; ++i) {
      threads[list[i]].state = RUNNABLE;
      threads[list[i]].signalled = true;
    }
  } else {
    int k = n == 1 ? 0 : world->pick(SCHED, n);
    threads[list[k]].state = RUNNABLE;
    threads[list[k]].signalled = true;
  }
}
uint64_t ToNs(const struct timespec* ts) { return uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec; }

}  // namespace

void Fatal(const std::string& kind, const std::string& detail) {
  ++in_rt;
  alloc::in_sut = 0;
  world->ev("fatal", steps, cur);
  FatalViolation(*world, kind, detail);
  _exit(78);
}

void Begin(World& w, const Options& o) {
  RtScope rt;
  world = &w;
  opts = o;
  if (!shadow) {
    shadow = static_cast<Cell*>(mmap(nullptr, sizeof(Cell) * kCells, PROT_READ | PROT_WRITE,
                                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    stacks = static_cast<char*>(mmap(nullptr, kStackSize * kMaxThreads, PROT_READ | PROT_WRITE,
                                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    syncs = new std::unordered_map<const void*, VC>;
    mutexes = new std::unordered_map<const void*, Mutex>;
    rwlocks = new std::unordered_map<const void*, RwLock>;
  }
  syncs->clear();
  mutexes->clear();
  rwlocks->clear();
  ++generation;
  steps = switches = created = create_failures = 0;
  now_ns = 1600000000ull * 1000000000ull;
  for (auto& t : threads) t.state = FREE;
  nthreads = 1;
  cur = 0;
  self_id = 0;
  Thread& t = threads[0];
  t.id = 0;
  t.state = RUNNABLE;
  t.joined = t.detached = t.timed = t.timed_out = t.signalled = false;
  t.baton.store(0);
  t.vc.Clear();
  t.vc.c[0] = 1;
  // Swarm knobs.
  static const uint32_t kSync[] = {4, 0, 1, 16, 32, 48};
  sync_num = kSync[w.pick(CFG, 6)];
  static const uint32_t kGap[] = {0, 0, 10, 100, 1000, 10000};
  mean_gap = kGap[w.pick(CFG, 6)];
  spurious_num = o.spurious ? w.rare(CFG, 1, 3, 3) * 12 : 0;
  create_fail_num = o.create_failures ? w.rare(CFG, 1, 3, 3) : 0;
  victim = (int)w.rare(CFG, 1, 4, 8) - 1;
  w.ev("sched", sync_num, mean_gap, spurious_num * 100 + create_fail_num * 10 + victim + 1);
  alloc::SetHooks(OnAlloc, OnFree);
  active = true;
  NewBudget();
  w.fatal_mode = true;
}

void End() {
  RtScope rt;
  for (int i = 1; i < nthreads; ++i) {
    Thread& t = threads[i];
    if (t.joined) continue;
    if (t.detached || t.state == DONE) {
      while (t.state != DONE) Block(W_JOIN, &t);
      DoJoin(t, nullptr);
      continue;
    }
    Fatal("thread-leak", Fmt("thread %d still exists", i));
  }
  for (auto& m : *mutexes)
    if (m.second.owner >= 0) Fatal("lock-leak", Fmt("a mutex is still held by thread %d", m.second.owner));
  active = false;
  self_id = -1;
  alloc::SetHooks(nullptr, nullptr);
  world->fatal_mode = false;
  world->fault("context_switch", switches);
  if (create_failures) world->fault("thread_creation_failure", create_failures);
  world->ev("end", steps, switches);
}

bool Active() { return active; }
int Self() { return self_id; }
uint64_t CreateFailures() { return create_failures; }
uint64_t Created() { return created; }

namespace {
struct Spawned {
  void (*fn)(void*);
  void* arg;
};
void* RunSpawned(void* p) {
  Spawned* s = static_cast<Spawned*>(p);
  s->fn(s->arg);
  delete s;
  return nullptr;
}
}  // namespace
int Spawn(void (*fn)(void*), void* arg) {
  RtScope rt;
  int id = nthreads;
  Create(nullptr, RunSpawned, new Spawned{fn, arg}, 0);
  Preempt(false);
  return id;
}
void Join(int handle) {
  RtScope rt;
  DoJoin(threads[handle], nullptr);
}
void Touch(const void* p, size_t n, bool write) {
  if (!Managed()) return;
  RtScope rt;
  Range(reinterpret_cast<uintptr_t>(p), n, write, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
}
void Point() {
  if (!Managed()) return;
  RtScope rt;
  Preempt(false);
}

}  // namespace sched
}  // namespace sim

using namespace sim::sched;
using sim::Fmt;
using sim::SCHED;

// -------------------------------------------------------------- pthread seams
#define REAL(name, type) static type real_fn = Real<type>(name)
extern "C" {

int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept {
  if (!Managed()) {
    REAL("pthread_create", CreateFn);
    return real_fn(t, a, fn, arg);
  }
  int in_sut = sim::alloc::in_sut;
  RtScope rt;
  Preempt(false);
  if (create_fail_num && world->rare(sim::FAULT, create_fail_num, 6, 2)) {
    ++create_failures;
    world->ev("create_fails", cur);
    return EAGAIN;
  }
  int rc = Create(t, fn, arg, in_sut);
  bool detached = false;
  if (a) {
    int d = 0;
    pthread_attr_getdetachstate(a, &d);
    detached = d == PTHREAD_CREATE_DETACHED;
  }
  threads[nthreads - 1].detached = detached;
  Preempt(false);
  return rc;
}
int pthread_join(pthread_t p, void** ret) {
  if (Managed()) {
    RtScope rt;
    Thread* t = ByReal(p);
    if (t) {
      Preempt(false);
      DoJoin(*t, ret);
      return 0;
    }
    return ESRCH;
  }
  REAL("pthread_join", JoinFn);
  return real_fn(p, ret);
}
int pthread_detach(pthread_t p) noexcept {
  if (Managed()) {
    RtScope rt;
    Thread* t = ByReal(p);
    if (!t) return ESRCH;
    t->detached = true;
    return 0;
  }
  typedef int (*F)(pthread_t);
  REAL("pthread_detach", F);
  return real_fn(p);
}

int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (Managed()) {
    RtScope rt;
    Preempt(false);
    Lock(m);
    return 0;
  }
  typedef int (*F)(pthread_mutex_t*);
  REAL("pthread_mutex_lock", F);
  return real_fn(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (Managed()) {
    RtScope rt;
    Preempt(false);
    return TryLock(m) ? 0 : EBUSY;
  }
  typedef int (*F)(pthread_mutex_t*);
  REAL("pthread_mutex_trylock", F);
  return real_fn(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) noexcept {
  return pthread_mutex_lock(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (Managed()) {
    RtScope rt;
    Unlock(m);
    Preempt(false);
    return 0;
  }
  typedef int (*F)(pthread_mutex_t*);
  REAL("pthread_mutex_unlock", F);
  return real_fn(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
  if (Managed()) {
    RtScope rt;
    auto it = mutexes->find(m);
    if (it != mutexes->end()) {
      if (it->second.owner >= 0) Fatal("mutex-destroyed-while-held", Fmt("by thread %d", it->second.owner));
      mutexes->erase(it);
    }
  }
  return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (Managed()) {
    RtScope rt;
    return CondWait(c, m, false, 0);
  }
  typedef int (*F)(pthread_cond_t*, pthread_mutex_t*);
  REAL("pthread_cond_wait", F);
  return real_fn(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (Managed()) {
    RtScope rt;
    return CondWait(c, m, true, ToNs(ts));
  }
  typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
  REAL("pthread_cond_timedwait", F);
  return real_fn(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
  if (Managed()) {
    RtScope rt;
    return CondWait(c, m, true, ToNs(ts));
  }
  typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
  REAL("pthread_cond_clockwait", F);
  return real_fn(c, m, clk, ts);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
  if (Managed()) {
    RtScope rt;
    Preempt(false);
    CondSignal(c, false);
    Preempt(false);
    return 0;
  }
  typedef int (*F)(pthread_cond_t*);
  REAL("pthread_cond_signal", F);
  return real_fn(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  if (Managed()) {
    RtScope rt;
    Preempt(false);
    CondSignal(c, true);
    Preempt(false);
    return 0;
  }
  typedef int (*F)(pthread_cond_t*);
  REAL("pthread_cond_broadcast", F);
  return real_fn(c);
}
int pthread_cond_destroy(pthread_cond_t* c) noexcept {
  if (Managed()) {
    RtScope rt;
    for (int i = 0; i < nthreads; ++i)
      if (threads[i].state == BLOCKED && threads[i].why == W_COND && threads[i].obj == c)
        Fatal("condition-destroyed-while-waited-on", Fmt("by thread %d", i));
  }
  return 0;
}

// Reader-writer locks (std::shared_mutex).
static int RwLockImpl(pthread_rwlock_t* l, bool write, bool wait) {
  Preempt(false);
  for (;;) {
    RwLock& x = (*rwlocks)[l];
    if (x.writer < 0 && (!write || x.readers == 0)) {
      if (write) x.writer = cur;
      else ++x.readers;
      Acquire(l);
      return 0;
    }
    if (!wait) return EBUSY;
    if (x.writer == cur) Fatal("deadlock", "reader-writer lock taken twice");
    Block(W_RWLOCK, l);
  }
}
#define RW(name, write, wait)                           \
  int name(pthread_rwlock_t* l) noexcept {              \
    if (Managed()) {                                    \
      RtScope rt;                                       \
      return RwLockImpl(l, write, wait);                \
    }                                                   \
    typedef int (*F)(pthread_rwlock_t*);                \
    REAL(#name, F);                                     \
    return real_fn(l);                                  \
  }
RW(pthread_rwlock_rdlock, false, true)
RW(pthread_rwlock_wrlock, true, true)
RW(pthread_rwlock_tryrdlock, false, false)
RW(pthread_rwlock_trywrlock, true, false)
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept {
  if (Managed()) {
    RtScope rt;
    RwLock& x = (*rwlocks)[l];
    if (x.writer == cur) x.writer = -1;
    else if (x.readers > 0) --x.readers;
    else Fatal("bad-unlock", "reader-writer lock not held");
    Release(l);
    WakeAll(W_RWLOCK, l);
    Preempt(false);
    return 0;
  }
  typedef int (*F)(pthread_rwlock_t*);
  REAL("pthread_rwlock_unlock", F);
  return real_fn(l);
}

// 0 = new, 1 = running, 2 = done.
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (Managed()) {
    int sut = sim::alloc::in_sut;
    {
      RtScope rt;
      Preempt(false);
      for (;;) {
        if (*o == 2) {
          Acquire(o);
          return 0;
        }
        if (*o == 0) break;
        Block(W_ONCE, o);
      }
      *o = 1;
    }
    try {
      sim::alloc::in_sut = sut;
      fn();
    } catch (...) {
      RtScope rt;
      *o = 0;
      WakeAll(W_ONCE, o);
      throw;
    }
    RtScope rt;
    *o = 2;
    Release(o);
    WakeAll(W_ONCE, o);
    return 0;
  }
  typedef int (*F)(pthread_once_t*, void (*)(void));
  if (*o == 2) return 0;
  REAL("pthread_once", F);
  int rc = real_fn(o, fn);
  return rc;
}

int sched_yield() noexcept {
  if (Managed()) {
    RtScope rt;
    int list[64];
    if (Runnable(list, false)) Preempt(true);
    else Step();
    return 0;
  }
  return 0;
}
static int Sleep(uint64_t ns) {
  Thread& me = threads[cur];
  me.timed = true;
  me.timed_out = false;
  me.deadline = now_ns + ns;
  Block(W_SLEEP, &me);
  me.timed = false;
  return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (Managed()) {
    RtScope rt;
    return Sleep(ToNs(a));
  }
  typedef int (*F)(const struct timespec*, struct timespec*);
  REAL("nanosleep", F);
  return real_fn(a, b);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec* b) {
  if (Managed()) {
    RtScope rt;
    uint64_t t = ToNs(a);
    if (flags) t = t > now_ns ? t - now_ns : 0;
    return Sleep(t);
  }
  typedef int (*F)(clockid_t, int, const struct timespec*, struct timespec*);
  REAL("clock_nanosleep", F);
  return real_fn(c, flags, a, b);
}
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
  if (Managed()) {
    now_ns += 1000;
    ts->tv_sec = now_ns / 1000000000ull;
    ts->tv_nsec = now_ns % 1000000000ull;
    return 0;
  }
  return syscall(SYS_clock_gettime, c, ts);
}

// Initialisation of function-local statics.
// Exception objects come from the C++ runtime, past the allocator seam.
#ifdef SIM_STATIC_CXX
void* __real___cxa_allocate_exception(size_t n) noexcept;
void* __wrap___cxa_allocate_exception(size_t n) noexcept {
  RtScope rt;
  void* p = __real___cxa_allocate_exception(n);
#else
void* __cxa_allocate_exception(size_t n) noexcept {
  RtScope rt;
  typedef void* (*F)(size_t);
  REAL("__cxa_allocate_exception", F);
  void* p = real_fn(n);
#endif
  OnAlloc(static_cast<char*>(p) - 128, n + 128);
  return p;
}

int __cxa_guard_acquire(uint64_t* g) {
  uint8_t* b = reinterpret_cast<uint8_t*>(g);
  if (Managed()) {
    RtScope rt;
    Preempt(false);
    for (;;) {
      if (b[0] == 1) {
        Acquire(g);
        return 0;
      }
      if (!b[1]) break;
      Block(W_GUARD, g);
    }
    b[1] = 1;
    return 1;
  }
  if (b[0] == 1) return 0;
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  uint8_t* b = reinterpret_cast<uint8_t*>(g);
  b[1] = 0;
  b[0] = 1;
  if (Managed()) {
    RtScope rt;
    Release(g);
    WakeAll(W_GUARD, g);
    Preempt(false);
  }
}
void __cxa_guard_abort(uint64_t* g) {
  uint8_t* b = reinterpret_cast<uint8_t*>(g);
  b[1] = 0;
  if (Managed()) {
    RtScope rt;
    WakeAll(W_GUARD, g);
  }
}
}  // extern "C"

// Futures block on a futex of libstdc++.
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout,
                                                       chrono::seconds s, chrono::nanoseconds ns) {
  if (Managed()) {
    RtScope rt;
    Preempt(false);
    if (*addr != val) return true;
    Thread& me = threads[cur];
    me.timed = has_timeout;
    me.timed_out = false;
    me.deadline = s.count() * 1000000000ull + ns.count();
    Block(W_FUTEX, addr);
    me.timed = false;
    return !me.timed_out;
  }
  while (__atomic_load_n(addr, __ATOMIC_ACQUIRE) == val) usleep(100);
  return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout,
                                                              chrono::seconds s, chrono::nanoseconds ns) {
  return _M_futex_wait_until(addr, val, has_timeout, s, ns);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr) {
  if (Managed()) {
    RtScope rt;
    WakeAll(W_FUTEX, addr);
    Preempt(false);
  }
}
}  // namespace std

// ------------------------------------------------------- instrumentation hooks
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RWN(n)                                                              \
  void __tsan_read##n(void* p) { Access(p, n, false, PC); }                 \
  void __tsan_write##n(void* p) { Access(p, n, true, PC); }                 \
  void __tsan_unaligned_read##n(void* p) { Access(p, n, false, PC); }       \
  void __tsan_unaligned_write##n(void* p) { Access(p, n, true, PC); }       \
  void __tsan_volatile_read##n(void* p) { Access(p, n, false, PC); }        \
  void __tsan_volatile_write##n(void* p) { Access(p, n, true, PC); }        \
  void __tsan_read##n##_pc(void* p, void* pc) { Access(p, n, false, pc); }  \
  void __tsan_write##n##_pc(void* p, void* pc) { Access(p, n, true, pc); }  \
  void __tsan_read_write##n(void* p) { Access(p, n, true, PC); }            \
  void __tsan_unaligned_read_write##n(void* p) { Access(p, n, true, PC); }
RWN(1) RWN(2) RWN(4) RWN(8) RWN(16)
void __tsan_vptr_update(void** p, void* v) {
  // As in the original: storing the same value is what destructors do. What a
  // fresh block held before must make no difference to the schedule.
  if (*p != v) {
    Access(p, 8, true, PC);
  } else if (Managed()) {
    RtScope rt;
    Preemption();
  }
}
void __tsan_vptr_read(void** p) { Access(p, 8, false, PC); }
void __tsan_read_range(void* p, unsigned long n) { if (n) Access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { if (n) Access(p, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  if (n) {
    Access(s, n, false, PC);
    Access(d, n, true, PC);
  }
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  if (n) {
    Access(s, n, false, PC);
    Access(d, n, true, PC);
  }
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  if (n) Access(d, n, true, PC);
  return memset(d, c, n);
}
}

namespace {
inline bool IsAcquire(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
inline bool IsRelease(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
// Brackets an atomic operation: a scheduling point before it, its effect on
// the happens-before relation after it.
struct AtomicOp {
  bool m;
  int mo;
  const volatile void* p;
  AtomicOp(const volatile void* p, size_t n, bool write, int mo, void* pc) : m(Managed()), mo(mo), p(p) {
    if (!m) return;
    RtScope rt;
    Preempt(false);
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if ((a & 7) + n <= 8) Check(a >> 3, ((1u << n) - 1) << (a & 7), write, 1, reinterpret_cast<uintptr_t>(pc));
    if (IsAcquire(mo)) Acquire(const_cast<const void*>(p));
  }
  void Done(bool write) {
    if (!m || !write || !IsRelease(mo)) return;
    RtScope rt;
    Release(const_cast<const void*>(p));
  }
};
}  // namespace

#define SEQ __ATOMIC_SEQ_CST
#define ATOMICS(bits, T)                                                                             \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                                        \
    AtomicOp op(a, bits / 8, false, mo, PC);                                                         \
    return __atomic_load_n(a, SEQ);                                                                  \
  }                                                                                                  \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {                                     \
    AtomicOp op(a, bits / 8, true, mo, PC);                                                          \
    __atomic_store_n(a, v, SEQ);                                                                     \
    op.Done(true);                                                                                   \
  }                                                                                                  \
  RMW(bits, T, exchange, __atomic_exchange_n)                                                        \
  RMW(bits, T, fetch_add, __atomic_fetch_add)                                                        \
  RMW(bits, T, fetch_sub, __atomic_fetch_sub)                                                        \
  RMW(bits, T, fetch_and, __atomic_fetch_and)                                                        \
  RMW(bits, T, fetch_or, __atomic_fetch_or)                                                          \
  RMW(bits, T, fetch_xor, __atomic_fetch_xor)                                                        \
  RMW(bits, T, fetch_nand, __atomic_fetch_nand)                                                      \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) {         \
    AtomicOp op(a, bits / 8, true, mo, PC);                                                          \
    bool ok = __atomic_compare_exchange_n(a, c, v, false, SEQ, SEQ);                                 \
    op.Done(ok);                                                                                     \
    return ok;                                                                                       \
  }                                                                                                  \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) {           \
    AtomicOp op(a, bits / 8, true, mo, PC);                                                          \
    bool ok = __atomic_compare_exchange_n(a, c, v, false, SEQ, SEQ);                                 \
    op.Done(ok);                                                                                     \
    return ok;                                                                                       \
  }                                                                                                  \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) {               \
    AtomicOp op(a, bits / 8, true, mo, PC);                                                          \
    bool ok = __atomic_compare_exchange_n(a, &c, v, false, SEQ, SEQ);                                \
    op.Done(ok);                                                                                     \
    return c;                                                                                        \
  }
#define RMW(bits, T, name, builtin)                                        \
  T __tsan_atomic##bits##_##name(volatile T* a, T v, int mo) {             \
    AtomicOp op(a, bits / 8, true, mo, PC);                                \
    T r = builtin(a, v, SEQ);                                              \
    op.Done(true);                                                         \
    return r;                                                              \
  }
extern "C" {
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) {
  if (!Managed()) return;
  RtScope rt;
  Acquire(&budget);
  Release(&budget);
}
void __tsan_atomic_signal_fence(int) {}
}
