#include "seam_alloc.h"

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
}

namespace sim {
namespace alloc {
thread_local int in_sut = 0;
static thread_local int in_brotli_encoder = 0;

namespace {
enum Kind : uint8_t { NONE = 0, MALLOC = 1, NEW = 2, NEW_ARRAY = 3 };
struct Slot {
  uintptr_t p;
  uint64_t size;
  Kind kind;
};
// Open addressing; a tombstone has p == 1.
Slot* tab = nullptr;
size_t cap = 0, used = 0, live = 0;
bool active = false;
uint64_t fill_seed = 0;
uint64_t fail_first = 0, fail_count = 0, limit_bytes = ~0ull;
Stats st;
void (*hook_alloc)(void*, size_t) = nullptr;
void (*hook_free)(void*, size_t) = nullptr;

size_t HashP(uintptr_t p) {
  uint64_t x = p >> 4;
  x *= 0x9E3779B97F4A7C15ull;
  return x >> 20;
}
void Grow() {
  size_t ncap = cap ? cap : 4096;
  if (live * 4 > ncap) ncap *= 2;
  Slot* n = static_cast<Slot*>(__real_calloc(ncap, sizeof(Slot)));
  for (size_t i = 0; i < cap; ++i) {
    if (tab[i].p > 1) {
      size_t h = HashP(tab[i].p) & (ncap - 1);
      while (n[h].p) h = (h + 1) & (ncap - 1);
      n[h] = tab[i];
    }
  }
  if (tab) __real_free(tab);
  tab = n;
  cap = ncap;
  used = live;
}
void Insert(void* p, uint64_t size, Kind kind) {
  if ((used + 1) * 2 > cap) Grow();
  size_t h = HashP(reinterpret_cast<uintptr_t>(p)) & (cap - 1);
  while (tab[h].p > 1) h = (h + 1) & (cap - 1);
  if (tab[h].p == 0) ++used;
  tab[h].p = reinterpret_cast<uintptr_t>(p);
  tab[h].size = size;
  tab[h].kind = kind;
  ++live;
}
Slot* Find(void* p) {
  if (!cap) return nullptr;
  size_t h = HashP(reinterpret_cast<uintptr_t>(p)) & (cap - 1);
  while (tab[h].p) {
    if (tab[h].p == reinterpret_cast<uintptr_t>(p)) return &tab[h];
    h = (h + 1) & (cap - 1);
  }
  return nullptr;
}
void Junk(void* p, size_t n, uint64_t x) {
  // Up to 64 KiB at either end.
  uint8_t* b = static_cast<uint8_t*>(p);
  const size_t kEdge = 1 << 16;
  size_t head = n < kEdge ? n : kEdge;
  for (size_t i = 0; i < head; i += 8) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    memcpy(b + i, &x, head - i < 8 ? head - i : 8);
  }
  if (n > 2 * kEdge) memcpy(b + n - kEdge, b, kEdge);
}

// Returns nullptr when the allocation has to fail.
void* Allocate(size_t n, Kind kind) {
  if (!in_sut || !active) {
    void* p = __real_malloc(n ? n : 1);
    if (hook_alloc && p) hook_alloc(p, malloc_usable_size(p));
    return p;
  }
  uint64_t k = st.allocs;
  bool fail = false;
  if (!in_brotli_encoder) {
    k = ++st.allocs;
    fail = fail_first && k >= fail_first && k - fail_first < fail_count;
    if (n > limit_bytes || st.live_bytes + n > limit_bytes) fail = true;
  }
  if (fail) {
    ++st.failed;
    errno = ENOMEM;
    return nullptr;
  }
  void* p = __real_malloc(n ? n : 1);
  if (!p) return nullptr;
  if (hook_alloc) hook_alloc(p, malloc_usable_size(p));
  Junk(p, n, fill_seed + k * 77);
  Insert(p, n, kind);
  ++st.live_blocks;
  st.live_bytes += n;
  if (st.live_bytes > st.peak_bytes) st.peak_bytes = st.live_bytes;
  return p;
}
void Release(void* p, Kind kind) {
  if (!p) return;
  if (hook_free) hook_free(p, malloc_usable_size(p));
  if (active || live) {
    Slot* s = Find(p);
    if (s) {
      if (s->kind != kind) ++st.bad_frees;
      if (st.live_blocks) --st.live_blocks;
      if (st.live_bytes >= s->size) st.live_bytes -= s->size;
#if !defined(SIM_ASAN)
      memset(p, 0xDD, s->size < 8192 ? s->size : 8192);
#endif
      s->p = 1;
      --live;
    }
  }
  __real_free(p);
}
}  // namespace

void Begin(uint64_t fill) {
  memset(&st, 0, sizeof(st));
  active = true;
  fill_seed = fill;
  fail_first = fail_count = 0;
  limit_bytes = ~0ull;
}
void FailAt(uint64_t first, uint64_t count) {
  fail_first = first;
  fail_count = count;
}
void Limit(uint64_t bytes) { limit_bytes = bytes; }
Stats Get() { return st; }
void SetHooks(void (*on_alloc)(void*, size_t), void (*on_free)(void*, size_t)) {
  hook_alloc = on_alloc;
  hook_free = on_free;
}
void End() {
  active = false;
  fail_first = fail_count = 0;
  limit_bytes = ~0ull;
}
void Forget() {
  if (!cap) return;
  memset(tab, 0, cap * sizeof(Slot));
  used = live = 0;
  st.live_blocks = st.live_bytes = 0;
}
}  // namespace alloc
}  // namespace sim

using sim::alloc::Allocate;
using sim::alloc::Release;

extern "C" {
void* __wrap_malloc(size_t n) { return Allocate(n, sim::alloc::MALLOC); }
void* __wrap_calloc(size_t a, size_t b) {
  void* p = Allocate(a * b, sim::alloc::MALLOC);
  if (p) memset(p, 0, a * b);
  return p;
}
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return Allocate(n, sim::alloc::MALLOC);
  sim::alloc::Slot* s = sim::alloc::Find(p);
  if (!s) return __real_realloc(p, n);
  size_t old = s->size;
  void* q = Allocate(n, sim::alloc::MALLOC);
  if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  Release(p, sim::alloc::MALLOC);
  return q;
}
void __wrap_free(void* p) { Release(p, sim::alloc::MALLOC); }
}

// The Brotli library's encoder ends the process when it runs out of memory, so
// it is made to fail as a whole, the way it would report any other error.
extern "C" {
int __real_BrotliEncoderCompress(int, int, int, size_t, const uint8_t*, size_t*, uint8_t*);
int __wrap_BrotliEncoderCompress(int q, int lgwin, int mode, size_t n, const uint8_t* in, size_t* on, uint8_t* out) {
  void* room = Allocate(1, sim::alloc::MALLOC);
  if (!room) {
    *on = 0;
    return 0;
  }
  Release(room, sim::alloc::MALLOC);
  ++sim::alloc::in_brotli_encoder;
  int rc = __real_BrotliEncoderCompress(q, lgwin, mode, n, in, on, out);
  --sim::alloc::in_brotli_encoder;
  return rc;
}
void* __real_BrotliEncoderCreateInstance(void*, void*, void*);
void* __wrap_BrotliEncoderCreateInstance(void* a, void* f, void* o) {
  ++sim::alloc::in_brotli_encoder;
  void* p = __real_BrotliEncoderCreateInstance(a, f, o);
  --sim::alloc::in_brotli_encoder;
  return p;
}
int __real_BrotliEncoderCompressStream(void*, int, size_t*, const uint8_t**, size_t*, uint8_t**, size_t*);
int __wrap_BrotliEncoderCompressStream(void* s, int op, size_t* an, const uint8_t** in, size_t* on, uint8_t** out, size_t* t) {
  ++sim::alloc::in_brotli_encoder;
  int rc = __real_BrotliEncoderCompressStream(s, op, an, in, on, out, t);
  --sim::alloc::in_brotli_encoder;
  return rc;
}
}

void* operator new(size_t n) {
  void* p = Allocate(n, sim::alloc::NEW);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) {
  void* p = Allocate(n, sim::alloc::NEW_ARRAY);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Allocate(n, sim::alloc::NEW); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Allocate(n, sim::alloc::NEW_ARRAY); }
void operator delete(void* p) noexcept { Release(p, sim::alloc::NEW); }
void operator delete[](void* p) noexcept { Release(p, sim::alloc::NEW_ARRAY); }
void operator delete(void* p, size_t) noexcept { Release(p, sim::alloc::NEW); }
void operator delete[](void* p, size_t) noexcept { Release(p, sim::alloc::NEW_ARRAY); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Release(p, sim::alloc::NEW); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Release(p, sim::alloc::NEW_ARRAY); }
