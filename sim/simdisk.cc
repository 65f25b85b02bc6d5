#include "simdisk.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#include <algorithm>
#include <memory>

#include "seam_alloc.h"

#define WRAP(ret, name, ...)                   \
  extern "C" ret __real_##name(__VA_ARGS__);   \
  extern "C" ret __wrap_##name(__VA_ARGS__)

namespace sim {
namespace disk {
namespace {

thread_local jmp_buf* on_exit_jump = nullptr;
int exit_code = 0;
World* world = nullptr;
Config cfg;
State st;

struct Inode {
  Bytes data;
};
std::map<std::string, std::shared_ptr<Inode>> names;
struct Handle {
  bool used = false;
  std::shared_ptr<Inode> node;
  uint64_t pos = 0;
  bool rd = false, wr = false, append = false;
  FILE* file = nullptr;
  std::vector<char> buffer;   // of the stream
  uint64_t written_from = 0;   // what this handle wrote since, and may lose on close
};
std::vector<Handle> handles;
std::vector<std::vector<char>> retired;
const int kFdBase = 1 << 20;

bool On() { return world && alloc::in_sut; }

// True: this operation fails hard.
bool Fault(const char* what) {
  ++st.ops;
  world->tick();
  bool f;
  if (cfg.only_op) f = st.ops >= cfg.only_op && st.ops - cfg.only_op < cfg.burst;
  else f = cfg.fault && world->flip(FAULT, cfg.fault, 256);
  if (f) {
    ++st.hard_faults;
    world->fault(what);
  }
  return f;
}

int OpenHandle(const std::string& path, bool rd, bool wr, bool create, bool trunc, bool append, bool excl) {
  if (Fault("open_failed")) {
    errno = wr ? EACCES : EMFILE;
    return -1;
  }
  auto it = names.find(path);
  if (it == names.end()) {
    if (!create) {
      errno = ENOENT;
      world->ev("open-missing", 0);
      return -1;
    }
    it = names.emplace(path, std::make_shared<Inode>()).first;
  } else if (excl) {
    errno = EEXIST;
    return -1;
  }
  if (trunc && wr) it->second->data.clear();
  size_t k = 0;
  while (k < handles.size() && handles[k].used) ++k;
  if (k == handles.size()) handles.emplace_back();
  Handle& h = handles[k];
  h = Handle();
  h.used = true;
  h.node = it->second;
  h.rd = rd;
  h.wr = wr;
  h.append = append;
  h.written_from = h.node->data.size();
  ++st.opened;
  ++st.open_now;
  world->ev("open", rd + 2 * wr, k, h.node->data.size());
  return kFdBase + k;
}
Handle* Find(int fd) {
  size_t k = fd - kFdBase;
  if (fd < kFdBase || k >= handles.size() || !handles[k].used) return nullptr;
  return &handles[k];
}

ssize_t DoRead(Handle* h, void* buf, size_t n, bool buffered) {
  if (!h->rd) {
    errno = EBADF;
    return -1;
  }
  if (Fault("read_error")) {
    errno = EIO;
    return -1;
  }
  size_t left = h->pos < h->node->data.size() ? h->node->data.size() - h->pos : 0;
  size_t m = std::min(n, left);
  if (m > 1 && cfg.slow && world->flip(FAULT, cfg.slow, 64)) {
    m = 1 + world->pick(FAULT, m - 1);
    world->fault("short_read");
  }
  if (m) memcpy(buf, h->node->data.data() + h->pos, m);
  h->pos += m;
  world->ev("read", n, m);
  return m;
}
ssize_t DoWrite(Handle* h, const void* buf, size_t n, bool buffered) {
  if (!h->wr) {
    errno = EBADF;
    return -1;
  }
  if (n == 0) return 0;
  size_t m = n;
  bool bad = false;
  if (Fault("write_error")) {
    bad = true;
    m = world->flip(FAULT, 1, 2) ? 0 : world->pick(FAULT, n);
    errno = EIO;
  } else if (!buffered && m > 1 && cfg.slow && world->flip(FAULT, cfg.slow, 64)) {
    m = 1 + world->pick(FAULT, m - 1);
    world->fault("short_write");
  }
  if (h->append) h->pos = h->node->data.size();
  if (m > cfg.free_bytes) {
    m = cfg.free_bytes;
    bad = true;
    errno = ENOSPC;
    world->fault("disk_full");
    ++st.hard_faults;
    if (cfg.refused != ~uint64_t(0) && cfg.refused-- == 0) {
      cfg.free_bytes = cfg.refused = ~uint64_t(0);
      world->fault("disk_has_room_again");
    }
  }
  if (cfg.free_bytes != ~uint64_t(0)) cfg.free_bytes -= m;
  Bytes& d = h->node->data;
  if (h->pos + m > d.size()) d.resize(h->pos + m);
  h->written_from = std::min<uint64_t>(h->written_from, h->pos);
  if (m) memcpy(d.data() + h->pos, buf, m);
  h->pos += m;
  world->ev("write", n, m, bad);
  // What went through before the failure is reported first.
  if (bad && m == 0) return -1;
  return m;
}
int64_t DoSeek(Handle* h, int64_t off, int whence) {
  if (!cfg.seekable && !h->wr) {
    errno = ESPIPE;
    ++st.hard_faults;
    world->fault("not_seekable");
    return -1;
  }
  if (Fault("seek_error")) {
    errno = EIO;
    return -1;
  }
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)h->pos : (int64_t)h->node->data.size();
  if (base + off < 0) {
    errno = EINVAL;
    return -1;
  }
  h->pos = base + off;
  world->ev("seek", h->pos);
  return h->pos;
}
int DoClose(Handle* h) {
  int rc = 0;
  if (h->wr && Fault("close_error")) {
    // Write-back failed: the tail of what was written is gone.
    Bytes& d = h->node->data;
    if (d.size() > h->written_from) d.resize(h->written_from + world->pick(FAULT, d.size() - h->written_from));
    errno = EIO;
    rc = -1;
  } else if (!h->wr && cfg.fault && Fault("close_error")) {
    errno = EIO;
    rc = -1;
  }
  world->ev("close", rc == 0);
  --st.open_now;
  retired.push_back(std::move(h->buffer));   // stdio may still look at it
  *h = Handle();
  return rc;
}

Handle* Cookie(void* c) { return Find((int)(intptr_t)c); }
ssize_t CookieRead(void* c, char* b, size_t n) { HostScope host; return DoRead(Cookie(c), b, n, true); }
ssize_t CookieWrite(void* c, const char* b, size_t n) {
  HostScope host;
  ssize_t r = DoWrite(Cookie(c), b, n, true);
  return r < 0 ? 0 : r;   // fopencookie: 0 is the error
}
int CookieSeek(void* c, off64_t* off, int whence) {
  HostScope host;
  int64_t r = DoSeek(Cookie(c), *off, whence);
  if (r < 0) return -1;
  *off = r;
  return 0;
}
int CookieClose(void* c) { HostScope host; return DoClose(Cookie(c)); }

bool ParseMode(const char* mode, bool* rd, bool* wr, bool* create, bool* trunc, bool* append, bool* excl) {
  bool plus = strchr(mode, '+') != nullptr;
  *rd = mode[0] == 'r' || plus;
  *wr = mode[0] != 'r' || plus;
  *create = mode[0] != 'r';
  *trunc = mode[0] == 'w';
  *append = mode[0] == 'a';
  *excl = strchr(mode, 'x') != nullptr;
  return mode[0] == 'r' || mode[0] == 'w' || mode[0] == 'a';
}
FILE* Stream(int fd, const char* mode) {
  cookie_io_functions_t io = {CookieRead, CookieWrite, CookieSeek, CookieClose};
  FILE* f = fopencookie((void*)(intptr_t)fd, mode, io);
  if (f) Find(fd)->file = f;
  if (f && cfg.buffer) {
    Handle* h = Find(fd);
    h->buffer.resize(cfg.buffer);
    setvbuf(f, h->buffer.data(), _IOFBF, cfg.buffer);
  }
  return f;
}
FILE* OpenStream(const char* path, const char* mode) {
  HostScope host;
  bool rd, wr, create, trunc, append, excl;
  if (!ParseMode(mode, &rd, &wr, &create, &trunc, &append, &excl)) {
    errno = EINVAL;
    return nullptr;
  }
  int fd = OpenHandle(path, rd, wr, create, trunc, append, excl);
  return fd < 0 ? nullptr : Stream(fd, mode);
}
int OpenFd(const char* path, int flags) {
  HostScope host;
  int acc = flags & O_ACCMODE;
  return OpenHandle(path, acc != O_WRONLY, acc != O_RDONLY, flags & O_CREAT, flags & O_TRUNC, flags & O_APPEND,
                    (flags & O_CREAT) && (flags & O_EXCL));
}
void FillStat(const Inode& n, struct stat* s) {
  memset(s, 0, sizeof(*s));
  s->st_mode = S_IFREG | 0644;
  s->st_nlink = 1;
  s->st_size = n.data.size();
  s->st_blksize = 4096;
  s->st_blocks = (n.data.size() + 511) / 512;
}

}  // namespace

void Mount(World* w, const Config& c) {
  world = w;
  cfg = c;
  st = State();
  names.clear();
  handles.clear();
  retired.clear();
}
void SetConfig(const Config& c) {
  cfg = c;
  st.ops = st.hard_faults = 0;
}
State& Get() {
  st.files.clear();
  for (auto& n : names) st.files[n.first] = n.second->data;
  return st;
}
void Put(const std::string& name, const Bytes& data) {
  auto n = std::make_shared<Inode>();
  n->data = data;
  names[name] = n;
}
int RunProcess(int (*body)(void*), void* arg) {
  jmp_buf env;
  int saved = alloc::in_sut;
  if (setjmp(env)) {
    on_exit_jump = nullptr;
    alloc::in_sut = saved;
    return exit_code;
  }
  on_exit_jump = &env;
  int rc = body(arg);
  on_exit_jump = nullptr;
  return rc;
}
void ProcessExit() {
  for (size_t k = 0; k < handles.size(); ++k) {
    if (!handles[k].used) continue;
    world->probe("left_open_at_exit");
    if (handles[k].file) fclose(handles[k].file);
    else DoClose(&handles[k]);
  }
}
void Unmount() {
  if (world) {
    cfg = Config();
    ProcessExit();
  }
  world = nullptr;
  names.clear();
  handles.clear();
  retired.clear();
}
}  // namespace disk
}  // namespace sim

using namespace sim;
using namespace sim::disk;

WRAP(FILE*, fopen, const char* p, const char* m) { return On() ? OpenStream(p, m) : __real_fopen(p, m); }
WRAP(FILE*, fopen64, const char* p, const char* m) { return On() ? OpenStream(p, m) : __real_fopen64(p, m); }
WRAP(FILE*, fdopen, int fd, const char* m) { return Find(fd) ? disk::Stream(fd, m) : __real_fdopen(fd, m); }
WRAP(int, fileno, FILE* f) {
  if (world) for (size_t k = 0; k < handles.size(); ++k) if (handles[k].used && handles[k].file == f) return kFdBase + k;
  return __real_fileno(f);
}
WRAP(long, ftell, FILE* f) {
  if (On() && cfg.weird_size) {
    HostScope host;
    world->fault("position_unknown");
    ++st.hard_faults;
    errno = EOVERFLOW;
    return -1;
  }
  return __real_ftell(f);
}
WRAP(off_t, ftello, FILE* f) {
  if (On() && cfg.weird_size) return __wrap_ftell(f);
  return __real_ftello(f);
}
WRAP(off_t, ftello64, FILE* f) {
  if (On() && cfg.weird_size) return __wrap_ftell(f);
  return __real_ftello64(f);
}
extern "C" int __real_open(const char*, int, ...);
extern "C" int __wrap_open(const char* p, int flags, ...) {
  mode_t mode = 0;
  if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, unsigned); va_end(ap); }
  return On() ? OpenFd(p, flags) : __real_open(p, flags, mode);
}
extern "C" int __real_open64(const char*, int, ...);
extern "C" int __wrap_open64(const char* p, int flags, ...) {
  mode_t mode = 0;
  if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, unsigned); va_end(ap); }
  return On() ? OpenFd(p, flags) : __real_open64(p, flags, mode);
}
WRAP(int, creat, const char* p, mode_t m) { return On() ? OpenFd(p, O_CREAT | O_WRONLY | O_TRUNC) : __real_creat(p, m); }
WRAP(int, close, int fd) { HostScope host; Handle* h = Find(fd); return h ? DoClose(h) : __real_close(fd); }
WRAP(ssize_t, read, int fd, void* b, size_t n) { HostScope host; Handle* h = Find(fd); return h ? DoRead(h, b, n, false) : __real_read(fd, b, n); }
WRAP(ssize_t, write, int fd, const void* b, size_t n) {
  HostScope host;
  Handle* h = Find(fd);
  return h ? DoWrite(h, b, n, false) : __real_write(fd, b, n);
}
WRAP(ssize_t, readv, int fd, const struct iovec* v, int n) {
  HostScope host;
  Handle* h = Find(fd);
  if (!h) return __real_readv(fd, v, n);
  return n ? DoRead(h, v[0].iov_base, v[0].iov_len, false) : 0;
}
WRAP(ssize_t, writev, int fd, const struct iovec* v, int n) {
  HostScope host;
  Handle* h = Find(fd);
  if (!h) return __real_writev(fd, v, n);
  ssize_t total = 0;
  for (int i = 0; i < n; ++i) {
    if (!v[i].iov_len) continue;
    ssize_t r = DoWrite(h, v[i].iov_base, v[i].iov_len, false);
    if (r < 0) return total ? total : -1;
    total += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return total;
}
WRAP(off_t, lseek, int fd, off_t o, int wh) { HostScope host; Handle* h = Find(fd); return h ? DoSeek(h, o, wh) : __real_lseek(fd, o, wh); }
WRAP(off_t, lseek64, int fd, off_t o, int wh) { HostScope host; Handle* h = Find(fd); return h ? DoSeek(h, o, wh) : __real_lseek64(fd, o, wh); }
WRAP(int, fstat, int fd, struct stat* s) {
  HostScope host;
  Handle* h = Find(fd);
  if (!h) return __real_fstat(fd, s);
  if (Fault("stat_error")) { errno = EIO; return -1; }
  FillStat(*h->node, s);
  return 0;
}
WRAP(int, fstat64, int fd, struct stat* s) { return __wrap_fstat(fd, s); }
WRAP(int, stat, const char* p, struct stat* s) {
  if (!On()) return __real_stat(p, s);
  HostScope host;
  if (Fault("stat_error")) { errno = EIO; return -1; }
  auto it = names.find(p);
  if (it == names.end()) { errno = ENOENT; return -1; }
  FillStat(*it->second, s);
  return 0;
}
WRAP(int, stat64, const char* p, struct stat* s) { return On() ? __wrap_stat(p, s) : __real_stat64(p, s); }
WRAP(int, fsync, int fd) {
  HostScope host;
  Handle* h = Find(fd);
  if (!h) return __real_fsync(fd);
  if (Fault("sync_error")) { errno = EIO; return -1; }
  h->written_from = h->node->data.size();
  return 0;
}
WRAP(int, fdatasync, int fd) { return Find(fd) ? __wrap_fsync(fd) : __real_fdatasync(fd); }
WRAP(int, ftruncate, int fd, off_t n) {
  HostScope host;
  Handle* h = Find(fd);
  if (!h) return __real_ftruncate(fd, n);
  if (Fault("truncate_error")) { errno = EIO; return -1; }
  h->node->data.resize(n);
  return 0;
}
WRAP(int, ftruncate64, int fd, off_t n) { return Find(fd) ? __wrap_ftruncate(fd, n) : __real_ftruncate64(fd, n); }
WRAP(int, rename, const char* a, const char* b) {
  if (!On()) return __real_rename(a, b);
  HostScope host;
  if (Fault("rename_error")) { errno = EIO; return -1; }
  auto it = names.find(a);
  if (it == names.end()) { errno = ENOENT; return -1; }
  std::shared_ptr<Inode> n = it->second;
  names.erase(it);
  names[b] = n;
  world->ev("rename", 0);
  return 0;
}
WRAP(int, unlink, const char* a) {
  if (!On()) return __real_unlink(a);
  HostScope host;
  if (Fault("unlink_error")) { errno = EIO; return -1; }
  world->ev("unlink", 0);
  if (!names.erase(a)) { errno = ENOENT; return -1; }
  return 0;
}
WRAP(int, remove, const char* a) { return On() ? __wrap_unlink(a) : __real_remove(a); }
WRAP(int, access, const char* p, int m) {
  if (!On()) return __real_access(p, m);
  HostScope host;
  if (names.count(p)) return 0;
  errno = ENOENT;
  return -1;
}
// The end of the process under test is not the end of the simulator. No
// unwinding, as in reality.
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int code) __attribute__((noreturn));
void __wrap_exit(int code) {
  if (On() && on_exit_jump) {
    exit_code = code;
    longjmp(*on_exit_jump, 1);
  }
  __real_exit(code);
}
