// Seeded search, replay and minimisation.
//
//   sim list
//   sim explore SCENARIO SEED WORKER NWORKERS SECONDS MAXRUNS OUTDIR [KNOWN]
//   sim capture SCENARIO SEED RUN OUT        one run by number, in a new process
//   sim history SCENARIO SEED FIRST LAST OUT  a sequence of runs in one process
//   sim replay FILE [-v]                     exit 1 if the violation reproduces
//   sim minimise FILE OUT SECONDS
//   sim hashes SCENARIO SEED FIRST LAST      event hash per run
//
// Runs execute in forked children, so a crash or a hang of the code under test
// is an outcome like any other.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <fstream>
#include <new>
#include <sstream>

#include "core.h"
#include "seam_alloc.h"

using namespace sim;

namespace {

enum Code { OK = 0, VIOL = 1, DISCARD = 2, RUNNING = 3 };

struct Entry {
  uint8_t s;
  uint64_t k, v;
};
const size_t kMaxEntries = 3u << 20;
struct Shared {
  uint64_t run;
  uint64_t started;    // wall clock second at which the run started
  int code;
  char kind[160];
  char detail[1200];
  uint64_t hash, ticks, events;
  uint64_t runs_done, sum_ticks, sum_events, discards;
  uint64_t stop;       // set by the child when it stopped by itself
  uint64_t known;
  uint64_t ntable;
  uint64_t log_len, text_len;
  uint64_t nhashes;
  uint64_t hashes[1 << 14];
  char text[1 << 18];   // counters, "f name n" / "p name n" / "s sample"
  char log[1 << 20];
  Entry table[kMaxEntries];
};
Shared* sh;

void SharedTap(int s, uint64_t k, uint64_t v) {
  uint64_t n = sh->ntable;
  if (n >= kMaxEntries) return;
  sh->table[n].s = s;
  sh->table[n].k = k;
  sh->table[n].v = v;
  sh->ntable = n + 1;
}

void SetKind(const char* kind, const char* detail) {
  snprintf(sh->kind, sizeof(sh->kind), "%s", kind);
  snprintf(sh->detail, sizeof(sh->detail), "%s", detail);
  for (char* p = sh->detail; *p; ++p)
    if (*p == '\n') *p = ' ';
}

int cpu_limit = 20;
void OnCpu(int) {
  SetKind("hang", "run used up its CPU budget without finishing");
  sh->code = VIOL;
  _exit(78);
}
void Watchdog(int seconds) {
  struct itimerval it;
  memset(&it, 0, sizeof(it));
  it.it_value.tv_sec = seconds;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

struct Outcome {
  int code = OK;
  std::string kind, detail;
  uint64_t hash = 0, ticks = 0, events = 0;
};

Outcome ExecOnce(const Scenario& sc, World& w) {
  Outcome o;
  alloc::in_sut = 0;
  Watchdog(cpu_limit);
  try {
    sc.run(w);
  } catch (const Violation& v) {
    o.code = VIOL;
    o.kind = v.kind;
    o.detail = v.detail;
  } catch (const Discard& d) {
    o.code = DISCARD;
    o.detail = d.why;
  } catch (const std::exception& e) {
    o.code = VIOL;
    o.kind = "exception";
    o.detail = e.what();
  } catch (...) {
    o.code = VIOL;
    o.kind = "exception";
    o.detail = "non-standard exception";
  }
  Watchdog(0);
  alloc::in_sut = 0;
  if (w.violated) {
    o.code = VIOL;
    o.kind = w.first.kind;
    o.detail = w.first.detail;
  }
  alloc::End();
  alloc::Forget();
  o.hash = w.hash();
  o.ticks = w.time();
  o.events = w.events();
  return o;
}

World MakeSeeded(const Scenario& sc, uint64_t seed, uint64_t run) {
  uint64_t base = Mix2(seed, HashBytes(reinterpret_cast<const uint8_t*>(sc.name), strlen(sc.name)));
  return World(Mix2(base, run), Mix2(base + 1, run / sc.work_share));
}

// A leak only counts if it happens again when the very same run is repeated:
// one-time caches are not leaks.
template <typename M>
Outcome Exec(const Scenario& sc, const M& make, World* out) {
  *out = make();
  Outcome o = ExecOnce(sc, *out);
  if (o.code == VIOL && o.kind.compare(0, 4, "leak") == 0) {
    *out = make();
    o = ExecOnce(sc, *out);
  }
  return o;
}

void Publish(const Outcome& o) {
  SetKind(o.kind.c_str(), o.detail.c_str());
  sh->hash = o.hash;
  sh->ticks = o.ticks;
  sh->events = o.events;
  sh->code = o.code;
}

void ChildSetup(int err_fd) {
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  signal(SIGVTALRM, OnCpu);
  if (err_fd >= 0) {
    dup2(err_fd, 2);
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
  }
}

int MakeErrFile(char* path) {
  strcpy(path, "/tmp/simerr.XXXXXX");
  int fd = mkstemp(path);
  if (fd >= 0) unlink(path);
  return fd;
}

// Turns an abnormal exit into a violation kind.
void ClassifyDeath(int status, int err_fd, bool wall) {
  if (wall) {
    SetKind("hang", "run blocked without using CPU");
    sh->code = VIOL;
    return;
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 78) return;  // already filled in
  std::string text;
  if (err_fd >= 0) {
    lseek(err_fd, 0, SEEK_SET);
    char b[4096];
    ssize_t n;
    while ((n = read(err_fd, b, sizeof(b))) > 0 && text.size() < (1 << 20)) text.append(b, n);
  }
  std::string kind = "crash", detail;
  size_t p = text.find("AddressSanitizer:");
  if (p != std::string::npos) {
    std::string rest = text.substr(p + 18, 60);
    size_t sp = rest.find_first_of(" \n");
    kind = "crash:" + rest.substr(0, sp);
    size_t s = text.find("SUMMARY:");
    detail = s == std::string::npos ? rest : text.substr(s, std::min<size_t>(300, text.find('\n', s) - s));
  } else if (WIFSIGNALED(status)) {
    kind = Fmt("crash:signal-%d", WTERMSIG(status));
    detail = text.substr(0, 300);
  } else {
    kind = Fmt("crash:exit-%d", WEXITSTATUS(status));
    detail = text.substr(0, 300);
  }
  SetKind(kind.c_str(), detail.c_str());
  sh->code = VIOL;
}

// Waits for `pid`; kills it if it neither ends nor uses CPU.
int WaitChild(pid_t pid, bool* wall) {
  *wall = false;
  int status = 0;
  uint64_t last_run = ~0ull;
  time_t since = time(nullptr);
  long last_cpu = -1;
  useconds_t nap = 200;
  for (;;) {
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) return status;
    usleep(nap);
    if (nap < 20000) nap = nap * 3 / 2;
    if (nap >= 20000) {
      char path[64];
      snprintf(path, sizeof(path), "/proc/%d/stat", (int)pid);
      FILE* f = fopen(path, "r");
      long ut = 0, st = 0;
      if (f) {
        if (fscanf(f, "%*d %*s %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %ld %ld", &ut, &st) != 2) ut = st = 0;
        fclose(f);
      }
      if (sh->run != last_run || ut + st != last_cpu) {
        last_run = sh->run;
        last_cpu = ut + st;
        since = time(nullptr);
      } else if (time(nullptr) - since > 40) {
        kill(pid, SIGKILL);
        waitpid(pid, &status, 0);
        *wall = true;
        return status;
      }
    }
  }
}

const Scenario& FindScenario(const char* name) {
  for (const Scenario& s : Scenarios())
    if (!strcmp(s.name, name)) return s;
  fprintf(stderr, "no scenario %s\n", name);
  exit(3);
}

// ---------------------------------------------------------------- replay file
struct Replay {
  std::string mode = "table";   // or "history"
  std::string scenario, kind, detail, header;
  uint64_t seed = 0, run = 0, first = 0;
  uint64_t hash = 0;
  Table table;
  std::vector<std::string> trace;
  Replay() : table(NSTREAMS) {}
};

bool LoadReplay(const char* path, Replay* r) {
  std::ifstream f(path);
  if (!f) return false;
  std::string line;
  while (std::getline(f, line)) {
    if (line.empty()) continue;
    if (line[0] == '#') {
      if (line.compare(0, 3, "#! ") == 0) r->header += line + "\n";
      continue;
    }
    std::istringstream is(line);
    std::string key;
    is >> key;
    if (key == "mode") is >> r->mode;
    else if (key == "scenario") is >> r->scenario;
    else if (key == "kind") is >> r->kind;
    else if (key == "detail") { std::getline(is, r->detail); if (!r->detail.empty()) r->detail.erase(0, 1); }
    else if (key == "seed") is >> r->seed;
    else if (key == "run") is >> r->run;
    else if (key == "first") is >> r->first;
    else if (key == "hash") is >> std::hex >> r->hash;
    else if (key == "d") {
      std::string s;
      uint64_t k, v;
      is >> s >> k >> v;
      for (int i = 0; i < NSTREAMS; ++i)
        if (s == kStreamNames[i]) r->table[i][k] = v;
    }
  }
  return !r->scenario.empty();
}

void SaveReplay(const char* path, const Replay& r) {
  std::string tmp = std::string(path) + ".tmp";
  {
    std::ofstream f(tmp);
    f << r.header;
    f << "mode " << r.mode << "\nscenario " << r.scenario << "\nkind " << r.kind << "\ndetail " << r.detail
      << "\nseed " << r.seed << "\nrun " << r.run << "\nfirst " << r.first << "\nhash " << std::hex << r.hash
      << std::dec << "\n";
    for (int s = 0; s < NSTREAMS; ++s)
      for (auto& kv : r.table[s]) f << "d " << kStreamNames[s] << " " << kv.first << " " << kv.second << "\n";
    for (auto& l : r.trace) f << "# " << l << "\n";
  }
  rename(tmp.c_str(), path);
}

// ------------------------------------------------------------------- attempts
// Runs `make()`'s world in a forked child. Outcome in *sh.
template <typename M>
void Attempt(const Scenario& sc, const M& make, bool verbose, bool record) {
  char path[64];
  int fd = MakeErrFile(path);
  sh->code = RUNNING;
  sh->ntable = 0;
  sh->log_len = 0;
  sh->hash = 0;
  sh->run++;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    ChildSetup(fd);
    World w(Table{});
    auto mk = [&]() {
      World x = make();
      x.verbose = verbose;
      sh->ntable = 0;
      if (record) x.tap = SharedTap;
      return x;
    };
    Outcome o = Exec(sc, mk, &w);
    if (verbose) {
      for (auto& l : w.log) {
        if (sh->log_len + l.size() + 2 > sizeof(sh->log)) break;
        memcpy(sh->log + sh->log_len, l.data(), l.size());
        sh->log_len += l.size();
        sh->log[sh->log_len++] = '\n';
      }
    }
    Publish(o);
    _exit(0);
  }
  bool wall;
  int status = WaitChild(pid, &wall);
  if (sh->code == RUNNING || (WIFSIGNALED(status) && sh->code != VIOL)) ClassifyDeath(status, fd, wall);
  if (fd >= 0) close(fd);
}

Table TableFromShared() {
  Table t(NSTREAMS);
  for (uint64_t i = 0; i < sh->ntable; ++i) t[sh->table[i].s][sh->table[i].k] = sh->table[i].v;
  return t;
}

int Capture(const char* name, uint64_t seed, uint64_t run, const char* out) {
  const Scenario& sc = FindScenario(name);
  Attempt(sc, [&]() { return MakeSeeded(sc, seed, run); }, false, true);
  Replay r;
  r.scenario = name;
  r.seed = seed;
  r.run = r.first = run;
  r.kind = sh->kind;
  r.detail = sh->detail;
  r.hash = sh->hash;
  r.table = TableFromShared();
  if (sh->code != VIOL) {
    printf("outcome %s\n", sh->code == OK ? "ok" : "discard");
    return 0;
  }
  SaveReplay(out, r);
  printf("outcome violation %s | %s | %016llx\n", sh->kind, sh->detail, (unsigned long long)sh->hash);
  return 1;
}

// Runs first..last in one child; violation must be in `last`.
void AttemptHistory(const Scenario& sc, uint64_t seed, uint64_t first, uint64_t last) {
  char path[64];
  int fd = MakeErrFile(path);
  sh->code = RUNNING;
  sh->hash = 0;
  pid_t pid = fork();
  if (pid == 0) {
    ChildSetup(fd);
    for (uint64_t r = first; r <= last; ++r) {
      sh->run = r;
      World w(Table{});
      Outcome o = Exec(sc, [&]() { return MakeSeeded(sc, seed, r); }, &w);
      if (o.code == VIOL || r == last) {
        if (r != last) { o.code = OK; }
        Publish(o);
        break;
      }
    }
    _exit(0);
  }
  bool wall;
  int status = WaitChild(pid, &wall);
  if (sh->code == RUNNING || (WIFSIGNALED(status) && sh->code != VIOL)) ClassifyDeath(status, fd, wall);
  if (fd >= 0) close(fd);
}

int DoHistory(const char* name, uint64_t seed, uint64_t first, uint64_t last, const char* out) {
  const Scenario& sc = FindScenario(name);
  AttemptHistory(sc, seed, first, last);
  if (sh->code != VIOL) {
    printf("outcome ok\n");
    return 0;
  }
  Replay r;
  r.mode = "history";
  r.scenario = name;
  r.seed = seed;
  r.run = last;
  r.first = first;
  r.kind = sh->kind;
  r.detail = sh->detail;
  r.hash = sh->hash;
  SaveReplay(out, r);
  printf("outcome violation %s | %s | %016llx\n", sh->kind, sh->detail, (unsigned long long)sh->hash);
  return 1;
}

int DoReplay(const char* path, bool verbose) {
  Replay r;
  if (!LoadReplay(path, &r)) {
    fprintf(stderr, "cannot read %s\n", path);
    return 3;
  }
  const Scenario& sc = FindScenario(r.scenario.c_str());
  if (r.mode == "history") AttemptHistory(sc, r.seed, r.first, r.run);
  else Attempt(sc, [&]() { return World(r.table); }, verbose, false);
  if (verbose) fwrite(sh->log, 1, sh->log_len, stdout);
  if (sh->code != VIOL) {
    printf("outcome %s | | %016llx\n", sh->code == OK ? "ok" : "discard", (unsigned long long)sh->hash);
    return 0;
  }
  printf("outcome violation %s | %s | %016llx\n", sh->kind, sh->detail, (unsigned long long)sh->hash);
  return sh->kind == r.kind ? 1 : 2;
}

double Now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

int Minimise(const char* in, const char* out, double seconds) {
  Replay r;
  if (!LoadReplay(in, &r)) return 3;
  const Scenario& sc = FindScenario(r.scenario.c_str());
  cpu_limit = 10;
  typedef std::pair<int, uint64_t> Key;
  auto keys = [](const Table& t) {
    std::vector<Key> ks;
    // Faults and schedules first: they are the most interesting to lose.
    static const int order[] = {SCHED, ALLOC, FAULT, OUT, IN, CFG, MUT, WORK};
    for (int s : order)
      for (auto& kv : t[s]) ks.push_back(Key(s, kv.first));
    return ks;
  };
  uint64_t attempts = 0;
  double t0 = Now();
  auto fails = [&](const Table& t) {
    ++attempts;
    Attempt(sc, [&]() { return World(t); }, false, true);
    return sh->code == VIOL && r.kind == sh->kind;
  };
  Table best = r.table;
  if (!fails(best)) return 2;
  best = TableFromShared();  // only what was really consulted
  bool progress = true;
  while (progress && Now() - t0 < seconds) {
    progress = false;
    // Drop whole streams, then chunks of ever smaller size.
    std::vector<Key> ks = keys(best);
    for (size_t chunk = std::max<size_t>(1, ks.size()); chunk >= 1; chunk /= 2) {
      ks = keys(best);
      for (size_t i = 0; i < ks.size() && Now() - t0 < seconds;) {
        Table t = best;
        size_t e = std::min(ks.size(), i + chunk);
        for (size_t j = i; j < e; ++j) t[ks[j].first].erase(ks[j].second);
        if (fails(t)) {
          best = TableFromShared();
          ks = keys(best);
          progress = true;
        } else {
          i += chunk;
        }
      }
      if (chunk == 1) break;
    }
    // Smaller values.
    ks = keys(best);
    for (size_t i = 0; i < ks.size() && Now() - t0 < seconds; ++i) {
      auto it = best[ks[i].first].find(ks[i].second);
      if (it == best[ks[i].first].end()) continue;
      uint64_t v = it->second;
      uint64_t lo = 0;  // known not to fail (removal was tried)
      while (v - lo > 1 && Now() - t0 < seconds) {
        uint64_t mid = lo + (v - lo) / 2;
        Table t = best;
        t[ks[i].first][ks[i].second] = mid;
        if (fails(t)) {
          best = TableFromShared();
          progress = true;
          auto jt = best[ks[i].first].find(ks[i].second);
          if (jt == best[ks[i].first].end()) break;
          v = jt->second;
        } else {
          lo = mid;
        }
      }
    }
  }
  cpu_limit = 20;
  Attempt(sc, [&]() { return World(best); }, true, false);
  if (sh->code != VIOL || r.kind != sh->kind) return 2;
  r.table = best;
  r.detail = sh->detail;
  r.hash = sh->hash;
  r.trace.clear();
  r.trace.push_back(Fmt("minimised in %llu attempts", (unsigned long long)attempts));
  std::istringstream is(std::string(sh->log, sh->log_len));
  std::string line;
  size_t n = 0;
  while (std::getline(is, line) && n++ < 4000) r.trace.push_back(line);
  SaveReplay(out, r);
  printf("outcome violation %s | %s | %016llx\n", sh->kind, sh->detail, (unsigned long long)sh->hash);
  return 1;
}

int Hashes(const char* name, uint64_t seed, uint64_t first, uint64_t last) {
  const Scenario& sc = FindScenario(name);
  ChildSetup(-1);
  for (uint64_t r = first; r < last; ++r) {
    World w(Table{});
    Outcome o = Exec(sc, [&]() { return MakeSeeded(sc, seed, r); }, &w);
    printf("%llu %016llx %d %s\n", (unsigned long long)r, (unsigned long long)o.hash, o.code, o.kind.c_str());
  }
  return 0;
}

// -------------------------------------------------------------------- explore
struct Known {
  std::string kind, substr;
};

int Explore(const char* name, uint64_t seed, uint64_t worker, uint64_t nworkers, double seconds,
            uint64_t max_runs, const std::string& outdir, const char* known_path) {
  const Scenario& sc = FindScenario(name);
  std::vector<Known> known;
  if (known_path) {
    std::ifstream f(known_path);
    std::string line;
    while (std::getline(f, line)) {
      size_t p = line.find('|');
      if (p != std::string::npos) known.push_back(Known{line.substr(0, p), line.substr(p + 1)});
    }
  }
  auto is_known = [&](const char* kind, const char* detail) {
    for (auto& k : known)
      if (k.kind == kind && strstr(detail, k.substr.c_str())) return true;
    return false;
  };
  double t0 = Now();
  std::map<std::string, uint64_t> faults, probes;
  std::set<uint64_t> hashes;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> known_seen;
  uint64_t runs = 0, ticks = 0, events = 0, discards = 0;
  std::string violation;
  char path[64];
  uint64_t skip_run = ~0ull, resume = ~0ull;
  for (uint64_t batch = worker; violation.empty() && Now() - t0 < seconds && runs < max_runs;) {
    uint64_t first = batch * sc.batch, last = first + sc.batch;
    uint64_t begin = resume != ~0ull ? resume : first;
    resume = ~0ull;
    if (begin >= last) { batch += nworkers; continue; }
    int fd = MakeErrFile(path);
    sh->code = RUNNING;
    sh->runs_done = sh->sum_ticks = sh->sum_events = sh->discards = sh->nhashes = 0;
    sh->text_len = 0;
    sh->known = 0;
    sh->stop = 0;
    pid_t pid = fork();
    if (pid == 0) {
      ChildSetup(fd);
      std::map<std::string, uint64_t> f, p;
      for (uint64_t r = begin; r < last; ++r) {
        sh->run = r;
        if (runs + sh->runs_done >= max_runs || Now() - t0 >= seconds) break;
        World w(Table{});
        bool sample = samples.size() < 3 && worker < 2 && r < first + 3;
        Outcome o = Exec(sc, [&]() {
          World x = MakeSeeded(sc, seed, r);
          x.verbose = sample;
          return x;
        }, &w);
        sh->runs_done++;
        sh->sum_ticks += o.ticks;
        sh->sum_events += o.events;
        if (o.code == DISCARD) {
          sh->discards++;
          p["discard:" + o.detail]++;
        } else if (sh->nhashes < (1 << 14)) {
          sh->hashes[sh->nhashes++] = o.hash;
        }
        for (auto& kv : w.faults) f[kv.first] += kv.second;
        for (auto& kv : w.probes) p[kv.first] += kv.second;
        if (sample && o.code == OK) {
          std::string s;
          for (size_t i = 0; i < w.log.size() && i < 12; ++i) s += (i ? "; " : "") + w.log[i];
          s = Fmt("s run %llu: ", (unsigned long long)r) + s + "\n";
          if (sh->text_len + s.size() < sizeof(sh->text)) {
            memcpy(sh->text + sh->text_len, s.data(), s.size());
            sh->text_len += s.size();
          }
        }
        if (o.code == VIOL) {
          if (is_known(o.kind.c_str(), o.detail.c_str())) {
            p["known:" + o.kind]++;
            continue;
          }
          Publish(o);
          sh->stop = 1;
          break;
        }
      }
      for (int pass = 0; pass < 2; ++pass) {
        for (auto& kv : pass ? p : f) {
          std::string s = Fmt("%c %llu ", pass ? 'p' : 'f', (unsigned long long)kv.second) + kv.first + "\n";
          if (sh->text_len + s.size() < sizeof(sh->text)) {
            memcpy(sh->text + sh->text_len, s.data(), s.size());
            sh->text_len += s.size();
          }
        }
      }
      if (!sh->stop) sh->code = OK;
      _exit(0);
    }
    bool wall;
    int status = WaitChild(pid, &wall);
    if (sh->code == RUNNING || (WIFSIGNALED(status) && sh->code != VIOL) ||
        (WIFEXITED(status) && WEXITSTATUS(status) != 0 && sh->code != VIOL)) {
      ClassifyDeath(status, fd, wall);
      sh->runs_done++;
    }
    if (fd >= 0) close(fd);
    runs += sh->runs_done;
    ticks += sh->sum_ticks;
    events += sh->sum_events;
    discards += sh->discards;
    for (uint64_t i = 0; i < sh->nhashes; ++i) hashes.insert(sh->hashes[i]);
    std::istringstream is(std::string(sh->text, sh->text_len));
    std::string line;
    while (std::getline(is, line)) {
      if (line[0] == 's') {
        samples.push_back(line.substr(2));
        continue;
      }
      char t;
      unsigned long long n;
      int off = 0;
      if (sscanf(line.c_str(), "%c %llu %n", &t, &n, &off) >= 2) (t == 'f' ? faults : probes)[line.substr(off)] += n;
    }
    if (sh->code == VIOL) {
      if (is_known(sh->kind, sh->detail)) {
        probes[std::string("known:") + sh->kind]++;
        resume = sh->run + 1;
        continue;
      }
      violation = Fmt("run %llu first %llu ", (unsigned long long)sh->run, (unsigned long long)begin);
      violation += std::string(sh->kind) + " | " + sh->detail;
    }
    batch += nworkers;
  }
  (void)skip_run;
  std::string base = outdir + "/" + name + "." + std::to_string(worker);
  {
    FILE* f = fopen((base + ".hashes").c_str(), "wb");
    if (f) {
      for (uint64_t h : hashes) fwrite(&h, 8, 1, f);
      fclose(f);
    }
  }
  std::ofstream f(base + ".stats.tmp");
  f << "runs " << runs << "\nticks " << ticks << "\nevents " << events << "\ndiscards " << discards << "\nwall "
    << (Now() - t0) << "\n";
  for (auto& kv : faults) f << "f " << kv.second << " " << kv.first << "\n";
  for (auto& kv : probes) f << "p " << kv.second << " " << kv.first << "\n";
  for (auto& s : samples) f << "s " << s << "\n";
  if (!violation.empty()) f << "violation " << violation << "\n";
  f.close();
  rename((base + ".stats.tmp").c_str(), (base + ".stats").c_str());
  return violation.empty() ? 0 : 1;
}

}  // namespace

// For violations found where the stack must not be unwound (any simulated
// thread): report and end the process.
namespace sim {
void FatalViolation(World& w, const std::string& kind, const std::string& detail) {
  if (w.verbose) {
    for (auto& l : w.log) {
      if (sh->log_len + l.size() + 2 > sizeof(sh->log)) break;
      memcpy(sh->log + sh->log_len, l.data(), l.size());
      sh->log_len += l.size();
      sh->log[sh->log_len++] = '\n';
    }
  }
  SetKind(kind.c_str(), detail.c_str());
  sh->hash = w.hash();
  sh->ticks = w.time();
  sh->events = w.events();
  sh->code = VIOL;
  _exit(78);
}
}  // namespace sim

int main(int argc, char** argv) {
  // Same addresses in every process: one source of nondeterminism less.
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    setenv("SIM_NO_REEXEC", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (sh == MAP_FAILED) return 3;
  if (const char* e = getenv("SIM_CPU_LIMIT")) cpu_limit = atoi(e);
  std::string cmd = argc > 1 ? argv[1] : "";
  auto num = [&](int i) { return strtoull(argv[i], nullptr, 10); };
  if (cmd == "list") {
    for (auto& s : Scenarios()) printf("%s\n", s.name);
    return 0;
  }
  if (cmd == "explore" && argc >= 9)
    return Explore(argv[2], num(3), num(4), num(5), atof(argv[6]), num(7), argv[8], argc > 9 ? argv[9] : nullptr);
  if (cmd == "capture" && argc == 6) return Capture(argv[2], num(3), num(4), argv[5]);
  if (cmd == "history" && argc == 7) return DoHistory(argv[2], num(3), num(4), num(5), argv[6]);
  if (cmd == "replay" && argc >= 3) return DoReplay(argv[2], argc > 3);
  if (cmd == "minimise" && argc == 5) return Minimise(argv[2], argv[3], atof(argv[4]));
  if (cmd == "hashes" && argc == 6) return Hashes(argv[2], num(3), num(4), num(5));
  fprintf(stderr, "usage: see main.cc\n");
  return 3;
}
