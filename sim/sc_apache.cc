// The Apache module in a simulated httpd: requests of several connections are
// mapped to files one after another, or on threads of their own under the
// simulated scheduler, on a disk that fails.
#include <http_config.h>
#include <http_core.h>

#include <cstdarg>
#include <memory>

#include "codec.h"
#include "server_util.h"
#ifdef SIM_SCHED
#include "sched.h"
#endif

extern "C" module brunsli_module;
struct apr_pool_t {
  std::vector<void*> blocks;
};
struct apr_table_t {
  std::vector<std::pair<std::string, char*>> rows;
};

namespace sim {
namespace {

struct Hook {
  std::string kind;
  sim_request_hook fn;
  int order;
};
std::vector<Hook> g_hooks;

struct Request;
struct File {
  apr_filetype_e type = APR_NOFILE;
  int error = ENOENT;     // of stat, 0: exists
  Bytes data;
};
struct Request {
  request_rec r;
  apr_pool_t pool;
  apr_table_t in, out, err, env, notes;
  std::string root, accept, broken;
  bool has_accept = true;
  int translate_rc = 0;
  std::map<std::string, File>* disk;
  std::vector<std::vector<char>> strings;
  int rc = DECLINED;
  char* Keep(const std::string& s) {
    strings.emplace_back(s.begin(), s.end());
    strings.back().push_back(0);
    strings.back().shrink_to_fit();
    return strings.back().data();
  }
};
Request* Of(request_rec* r) { return reinterpret_cast<Request*>(r); }
thread_local Request* g_current;

void* Alloc(apr_pool_t* p, size_t n) {
  HostScope host;
  void* b = malloc(n ? n : 1);
  memset(b, 0xDB, n);
  p->blocks.push_back(b);
  return b;
}
void Put(apr_table_t* t, const char* key, const char* val, bool replace) {
  HostScope host;
  if (replace)
    for (auto& row : t->rows)
      if (!strcasecmp(row.first.c_str(), key)) {
        row.second = const_cast<char*>(val);
        return;
      }
  t->rows.emplace_back(key, const_cast<char*>(val));
}

}  // namespace
}  // namespace sim

extern "C" {
char* apr_pstrcat(apr_pool_t* p, ...) {
  std::string s;
  {
    sim::HostScope host;
    va_list ap;
    va_start(ap, p);
    while (const char* a = va_arg(ap, const char*)) s += a;
    va_end(ap);
  }
  char* d = (char*)apr_palloc(p, s.size() + 1);
  memcpy(d, s.c_str(), s.size() + 1);
  sim::HostScope host;
  std::string().swap(s);
  return d;
}
char* apr_psprintf(apr_pool_t* p, const char* fmt, ...) {
  va_list ap, aq;
  va_start(ap, fmt);
  va_copy(aq, ap);
  int n = vsnprintf(nullptr, 0, fmt, ap);
  char* d = (char*)apr_palloc(p, n + 1);
  vsnprintf(d, n + 1, fmt, aq);
  va_end(ap);
  va_end(aq);
  return d;
}
int apr_strnatcmp(const char* a, const char* b) { return strcmp(a, b); }
void* apr_palloc(apr_pool_t* p, apr_size_t n) { return sim::Alloc(p, n); }
void* apr_pcalloc(apr_pool_t* p, apr_size_t n) {
  void* b = sim::Alloc(p, n);
  memset(b, 0, n);
  return b;
}
const char* apr_table_get(const apr_table_t* t, const char* key) {
  for (auto& row : t->rows)
    if (!strcasecmp(row.first.c_str(), key)) return row.second;
  return nullptr;
}
void apr_table_setn(apr_table_t* t, const char* k, const char* v) { sim::Put(t, k, v, true); }
void apr_table_set(apr_table_t* t, const char* k, const char* v) {
  sim::Put(t, k, apr_pstrdup(&sim::g_current->pool, v), true);
}
void apr_table_addn(apr_table_t* t, const char* k, const char* v) { sim::Put(t, k, v, false); }
void apr_table_add(apr_table_t* t, const char* k, const char* v) {
  sim::Put(t, k, apr_pstrdup(&sim::g_current->pool, v), false);
}
void apr_table_mergen(apr_table_t* t, const char* k, const char* v) {
  const char* old = apr_table_get(t, k);
  if (old) v = apr_pstrcat(&sim::g_current->pool, old, ", ", v, (char*)nullptr);
  sim::Put(t, k, v, true);
}
void apr_table_merge(apr_table_t* t, const char* k, const char* v) { apr_table_mergen(t, k, apr_pstrdup(&sim::g_current->pool, v)); }
void apr_table_unset(apr_table_t* t, const char* key) {
  sim::HostScope host;
  for (size_t i = 0; i < t->rows.size();)
    if (!strcasecmp(t->rows[i].first.c_str(), key)) t->rows.erase(t->rows.begin() + i);
    else ++i;
}
apr_status_t apr_stat(apr_finfo_t* f, const char* name, apr_int32_t wanted, apr_pool_t*) {
  sim::HostScope host;
  sim::Request* q = sim::g_current;
  // Only what was asked for is set, and nothing at all on failure.
  auto it = q->disk->find(name);
  if (it == q->disk->end()) return ENOENT;
  if (it->second.error) return it->second.error;
  f->valid = wanted & APR_FINFO_MIN;
  f->filetype = it->second.type;
  f->size = it->second.data.size();
  f->mtime = f->atime = f->ctime = 1500000000;
  f->fname = name;
  return wanted & ~APR_FINFO_NORM ? APR_INCOMPLETE : APR_SUCCESS;
}
int ap_core_translate(request_rec* r) {
  sim::Request* q = sim::Of(r);
  if (q->translate_rc) return q->translate_rc;
  r->filename = apr_pstrcat(r->pool, q->root.c_str(), r->uri, (char*)nullptr);
  return OK;
}
void ap_set_content_type(request_rec* r, const char* ct) { r->content_type = ct; }
char* ap_get_token(apr_pool_t* p, const char** line, int) {
  const char* s = *line;
  while (apr_isspace(*s)) ++s;
  const char* e = s;
  while (*e && *e != ',' && *e != ';') ++e;
  *line = e;
  while (e > s && apr_isspace(e[-1])) --e;
  return apr_pstrndup(p, s, e - s);
}
void ap_log_rerror(const char*, int, int, int, apr_status_t, const request_rec*, const char*, ...) {}
void ap_hook_translate_name(sim_request_hook f, const char* const*, const char* const*, int order) {
  sim::HostScope host;
  sim::g_hooks.push_back({"translate_name", f, order});
}
void ap_hook_map_to_storage(sim_request_hook f, const char* const*, const char* const*, int order) {
  sim::HostScope host;
  sim::g_hooks.push_back({"map_to_storage", f, order});
}
void ap_hook_type_checker(sim_request_hook f, const char* const*, const char* const*, int order) {
  sim::HostScope host;
  sim::g_hooks.push_back({"type_checker", f, order});
}
void ap_hook_fixups(sim_request_hook f, const char* const*, const char* const*, int order) {
  sim::HostScope host;
  sim::g_hooks.push_back({"fixups", f, order});
}
}

namespace sim {
namespace {

// The part of request processing that maps a request to a file.
void Process(Request* q) {
  g_current = q;
  SutScope sut;
  int rc = DECLINED;
  for (auto& h : g_hooks)
    if (h.kind == "translate_name" && rc == DECLINED) rc = h.fn(&q->r);
  q->rc = rc;
}
void Body(void* p) {
  for (Request* q : *static_cast<std::vector<Request*>*>(p)) Process(q);
}

void Apache(World& w) {
  SutGuard guard(w, 512u << 20);
  static bool registered = false;
  if (!registered) {
    // Once in the life of a process.
    registered = true;
    apr_pool_t conf;
    HostScope host;
    if (!brunsli_module.register_hooks) w.fail("no-handler", "the module does not register anything");
    brunsli_module.register_hooks(&conf);
  }
  bool any = false;
  for (auto& h : g_hooks) any |= h.kind == "translate_name" && h.order < APR_HOOK_REALLY_LAST;
  if (!any) w.fail("no-handler", "the module has no part in the mapping of requests");

  const Workload& wl = GetWorkload(w, GenOpts());
  std::map<std::string, File> disk;
  static const char* const kUris[] = {"/a.jpg", "/pics/a b.jpg", "/100%25.jpg", "/deep/down/below/%s.jpeg", "/", "/dir/", "/j", "/x.jpg.j"};
  std::vector<std::unique_ptr<Request>> rs;
  int n = 1 + w.pick(CFG, 8);
  for (int i = 0; i < n; ++i) {
    rs.emplace_back(new Request());
    Request& q = *rs.back();
    q.strings.reserve(8);
    memset(&q.r, 0, sizeof q.r);
    q.disk = &disk;
    q.root = "/srv/www" + std::string(w.pick(CFG, 3), 'x');
    std::string uri = kUris[w.pick(CFG, 8)];
    q.has_accept = !w.flip(CFG, 1, 8);
    q.accept = DrawAccept(w);
    q.r.pool = &q.pool;
    q.r.uri = q.Keep(uri);
    q.r.unparsed_uri = q.r.uri;
    q.r.method = "GET";
    q.r.status = HTTP_OK;
    q.r.headers_in = &q.in;
    q.r.headers_out = &q.out;
    q.r.err_headers_out = &q.err;
    q.r.subprocess_env = &q.env;
    q.r.notes = &q.notes;
    q.in.rows.emplace_back("Host", q.Keep("example.org"));
    if (q.has_accept) q.in.rows.emplace_back("Accept", q.Keep(q.accept));
    q.in.rows.emplace_back("Accept-Encoding", q.Keep("gzip, br"));
    if (w.flip(FAULT, 1, 12)) {
      q.translate_rc = w.flip(FAULT, 1, 2) ? HTTP_FORBIDDEN : HTTP_BAD_REQUEST;
      w.fault("translation_refused");
    }
    std::string path = q.root + uri;
    if (!disk.count(path + ".j")) {
      File f;
      static const int kErrors[] = {0, 0, 0, 0, 0, ENOENT, EACCES, EIO, ENOTDIR, ENAMETOOLONG, ELOOP};
      static const apr_filetype_e kTypes[] = {APR_REG, APR_REG, APR_REG, APR_DIR, APR_PIPE, APR_SOCK, APR_NOFILE, APR_CHR, APR_UNKFILE};
      f.error = kErrors[w.pick(FAULT, 11)];
      f.type = kTypes[w.rare(FAULT, 1, 2, 9)];
      if (f.error) w.fault(f.error == EACCES ? "access_denied" : f.error == EIO ? "disk_error" : "path_trouble");
      f.data = wl.enc == 0 ? wl.brn : Bytes(3, 'j');
      disk[path + ".j"] = f;
    }
    File f;
    f.error = 0;
    f.type = APR_REG;
    f.data = wl.jpeg;
    if (!disk.count(path)) disk[path] = f;
  }

#ifdef SIM_SCHED
  int nthreads = 1 + w.pick(CFG, 3);
  std::vector<std::vector<Request*>> of(nthreads);
  for (size_t i = 0; i < rs.size(); ++i) of[i % nthreads].push_back(rs[i].get());
  sched::Begin(w, sched::Options());
  std::vector<int> hs;
  for (auto& v : of) hs.push_back(sched::Spawn(Body, &v));
  for (int h : hs) sched::Join(h);
  sched::End();
#else
  std::vector<Request*> all;
  for (auto& q : rs) all.push_back(q.get());
  Body(&all);
#endif

  for (auto& p : rs) {
    Request& q = *p;
    w.tick();
    std::string path = q.root + q.r.uri, name = q.r.filename ? q.r.filename : "", type = q.r.content_type ? q.r.content_type : "";
    w.ev("mapped", q.rc, name.size(), type.size());
    std::string what = Fmt("%s, Accept: %s: ", q.r.uri, q.has_accept ? q.accept.c_str() : "(none)");
    Wants wants = q.has_accept ? AsksForBrunsli(q.accept) : REFUSES;
    const char* now = apr_table_get(&q.in, "Accept");
    if (q.has_accept ? !now || q.accept != now : now != nullptr) w.fail("request-changed", what + "the request's headers were edited");
    const File& f = disk[path + ".j"];
    bool there = !f.error && f.type == APR_REG, bad = f.error || f.type != APR_REG;
    if (q.rc == OK && name == path + ".j") {
      if (wants == REFUSES) w.fail("stream-forced", what + "the client did not ask for image/x-j");
      if (q.translate_rc) w.fail("stream-forced", what + "the server had refused the request");
      if (f.error || f.type == APR_DIR || f.type == APR_NOFILE) w.fail("wrong-file", what + "there is no such file");
      if (bad) continue;   // the server refuses special files itself
      if (type != "image/x-j") w.fail("bad-header", what + "content type " + type);
      if (wl.enc == 0) {
        Bytes got;
        int v = DecodeOneShot(f.data, &got);
        if (v == V_OOM) throw Discard{"needs too much memory"};
        if (v != V_DONE || got != wl.jpeg) w.fail("client-cannot-decode", what + VerdictName(v));
      }
      w.probe("stream_served");
    } else if (q.rc == OK || q.rc == DECLINED) {
      if (!name.empty() && name != path) w.fail("wrong-file", what + "request mapped to " + name);
      if (!type.empty()) w.fail("bad-header", what + "the original file is labelled " + type);
      if (wants == WANTS && there && !q.translate_rc) w.fail("stream-withheld", what + "declined");
      if (q.rc == OK && q.translate_rc) w.fail("error-hidden", what + "the server had refused the request");
      w.probe("declined");
    } else {
      if (q.rc != q.translate_rc) w.fail("spurious-failure", what + Fmt("result %d", q.rc));
      w.probe("error_response");
    }
  }
  for (auto& q : rs)
    for (void* b : q->pool.blocks) free(b);
  if (alloc::Get().live_blocks) w.fail("leak", "memory from outside the pools");
}
#ifdef SIM_SCHED
Register r1("apache_threads", 64, 1, Apache);
#else
Register r1("apache", 64, 128, Apache);
#endif

}  // namespace
}  // namespace sim
