// The nginx module in a simulated worker process: the configuration is read
// through the module's directive table, requests run through its content
// handler on a simulated disk, responses leave some time after the handler
// has returned, and pools, files and filters fail.
#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_http.h>

#include <cstdarg>
#include <memory>

#include "codec.h"
#include "server_util.h"

extern "C" {
ngx_module_t ngx_http_core_module;
extern ngx_module_t ngx_http_brunsli_static_module;
}

struct ngx_pool_s {
  std::vector<void*> blocks;
  std::vector<ngx_pool_cleanup_t*> cleanups;
};
struct ngx_cycle_s {
  int unused;
};

namespace sim {
namespace {

enum Kind { ABSENT, REGULAR, FOLDER, FIFO, NO_ACCESS, BAD_PATH, TOO_LONG, IO_ERROR, NO_HANDLES, LINK_LOOP, SYMLINK };
struct Node {
  Kind kind = ABSENT;
  Bytes data;
  time_t mtime = 0;
  bool is_directio = false;
};

struct Server {
  World* w = nullptr;
  std::map<std::string, Node> disk;
  std::map<int, std::string> open;   // descriptors
  int next_fd = 10;
  std::string broken;
  // Faults of the request that runs now.
  uint64_t pool_fail_at = 0, pool_fail_count = 0, pool_calls = 0;
  bool injected = false;
  const char* site = "";
  int body_rc = 0, header_rc = 0, filter_rc = 0;
  bool map_fails = false, links_fail = false, etag_fails = false, open_no_memory = false;
  bool not_modified = false;
  // What the request did.
  int headers = 0, filters = 0;
  ngx_http_headers_out_t sent;
  std::string sent_type, sent_etag, sent_coding;
  std::vector<ngx_buf_t*> queue;
};
Server* S;

void Broken(const std::string& s) {
  if (S->broken.empty()) S->broken = s;
}
bool PoolFails() {
  ++S->pool_calls;
  if (S->pool_fail_at && S->pool_calls >= S->pool_fail_at && S->pool_calls < S->pool_fail_at + S->pool_fail_count) {
    S->injected = true;
    S->w->fault("pool_exhausted");
    return true;
  }
  return false;
}
void Injected(const char* what) {
  S->injected = true;
  S->w->fault(what);
}
std::string Str(const ngx_str_t& s) { return std::string(reinterpret_cast<char*>(s.data), s.len); }

void* PoolAlloc(ngx_pool_t* p, size_t n, bool zero) {
  HostScope host;
  if (PoolFails()) return nullptr;
  void* b = malloc(n ? n : 1);
  memset(b, zero ? 0 : 0xDB, n);
  p->blocks.push_back(b);
  return b;
}
void Release(ngx_pool_t* p) {
  for (size_t i = p->cleanups.size(); i--;)
    if (p->cleanups[i]->handler) p->cleanups[i]->handler(p->cleanups[i]->data);
  for (void* b : p->blocks) free(b);
  p->blocks.clear();
  p->cleanups.clear();
}

}  // namespace
}  // namespace sim

using sim::S;

extern "C" {
void ngx_strlow(u_char* dst, u_char* src, size_t n) {
  while (n--) {
    *dst = ngx_tolower(*src);
    dst++;
    src++;
  }
}
u_char* ngx_cpystrn(u_char* dst, u_char* src, size_t n) {
  if (n == 0) return dst;
  while (--n) {
    *dst = *src;
    if (*dst == '\0') return dst;
    dst++;
    src++;
  }
  *dst = '\0';
  return dst;
}
ngx_int_t ngx_strcasecmp(u_char* s1, u_char* s2) {
  for (;;) {
    ngx_uint_t c1 = ngx_tolower(*s1), c2 = ngx_tolower(*s2);
    s1++;
    s2++;
    if (c1 != c2) return c1 - c2;
    if (!c1) return 0;
  }
}
ngx_int_t ngx_strncasecmp(u_char* s1, u_char* s2, size_t n) {
  while (n) {
    ngx_uint_t c1 = ngx_tolower(*s1), c2 = ngx_tolower(*s2);
    s1++;
    s2++;
    if (c1 != c2) return c1 - c2;
    if (!c1) return 0;
    n--;
  }
  return 0;
}
u_char* ngx_strnstr(u_char* s1, char* s2, size_t len) {
  size_t n = strlen(s2);
  u_char c2 = *(u_char*)s2++, c1;
  if (c2 == 0) return s1;
  n--;
  do {
    do {
      if (len-- == 0) return nullptr;
      c1 = *s1++;
      if (c1 == 0) return nullptr;
    } while (c1 != c2);
    if (n > len) return nullptr;
  } while (ngx_strncmp(s1, s2, n) != 0);
  return --s1;
}
// n is the length of the second string - 1.
u_char* ngx_strstrn(u_char* s1, char* s2, size_t n) {
  u_char c1, c2 = *(u_char*)s2++;
  do {
    do {
      c1 = *s1++;
      if (c1 == 0) return nullptr;
    } while (c1 != c2);
  } while (ngx_strncmp(s1, s2, n) != 0);
  return --s1;
}
u_char* ngx_strcasestrn(u_char* s1, char* s2, size_t n) {
  ngx_uint_t c1, c2 = (ngx_uint_t) * (u_char*)s2++;
  c2 = (c2 >= 'A' && c2 <= 'Z') ? (c2 | 0x20) : c2;
  do {
    do {
      c1 = (ngx_uint_t)*s1++;
      if (c1 == 0) return nullptr;
      c1 = (c1 >= 'A' && c1 <= 'Z') ? (c1 | 0x20) : c1;
    } while (c1 != c2);
  } while (ngx_strncasecmp(s1, (u_char*)s2, n) != 0);
  return --s1;
}
u_char* ngx_strlcasestrn(u_char* s1, u_char* last, u_char* s2, size_t n) {
  ngx_uint_t c1, c2 = (ngx_uint_t)*s2++;
  c2 = (c2 >= 'A' && c2 <= 'Z') ? (c2 | 0x20) : c2;
  last -= n;
  do {
    do {
      if (s1 >= last) return nullptr;
      c1 = (ngx_uint_t)*s1++;
      c1 = (c1 >= 'A' && c1 <= 'Z') ? (c1 | 0x20) : c1;
    } while (c1 != c2);
  } while (ngx_strncasecmp(s1, s2, n) != 0);
  return --s1;
}
ngx_int_t ngx_rstrncmp(u_char* s1, u_char* s2, size_t n) {
  if (n == 0) return 0;
  n--;
  for (;;) {
    if (s1[n] != s2[n]) return s1[n] - s2[n];
    if (n == 0) return 0;
    n--;
  }
}
ngx_int_t ngx_atoi(u_char* line, size_t n) {
  ngx_int_t v = 0;
  if (n == 0) return NGX_ERROR;
  for (; n--; line++) {
    if (*line < '0' || *line > '9') return NGX_ERROR;
    v = v * 10 + (*line - '0');
  }
  return v;
}
ngx_int_t ngx_atofp(u_char* line, size_t n, size_t point) {
  ngx_int_t v = 0;
  bool dot = false;
  if (n == 0) return NGX_ERROR;
  for (; n--; line++) {
    if (point == 0) return NGX_ERROR;
    if (*line == '.') {
      if (dot) return NGX_ERROR;
      dot = true;
      continue;
    }
    if (*line < '0' || *line > '9') return NGX_ERROR;
    v = v * 10 + (*line - '0');
    point -= dot;
  }
  while (point--) v *= 10;
  return v;
}
static std::string Format(const char* f, va_list ap) {
  std::string out;
  for (; *f; ++f) {
    if (*f != '%') {
      out += *f;
      continue;
    }
    ++f;
    while (*f == 'u' || *f == 'x' || (*f >= '0' && *f <= '9')) ++f;
    if (*f == 's') out += va_arg(ap, char*);
    else if (*f == 'V') {
      ngx_str_t* s = va_arg(ap, ngx_str_t*);
      out.append((char*)s->data, s->len);
    } else if (*f == 'd') out += std::to_string(va_arg(ap, int));
    else if (*f == 'i' || *f == 'O' || *f == 'T' || *f == 'z' || *f == 'l') out += std::to_string(va_arg(ap, long));
    else break;
  }
  return out;
}
u_char* ngx_snprintf(u_char* buf, size_t max, const char* fmt, ...) {
  sim::HostScope host;
  va_list ap;
  va_start(ap, fmt);
  std::string s = Format(fmt, ap);
  va_end(ap);
  size_t n = std::min(max, s.size());
  memcpy(buf, s.data(), n);
  return buf + n;
}
u_char* ngx_sprintf(u_char* buf, const char* fmt, ...) {
  sim::HostScope host;
  va_list ap;
  va_start(ap, fmt);
  std::string s = Format(fmt, ap);
  va_end(ap);
  memcpy(buf, s.data(), s.size());
  return buf + s.size();
}
void ngx_log_error(ngx_uint_t level, ngx_log_t* log, ngx_err_t err, const char* fmt, ...) {
  sim::HostScope host;
  if (!log) sim::Broken("ngx_log_error without a log");
  va_list ap;
  va_start(ap, fmt);
  std::string s = Format(fmt, ap);
  va_end(ap);
  S->w->ev("log", level, err, s.size());
}
void ngx_conf_log_error(ngx_uint_t level, ngx_conf_t*, ngx_err_t err, const char*, ...) {
  sim::HostScope host;
  S->w->ev("conf_log", level, err);
}
void* ngx_palloc(ngx_pool_t* p, size_t n) { return sim::PoolAlloc(p, n, false); }
void* ngx_pnalloc(ngx_pool_t* p, size_t n) { return sim::PoolAlloc(p, n, false); }
void* ngx_pcalloc(ngx_pool_t* p, size_t n) { return sim::PoolAlloc(p, n, true); }
void* ngx_pmemalign(ngx_pool_t* p, size_t n, size_t) { return sim::PoolAlloc(p, n, false); }
ngx_int_t ngx_pfree(ngx_pool_t*, void*) { return NGX_DECLINED; }
u_char* ngx_pstrdup(ngx_pool_t* p, ngx_str_t* s) {
  u_char* d = (u_char*)ngx_pnalloc(p, s->len);
  if (d) memcpy(d, s->data, s->len);
  return d;
}
ngx_pool_cleanup_t* ngx_pool_cleanup_add(ngx_pool_t* p, size_t size) {
  ngx_pool_cleanup_t* c = (ngx_pool_cleanup_t*)ngx_palloc(p, sizeof(ngx_pool_cleanup_t));
  if (!c) return nullptr;
  memset(c, 0, sizeof(*c));
  if (size && !(c->data = ngx_palloc(p, size))) return nullptr;
  sim::HostScope host;
  p->cleanups.push_back(c);
  return c;
}
void* ngx_array_push_n(ngx_array_t* a, ngx_uint_t n) {
  if (a->nelts + n > a->nalloc) {
    void* b = ngx_palloc(a->pool, (2 * a->nelts + n) * a->size);
    if (!b) return nullptr;
    if (a->nelts) memcpy(b, a->elts, a->nelts * a->size);
    a->elts = b;
    a->nalloc = 2 * a->nelts + n;
  }
  void* e = (u_char*)a->elts + a->size * a->nelts;
  a->nelts += n;
  return e;
}
void* ngx_array_push(ngx_array_t* a) { return ngx_array_push_n(a, 1); }
void* ngx_list_push(ngx_list_t* l) {
  ngx_list_part_t* last = l->last;
  if (last->nelts == l->nalloc) {
    last = (ngx_list_part_t*)ngx_palloc(l->pool, sizeof(ngx_list_part_t));
    if (!last) return nullptr;
    last->elts = ngx_palloc(l->pool, l->nalloc * l->size);
    if (!last->elts) return nullptr;
    last->nelts = 0;
    last->next = nullptr;
    l->last->next = last;
    l->last = last;
  }
  void* e = (char*)last->elts + l->size * last->nelts;
  last->nelts++;
  return e;
}
ngx_chain_t* ngx_alloc_chain_link(ngx_pool_t* p) { return (ngx_chain_t*)ngx_palloc(p, sizeof(ngx_chain_t)); }
ngx_buf_t* ngx_create_temp_buf(ngx_pool_t* p, size_t n) {
  ngx_buf_t* b = ngx_calloc_buf(p);
  if (!b) return nullptr;
  b->start = b->pos = b->last = (u_char*)ngx_palloc(p, n);
  if (!b->start) return nullptr;
  b->end = b->last + n;
  b->temporary = 1;
  return b;
}
ngx_int_t ngx_open_cached_file(ngx_open_file_cache_t*, ngx_str_t* name, ngx_open_file_info_t* of, ngx_pool_t* pool) {
  sim::HostScope host;
  if (name->data[name->len] != 0) sim::Broken("file name is not terminated by a zero");
  std::string path = sim::Str(*name);
  S->w->ev("open", path.size(), sim::HashBytes((const uint8_t*)path.data(), path.size()));
  of->fd = NGX_INVALID_FILE;
  of->err = 0;
  if (S->open_no_memory) {
    sim::Injected("open_without_memory");
    return NGX_ERROR;
  }
  if (strlen((char*)name->data) != name->len) sim::Broken("length of the file name is wrong");
  auto it = S->disk.find(path);
  sim::Kind k = it == S->disk.end() ? sim::ABSENT : it->second.kind;
  if (k == sim::SYMLINK) k = of->disable_symlinks == NGX_DISABLE_SYMLINKS_ON ? sim::LINK_LOOP : sim::REGULAR;
  of->failed = "open()";
  switch (k) {
    case sim::ABSENT: of->err = ENOENT; break;
    case sim::NO_ACCESS: of->err = EACCES; break;
    case sim::BAD_PATH: of->err = ENOTDIR; break;
    case sim::TOO_LONG: of->err = ENAMETOOLONG; break;
    case sim::IO_ERROR: of->err = EIO; break;
    case sim::NO_HANDLES: of->err = EMFILE; break;
    case sim::LINK_LOOP: of->err = ELOOP; break;
    default: break;
  }
  if (of->err) return NGX_ERROR;
  of->failed = nullptr;
  const sim::Node& n = it->second;
  of->is_dir = k == sim::FOLDER;
  of->is_file = k == sim::REGULAR;
  of->mtime = n.mtime;
  of->size = n.data.size();
  of->uniq = S->next_fd * 31;
  of->is_directio = n.is_directio;
  if (k == sim::REGULAR) {
    of->fd = S->next_fd++;
    S->open[of->fd] = path;
  }
  return NGX_OK;
}
char* ngx_conf_set_enum_slot(ngx_conf_t* cf, ngx_command_t* cmd, void* conf) {
  ngx_uint_t* np = (ngx_uint_t*)((char*)conf + cmd->offset);
  if (*np != NGX_CONF_UNSET_UINT) return (char*)"is duplicate";
  ngx_str_t* value = (ngx_str_t*)cf->args->elts;
  ngx_conf_enum_t* e = (ngx_conf_enum_t*)cmd->post;
  for (ngx_uint_t i = 0; e[i].name.len != 0; i++) {
    if (e[i].name.len != value[1].len || ngx_strcasecmp(e[i].name.data, value[1].data) != 0) continue;
    *np = e[i].value;
    return NGX_CONF_OK;
  }
  return NGX_CONF_ERROR;
}
char* ngx_conf_set_flag_slot(ngx_conf_t* cf, ngx_command_t* cmd, void* conf) {
  ngx_flag_t* fp = (ngx_flag_t*)((char*)conf + cmd->offset);
  if (*fp != NGX_CONF_UNSET) return (char*)"is duplicate";
  ngx_str_t* value = (ngx_str_t*)cf->args->elts;
  if (ngx_strcasecmp(value[1].data, (u_char*)"on") == 0) *fp = 1;
  else if (ngx_strcasecmp(value[1].data, (u_char*)"off") == 0) *fp = 0;
  else return NGX_CONF_ERROR;
  return NGX_CONF_OK;
}
u_char* ngx_http_map_uri_to_path(ngx_http_request_t* r, ngx_str_t* path, size_t* root_length, size_t reserved) {
  ngx_http_core_loc_conf_t* clcf = (ngx_http_core_loc_conf_t*)ngx_http_get_module_loc_conf(r, ngx_http_core_module);
  if (S->map_fails) {
    sim::HostScope host;
    sim::Injected("alias_in_invalid_location");
    return nullptr;
  }
  *root_length = clcf->root.len;
  path->len = clcf->root.len + reserved + r->uri.len - clcf->alias + 1;
  path->data = (u_char*)ngx_pnalloc(r->pool, path->len);
  if (!path->data) return nullptr;
  u_char* last = ngx_copy(path->data, clcf->root.data, clcf->root.len);
  last = ngx_copy(last, r->uri.data + clcf->alias, r->uri.len - clcf->alias);
  *last = '\0';
  return last;
}
ngx_int_t ngx_http_set_disable_symlinks(ngx_http_request_t*, ngx_http_core_loc_conf_t* clcf, ngx_str_t*,
                                        ngx_open_file_info_t* of) {
  if (S->links_fail) {
    sim::HostScope host;
    sim::Injected("symlink_rule_failed");
    return NGX_ERROR;
  }
  of->disable_symlinks = clcf->disable_symlinks;
  return NGX_OK;
}
ngx_int_t ngx_http_discard_request_body(ngx_http_request_t* r) {
  sim::HostScope host;
  if (S->body_rc) {
    sim::Injected("request_body_failed");
    return S->body_rc;
  }
  r->discard_body = 1;
  return NGX_OK;
}
ngx_int_t ngx_http_set_etag(ngx_http_request_t* r) {
  ngx_http_core_loc_conf_t* clcf = (ngx_http_core_loc_conf_t*)ngx_http_get_module_loc_conf(r, ngx_http_core_module);
  if (!clcf->etag) return NGX_OK;
  ngx_table_elt_t* e = (ngx_table_elt_t*)ngx_list_push(&r->headers_out.headers);
  if (!e) return NGX_ERROR;
  e->hash = 1;
  ngx_str_set(&e->key, "ETag");
  e->value.data = (u_char*)ngx_pnalloc(r->pool, 64);
  if (!e->value.data) {
    e->hash = 0;
    return NGX_ERROR;
  }
  e->value.len = snprintf((char*)e->value.data, 64, "\"%lx-%lx\"", (long)r->headers_out.last_modified_time,
                          (long)r->headers_out.content_length_n);
  r->headers_out.etag = e;
  return NGX_OK;
}
void ngx_http_weak_etag(ngx_http_request_t*) {}
ngx_int_t ngx_http_set_content_type(ngx_http_request_t* r) {
  if (r->headers_out.content_type.len) return NGX_OK;
  ngx_str_set(&r->headers_out.content_type, "image/jpeg");
  r->headers_out.content_type_len = r->headers_out.content_type.len;
  return NGX_OK;
}
ngx_int_t ngx_http_send_header(ngx_http_request_t* r) {
  sim::HostScope host;
  if (r->header_sent) {
    sim::Broken("header sent twice");
    return NGX_ERROR;
  }
  S->w->ev("send_header", r->headers_out.status, r->headers_out.content_length_n, r->headers_out.last_modified_time);
  if (S->header_rc == NGX_HTTP_NOT_FOUND || S->header_rc == 412) {
    sim::Injected("precondition_failed");
    return S->header_rc;   // a filter has other plans; nothing was sent
  }
  r->header_sent = 1;
  ++S->headers;
  S->sent = r->headers_out;
  S->sent_type = sim::Str(r->headers_out.content_type);
  S->sent_etag = r->headers_out.etag ? sim::Str(r->headers_out.etag->value) : "";
  S->sent_coding = r->headers_out.content_encoding && r->headers_out.content_encoding->hash
                       ? sim::Str(r->headers_out.content_encoding->value) : "";
  if (r->method == NGX_HTTP_HEAD) r->header_only = 1;
  if (S->not_modified) {
    r->headers_out.status = NGX_HTTP_NOT_MODIFIED;
    r->header_only = 1;
  }
  if (S->header_rc == NGX_ERROR) sim::Injected("client_gone_before_header");
  return S->header_rc;
}
ngx_int_t ngx_http_output_filter(ngx_http_request_t* r, ngx_chain_t* c) {
  sim::HostScope host;
  ++S->filters;
  if (!r->header_sent) sim::Broken("body sent without a header");
  if (r->header_only) sim::Broken("body sent for a header-only response");
  // The links are copied, the buffers are not.
  for (; c; c = c->next) S->queue.push_back(c->buf);
  if (S->filter_rc == NGX_ERROR) sim::Injected("client_gone_before_body");
  return S->filter_rc;
}
}  // extern "C"

namespace sim {
namespace {

const char* const kLevels[] = {"off", "on", "always"};

void InitArray(ngx_array_t* a, ngx_pool_t* p, size_t size) {
  memset(a, 0, sizeof(*a));
  a->size = size;
  a->pool = p;
}
void InitList(ngx_list_t* l, ngx_pool_t* p, size_t size, size_t n) {
  memset(l, 0, sizeof(*l));
  l->size = size;
  l->nalloc = n;
  l->pool = p;
  l->part.elts = PoolAlloc(p, size * n, false);
  l->last = &l->part;
}

struct Level {
  ngx_http_core_loc_conf_t core;
  void* mod = nullptr;
  void* ctx[2];
  int set = -1;          // directive, if any
  int value = -1;        // as the simulator understands it
};

struct Request {
  ngx_http_request_t r, parent;
  ngx_pool_t pool;
  ngx_connection_t conn;
  ngx_log_t log;
  void* ctx[2];
  std::vector<std::vector<u_char>> strings;
  ngx_table_elt_t accept;
  size_t file;
  ngx_str_t Keep(const std::string& s, const std::string& before = "") {
    strings.emplace_back(before.begin(), before.end());
    auto& v = strings.back();
    v.insert(v.end(), s.begin(), s.end());
    v.push_back(0);
    v.shrink_to_fit();
    return ngx_str_t{s.size(), v.data() + before.size()};
  }
};

struct Pending {
  std::unique_ptr<Request> req;
  std::vector<ngx_buf_t*> bufs;
  std::string path;
  Node node;
  bool main;
  Bytes want;      // what the client makes of the body; empty: not a stream
};

// Response bytes leave the server.
void Flush(World& w, Pending* p) {
  Bytes body;
  bool last = false;
  for (ngx_buf_t* b : p->bufs) {
    if (last) w.fail("body-after-end", "buffers behind the last one");
    if (b->in_file) {
      auto it = S->open.find(b->file ? b->file->fd : -1);
      if (it == S->open.end()) w.fail("bad-response", "body from a file that is not open");
      if (it->second != p->path) w.fail("wrong-file", "body comes from " + it->second + ", header from " + p->path);
      if (Str(b->file->name) != p->path) w.fail("bad-response", "the buffer names another file");
      if (!b->file->log) w.fail("bad-response", "the buffer has no log");
      if (b->file->directio != p->node.is_directio) w.fail("bad-response", "direct I/O flag lost");
      const Bytes& d = p->node.data;
      if (b->file_pos < 0 || b->file_last < b->file_pos || (size_t)b->file_last > d.size())
        w.fail("bad-response", Fmt("bytes %ld to %ld of a file of %zu", (long)b->file_pos, (long)b->file_last, d.size()));
      body.insert(body.end(), d.begin() + b->file_pos, d.begin() + b->file_last);
    } else if (ngx_buf_in_memory(b)) {
      body.insert(body.end(), b->pos, b->last);
    }
    if (p->main ? b->last_buf : b->last_in_chain) last = true;
    if (!p->main && b->last_buf) w.fail("bad-response", "a subrequest ends the whole response");
  }
  if (!last) w.fail("no-end", "the response is never completed");
  if (body != p->node.data) w.fail("wrong-body", Diff(body, p->node.data));
  w.ev_bytes("body", body.data(), body.size());
  if (!p->want.empty()) {
    // The client.
    if (w.flip(CFG, 1, 2)) {
      Bytes got;
      int v = DecodeOneShot(body, &got);
      if (v != V_DONE || got != p->want) w.fail("client-cannot-decode", Fmt("verdict %s", VerdictName(v)));
    } else {
      StreamResult res = DecodeStream(w, body, DrawChannel(w, body.size(), p->want.size()), p->want.size());
      if (res.verdict != V_DONE || res.out != p->want) w.fail("client-cannot-decode", Fmt("verdict %s", VerdictName(res.verdict)));
    }
    w.probe("stream_reached_client");
  }
}

void Nginx(World& w) {
  SutGuard guard(w, 512u << 20);
  Server server;
  server.w = &w;
  S = &server;
  ngx_http_core_module.ctx_index = 0;
  ngx_http_brunsli_static_module.ctx_index = 1;
  ngx_http_module_t* mod = static_cast<ngx_http_module_t*>(ngx_http_brunsli_static_module.ctx);
  ngx_pool_t pool;
  std::vector<std::unique_ptr<Pending>> pending;
  struct Cleanup {
    ngx_pool_t* p;
    std::vector<std::unique_ptr<Pending>>* v;
    ~Cleanup() {
      for (auto& x : *v) Release(&x->req->pool);
      Release(p);
      S = nullptr;
    }
  } cleanup{&pool, &pending};

  // Configuration.
  ngx_log_t log;
  memset(&log, 0, sizeof log);
  ngx_conf_t cf;
  memset(&cf, 0, sizeof cf);
  cf.pool = cf.temp_pool = &pool;
  cf.log = &log;
  ngx_http_core_main_conf_t cmcf;
  for (auto& p : cmcf.phases) InitArray(&p.handlers, &pool, sizeof(ngx_http_handler_pt));
  void* main_conf[2] = {&cmcf, nullptr};
  int nloc = 1 + w.rare(CFG, 1, 2, 3);
  std::vector<Level> lv(2 + nloc);   // main, server, locations
  std::vector<std::string> roots;
  for (auto& l : lv) roots.push_back("/srv/www" + std::string(w.pick(CFG, 5), 'x'));
  if (w.flip(FAULT, 1, 24)) {
    server.pool_fail_at = 1 + w.pick(FAULT, 6);
    server.pool_fail_count = 1 + w.rare(FAULT, 1, 2, 3);
  }
  ngx_http_conf_ctx_t cctx;
  for (size_t i = 0; i < lv.size(); ++i) {
    Level& l = lv[i];
    memset(&l.core, 0, sizeof l.core);
    l.core.root.data = (u_char*)roots[i].data();
    l.core.root.len = roots[i].size();
    l.core.gzip_vary = w.flip(CFG, 1, 3);
    l.core.etag = !w.flip(CFG, 1, 4);
    l.core.disable_symlinks = w.flip(CFG, 1, 3) ? NGX_DISABLE_SYMLINKS_ON : NGX_DISABLE_SYMLINKS_OFF;
    l.core.read_ahead = w.rare(CFG, 1, 3, 8) * 4096;
    l.ctx[0] = &l.core;
    {
      SutScope sut;
      l.mod = mod->create_loc_conf ? mod->create_loc_conf(&cf) : nullptr;
    }
    if (!l.mod) {
      if (!server.injected) w.fail("no-configuration", "create_loc_conf returns null");
      w.probe("configuration_refused");
      return;
    }
    l.ctx[1] = l.mod;
    // "brunsli_static VALUE;"
    int times = w.flip(CFG, 1, 2) ? 1 + w.rare(CFG, 1, 16, 2) : i == lv.size() - 1 && w.flip(CFG, 2, 3);
    for (int t = 0; t < times; ++t) {
      int value = w.rare(CFG, 7, 8, 3);
      bool bad = w.rare(CFG, 1, 24, 2) != 0;
      std::string text = bad ? "onn" : kLevels[value];
      if (w.rare(CFG, 1, 16, 2)) text[0] -= 32;
      ngx_str_t args[2] = {ngx_string("brunsli_static"), {text.size(), (u_char*)text.c_str()}};
      ngx_array_t arr;
      InitArray(&arr, &pool, sizeof(ngx_str_t));
      arr.elts = args;
      arr.nelts = 2;
      cf.args = &arr;
      cctx.main_conf = main_conf;
      cctx.srv_conf = nullptr;
      cctx.loc_conf = l.ctx;
      cf.ctx = &cctx;
      cf.cmd_type = i == 0 ? NGX_HTTP_MAIN_CONF : i == 1 ? NGX_HTTP_SRV_CONF : NGX_HTTP_LOC_CONF;
      ngx_command_t* cmd = ngx_http_brunsli_static_module.commands;
      while (cmd && cmd->name.len && Str(cmd->name) != "brunsli_static") ++cmd;
      if (!cmd || !cmd->name.len) w.fail("directive-missing", "brunsli_static is not known");
      if (!(cmd->type & cf.cmd_type)) w.fail("directive-missing", Fmt("brunsli_static is not allowed on level %zu", i));
      void* conf = cmd->conf == NGX_HTTP_LOC_CONF_OFFSET ? l.mod : nullptr;
      if (!conf) w.fail("bad-configuration", "the directive does not belong to the location");
      char* rc;
      {
        SutScope sut;
        rc = cmd->set(&cf, cmd, conf);
      }
      w.ev("directive", i, value, rc == NGX_CONF_OK);
      if (rc != NGX_CONF_OK) {
        if (!bad && t == 0) w.fail("directive-refused", "brunsli_static " + text);
        w.probe("configuration_refused");
        return;
      }
      if (bad) w.fail("directive-accepted", "brunsli_static " + text);
      if (t) w.fail("directive-accepted", "brunsli_static twice on one level");
      l.set = value;
    }
  }
  for (size_t i = 1; i < lv.size(); ++i) {
    char* rc;
    {
      SutScope sut;
      rc = mod->merge_loc_conf(&cf, lv[i == 1 ? 0 : 1].mod, lv[i].mod);
    }
    if (rc != NGX_CONF_OK) {
      if (!server.injected) w.fail("no-configuration", "merge_loc_conf fails");
      return;
    }
    lv[i].value = lv[i].set >= 0 ? lv[i].set : i == 1 ? (lv[0].set >= 0 ? lv[0].set : 0) : lv[1].value;
  }
  cctx.loc_conf = lv[0].ctx;
  cf.ctx = &cctx;
  cctx.main_conf = main_conf;
  ngx_int_t rc;
  {
    SutScope sut;
    rc = mod->postconfiguration ? mod->postconfiguration(&cf) : NGX_OK;
  }
  std::vector<ngx_http_handler_pt> handlers;
  for (int ph : {NGX_HTTP_PRECONTENT_PHASE, NGX_HTTP_CONTENT_PHASE}) {
    ngx_array_t& a = cmcf.phases[ph].handlers;
    for (size_t i = 0; i < a.nelts; ++i) handlers.push_back(static_cast<ngx_http_handler_pt*>(a.elts)[i]);
  }
  w.ev("configured", rc, handlers.size());
  if (rc != NGX_OK) {
    if (!server.injected) w.fail("no-configuration", "postconfiguration fails");
    w.probe("configuration_refused");
    return;
  }
  if (handlers.empty()) w.fail("no-handler", "configuration succeeds, but requests are not handled");

  // The disk.
  const Workload& wl = GetWorkload(w, GenOpts());
  struct Doc {
    std::string uri;
    Bytes original;
    Bytes stream;    // of a real image
    bool real;
  };
  std::vector<Doc> docs;
  int ndocs = 1 + w.rare(CFG, 2, 3, 3);
  static const char* const kNames[] = {"/a.jpg", "/pics/a b.jpg", "/x.jpeg", "/deep/down/below/picture-of-something.jpg", "/j", "/.j",
                                       "/a.jpg.j", "/pics/\xc3\xa4.jpg"};
  for (int i = 0; i < ndocs; ++i) {
    Doc d;
    d.uri = kNames[w.pick(CFG, 8)];
    d.real = wl.enc == 0 && w.flip(CFG, 1, 3);
    if (d.real) d.original = wl.jpeg;
    d.stream = wl.brn;
    docs.push_back(d);
  }

  auto flush = [&](size_t k) {
    std::unique_ptr<Pending> p = std::move(pending[k]);
    pending.erase(pending.begin() + k);
    struct Done {
      Pending* p;
      ~Done() { Release(&p->req->pool); }
    } done{p.get()};
    Flush(w, p.get());
  };

  int n = 1 + w.pick(CFG, 10);
  for (int q = 0; q < n; ++q) {
    const Doc& doc = docs[w.pick(CFG, docs.size())];
    size_t li = 2 + w.pick(CFG, nloc);
    Level& l = lv[li];
    std::string uri = doc.uri;
    if (w.rare(CFG, 1, 12, 2)) uri = w.flip(CFG, 1, 2) ? "/" : uri + "/";
    size_t alias = 0;
    if (w.rare(CFG, 1, 6, 2)) alias = 1;
    l.core.alias = alias;
    std::string orig = roots[li] + uri.substr(alias), path = orig + ".j";
    // State of the file now: others write to the disk, too.
    Node& node = server.disk[path];
    if (w.flip(CFG, 1, 2) || node.kind == ABSENT) {
      static const Kind kKinds[] = {REGULAR, REGULAR, REGULAR, ABSENT, FOLDER, FIFO, NO_ACCESS, BAD_PATH, TOO_LONG, IO_ERROR, NO_HANDLES,
                                    LINK_LOOP, SYMLINK, REGULAR};
      node.kind = kKinds[w.pick(CFG, 14)];
      node.mtime = 1500000000 + w.pick(CFG, 100000000);
      node.is_directio = w.flip(CFG, 1, 6);
      if (doc.real) node.data = doc.stream;
      else node.data = Bytes(w.rare(CFG, 7, 8, 3000), (uint8_t)q);
      if (node.kind > FIFO && node.kind != SYMLINK) w.fault(node.kind == NO_ACCESS ? "access_denied" : node.kind == IO_ERROR ? "disk_error"
                                                : node.kind == NO_HANDLES ? "out_of_handles" : "path_trouble");
    }
    server.disk.erase(orig + ".j.j");

    // The request.
    server.pool_fail_at = server.pool_fail_count = server.pool_calls = 0;
    std::unique_ptr<Pending> pd(new Pending());
    pd->req.reset(new Request());
    Request& rq = *pd->req;
    rq.strings.reserve(8);
    ngx_http_request_t& r = rq.r;
    memset(&r, 0, sizeof r);
    memset(&rq.conn, 0, sizeof rq.conn);
    memset(&rq.log, 0, sizeof rq.log);
    static const ngx_uint_t kMethods[] = {NGX_HTTP_GET, NGX_HTTP_HEAD, NGX_HTTP_POST, NGX_HTTP_PUT};
    r.method = kMethods[w.rare(CFG, 1, 4, 4)];
    r.http_version = NGX_HTTP_VERSION_11;
    r.connection = &rq.conn;
    rq.conn.log = &rq.log;
    rq.conn.pool = &rq.pool;
    r.pool = &rq.pool;
    r.uri = rq.Keep(uri);
    r.uri.data[r.uri.len] = ' ';   // the rest of the request line
    r.unparsed_uri = r.uri;
    r.main_conf = main_conf;
    r.loc_conf = l.ctx;
    r.ctx = rq.ctx;
    rq.ctx[0] = rq.ctx[1] = nullptr;
    r.valid_location = 1;
    r.headers_out.content_length_n = -1;
    r.headers_out.last_modified_time = -1;
    InitList(&r.headers_out.headers, &rq.pool, sizeof(ngx_table_elt_t), 1 + w.pick(CFG, 3));
    std::string accept;
    if (!w.flip(CFG, 1, 8)) {
      accept = DrawAccept(w);
      memset(&rq.accept, 0, sizeof rq.accept);
      rq.accept.hash = 1;
      ngx_str_set(&rq.accept.key, "Accept");
      std::string before = "Accept: ";
      before[6] = 0;
      rq.accept.value = rq.Keep(accept, before);
      r.headers_in.accept = &rq.accept;
    }
    bool sub = w.rare(CFG, 1, 8, 2);
    if (sub) {
      rq.parent = r;
      r.main = r.parent = &rq.parent;
    } else {
      r.main = &r;
    }
    r.error_page = w.rare(CFG, 1, 12, 2);

    // Faults.
    server.pool_calls = 0;
    server.injected = false;
    server.body_rc = server.header_rc = server.filter_rc = 0;
    server.map_fails = server.links_fail = server.open_no_memory = server.not_modified = false;
    server.headers = server.filters = 0;
    server.queue.clear();
    server.sent_type.clear();
    server.sent_etag.clear();
    server.sent_coding.clear();
    switch (w.rare(FAULT, 1, 3, 12)) {
      case 1: case 2: case 3:
        server.pool_fail_at = 1 + w.pick(FAULT, 7);
        server.pool_fail_count = w.flip(FAULT, 1, 2) ? 1 : 100;
        break;
      case 4: server.body_rc = w.flip(FAULT, 1, 2) ? NGX_HTTP_INTERNAL_SERVER_ERROR : NGX_HTTP_BAD_REQUEST; break;
      case 5: server.header_rc = NGX_ERROR; break;
      case 6: server.header_rc = 412; break;
      case 7: server.filter_rc = NGX_ERROR; break;
      case 8: server.map_fails = true; break;
      case 9: server.links_fail = true; break;
      case 10: server.open_no_memory = true; break;
      case 11: server.not_modified = true; break;
      default: break;
    }
    if (!server.header_rc && w.flip(FAULT, 1, 4)) server.header_rc = NGX_AGAIN;
    if (!server.filter_rc && w.flip(FAULT, 1, 2)) server.filter_rc = NGX_AGAIN;

    ngx_http_headers_out_t before = r.headers_out;
    ngx_http_headers_in_t in_before = r.headers_in;
    w.ev("request", r.method, l.value, AsksForBrunsli(accept));
    rc = NGX_DECLINED;
    for (auto h : handlers) {
      SutScope sut;
      rc = h(&r);
      if (rc != NGX_DECLINED) break;
    }
    w.tick();
    w.ev("handled", rc, server.headers, server.filters);
    std::string what = Fmt("%s of %s, Accept: %s, %s: ", r.method == NGX_HTTP_GET ? "GET" : "other", uri.c_str(), accept.c_str(),
                           kLevels[l.value]);
    if (!server.broken.empty()) w.fail("server-rule", what + server.broken);
    if (alloc::Get().live_blocks) w.fail("leak", what + "memory from outside the pools");
    if (memcmp(&in_before, &r.headers_in, sizeof in_before) != 0) w.fail("request-changed", what + "the request's headers");
    if (rq.accept.value.len && Str(rq.accept.value) != accept && r.headers_in.accept) w.fail("request-changed", what + "Accept was edited");

    // Who must get the stream?
    Wants wants = accept.empty() ? REFUSES : AsksForBrunsli(accept);
    if (l.value == 2) wants = WANTS;
    else if (l.value == 0 || sub) wants = REFUSES;
    if (r.method != NGX_HTTP_GET && r.method != NGX_HTTP_HEAD) wants = REFUSES;
    if (uri.back() == '/') wants = REFUSES;
    Kind k = node.kind;
    if (k == SYMLINK) k = l.core.disable_symlinks ? LINK_LOOP : REGULAR;
    bool served = server.headers > 0;
    if (rc == NGX_DECLINED) {
      if (server.headers || server.filters) w.fail("declined-after-header", what + "the next handler answers a second time");
      if (memcmp(&before, &r.headers_out, sizeof before) != 0) w.fail("declined-with-traces", what + "the response's headers were set");
      if (r.discard_body || r.header_only) w.fail("declined-with-traces", what + "the request was changed");
      if (wants == WANTS && k == REGULAR && !server.injected) w.fail("stream-withheld", what + "declined");
      w.probe(wants == WANTS ? "declined_no_file" : "declined");
    } else if (!served) {
      if (server.filters) w.fail("bad-response", what + "body without header");
      if (rc == NGX_OK || rc == NGX_AGAIN || rc == NGX_DONE) w.fail("no-answer", what + Fmt("nothing was sent, result %d", (int)rc));
      // A fifo in place of the file is an error.
      if (!server.injected && !(wants != REFUSES && k == FIFO)) w.fail("spurious-failure", what + Fmt("result %d", (int)rc));
      w.probe("error_response");
    }
    if (served) {
      if (wants == REFUSES) w.fail("stream-forced", what + "the client did not ask for image/x-j");
      if (k != REGULAR) w.fail("wrong-file", what + "there is no such file");
      if (rc > NGX_OK) w.fail("error-after-header", what + Fmt("result %d", (int)rc));
      if (server.sent.status != NGX_HTTP_OK) w.fail("bad-header", what + Fmt("status %d", (int)server.sent.status));
      if (server.sent_type != "image/x-j") w.fail("bad-header", what + "content type " + server.sent_type);
      if (server.sent.content_length_n != (off_t)node.data.size())
        w.fail("bad-header", what + Fmt("length %ld of %zu", (long)server.sent.content_length_n, node.data.size()));
      if (server.sent.last_modified_time != node.mtime) w.fail("bad-header", what + "modification time");
      if (!server.sent_coding.empty() && server.sent_coding != "identity")
        w.fail("bad-header", what + "content coding " + server.sent_coding);
      if (l.core.etag && server.sent_etag != Fmt("\"%lx-%lx\"", (long)node.mtime, (long)node.data.size()))
        w.fail("bad-header", what + "ETag " + server.sent_etag);
      if (!r.discard_body) w.fail("body-not-discarded", what + "the request's body stays in the connection");
      bool gone = server.header_rc == NGX_ERROR;
      if (gone && rc != NGX_ERROR) w.fail("failure-hidden", what + "the header could not be sent");
      if (r.header_only || gone) {
        if (server.filters) w.fail("bad-response", what + "body of a header-only response");
      } else {
        if (server.filters == 0 && !server.injected) w.fail("no-body", what + "header only");
        if (server.filters && server.filter_rc == NGX_ERROR && rc != NGX_ERROR) w.fail("failure-hidden", what + "the body could not be sent");
      }
      w.probe("stream_served");
    }
    if (!server.injected && l.value == 1 && l.core.gzip_vary && k == REGULAR && uri.back() != '/' &&
        (r.method == NGX_HTTP_GET || r.method == NGX_HTTP_HEAD) && !r.gzip_vary)
      w.fail("no-vary", what + "the response depends on the request's headers, but does not say so");

    if (served && server.filters && server.filter_rc != NGX_ERROR) {
      pd->bufs = server.queue;
      pd->path = path;
      pd->node = node;
      pd->main = !sub;
      if (doc.real && node.data == doc.stream) pd->want = doc.original;
      pending.push_back(std::move(pd));
      w.fault("slow_client");
    } else {
      Release(&rq.pool);
    }
    while (!pending.empty() && w.flip(SCHED, 1, 2)) flush(w.pick(SCHED, pending.size()));
  }
  while (!pending.empty()) flush(w.pick(SCHED, pending.size()));
  if (alloc::Get().live_blocks) w.fail("leak", "memory from outside the pools");
}
Register r1("nginx", 64, 128, Nginx);

}  // namespace
}  // namespace sim
