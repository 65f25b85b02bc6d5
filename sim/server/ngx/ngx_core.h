#ifndef SIM_NGX_CORE_H_
#define SIM_NGX_CORE_H_
#include "ngx_config.h"
#ifdef __cplusplus
extern "C" {
#endif

#define LF (u_char)'\n'
#define CR (u_char)'\r'
#define CRLF "\r\n"
#define ngx_abs(value) (((value) >= 0) ? (value) : -(value))
#define ngx_max(val1, val2) ((val1 < val2) ? (val2) : (val1))
#define ngx_min(val1, val2) ((val1 > val2) ? (val2) : (val1))

#define NGX_OK 0
#define NGX_ERROR -1
#define NGX_AGAIN -2
#define NGX_BUSY -3
#define NGX_DONE -4
#define NGX_DECLINED -5
#define NGX_ABORT -6

typedef struct ngx_module_s ngx_module_t;
typedef struct ngx_conf_s ngx_conf_t;
typedef struct ngx_cycle_s ngx_cycle_t;
typedef struct ngx_pool_s ngx_pool_t;
typedef struct ngx_chain_s ngx_chain_t;
typedef struct ngx_log_s ngx_log_t;
typedef struct ngx_open_file_s ngx_open_file_t;
typedef struct ngx_command_s ngx_command_t;
typedef struct ngx_file_s ngx_file_t;
typedef struct ngx_event_s ngx_event_t;
typedef struct ngx_connection_s ngx_connection_t;
typedef uintptr_t ngx_msec_t;
typedef intptr_t ngx_msec_int_t;
typedef int ngx_err_t;
typedef int ngx_fd_t;
typedef int ngx_socket_t;
typedef ino_t ngx_file_uniq_t;

#define NGX_ENOENT ENOENT
#define NGX_ENOTDIR ENOTDIR
#define NGX_EISDIR EISDIR
#define NGX_EACCES EACCES
#define NGX_EPERM EPERM
#define NGX_EMLINK EMLINK
#define NGX_ELOOP ELOOP
#define NGX_ENAMETOOLONG ENAMETOOLONG
#define NGX_EMFILE EMFILE
#define NGX_ENFILE ENFILE
#define NGX_EINTR EINTR
#define NGX_EAGAIN EAGAIN
#define NGX_ENOMEM ENOMEM
#define NGX_EINVAL EINVAL
#define NGX_EIO EIO
#define ngx_errno errno
#define NGX_INVALID_FILE -1
#define NGX_FILE_ERROR -1

/* strings */
typedef struct {
  size_t len;
  u_char* data;
} ngx_str_t;
#define ngx_string(str) { sizeof(str) - 1, (u_char*)str }
#define ngx_null_string { 0, NULL }
#define ngx_str_set(str, text) (str)->len = sizeof(text) - 1; (str)->data = (u_char*)text
#define ngx_str_null(str) (str)->len = 0; (str)->data = NULL
#define ngx_tolower(c) (u_char)((c >= 'A' && c <= 'Z') ? (c | 0x20) : c)
#define ngx_toupper(c) (u_char)((c >= 'a' && c <= 'z') ? (c & ~0x20) : c)
#define ngx_strncmp(s1, s2, n) strncmp((const char*)s1, (const char*)s2, n)
#define ngx_strcmp(s1, s2) strcmp((const char*)s1, (const char*)s2)
#define ngx_strstr(s1, s2) strstr((const char*)s1, (const char*)s2)
#define ngx_strlen(s) strlen((const char*)s)
#define ngx_strchr(s1, c) strchr((const char*)s1, (int)c)
#define ngx_memzero(buf, n) (void)memset(buf, 0, n)
#define ngx_memset(buf, c, n) (void)memset(buf, c, n)
#define ngx_explicit_memzero(buf, n) (void)memset(buf, 0, n)
#define ngx_memcpy(dst, src, n) (void)memcpy(dst, src, n)
#define ngx_cpymem(dst, src, n) (((u_char*)memcpy(dst, src, n)) + (n))
#define ngx_copy ngx_cpymem
#define ngx_memmove(dst, src, n) (void)memmove(dst, src, n)
#define ngx_movemem(dst, src, n) (((u_char*)memmove(dst, src, n)) + (n))
#define ngx_memcmp(s1, s2, n) memcmp((const char*)s1, (const char*)s2, n)
void ngx_strlow(u_char* dst, u_char* src, size_t n);
u_char* ngx_cpystrn(u_char* dst, u_char* src, size_t n);
ngx_int_t ngx_strcasecmp(u_char* s1, u_char* s2);
ngx_int_t ngx_strncasecmp(u_char* s1, u_char* s2, size_t n);
u_char* ngx_strnstr(u_char* s1, char* s2, size_t n);
u_char* ngx_strstrn(u_char* s1, char* s2, size_t n);
u_char* ngx_strcasestrn(u_char* s1, char* s2, size_t n);
u_char* ngx_strlcasestrn(u_char* s1, u_char* last, u_char* s2, size_t n);
ngx_int_t ngx_rstrncmp(u_char* s1, u_char* s2, size_t n);
ngx_int_t ngx_atoi(u_char* line, size_t n);
ngx_int_t ngx_atofp(u_char* line, size_t n, size_t point);
static inline u_char* ngx_strlchr(u_char* p, u_char* last, u_char c) {
  while (p < last) {
    if (*p == c) return p;
    p++;
  }
  return NULL;
}
u_char* ngx_sprintf(u_char* buf, const char* fmt, ...);
u_char* ngx_snprintf(u_char* buf, size_t max, const char* fmt, ...);

/* log */
#define NGX_LOG_STDERR 0
#define NGX_LOG_EMERG 1
#define NGX_LOG_ALERT 2
#define NGX_LOG_CRIT 3
#define NGX_LOG_ERR 4
#define NGX_LOG_WARN 5
#define NGX_LOG_NOTICE 6
#define NGX_LOG_INFO 7
#define NGX_LOG_DEBUG 8
#define NGX_LOG_DEBUG_CORE 0x010
#define NGX_LOG_DEBUG_HTTP 0x100
struct ngx_log_s {
  ngx_uint_t log_level;
  void* data;
  const char* action;
};
void ngx_log_error(ngx_uint_t level, ngx_log_t* log, ngx_err_t err, const char* fmt, ...);
#define ngx_log_debug0(level, log, err, fmt) ((void)(log))
#define ngx_log_debug1(level, log, err, fmt, a1) ((void)(log), (void)(a1))
#define ngx_log_debug2(level, log, err, fmt, a1, a2) ((void)(log), (void)(a1), (void)(a2))
#define ngx_log_debug3(level, log, err, fmt, a1, a2, a3) ((void)(log), (void)(a1), (void)(a2), (void)(a3))
#define ngx_log_debug4(level, log, err, fmt, a1, a2, a3, a4) ((void)(log), (void)(a1), (void)(a2), (void)(a3), (void)(a4))

/* memory */
void* ngx_palloc(ngx_pool_t* pool, size_t size);
void* ngx_pnalloc(ngx_pool_t* pool, size_t size);
void* ngx_pcalloc(ngx_pool_t* pool, size_t size);
void* ngx_pmemalign(ngx_pool_t* pool, size_t size, size_t alignment);
ngx_int_t ngx_pfree(ngx_pool_t* pool, void* p);
u_char* ngx_pstrdup(ngx_pool_t* pool, ngx_str_t* src);
typedef void (*ngx_pool_cleanup_pt)(void* data);
typedef struct ngx_pool_cleanup_s ngx_pool_cleanup_t;
struct ngx_pool_cleanup_s {
  ngx_pool_cleanup_pt handler;
  void* data;
  ngx_pool_cleanup_t* next;
};
ngx_pool_cleanup_t* ngx_pool_cleanup_add(ngx_pool_t* p, size_t size);

/* containers */
typedef struct {
  void* elts;
  ngx_uint_t nelts;
  size_t size;
  ngx_uint_t nalloc;
  ngx_pool_t* pool;
} ngx_array_t;
void* ngx_array_push(ngx_array_t* a);
void* ngx_array_push_n(ngx_array_t* a, ngx_uint_t n);
typedef struct ngx_list_part_s ngx_list_part_t;
struct ngx_list_part_s {
  void* elts;
  ngx_uint_t nelts;
  ngx_list_part_t* next;
};
typedef struct {
  ngx_list_part_t* last;
  ngx_list_part_t part;
  size_t size;
  ngx_uint_t nalloc;
  ngx_pool_t* pool;
} ngx_list_t;
void* ngx_list_push(ngx_list_t* list);
typedef struct {
  ngx_uint_t hash;
  ngx_str_t key;
  ngx_str_t value;
  u_char* lowcase_key;
} ngx_table_elt_t;
typedef struct {
  ngx_str_t key;
  ngx_str_t value;
} ngx_keyval_t;

/* buffers */
typedef void* ngx_buf_tag_t;
typedef struct ngx_buf_s ngx_buf_t;
struct ngx_buf_s {
  u_char* pos;
  u_char* last;
  off_t file_pos;
  off_t file_last;
  u_char* start;
  u_char* end;
  ngx_buf_tag_t tag;
  ngx_file_t* file;
  ngx_buf_t* shadow;
  unsigned temporary : 1;
  unsigned memory : 1;
  unsigned mmap : 1;
  unsigned recycled : 1;
  unsigned in_file : 1;
  unsigned flush : 1;
  unsigned sync : 1;
  unsigned last_buf : 1;
  unsigned last_in_chain : 1;
  unsigned last_shadow : 1;
  unsigned temp_file : 1;
  int num;
};
struct ngx_chain_s {
  ngx_buf_t* buf;
  ngx_chain_t* next;
};
#define ngx_buf_in_memory(b) ((b)->temporary || (b)->memory || (b)->mmap)
#define ngx_alloc_buf(pool) (ngx_buf_t*)ngx_palloc(pool, sizeof(ngx_buf_t))
#define ngx_calloc_buf(pool) (ngx_buf_t*)ngx_pcalloc(pool, sizeof(ngx_buf_t))
ngx_chain_t* ngx_alloc_chain_link(ngx_pool_t* pool);
ngx_buf_t* ngx_create_temp_buf(ngx_pool_t* pool, size_t size);
#define ngx_free_chain(pool, cl) ((void)(cl))

/* files */
struct ngx_file_s {
  ngx_fd_t fd;
  ngx_str_t name;
  struct { time_t mtime; off_t size; } info;
  off_t offset;
  off_t sys_offset;
  ngx_log_t* log;
  unsigned valid_info : 1;
  unsigned directio : 1;
};
typedef struct {
  ngx_fd_t fd;
  ngx_file_uniq_t uniq;
  time_t mtime;
  off_t size;
  off_t fs_size;
  off_t directio;
  size_t read_ahead;
  ngx_err_t err;
  const char* failed;
  time_t valid;
  ngx_uint_t min_uses;
  size_t disable_symlinks_from;
  unsigned disable_symlinks : 2;
  unsigned test_dir : 1;
  unsigned test_only : 1;
  unsigned log : 1;
  unsigned errors : 1;
  unsigned events : 1;
  unsigned is_dir : 1;
  unsigned is_file : 1;
  unsigned is_link : 1;
  unsigned is_exec : 1;
  unsigned is_directio : 1;
} ngx_open_file_info_t;
typedef struct {
  ngx_uint_t current, max;
} ngx_open_file_cache_t;
#define NGX_DISABLE_SYMLINKS_OFF 0
#define NGX_DISABLE_SYMLINKS_ON 1
#define NGX_DISABLE_SYMLINKS_NOTOWNER 2
ngx_int_t ngx_open_cached_file(ngx_open_file_cache_t* cache, ngx_str_t* name, ngx_open_file_info_t* of, ngx_pool_t* pool);

/* configuration */
#define NGX_CONF_NOARGS 0x00000001
#define NGX_CONF_TAKE1 0x00000002
#define NGX_CONF_FLAG 0x00000200
#define NGX_CONF_1MORE 0x00000800
#define NGX_CONF_UNSET -1
#define NGX_CONF_UNSET_UINT (ngx_uint_t)-1
#define NGX_CONF_UNSET_PTR (void*)-1
#define NGX_CONF_UNSET_SIZE (size_t)-1
#define NGX_CONF_OK NULL
#define NGX_CONF_ERROR (char*)-1
struct ngx_command_s {
  ngx_str_t name;
  ngx_uint_t type;
  char* (*set)(ngx_conf_t* cf, ngx_command_t* cmd, void* conf);
  ngx_uint_t conf;
  ngx_uint_t offset;
  void* post;
};
#define ngx_null_command { ngx_null_string, 0, NULL, 0, 0, NULL }
struct ngx_conf_s {
  char* name;
  ngx_array_t* args;
  ngx_cycle_t* cycle;
  ngx_pool_t* pool;
  ngx_pool_t* temp_pool;
  ngx_log_t* log;
  void* ctx;
  ngx_uint_t module_type;
  ngx_uint_t cmd_type;
};
typedef struct {
  ngx_str_t name;
  ngx_uint_t value;
} ngx_conf_enum_t;
char* ngx_conf_set_enum_slot(ngx_conf_t* cf, ngx_command_t* cmd, void* conf);
char* ngx_conf_set_flag_slot(ngx_conf_t* cf, ngx_command_t* cmd, void* conf);
void ngx_conf_log_error(ngx_uint_t level, ngx_conf_t* cf, ngx_err_t err, const char* fmt, ...);
#define ngx_conf_merge_value(conf, prev, default) \
  if (conf == NGX_CONF_UNSET) { conf = (prev == NGX_CONF_UNSET) ? default : prev; }
#define ngx_conf_merge_uint_value(conf, prev, default) \
  if (conf == NGX_CONF_UNSET_UINT) { conf = (prev == NGX_CONF_UNSET_UINT) ? default : prev; }
#define ngx_conf_init_uint_value(conf, default) \
  if (conf == NGX_CONF_UNSET_UINT) { conf = default; }

struct ngx_module_s {
  ngx_uint_t ctx_index;
  ngx_uint_t index;
  char* name;
  ngx_uint_t spare0;
  ngx_uint_t spare1;
  ngx_uint_t version;
  const char* signature;
  void* ctx;
  ngx_command_t* commands;
  ngx_uint_t type;
  ngx_int_t (*init_master)(ngx_log_t* log);
  ngx_int_t (*init_module)(ngx_cycle_t* cycle);
  ngx_int_t (*init_process)(ngx_cycle_t* cycle);
  ngx_int_t (*init_thread)(ngx_cycle_t* cycle);
  void (*exit_thread)(ngx_cycle_t* cycle);
  void (*exit_process)(ngx_cycle_t* cycle);
  void (*exit_master)(ngx_cycle_t* cycle);
  uintptr_t hook[8];
};
#define NGX_MODULE_UNSET_INDEX (ngx_uint_t)-1
#define NGX_MODULE_V1 NGX_MODULE_UNSET_INDEX, NGX_MODULE_UNSET_INDEX, NULL, 0, 0, 1018000, "simulated"
#define NGX_MODULE_V1_PADDING {0, 0, 0, 0, 0, 0, 0, 0}

struct ngx_connection_s {
  void* data;
  ngx_log_t* log;
  ngx_pool_t* pool;
  ngx_uint_t requests;
  unsigned buffered : 8;
  unsigned error : 1;
};
#ifdef __cplusplus
}
#endif
#endif
