/* The part of the httpd 2.4 and APR interface that request mapping modules
 * use. Implemented by the simulated server in sc_apache.cc. */
#ifndef SIM_HTTPD_H_
#define SIM_HTTPD_H_
#include <ctype.h>
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct apr_pool_t apr_pool_t;
typedef struct apr_table_t apr_table_t;
typedef int apr_status_t;
typedef int64_t apr_off_t;
typedef int64_t apr_time_t;
typedef int32_t apr_int32_t;
typedef size_t apr_size_t;
#define APR_SUCCESS 0
#define APR_ENOENT ENOENT
#define APR_EACCES EACCES
#define APR_ENOTDIR ENOTDIR
#define APR_INCOMPLETE 70008
#define APR_STATUS_IS_ENOENT(s) ((s) == ENOENT)

typedef enum {
  APR_NOFILE = 0, APR_REG, APR_DIR, APR_CHR, APR_BLK, APR_PIPE, APR_LNK, APR_SOCK, APR_UNKFILE = 127
} apr_filetype_e;
#define APR_FINFO_LINK 0x00000001
#define APR_FINFO_MTIME 0x00000010
#define APR_FINFO_CTIME 0x00000020
#define APR_FINFO_ATIME 0x00000040
#define APR_FINFO_SIZE 0x00000100
#define APR_FINFO_TYPE 0x00008000
#define APR_FINFO_MIN 0x00008170
#define APR_FINFO_NORM 0x0073b170
typedef struct {
  apr_pool_t* pool;
  apr_int32_t valid;
  apr_int32_t protection;
  apr_filetype_e filetype;
  apr_off_t size;
  apr_time_t atime, mtime, ctime;
  const char* fname;
  const char* name;
} apr_finfo_t;
apr_status_t apr_stat(apr_finfo_t* finfo, const char* fname, apr_int32_t wanted, apr_pool_t* pool);

#define OK 0
#define DECLINED -1
#define DONE -2
#define SUSPENDED -3
#define HTTP_OK 200
#define HTTP_BAD_REQUEST 400
#define HTTP_FORBIDDEN 403
#define HTTP_NOT_FOUND 404
#define HTTP_INTERNAL_SERVER_ERROR 500
#define M_GET 0
#define M_PUT 1
#define M_POST 2

typedef struct request_rec request_rec;
typedef struct server_rec server_rec;
struct request_rec {
  apr_pool_t* pool;
  server_rec* server;
  request_rec* next;
  request_rec* prev;
  request_rec* main;
  char* the_request;
  int assbackwards;
  int proxyreq;
  int header_only;
  int proto_num;
  const char* protocol;
  const char* hostname;
  int status;
  int method_number;
  const char* method;
  apr_table_t* headers_in;
  apr_table_t* headers_out;
  apr_table_t* err_headers_out;
  apr_table_t* subprocess_env;
  apr_table_t* notes;
  const char* content_type;
  const char* handler;
  const char* content_encoding;
  char* vlist_validator;
  char* user;
  int no_cache;
  int no_local_copy;
  char* unparsed_uri;
  char* uri;
  char* filename;
  char* canonical_filename;
  char* path_info;
  char* args;
  apr_finfo_t finfo;
};

typedef struct module_struct {
  int version;
  int minor_version;
  int module_index;
  const char* name;
  void* dynamic_load_handle;
  struct module_struct* next;
  unsigned long magic;
  void (*rewrite_args)(void*);
  void* (*create_dir_config)(apr_pool_t* p, char* dir);
  void* (*merge_dir_config)(apr_pool_t* p, void* base, void* next);
  void* (*create_server_config)(apr_pool_t* p, server_rec* s);
  void* (*merge_server_config)(apr_pool_t* p, void* base, void* next);
  const void* cmds;
  void (*register_hooks)(apr_pool_t* p);
} module;
#define AP_MODULE_DECLARE_DATA
#define STANDARD20_MODULE_STUFF 20120211, 0, -1, __FILE__, NULL, NULL, 0x41503234UL, NULL
#define AP_DECLARE_MODULE(foo) module AP_MODULE_DECLARE_DATA foo##_module
#ifdef __cplusplus
}
#endif
#endif
