/* The part of the nginx module interface that static content modules use,
 * with the types, values and contracts of nginx 1.18. Implemented by the
 * simulated server in sc_nginx.cc. */
#ifndef SIM_NGX_CONFIG_H_
#define SIM_NGX_CONFIG_H_
#include <ctype.h>
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <time.h>
#ifndef NGX_WIN32
#define NGX_WIN32 0
#endif
#define NGX_LINUX 1
#define NGX_HAVE_OPENAT 1
#define NGX_DEBUG 0
#define NGX_HTTP_GZIP 1
#define NGX_HTTP_HEADERS 1
#define NGX_HTTP_CACHE 1
#define NGX_PTR_SIZE 8
#define ngx_inline inline
#define ngx_cdecl
typedef intptr_t ngx_int_t;
typedef uintptr_t ngx_uint_t;
typedef intptr_t ngx_flag_t;
typedef unsigned char ngx_uchar_t;
#define NGX_INT_T_LEN (sizeof("-9223372036854775808") - 1)
#define NGX_OFF_T_LEN (sizeof("-9223372036854775808") - 1)
#define NGX_MAX_INT_T_VALUE 9223372036854775807
#define ngx_abort abort
#define ngx_signal_helper(n) SIG##n
#endif
