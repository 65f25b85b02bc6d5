#ifndef SIM_HTTP_CORE_H_
#define SIM_HTTP_CORE_H_
#include "http_config.h"
#ifdef __cplusplus
extern "C" {
#endif
int ap_core_translate(request_rec* r);
void ap_set_content_type(request_rec* r, const char* ct);
char* ap_get_token(apr_pool_t* p, const char** accept_line, int accept_white);
#define APLOG_ERR 3
#define APLOG_WARNING 4
#define APLOG_INFO 6
#define APLOG_DEBUG 7
#define APLOG_MARK __FILE__, __LINE__, -1
void ap_log_rerror(const char* file, int line, int index, int level, apr_status_t status, const request_rec* r,
                   const char* fmt, ...);
#ifdef __cplusplus
}
#endif
#endif
