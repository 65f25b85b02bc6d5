#ifndef SIM_HTTP_CONFIG_H_
#define SIM_HTTP_CONFIG_H_
#include "apr_strings.h"
#ifdef __cplusplus
extern "C" {
#endif
#define APR_HOOK_REALLY_FIRST (-10)
#define APR_HOOK_FIRST 0
#define APR_HOOK_MIDDLE 10
#define APR_HOOK_LAST 20
#define APR_HOOK_REALLY_LAST 30
typedef int (*sim_request_hook)(request_rec* r);
void ap_hook_translate_name(sim_request_hook f, const char* const* pre, const char* const* succ, int order);
void ap_hook_map_to_storage(sim_request_hook f, const char* const* pre, const char* const* succ, int order);
void ap_hook_type_checker(sim_request_hook f, const char* const* pre, const char* const* succ, int order);
void ap_hook_fixups(sim_request_hook f, const char* const* pre, const char* const* succ, int order);
#ifdef __cplusplus
}
#endif
#endif
