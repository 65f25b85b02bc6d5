#ifndef SIM_APR_STRINGS_H_
#define SIM_APR_STRINGS_H_
#include "httpd.h"
#ifdef __cplusplus
extern "C" {
#endif
#define apr_isspace(c) (isspace(((unsigned char)(c))))
#define apr_tolower(c) (tolower(((unsigned char)(c))))
char* apr_pstrdup(apr_pool_t* p, const char* s);
char* apr_pstrndup(apr_pool_t* p, const char* s, apr_size_t n);
void* apr_pmemdup(apr_pool_t* p, const void* m, apr_size_t n);
char* apr_pstrcat(apr_pool_t* p, ...);
char* apr_psprintf(apr_pool_t* p, const char* fmt, ...);
char* apr_strtok(char* str, const char* sep, char** last);
void apr_collapse_spaces(char* dest, const char* src);
char* apr_cpystrn(char* dst, const char* src, apr_size_t n);
int apr_strnatcmp(const char* a, const char* b);
void* apr_palloc(apr_pool_t* p, apr_size_t n);
void* apr_pcalloc(apr_pool_t* p, apr_size_t n);
const char* apr_table_get(const apr_table_t* t, const char* key);
void apr_table_set(apr_table_t* t, const char* key, const char* val);
void apr_table_setn(apr_table_t* t, const char* key, const char* val);
void apr_table_merge(apr_table_t* t, const char* key, const char* val);
void apr_table_mergen(apr_table_t* t, const char* key, const char* val);
void apr_table_add(apr_table_t* t, const char* key, const char* val);
void apr_table_addn(apr_table_t* t, const char* key, const char* val);
void apr_table_unset(apr_table_t* t, const char* key);
#ifdef __cplusplus
}
#endif
#endif
