// The string functions of APR, built like the module: instrumented, so that
// what they do to memory of the module is seen by the simulated scheduler.
#include <apr_strings.h>
#include <apr_lib.h>

static apr_size_t Length(const char* s) {
  apr_size_t n = 0;
  while (s[n]) ++n;
  return n;
}
void* apr_pmemdup(apr_pool_t* p, const void* m, apr_size_t n) {
  const volatile char* s = (const volatile char*)m;
  char* d;
  if (!m) return 0;
  d = (char*)apr_palloc(p, n);
  for (apr_size_t i = 0; i < n; ++i) d[i] = s[i];
  return d;
}
char* apr_pstrdup(apr_pool_t* p, const char* s) { return s ? (char*)apr_pmemdup(p, s, Length(s) + 1) : 0; }
char* apr_pstrndup(apr_pool_t* p, const char* s, apr_size_t n) {
  apr_size_t k = 0;
  char* d;
  if (!s) return 0;
  while (k < n && s[k]) ++k;
  d = (char*)apr_palloc(p, k + 1);
  for (apr_size_t i = 0; i < k; ++i) d[i] = s[i];
  d[k] = 0;
  return d;
}
static int In(const char* set, char c) {
  while (*set && *set != c) ++set;
  return *set != 0;
}
char* apr_strtok(char* str, const char* sep, char** last) {
  char* token;
  if (!str) str = *last;
  while (*str && In(sep, *str)) ++str;
  if (!*str) return 0;
  token = str;
  *last = token + 1;
  while (**last && !In(sep, **last)) ++*last;
  if (**last) {
    **last = '\0';
    ++*last;
  }
  return token;
}
void apr_collapse_spaces(char* dest, const char* src) {
  while (*src) {
    if (!apr_isspace(*src)) *dest++ = *src;
    ++src;
  }
  *dest = 0;
}
char* apr_cpystrn(char* dst, const char* src, apr_size_t n) {
  if (n == 0) return dst;
  while (--n && *src) *dst++ = *src++;
  *dst = 0;
  return dst;
}
