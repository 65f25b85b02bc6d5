// The string functions of libc that the module may call, instrumented.
#include <stddef.h>

static int Lower(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int __wrap_strncmp(const char* a, const char* b, size_t n) {
  for (; n; ++a, ++b, --n)
    if (*a != *b || !*a) return (unsigned char)*a - (unsigned char)*b;
  return 0;
}
int __wrap_strcmp(const char* a, const char* b) { return __wrap_strncmp(a, b, (size_t)-1); }
int __wrap_strncasecmp(const char* a, const char* b, size_t n) {
  for (; n; ++a, ++b, --n)
    if (Lower(*a) != Lower(*b) || !*a) return Lower(*a) - Lower(*b);
  return 0;
}
int __wrap_strcasecmp(const char* a, const char* b) { return __wrap_strncasecmp(a, b, (size_t)-1); }
char* __wrap_strchr(const char* s, int c) {
  for (;; ++s) {
    if (*s == (char)c) return (char*)s;
    if (!*s) return 0;
  }
}
char* __wrap_strstr(const char* s, const char* t) {
  for (;; ++s) {
    size_t i = 0;
    while (t[i] && s[i] == t[i]) ++i;
    if (!t[i]) return (char*)s;
    if (!*s) return 0;
  }
}
char* __wrap_strcpy(char* d, const char* s) {
  for (size_t i = 0;; ++i) {
    d[i] = s[i];
    if (!s[i]) return d;
  }
}
char* __wrap_strncpy(char* d, const char* s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; ++i) d[i] = s[i];
  for (; i < n; ++i) d[i] = 0;
  return d;
}
