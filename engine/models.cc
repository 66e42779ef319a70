// Models of the C library functions libkml calls.  Compiled to bitcode and instrumented like the code
// under test; __m_<symbol> replaces <symbol> in the symbolic build only (the native twin uses the real ones).
#include <stddef.h>
#include <stdint.h>
#include <errno.h>
#include <limits.h>
extern "C" {
void* __kv_malloc(size_t); void* __kv_calloc(size_t, size_t); void* __kv_realloc(void*, size_t); void __kv_free(void*);
void* __m_malloc(size_t n) { return __kv_malloc(n); }
void* __m_calloc(size_t a, size_t b) { return __kv_calloc(a, b); }
void* __m_realloc(void* p, size_t n) { return __kv_realloc(p, n); }
void __m_free(void* p) { __kv_free(p); }
void* __m__Znwm(size_t n) { return __kv_malloc(n); }
void* __m__Znam(size_t n) { return __kv_malloc(n); }
void* __m__ZnwmRKSt9nothrow_t(size_t n, const void*) { return __kv_malloc(n); }
void* __m__ZnamRKSt9nothrow_t(size_t n, const void*) { return __kv_malloc(n); }
void __m__ZdlPv(void* p) { __kv_free(p); }
void __m__ZdaPv(void* p) { __kv_free(p); }
void __m__ZdlPvm(void* p, size_t) { __kv_free(p); }
void __m__ZdaPvm(void* p, size_t) { __kv_free(p); }

size_t __m_strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int __m_strcmp(const char* a, const char* b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return (int)x - (int)y; if (!x) return 0; } }
int __m_strncmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return (int)x - (int)y; if (!x) return 0; } return 0; }
char* __m_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* __m_strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* __m_memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
char* __m_strstr(const char* h, const char* n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; if (!*h) return 0; } }
char* __m_strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* __m_strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* __m_strcat(char* d, const char* s) { char* r = d; while (*d) d++; while ((*d++ = *s++)) {} return r; }
char* __m_strdup(const char* s) { size_t n = __m_strlen(s) + 1; char* p = (char*)__kv_malloc(n); for (size_t i = 0; i < n; i++) p[i] = s[i]; return p; }
// C locale character classes, written without branches where possible
int __m_isspace(int c) { return ((c == ' ') | ((unsigned)c - 9u < 5u)) ? 8192 : 0; }
int __m_isdigit(int c) { return ((unsigned)c - '0' < 10u) ? 2048 : 0; }
int __m_isalpha(int c) { return (((unsigned)c | 32) - 'a' < 26u) ? 1024 : 0; }
int __m_isupper(int c) { return ((unsigned)c - 'A' < 26u) ? 256 : 0; }
int __m_islower(int c) { return ((unsigned)c - 'a' < 26u) ? 512 : 0; }
int __m_isalnum(int c) { return (((((unsigned)c | 32) - 'a') < 26u) | (((unsigned)c - '0') < 10u)) ? 8 : 0; }
int __m_isxdigit(int c) { return (((((unsigned)c | 32) - 'a') < 6u) | (((unsigned)c - '0') < 10u)) ? 4096 : 0; }
int __m_tolower(int c) { return c + (((unsigned)c - 'A' < 26u) ? 32 : 0); }
int __m_toupper(int c) { return c - (((unsigned)c - 'a' < 26u) ? 32 : 0); }
int __m_strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = __m_tolower((unsigned char)*a), y = __m_tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int __m_strncasecmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { int x = __m_tolower((unsigned char)*a), y = __m_tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
long __m___isoc23_strtol(const char* s, char** end, int base) {
  const char* p = s; while (__m_isspace((unsigned char)*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && __m_isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false, ovf = false; int n = 0;
  for (;; p++) {
    unsigned c = (unsigned char)*p, d;
    if (c - '0' < 10u) d = c - '0'; else if ((c | 32) - 'a' < 26u) d = (c | 32) - 'a' + 10; else break;
    if (d >= (unsigned)base) break;
    any = true; n++;
    if (n > 15) { if (v > (LONG_MAX - d) / base) ovf = true; }
    v = v * base + d;
  }
  if (end) *end = (char*)(any ? p : s);
  if (ovf) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
  return neg ? -(long)v : (long)v;
}
long __m_strtol(const char* s, char** e, int b) { return __m___isoc23_strtol(s, e, b); }
int __m_atoi(const char* s) { return (int)__m___isoc23_strtol(s, 0, 10); }
}
