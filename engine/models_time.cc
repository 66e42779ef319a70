// Models of the C library's strptime, strftime and timegm for the conversions libkml uses (glibc semantics; the week day and the
// day of the year are left zero; any other conversion goes to the C library, which makes its inputs concrete).
#include <stddef.h>
#include <string.h>
#include <strings.h>
#include <time.h>
extern "C" {
int __m_isspace(int c);
static const char* number(const char* p, int lo, int hi, int n, int* out) {
  int v = 0; while (__m_isspace((unsigned char)*p)) p++;
  if (*p < '0' || *p > '9') return 0;
  do { v = v * 10 + (*p++ - '0'); } while (--n > 0 && v * 10 <= hi && *p >= '0' && *p <= '9');
  if (v < lo || v > hi) return 0;
  *out = v; return p;
}
char* __m_strptime(const char* s, const char* f, struct tm* t) {
  int v; static const char* kMon[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
  for (; *f; f++) {
    if (__m_isspace((unsigned char)*f)) { while (__m_isspace((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) return 0; s++; continue; }
    f++;
    switch (*f) {
      case 'Y': if (!(s = number(s, 0, 9999, 4, &v))) return 0; t->tm_year = v - 1900; break;
      case 'm': if (!(s = number(s, 1, 12, 2, &v))) return 0; t->tm_mon = v - 1; break;
      case 'd': case 'e': if (!(s = number(s, 1, 31, 2, &v))) return 0; t->tm_mday = v; break;
      case 'H': if (!(s = number(s, 0, 23, 2, &v))) return 0; t->tm_hour = v; break;
      case 'M': if (!(s = number(s, 0, 59, 2, &v))) return 0; t->tm_min = v; break;
      case 'S': if (!(s = number(s, 0, 61, 2, &v))) return 0; t->tm_sec = v; break;
      case 'T': if (!(s = __m_strptime(s, "%H:%M:%S", t))) return 0; break;
      case 'F': if (!(s = __m_strptime(s, "%Y-%m-%d", t))) return 0; break;
      case 'b': case 'B': case 'h': { int i = 0; for (; i < 12; i++) { size_t l = strlen(kMon[i]); if (!strncasecmp(s, kMon[i], l)) { s += l; break; } if (!strncasecmp(s, kMon[i], 3)) { s += 3; break; } } if (i == 12) return 0; t->tm_mon = i; break; }
      case '%': if (*s != '%') return 0; s++; break;
      default: return 0;
    }
  }
  return (char*)s;
}
static char* two(char* p, char* e, int v) { if (p && e - p >= 2) { *p++ = '0' + v / 10; *p++ = '0' + v % 10; return p; } return 0; }
static char* year(char* p, char* e, int v) {
  char b[12]; int n = 0; bool neg = v < 0; if (neg) v = -v; do { b[n++] = '0' + v % 10; v /= 10; } while (v); if (neg) b[n++] = '-';
  if (!p || e - p < n) return 0; while (n) *p++ = b[--n]; return p;
}
size_t __m_strftime(char* d, size_t max, const char* f, const struct tm* t) {
  char* p = d; char* e = d + max;
  for (; *f && p; f++) {
    if (*f != '%') { if (p < e) *p++ = *f; else p = 0; continue; }
    f++;
    switch (*f) {
      case 'Y': p = year(p, e, t->tm_year + 1900); break; case 'm': p = two(p, e, t->tm_mon + 1); break; case 'd': p = two(p, e, t->tm_mday); break;
      case 'H': p = two(p, e, t->tm_hour); break; case 'M': p = two(p, e, t->tm_min); break; case 'S': p = two(p, e, t->tm_sec); break;
      case 'T': p = two(p, e, t->tm_hour); if (p && p < e) *p++ = ':'; else p = 0; p = two(p, e, t->tm_min); if (p && p < e) *p++ = ':'; else p = 0; p = two(p, e, t->tm_sec); break;
      case 'F': p = year(p, e, t->tm_year + 1900); if (p && p < e) *p++ = '-'; else p = 0; p = two(p, e, t->tm_mon + 1); if (p && p < e) *p++ = '-'; else p = 0; p = two(p, e, t->tm_mday); break;
      default: return 0;
    }
  }
  if (!p || p >= e) return 0;
  *p = 0; return p - d;
}
time_t __m_timegm(struct tm* t) {
  long y = t->tm_year + 1900L, m = t->tm_mon + 1; if (m <= 2) { y--; m += 12; }
  long era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400, doy = (153 * (m - 3) + 2) / 5, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return ((era * 146097 + doe - 719468 + t->tm_mday - 1) * 24 + t->tm_hour) * 3600 + t->tm_min * 60 + t->tm_sec;
}
}
