// Models of the locale-dependent number formatting/parsing behind std::ostream << and std::istream >>
// (classic locale), and of std::getline.
#include <istream>
#include <ostream>
#include <string>
#include <limits.h>
#include <locale>
#include <float.h>
#include <stdio.h>
#include <stdlib.h>
extern "C" {
double __kv_mkdec(long long m, int k, double conc, const char* digs, int n);
int __kv_issym(double);
int __kv_issyml(long);
long long __kv_decm(double);
int __kv_deck(double);
int __kv_decdig(double, char* out, int* neg);
double __kv_strtod(const char*, int* st);
int __kv_fmtd(char* out, int prec, double v);
}
// decimal point of the stream's locale
extern "C" int __kv_dpoint(void* ios);
template <class S> static char dpoint(S* s) { return (char)__kv_dpoint(static_cast<std::ios_base*>(s)); }
static std::ostream& put(std::ostream* os, const char* b, size_t n) { std::ostream::sentry s(*os); if (s) os->rdbuf()->sputn(b, n); return *os; }
// digits d[0..n) scaled by 10^-k, %.{prec}g
static int fmtdec(char* o, const char* d, int n, int k, bool neg, int prec) {
  int lo = 0; while (lo < n && d[lo] == '0') lo++;
  int hi = n; while (hi > lo && d[hi - 1] == '0') hi--;
  int p = 0; if (neg) o[p++] = '-';
  int r = hi - lo;
  if (r == 0) { o[p++] = '0'; return p; }
  if (r > prec) return -1;
  int X = n - k - lo - 1;  // decimal exponent of the first significant digit
  if (X < -4 || X >= prec) {
    o[p++] = d[lo]; if (r > 1) { o[p++] = '.'; for (int i = lo + 1; i < hi; i++) o[p++] = d[i]; }
    o[p++] = 'e'; o[p++] = X < 0 ? '-' : '+'; int e = X < 0 ? -X : X; if (e >= 100) { o[p++] = '0' + e / 100; e %= 100; } o[p++] = '0' + e / 10; o[p++] = '0' + e % 10; return p;
  }
  if (X < 0) { o[p++] = '0'; o[p++] = '.'; for (int i = -1; i > X; i--) o[p++] = '0'; for (int i = lo; i < hi; i++) o[p++] = d[i]; return p; }
  for (int i = 0; i <= X; i++) o[p++] = lo + i < hi ? d[lo + i] : '0';
  if (r > X + 1) { o[p++] = '.'; for (int i = lo + X + 1; i < hi; i++) o[p++] = d[i]; }
  return p;
}
static int utoa(unsigned long v, char* o) {  // decimal digits, most significant first
  char t[24]; int n = 0; do { t[n++] = '0' + (char)(v % 10); v /= 10; } while (v); for (int i = 0; i < n; i++) o[i] = t[n - 1 - i]; return n;
}
extern "C" {
std::ostream& __m__ZNSo9_M_insertIdEERSoT_(std::ostream* os, double v) {
  char b[64]; int prec = (int)os->precision();
  if (__kv_issym(v) == 1 && prec <= 17 && !(os->flags() & std::ios_base::floatfield)) {
    char d[24]; int neg = 0; int n = __kv_decdig(v, d, &neg); int k = __kv_deck(v);
    if (n < 0) { long long m = __kv_decm(v); neg = 0; if (m < 0) { neg = 1; m = -m; } n = utoa((unsigned long)m, d); }
    int l = fmtdec(b, d, n, k, neg, prec);
    if (l >= 0) { char dp = dpoint(os); if (dp != '.') for (int i = 0; i < l; i++) if (b[i] == '.') b[i] = dp; return put(os, b, l); }
  }
  int l = (os->flags() & std::ios_base::floatfield) == std::ios_base::fixed ? -1 : __kv_fmtd(b, prec, v);
  char dp = dpoint(os); if (dp != '.') for (int i = 0; i < l; i++) if (b[i] == '.') b[i] = dp;
  return put(os, b, l < 0 ? 0 : l);
}
static std::ostream& putl(std::ostream* os, bool neg, unsigned long v) {
  char b[32]; int p = 0; if (neg) b[p++] = '-';
  if ((os->flags() & std::ios_base::basefield) == std::ios_base::hex) { int s = 60; while (s > 0 && !((v >> s) & 15)) s -= 4; for (; s >= 0; s -= 4) b[p++] = "0123456789abcdef"[(v >> s) & 15]; }
  else p += utoa(v, b + p);
  long w = os->width(); if (w > p && w < 40) { char f = os->fill(); char c[48]; int q = 0; for (; q < w - p; q++) c[q] = f; for (int i = 0; i < p; i++) c[q++] = b[i]; os->width(0); return put(os, c, q); }
  os->width(0);
  return put(os, b, p);
}
std::ostream& __m__ZNSo9_M_insertIlEERSoT_(std::ostream* os, long v) { return v < 0 ? putl(os, true, -(unsigned long)v) : putl(os, false, v); }
std::ostream& __m__ZNSo9_M_insertImEERSoT_(std::ostream* os, unsigned long v) { return putl(os, false, v); }
std::ostream& __m__ZNSo9_M_insertIxEERSoT_(std::ostream* os, long long v) { return v < 0 ? putl(os, true, -(unsigned long)v) : putl(os, false, v); }
std::ostream& __m__ZNSo9_M_insertIyEERSoT_(std::ostream* os, unsigned long long v) { return putl(os, false, v); }
std::ostream& __m__ZNSo9_M_insertIbEERSoT_(std::ostream* os, bool v) { return put(os, v ? "1" : "0", 1); }

std::istream& __m__ZNSi10_M_extractIdEERSiRT_(std::istream* is, double* out) {
  std::istream::sentry s(*is, false);
  if (!s) return *is;
  std::streambuf* sb = is->rdbuf();
  char b[80]; int n = 0; bool mant = false, dec = false, sci = false, neg = false;
  char d[24]; int nd = 0, k = 0; bool big = false; char dp = dpoint(is);
  int c = sb->sgetc();
  if (c == '+' || c == '-') { neg = c == '-'; b[n++] = (char)c; c = sb->snextc(); }
  while (c != EOF && n < 70) {
    if ((unsigned)c - '0' < 10u) { mant = true; if (!sci) { if (nd < 15) { d[nd++] = (char)c; if (dec) k++; } else big = true; } }
    else if (c == dp && !dec && !sci) { dec = true; b[n++] = '.'; c = sb->snextc(); continue; }
    else if ((c == 'e' || c == 'E') && !sci && mant) { sci = true; b[n++] = 'e'; c = sb->snextc(); if (c == '+' || c == '-') { b[n++] = (char)c; c = sb->snextc(); } continue; }
    else break;
    b[n++] = (char)c;
    c = sb->snextc();
  }
  b[n] = 0;
  std::ios_base::iostate st = std::ios_base::goodbit;
  if (c == EOF) st |= std::ios_base::eofbit;
  if (!mant) { *out = 0; st |= std::ios_base::failbit; }
  else if (sci || big) { int bad = 0; *out = __kv_strtod(b, &bad); if (bad) st |= std::ios_base::failbit; }
  else {
    long long m = 0; double p = 1; for (int i = 0; i < nd; i++) m = m * 10 + (d[i] - '0');
    if (neg) { bool nz = false; for (int i = 0; i < nd; i++) nz |= d[i] != '0'; if (!nz) { *out = -0.0; if (st) is->setstate(st); return *is; } m = -m; }
    for (int i = 0; i < k; i++) p *= 10;
    *out = __kv_mkdec(m, k, (double)m / p, d, nd);
  }
  if (st) is->setstate(st);
  return *is;
}
std::istream& __m__ZNSirsERi(std::istream* is, int* out) {
  std::istream::sentry s(*is, false);
  if (!s) return *is;
  std::streambuf* sb = is->rdbuf();
  bool neg = false, any = false, ovf = false; long v = 0; int nd = 0;
  int c = sb->sgetc();
  if (c == '+' || c == '-') { neg = c == '-'; c = sb->snextc(); }
  while (c != EOF && (unsigned)c - '0' < 10u) {
    any = true; if (nd < 18) v = v * 10 + (c - '0'); else ovf = true; nd++;
    c = sb->snextc();
  }
  std::ios_base::iostate st = std::ios_base::goodbit;
  if (c == EOF) st |= std::ios_base::eofbit;
  if (neg) v = -v;
  if (!any) { *out = 0; st |= std::ios_base::failbit; }
  else if (nd > 9 && (ovf || v > INT_MAX || v < INT_MIN)) { *out = (ovf ? !neg : v > 0) ? INT_MAX : INT_MIN; st |= std::ios_base::failbit; }
  else *out = (int)v;
  if (st) is->setstate(st);
  return *is;
}
std::istream& __m__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_(std::istream* is, std::string* str, char delim) {
  std::istream::sentry s(*is, true); std::ios_base::iostate st = std::ios_base::goodbit; bool any = false;
  if (s) {
    str->erase(); std::streambuf* sb = is->rdbuf(); int c = sb->sgetc();
    while (c != EOF && (char)c != delim) { str->push_back((char)c); any = true; c = sb->snextc(); }
    if (c == EOF) st |= std::ios_base::eofbit; else { any = true; sb->sbumpc(); }
  }
  if (!any) st |= std::ios_base::failbit;
  if (st) is->setstate(st);
  return *is;
}
}
