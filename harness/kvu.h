// Shared helpers of the harnesses (oracles are written independently of libkml).
#ifndef KVU_H
#define KVU_H
#include "kv.h"
#include <vector>
#include "kml/dom.h"
static inline bool xml_ascii(unsigned char c) { return (c >= 0x20 && c < 0x7f) | (c == '\n') | (c == '\t'); }
// symbolic text of n XML-legal ASCII characters (no CR)
static inline std::string kv_text(size_t n, int dflt = 'a') {
  std::string s = kv_string(n, dflt); bool ok = true;
  for (size_t i = 0; i < n; i++) ok &= xml_ascii((unsigned char)s[i]);
  KV_ASSUME(ok);
  return s;
}
// symbolic text over a given alphabet, bytes stay symbolic
static inline std::string kv_alpha(size_t n, const char* alphabet) {
  std::string s = kv_string(n, alphabet[0]); bool all = true;
  for (size_t i = 0; i < n; i++) { bool one = false; for (const char* a = alphabet; *a; a++) one |= s[i] == *a; all &= one; }
  KV_ASSUME(all);
  return s;
}
// symbolic name characters
static inline std::string kv_name(size_t n) {
  std::string s = kv_string(n, 'q'); bool ok = true;
  for (size_t i = 0; i < n; i++) { unsigned char c = s[i]; ok &= ((unsigned)((c | 32) - 'a') < 26u) | ((i > 0) & ((unsigned)(c - '0') < 10u)) | (c == '_'); }
  KV_ASSUME(ok);
  return s;
}
static inline std::string xesc(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) { char c = s[i]; if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '"') o += "&quot;"; else o += c; }
  return o;
}
static inline std::string num(long v) { bool neg = v < 0; unsigned long u = neg ? -(unsigned long)v : v; char b[24]; int i = 24; do { b[--i] = '0' + u % 10; u /= 10; } while (u); if (neg) b[--i] = '-'; return std::string(b + i, 24 - i); }
// symbolic decimal number: ni integer digits, nf fraction digits, optional '-' (then non-zero); text and value
struct DecT { std::string t; double v; };
static inline DecT kv_dect(unsigned ni, unsigned nf, bool neg) {
  std::string d = kv_string(ni + nf, '1'); bool ok = true, nz = false; long long m = 0;
  for (unsigned i = 0; i < ni + nf; i++) { ok &= (unsigned)((unsigned char)d[i] - '0') < 10u; m = m * 10 + (d[i] - '0'); nz |= d[i] != '0'; }
  KV_ASSUME(ok);
  DecT r; r.t = (neg ? "-" : "") + d.substr(0, ni) + (nf ? "." : "") + d.substr(ni); double p10 = 1; for (unsigned i = 0; i < nf; i++) p10 *= 10;
  if (neg) { KV_ASSUME(nz); m = -m; }
  r.v = __kv_mkdec(m, (int)nf, (double)m / p10, d.data(), (int)(ni + nf)); return r;
}
static inline size_t count(const std::string& hay, const std::string& needle) { size_t n = 0, p = 0; while ((p = hay.find(needle, p)) != std::string::npos) { n++; p += needle.size(); } return n; }
// sizes around the usual limits, up to max; each resolved on its own path
static inline unsigned kv_size(unsigned max) {
  static const unsigned S[] = {1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 299, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16384, 32767, 32768, 65535, 65536, 65537, 70000};
  unsigned n = 0; while (n < sizeof S / sizeof *S && S[n] <= max) n++;
  return S[kv_pick(n)];
}
// a text of kv_size(max) characters with the given mark at its start, middle or end
static inline std::string kv_long(unsigned max, const std::string& mark) {
  unsigned n = kv_size(max), at = kv_pick(3); std::string s; for (unsigned i = 0; i < n; i++) s += (char)('a' + i % 23);
  return s.insert(at == 0 ? 0 : at == 1 ? n / 2 : n, mark);
}
#endif
