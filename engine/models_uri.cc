// Model of the uriparser functions libkml calls (source not available here): RFC 3986 parsing, resolution, normalisation
// and recomposition as uriparser 0.9 does them.  Its agreement with the real library is checked on every explored path
// by the native twin.
#include <stdlib.h>
#include <string.h>
#include <string>
#include <uriparser/Uri.h>
namespace {
typedef UriUriA U; typedef UriPathSegmentA Seg; typedef UriTextRangeA R; typedef unsigned char uc;
static inline bool alpha(uc c) { return ((unsigned)(c | 32) - 'a') < 26u; }
static inline bool digit(uc c) { return ((unsigned)c - '0') < 10u; }
static inline bool hexd(uc c) { return digit(c) | (((unsigned)(c | 32) - 'a') < 6u); }
static inline bool unres(uc c) { return alpha(c) | digit(c) | (c == '-') | (c == '.') | (c == '_') | (c == '~'); }
static inline bool sub(uc c) { return (c == '!') | (c == '$') | (c == '&') | (c == '\'') | (c == '(') | (c == ')') | (c == '*') | (c == '+') | (c == ',') | (c == ';') | (c == '='); }
// length of the character of the class at p (0: none): unreserved, sub-delims, percent-encoded, and those in x
static inline int ch(const char* p, bool colon, bool at, bool slash) { uc c = *p; if (c == '%') return hexd(p[1]) && hexd(p[2]) ? 3 : 0; return (unres(c) | sub(c) | (colon & (c == ':')) | (at & (c == '@')) | (slash & ((c == '/') | (c == '?')))) ? 1 : 0; }
static const char* run(const char* p, bool colon, bool at, bool slash) { while (int n = ch(p, colon, at, slash)) p += n; return p; }
static void set(R* r, const char* a, const char* b) { r->first = a; r->afterLast = b; }
static bool push(U* u, const char* a, const char* b) { Seg* s = (Seg*)malloc(sizeof(Seg)); s->text.first = a; s->text.afterLast = b; s->next = 0; s->reserved = 0; if (u->pathTail) u->pathTail->next = s; else u->pathHead = s; u->pathTail = s; return true; }
static const char EMPTY[1] = {0};
// "/seg/seg..." starting at p
static const char* segs(U* u, const char* p) { while (*p == '/') { const char* a = ++p; p = run(p, true, true, false); push(u, a == p ? EMPTY : a, a == p ? EMPTY : p); } return p; }
static bool ip4(const char* a, const char* b, unsigned char* o) { for (int k = 0; k < 4; k++) { const char* s = a; unsigned v = 0; while (a < b && digit(*a)) { v = v * 10 + (*a - '0'); a++; if (a - s > 3) return false; } if (a == s || v > 255 || (a - s > 1 && *s == '0')) return false; o[k] = (unsigned char)v; if (k < 3) { if (a == b || *a != '.') return false; a++; } } return a == b; }
static const char* authority(U* u, const char* p) {
  // [ userinfo "@" ] host [ ":" port ]
  const char* q = run(p, true, false, false);
  if (*q == '@') { set(&u->userInfo, p == q ? EMPTY : p, p == q ? EMPTY : q); p = q + 1; }
  if (*p == '[') return 0;  // IP literals are outside the model's bound
  q = run(p, false, false, false); set(&u->hostText, p == q ? EMPTY : p, p == q ? EMPTY : q);
  unsigned char o[4]; if (ip4(p, q, o)) { u->hostData.ip4 = (UriIp4*)malloc(sizeof(UriIp4)); memcpy(u->hostData.ip4->data, o, 4); }
  p = q; if (*p == ':') { q = ++p; while (digit(*q)) q++; set(&u->portText, p == q ? EMPTY : p, p == q ? EMPTY : q); p = q; }
  return p;
}
static const char* parse(U* u, const char* t) {
  const char* p = t; bool sch = false;
  if (alpha(*p)) { const char* q = p + 1; while (alpha(*q) | digit(*q) | (*q == '+') | (*q == '-') | (*q == '.')) q++; if (*q == ':') { set(&u->scheme, p, q); p = q + 1; sch = true; } }
  if (*p == '/') {
    if (p[1] == '/') { p = authority(u, p + 2); if (!p) return 0; p = segs(u, p); }
    else { u->absolutePath = URI_TRUE; const char* q = run(p + 1, true, true, false); if (q == p + 1) { p++; if (*p == '/') return 0; } else { push(u, p + 1, q); p = segs(u, q); } }
  } else {
    const char* q = sch ? run(p, true, true, false) : run(p, false, true, false);
    if (q != p) { push(u, p, q); p = segs(u, q); }
  }
  if (*p == '?') { const char* q = run(p + 1, true, true, true); set(&u->query, p + 1 == q ? EMPTY : p + 1, p + 1 == q ? EMPTY : q); p = q; }
  if (*p == '#') { const char* q = run(p + 1, true, true, true); set(&u->fragment, p + 1 == q ? EMPTY : p + 1, p + 1 == q ? EMPTY : q); p = q; }
  return *p ? 0 : p;
}
static void freeseg(U* u, Seg* s) { if (u->owner && s->text.first != s->text.afterLast) free((char*)s->text.first); free(s); }
static void freer(U* u, R* r) { if (r->first && u->owner && r->first != r->afterLast) free((char*)r->first); r->first = r->afterLast = 0; }
static bool host(const U* u) { return u->hostText.first || u->hostData.ip4 || u->hostData.ip6 || u->hostData.ipFuture.first; }
static void copypath(U* d, const U* s) { d->pathHead = d->pathTail = 0; for (Seg* x = s->pathHead; x; x = x->next) push(d, x->text.first, x->text.afterLast); d->absolutePath = s->absolutePath; }
static void copyauth(U* d, const U* s) { d->userInfo = s->userInfo; d->hostText = s->hostText; if (s->hostData.ip4) { d->hostData.ip4 = (UriIp4*)malloc(sizeof(UriIp4)); *d->hostData.ip4 = *s->hostData.ip4; } d->portText = s->portText; }
static bool is(const Seg* s, const char* t) { size_t n = strlen(t); return (size_t)(s->text.afterLast - s->text.first) == n && !memcmp(s->text.first, t, n); }
// remove_dot_segments on the list; relative keeps leading ".."
static void empty(U* u, Seg* s) { if (u->owner && s->text.first != s->text.afterLast) free((char*)s->text.first); set(&s->text, EMPTY, EMPTY); }
static void dots(U* u, bool relative) {
  Seg* stk[64]; size_t n = 0;
  for (Seg* s = u->pathHead; s;) {
    Seg* nx = s->next;
    if (is(s, ".")) {
      bool keep = false;
      if (relative && n == 0 && nx) for (const char* p = nx->text.first; p < nx->text.afterLast; p++) if (*p == ':') keep = true;  // "./a:b" would become a scheme
      if (keep) stk[n++] = s;
      else if (nx) freeseg(u, s);
      else if (n || host(u)) { empty(u, s); stk[n++] = s; }
      else freeseg(u, s);
    } else if (is(s, "..")) {
      if (relative && (n == 0 || is(stk[n - 1], ".."))) stk[n++] = s;
      else if (n) { freeseg(u, stk[--n]); if (nx) freeseg(u, s); else { empty(u, s); stk[n++] = s; } }
      else if (nx) freeseg(u, s);
      else if (u->absolutePath && !host(u)) freeseg(u, s);
      else { empty(u, s); stk[n++] = s; }
    } else stk[n++] = s;
    s = nx;
  }
  u->pathHead = u->pathTail = 0;
  for (size_t i = 0; i < n; i++) { stk[i]->next = 0; if (u->pathTail) u->pathTail->next = stk[i]; else u->pathHead = stk[i]; u->pathTail = stk[i]; }
}
static void fixempty(U* u) { if (!u->absolutePath && !host(u) && u->pathHead && !u->pathHead->next && u->pathHead->text.first == u->pathHead->text.afterLast) { free(u->pathHead); u->pathHead = u->pathTail = 0; } }
static void fixambiguity(U* u) {
  if (u->absolutePath ? (u->pathHead && u->pathHead->text.first == u->pathHead->text.afterLast) : (u->pathHead && u->pathHead->next && u->pathHead->text.first == u->pathHead->text.afterLast && u->pathHead->next->text.first == u->pathHead->next->text.afterLast)) {
    Seg* s = (Seg*)malloc(sizeof(Seg)); s->next = u->pathHead; s->text.first = "."; s->text.afterLast = s->text.first + 1; s->reserved = 0; u->pathHead = s;
  }
}
static void str(std::string& o, const R& r) { o.append(r.first, r.afterLast - r.first); }
static std::string tostr(const U* u) {
  std::string o; if (u->scheme.first) { str(o, u->scheme); o += ':'; }
  if (host(u)) { o += "//"; if (u->userInfo.first) { str(o, u->userInfo); o += '@'; }
    if (u->hostData.ip4) { for (int i = 0; i < 4; i++) { unsigned v = u->hostData.ip4->data[i]; if (v > 99) { o += (char)('0' + v / 100); v %= 100; o += (char)('0' + v / 10); v %= 10; } else if (v > 9) { o += (char)('0' + v / 10); v %= 10; } o += (char)('0' + v); if (i < 3) o += '.'; } } else str(o, u->hostText);
    if (u->portText.first) { o += ':'; str(o, u->portText); } }
  if (u->absolutePath || (u->pathHead && host(u))) o += '/';
  for (Seg* s = u->pathHead; s; s = s->next) { str(o, s->text); if (s->next) o += '/'; }
  if (u->query.first) { o += '?'; str(o, u->query); }
  if (u->fragment.first) { o += '#'; str(o, u->fragment); }
  return o;
}
static int hexv(uc c) { return digit(c) ? c - '0' : (c | 32) - 'a' + 10; }
// own copy with percent-encodings normalised
static void norm(R* r, bool lower, bool pct) {
  if (!r->first) return; if (r->first == r->afterLast) return;
  std::string o; for (const char* p = r->first; p < r->afterLast; p++) { uc c = *p; if (pct && c == '%') { int v = hexv(p[1]) * 16 + hexv(p[2]); if (unres((uc)v)) o += (char)v; else { o += '%'; o += "0123456789ABCDEF"[v >> 4]; o += "0123456789ABCDEF"[v & 15]; } p += 2; continue; } if (lower && ((unsigned)c - 'A') < 26u) c += 32; o += (char)c; }
  if (lower) for (size_t i = 0; i < o.size(); i++) { uc c = o[i]; if (((unsigned)c - 'A') < 26u) o[i] = (char)(c + 32); }
  char* m = (char*)malloc(o.size()); memcpy(m, o.data(), o.size()); r->first = m; r->afterLast = m + o.size();
}
}
extern "C" {
void __m_uriFreeUriMembersA(U* u) {
  if (!u) return;
  freer(u, &u->scheme); freer(u, &u->userInfo); freer(u, &u->hostText); if (u->hostData.ip4) { free(u->hostData.ip4); u->hostData.ip4 = 0; } freer(u, &u->portText);
  for (Seg* s = u->pathHead; s;) { Seg* n = s->next; freeseg(u, s); s = n; } u->pathHead = u->pathTail = 0; freer(u, &u->query); freer(u, &u->fragment);
}
int __m_uriParseUriA(UriParserStateA* st, const char* t) {
  if (!st || !t) return URI_ERROR_NULL; U* u = st->uri; memset(u, 0, sizeof *u); st->errorCode = 0; st->errorPos = 0;
  if (!parse(u, t)) { __m_uriFreeUriMembersA(u); memset(u, 0, sizeof *u); st->errorCode = URI_ERROR_SYNTAX; return URI_ERROR_SYNTAX; }
  return URI_SUCCESS;
}
int __m_uriAddBaseUriA(U* d, const U* r, const U* b) {
  if (!d || !r || !b) return URI_ERROR_NULL; memset(d, 0, sizeof *d);
  if (!b->scheme.first) return URI_ERROR_ADDBASE_REL_BASE;
  if (r->scheme.first) { d->scheme = r->scheme; copyauth(d, r); copypath(d, r); dots(d, false); d->query = r->query; }
  else {
    if (host(r)) { copyauth(d, r); copypath(d, r); dots(d, false); d->query = r->query; }
    else {
      copyauth(d, b);
      if (!r->pathHead && !r->absolutePath) { copypath(d, b); d->query = r->query.first ? r->query : b->query; }
      else {
        if (r->absolutePath) { copypath(d, r); if (host(d) && d->absolutePath) { if (!d->pathHead) push(d, EMPTY, EMPTY); d->absolutePath = URI_FALSE; } dots(d, false); }
        else {
          copypath(d, b);
          // merge: all but the last segment of the base, then the reference's
          if (d->pathTail) { Seg* last = d->pathTail; if (d->pathHead == last) { d->pathHead = d->pathTail = 0; } else { Seg* p = d->pathHead; while (p->next != last) p = p->next; p->next = 0; d->pathTail = p; } free(last); }
          for (Seg* s = r->pathHead; s; s = s->next) push(d, s->text.first, s->text.afterLast);
          dots(d, false); fixempty(d); fixambiguity(d);
        }
        d->query = r->query;
      }
    }
    d->scheme = b->scheme;
  }
  d->fragment = r->fragment; return URI_SUCCESS;
}
int __m_uriNormalizeSyntaxA(U* u) {
  norm(&u->scheme, true, false); norm(&u->userInfo, false, true); if (!u->hostData.ip4) norm(&u->hostText, true, true); else norm(&u->hostText, false, false);
  norm(&u->portText, false, false); bool rel = !u->scheme.first && !u->absolutePath;
  for (Seg* s = u->pathHead; s; s = s->next) norm(&s->text, false, true);
  norm(&u->query, false, true); norm(&u->fragment, false, true); u->owner = URI_TRUE;
  dots(u, rel); fixempty(u); return URI_SUCCESS;
}
int __m_uriToStringCharsRequiredA(const U* u, int* n) { if (!u || !n) return URI_ERROR_NULL; *n = (int)tostr(u).size(); return URI_SUCCESS; }
int __m_uriToStringA(char* d, const U* u, int max, int* w) {
  std::string s = tostr(u); if ((int)s.size() + 1 > max) { if (w) *w = 0; if (max > 0) d[0] = 0; return URI_ERROR_TOSTRING_TOO_LONG; }
  for (size_t i = 0; i < s.size(); i++) d[i] = s[i]; d[s.size()] = 0; if (w) *w = (int)s.size() + 1; return URI_SUCCESS;
}
static void esc(char*& o, uc c) { if (unres(c)) { *o++ = (char)c; return; } *o++ = '%'; *o++ = "0123456789ABCDEF"[c >> 4]; *o++ = "0123456789ABCDEF"[c & 15]; }
int __m_uriUnixFilenameToUriStringA(const char* f, char* o) {
  if (f[0] == '/') { memcpy(o, "file://", 7); o += 7; } for (; *f; f++) if (*f == '/') *o++ = '/'; else esc(o, *f); *o = 0; return URI_SUCCESS;
}
int __m_uriWindowsFilenameToUriStringA(const char* f, char* o) {
  bool abs = f[0] && f[1] == ':', net = f[0] == '\\' && f[1] == '\\'; bool first = true; const char* seg = f;
  if (abs) { memcpy(o, "file:///", 8); o += 8; } else if (net) { memcpy(o, "file:", 5); o += 5; }
  for (const char* p = f;; p++) { if (*p == 0 || *p == '\\') { if (abs && first) { for (const char* q = seg; q < p; q++) *o++ = *q; } else for (const char* q = seg; q < p; q++) esc(o, *q); first = false; if (!*p) break; *o++ = '/'; seg = p + 1; } } *o = 0; return URI_SUCCESS;
}
static bool pre(const char* s, const char* p) { while (*p) if (*s++ != *p++) return false; return true; }
static void unesc(char* s) { char* o = s; for (; *s; s++) { if (*s == '%' && hexd(s[1]) && hexd(s[2])) { *o++ = (char)(hexv(s[1]) * 16 + hexv(s[2])); s += 2; } else *o++ = *s; } *o = 0; }
int __m_uriUriStringToUnixFilenameA(const char* u, char* f) {
  size_t skip = 0; if (pre(u, "file:///")) skip = 7; else if (pre(u, "file://")) skip = 7; else if (pre(u, "file:/")) skip = 5;
  size_t n = strlen(u) - skip; for (size_t i = 0; i <= n; i++) f[i] = u[skip + i]; unesc(f); return URI_SUCCESS;
}
int __m_uriUriStringToWindowsFilenameA(const char* u, char* f) {
  size_t skip = 0; bool net = false; if (pre(u, "file:///")) skip = 8; else if (pre(u, "file://")) { skip = 7; net = true; } if (net) { *f++ = '\\'; *f++ = '\\'; }
  size_t n = strlen(u) - skip; for (size_t i = 0; i <= n; i++) f[i] = u[skip + i]; unesc(f); for (; *f; f++) if (*f == '/') *f = '\\'; return URI_SUCCESS;
}
}
