// Model of the expat XML parser (source not available here): a push parser for the XML 1.0 subset libkml
// documents use.  Its agreement with the real expat is checked on every explored path by the native twin.
#include <expat.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <utility>
#include <vector>
namespace {
typedef std::string str;
struct Ns { str prefix, uri; bool bound; int depth; };
struct P {
  void* ud; XML_StartElementHandler se; XML_EndElementHandler ee; XML_CharacterDataHandler cd; XML_EntityDeclHandler ed; XML_StartNamespaceDeclHandler sn; XML_EndNamespaceDeclHandler en;
  bool ns; char sep; str in; size_t pos; char* buf; size_t bufcap; int phase;  // 0 start 1 prolog 2 content 3 epilog
  XML_Error err; XML_Parsing st; bool final, done, doctype;
  std::vector<str> stack; std::vector<std::pair<str, str>> ents; std::vector<Ns> nss; std::vector<size_t> nsmark;
};
enum R { OK, MORE, BAD };
static inline bool ws(unsigned char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r'); }
static inline bool nstart(unsigned char c) { return (((unsigned)(c | 32) - 'a') < 26u) | (c == '_') | (c == ':') | (c >= 0x80); }
static inline bool nchar(unsigned char c) { return (((unsigned)(c | 32) - 'a') < 26u) | (((unsigned)c - '0') < 10u) | (c == '_') | (c == ':') | (c == '-') | (c == '.') | (c >= 0x80); }
// length of the valid XML character at i; 0 = incomplete, -1 = invalid
static int ulen(const str& s, size_t i) {
  unsigned char c = s[i]; size_t n = s.size() - i;
  if (c < 0x80) return ((c >= 0x20) | (c == 9) | (c == 10) | (c == 13)) ? 1 : -1;
  if (c < 0xC2) return -1;
  if (c < 0xE0) { if (n < 2) return 0; return ((unsigned char)s[i + 1] & 0xC0) == 0x80 ? 2 : -1; }
  if (c < 0xF0) { if (n < 3) return 0; unsigned char a = s[i + 1], b = s[i + 2]; if (((a & 0xC0) != 0x80) | ((b & 0xC0) != 0x80)) return -1; if ((c == 0xE0) & (a < 0xA0)) return -1; if ((c == 0xED) & (a > 0x9F)) return -1; if ((c == 0xEF) & (a == 0xBF) & (b > 0xBD)) return -1; return 3; }
  if (c < 0xF5) { if (n < 4) return 0; unsigned char a = s[i + 1], b = s[i + 2], d = s[i + 3]; if (((a & 0xC0) != 0x80) | ((b & 0xC0) != 0x80) | ((d & 0xC0) != 0x80)) return -1; if ((c == 0xF0) & (a < 0x90)) return -1; if ((c == 0xF4) & (a > 0x8F)) return -1; return 4; }
  return -1;
}
static void putu(str& o, unsigned long v) {
  if (v < 0x80) o += (char)v; else if (v < 0x800) { o += (char)(0xC0 | (v >> 6)); o += (char)(0x80 | (v & 63)); }
  else if (v < 0x10000) { o += (char)(0xE0 | (v >> 12)); o += (char)(0x80 | ((v >> 6) & 63)); o += (char)(0x80 | (v & 63)); }
  else { o += (char)(0xF0 | (v >> 18)); o += (char)(0x80 | ((v >> 12) & 63)); o += (char)(0x80 | ((v >> 6) & 63)); o += (char)(0x80 | (v & 63)); }
}
#define NEED(i) if ((i) >= s.size()) return MORE
static R name(P* p, size_t& i, str& o) {
  const str& s = p->in; NEED(i);
  if (!nstart(s[i])) return BAD;
  size_t b = i, colon = 0;
  while (i < s.size() && nchar(s[i])) {
    if ((unsigned char)s[i] >= 0x80) { int l = ulen(s, i); if (l == 0) return MORE; if (l < 0) return BAD; i += l; continue; }
    if (p->ns && s[i] == ':') { if (i == b || colon) return BAD; colon = i; if (i + 1 < s.size() && !nstart(s[i + 1])) return BAD; }
    i++;
  }
  NEED(i);
  o.assign(s, b, i - b);
  return OK;
}
// reference at s[i]=='&'
static R ref(P* p, size_t& i, str& o, bool attr) {
  const str& s = p->in; size_t j = i + 1; NEED(j);
  if (s[j] == '#') {
    j++; NEED(j); unsigned long v = 0; bool hex = s[j] == 'x'; if (hex) { j++; NEED(j); }
    size_t b = j;
    for (;; j++) { NEED(j); unsigned char c = s[j]; unsigned d; if (c == ';') break; if ((unsigned)c - '0' < 10u) d = c - '0'; else if (hex && ((unsigned)(c | 32) - 'a') < 6u) d = (c | 32) - 'a' + 10; else return BAD; v = v * (hex ? 16 : 10) + d; if (v > 0x10FFFF) v = 0x110000; }
    if (j == b) return BAD;
    if (v > 0x10FFFF || (v >= 0xD800 && v < 0xE000) || v == 0xFFFE || v == 0xFFFF || (v < 0x20 && v != 9 && v != 10 && v != 13)) return BAD;
    putu(o, v); i = j + 1; return OK;
  }
  str n; R r = name(p, j, n); if (r != OK) return r;
  if (s[j] != ';') return BAD;
  i = j + 1;
  if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "amp") o += '&'; else if (n == "quot") o += '"'; else if (n == "apos") o += '\'';
  else return BAD;
  return OK;
}
static const str* nsfind(P* p, const str& pre) { for (size_t i = p->nss.size(); i-- > 0;) if (p->nss[i].prefix == pre) return p->nss[i].bound ? &p->nss[i].uri : 0; return 0; }
static bool expandname(P* p, const str& raw, bool attr, str& out) {
  size_t c = raw.find(':');
  if (c == str::npos) { const str* u = attr ? 0 : nsfind(p, ""); if (u && !u->empty()) { out = *u; out += p->sep; out += raw; } else out = raw; return true; }
  str pre(raw, 0, c), loc(raw, c + 1);
  if (pre == "xml") { out = str("http://www.w3.org/XML/1998/namespace") + p->sep + loc; return true; }
  const str* u = nsfind(p, pre); if (!u || u->empty()) return false;
  out = *u; out += p->sep; out += loc; return true;
}
static bool stopped(P* p) { return p->st == XML_FINISHED || p->st == XML_SUSPENDED; }
static void endel(P* p, const str& raw) {
  str nm; if (p->ns) expandname(p, raw, false, nm); else nm = raw;
  if (p->ee) p->ee(p->ud, nm.c_str());
  size_t mark = p->nsmark.back(); p->nsmark.pop_back();
  while (p->nss.size() > mark) { Ns n = p->nss.back(); p->nss.pop_back(); if (p->en) p->en(p->ud, n.prefix.empty() ? 0 : n.prefix.c_str()); }
}
static R element(P* p) {
  const str& s = p->in; size_t i = p->pos + 1; str nm; R r = name(p, i, nm); if (r != OK) return r;
  std::vector<std::pair<str, str>> at; bool empty = false;
  for (;;) {
    NEED(i); bool sp = false; while (i < s.size() && ws(s[i])) { i++; sp = true; }
    NEED(i);
    if (s[i] == '>') { i++; break; }
    if (s[i] == '/') { NEED(i + 1); if (s[i + 1] != '>') return BAD; i += 2; empty = true; break; }
    if (!sp) return BAD;
    str an, av; r = name(p, i, an); if (r != OK) return r;
    while (i < s.size() && ws(s[i])) i++; NEED(i); if (s[i] != '=') return BAD; i++;
    while (i < s.size() && ws(s[i])) i++; NEED(i); char q = s[i]; if (q != '"' && q != '\'') return BAD; i++;
    for (;;) {
      NEED(i); char c = s[i];
      if (c == q) { i++; break; }
      if (c == '<') return BAD;
      if (c == '&') { r = ref(p, i, av, true); if (r != OK) return r; continue; }
      if (c == '\r') { NEED(i + 1); i++; if (s[i] == '\n') i++; av += ' '; continue; }
      if ((c == '\n') | (c == '\t')) { av += ' '; i++; continue; }
      int l = ulen(s, i); if (l == 0) return MORE; if (l < 0) return BAD; av.append(s, i, l); i += l;
    }
    at.push_back(std::make_pair(an, av));
  }
  for (size_t a = 0; a < at.size(); a++) for (size_t b = 0; b < a; b++) if (at[a].first == at[b].first) return BAD;
  p->nsmark.push_back(p->nss.size());
  std::vector<std::pair<str, str>> out;
  if (p->ns) {
    for (size_t a = 0; a < at.size(); a++) {
      const str& n = at[a].first;
      if (n == "xmlns" || n.compare(0, 6, "xmlns:") == 0) {
        Ns x; x.prefix = n.size() > 6 ? n.substr(6) : ""; x.uri = at[a].second; x.bound = !x.uri.empty();
        if (!x.prefix.empty() && x.uri.empty()) return BAD;
        if (x.prefix == "xmlns") return BAD;
        if ((x.prefix == "xml") != (x.uri == "http://www.w3.org/XML/1998/namespace")) return BAD;
        if (x.uri == "http://www.w3.org/2000/xmlns/") return BAD;
        p->nss.push_back(x);
        if (p->sn) p->sn(p->ud, x.prefix.empty() ? 0 : x.prefix.c_str(), x.bound ? x.uri.c_str() : 0);
      }
    }
    for (size_t a = 0; a < at.size(); a++) { const str& n = at[a].first; if (n == "xmlns" || n.compare(0, 6, "xmlns:") == 0) continue; str e; if (!expandname(p, n, true, e)) return BAD; out.push_back(std::make_pair(e, at[a].second)); }
    for (size_t a = 0; a < out.size(); a++) for (size_t b = 0; b < a; b++) if (out[a].first == out[b].first) return BAD;
  } else out = at;
  str en; if (p->ns) { if (!expandname(p, nm, false, en)) return BAD; } else en = nm;
  std::vector<const char*> v; for (size_t a = 0; a < out.size(); a++) { v.push_back(out[a].first.c_str()); v.push_back(out[a].second.c_str()); } v.push_back(0);
  p->pos = i; p->phase = 2; p->stack.push_back(nm);
  if (p->se) p->se(p->ud, en.c_str(), &v[0]);
  if (empty) { p->stack.pop_back(); endel(p, nm); }
  if (p->stack.empty()) p->phase = 3;
  return OK;
}
static R etag(P* p) {
  const str& s = p->in; size_t i = p->pos + 2; str nm; R r = name(p, i, nm); if (r != OK) return r;
  while (i < s.size() && ws(s[i])) i++; NEED(i); if (s[i] != '>') return BAD; i++;
  if (p->stack.empty() || p->stack.back() != nm) return BAD;
  p->pos = i; p->stack.pop_back(); endel(p, nm); if (p->stack.empty()) p->phase = 3; return OK;
}
static R comment(P* p) {
  const str& s = p->in; size_t i = p->pos + 4;
  for (;;) { NEED(i); if (s[i] == '-') { NEED(i + 1); if (s[i + 1] == '-') { NEED(i + 2); if (s[i + 2] != '>') return BAD; p->pos = i + 3; return OK; } i++; continue; }
    int l = ulen(s, i); if (l == 0) return MORE; if (l < 0) return BAD; i += l; }
}
// pseudo attribute in s[i,e): 1 read, 0 none left, -1 malformed
static int pseudo(const str& s, size_t& i, size_t e, str& n, str& v) {
  if (i >= e) return 0;
  if (!ws(s[i])) return -1;
  while (i < e && ws(s[i])) i++;
  if (i >= e) return 0;
  size_t b = i; while (i < e && s[i] != '=' && !ws(s[i])) i++;
  if (i >= e || i == b) return -1;
  n.assign(s, b, i - b); while (i < e && ws(s[i])) i++; if (i >= e || s[i] != '=') return -1; i++;
  while (i < e && ws(s[i])) i++; if (i >= e || (s[i] != '"' && s[i] != '\'')) return -1;
  char q = s[i++]; b = i;
  for (;; i++) { if (i >= e) return -1; unsigned char c = s[i]; if (c == (unsigned char)q) break; if (!(((unsigned)((c | 32) - 'a') < 26u) | ((unsigned)(c - '0') < 10u) | (c == '.') | (c == '-') | (c == '_'))) return -1; }
  v.assign(s, b, i - b); i++; return 1;
}
static bool caseeq(const str& a, const char* b) { size_t n = strlen(b); if (a.size() != n) return false; for (size_t i = 0; i < n; i++) { unsigned char c = a[i]; if ((unsigned)(c - 'A') < 26u) c |= 32; if (c != (unsigned char)b[i]) return false; } return true; }
static bool xmldecl(const str& s, size_t i, size_t e) {
  str n, v; if (pseudo(s, i, e, n, v) != 1 || n != "version") return false;
  int r = pseudo(s, i, e, n, v); if (r < 0) return false; if (r == 0) return true;
  if (n == "encoding") { if (v.empty() || (unsigned)((v[0] | 32) - 'a') >= 26u) return false; if (!caseeq(v, "utf-8") && !caseeq(v, "us-ascii")) return false;  // other encodings are not modelled
    r = pseudo(s, i, e, n, v); if (r < 0) return false; if (r == 0) return true; }
  if (n != "standalone" || (v != "yes" && v != "no")) return false;
  while (i < e) { if (!ws(s[i])) return false; i++; }
  return true;
}
static R pi(P* p, bool first) {
  const str& s = p->in; size_t i = p->pos + 2; str nm; R r = name(p, i, nm); if (r != OK) return r;
  bool x = nm.size() == 3 && (nm[0] | 32) == 'x' && (nm[1] | 32) == 'm' && (nm[2] | 32) == 'l';
  if (x) { if (!first || nm != "xml") return BAD; }
  size_t e = i;
  if (!ws(s[i])) { NEED(i + 1); if (s[i] != '?' || s[i + 1] != '>') return BAD; }
  for (;;) { NEED(e); if (s[e] == '?') { NEED(e + 1); if (s[e + 1] == '>') break; } int l = ulen(s, e); if (l == 0) return MORE; if (l < 0) return BAD; e += l; }
  if (x && !xmldecl(s, i, e)) return BAD;
  p->pos = e + 2; return OK;
}
static R doctype(P* p) {
  const str& s = p->in; size_t i = p->pos + 9; NEED(i); if (!ws(s[i])) return BAD; while (i < s.size() && ws(s[i])) i++;
  str nm; R r = name(p, i, nm); if (r != OK) return r;
  std::vector<str> names; 
  bool sub = false;
  for (;;) {
    NEED(i);
    if (s[i] == '[') { sub = true; i++; continue; }
    if (s[i] == ']' && sub) { sub = false; i++; continue; }
    if (s[i] == '>' && !sub) { i++; break; }
    if (ws(s[i])) { i++; continue; }
    if (sub && s.compare(i, 9, "<!ENTITY ") == 0) { size_t j = s.find('>', i); if (j == str::npos) return MORE; size_t b = i + 9; size_t e = b; while (e < j && nchar(s[e])) e++; str en(s, b, e - b); i = j + 1; if (p->ed) p->ed(p->ud, en.c_str(), 0, "", 0, 0, 0, 0, 0); if (stopped(p)) { p->pos = i; return OK; } continue; }
    if (sub && s[i] == '<') { size_t j = s.find('>', i); if (j == str::npos) return MORE; i = j + 1; continue; }
    if (s[i] == '"' || s[i] == '\'') { size_t j = s.find(s[i], i + 1); if (j == str::npos) return MORE; i = j + 1; continue; }
    if (nchar(s[i])) { i++; continue; }
    return BAD;
  }
  p->pos = i; p->doctype = true; return OK;
}
static R cdata(P* p) {
  const str& s = p->in; size_t i = p->pos + 9; size_t e = i;
  for (;;) { NEED(e); if (s[e] == ']') { NEED(e + 1); if (s[e + 1] == ']') { NEED(e + 2); if (s[e + 2] == '>') break; } } int l = ulen(s, e); if (l == 0) return MORE; if (l < 0) return BAD; e += l; }
  str o; for (size_t k = i; k < e; k++) { if (s[k] == '\r') { if (s[k + 1] == '\n') continue; o += '\n'; } else o += s[k]; }
  p->pos = e + 3; if (!o.empty() && p->cd) p->cd(p->ud, o.data(), (int)o.size()); return OK;
}
static R text(P* p) {
  const str& s = p->in; size_t i = p->pos; char c = s[i];
  if (c == '&') { str o; R r = ref(p, i, o, false); if (r != OK) return r; p->pos = i; if (p->cd) p->cd(p->ud, o.data(), (int)o.size()); return OK; }
  if (c == '\n') { p->pos++; if (p->cd) p->cd(p->ud, "\n", 1); return OK; }
  if (c == '\r') { if (i + 1 >= s.size() && !p->final) return MORE; p->pos++; if (p->pos < s.size() && s[p->pos] == '\n') p->pos++; if (p->cd) p->cd(p->ud, "\n", 1); return OK; }
  size_t b = i; R stop = OK;
  while (i < s.size()) {
    c = s[i]; if ((c == '<') | (c == '&') | (c == '\n') | (c == '\r')) break;
    if (c == ']') { if (i + 1 >= s.size()) { stop = MORE; break; } if (s[i + 1] == ']') { if (i + 2 >= s.size()) { stop = MORE; break; } if (s[i + 2] == '>') { stop = BAD; break; } } }
    int l = ulen(s, i); if (l == 0) { stop = MORE; break; } if (l < 0) { stop = BAD; break; } i += l;
  }
  if (i == b) return stop;
  p->pos = i; if (p->cd) p->cd(p->ud, s.data() + b, (int)(i - b)); return OK;
}
static R step(P* p) {
  const str& s = p->in; size_t i = p->pos;
  bool first = p->phase == 0;
  if (first) { if (s.size() >= 3 && (unsigned char)s[0] == 0xEF && (unsigned char)s[1] == 0xBB && (unsigned char)s[2] == 0xBF) { p->pos = 3; p->phase = 0; if (i == 0) { i = 3; if (i >= s.size()) return MORE; } } }
  NEED(i);
  if (p->phase != 2) {
    if (ws(s[i])) { p->pos++; if (first) p->phase = 1; return OK; }
    if (s[i] != '<') return BAD;
  } else if (s[i] != '<') return text(p);
  NEED(i + 1);
  if (s[i + 1] == '!') {
    NEED(i + 2);
    if (s[i + 2] == '-') { NEED(i + 3); if (s[i + 3] != '-') return BAD; if (first) p->phase = 1; return comment(p); }
    const char* k = p->phase == 2 ? "<![CDATA[" : "<!DOCTYPE"; if (p->phase == 3) return BAD;
    for (int j = 2; j < 9; j++) { NEED(i + j); if (s[i + j] != k[j]) return BAD; }
    if (p->phase == 2) return cdata(p);
    if (p->doctype) return BAD; if (first) p->phase = 1; return doctype(p);
  }
  if (s[i + 1] == '?') { R r = pi(p, first); if (r == OK && first) p->phase = 1; return r; }
  if (s[i + 1] == '/') { if (p->phase != 2) return BAD; return etag(p); }
  if (p->phase == 3) return BAD;
  return element(p);
}
static XML_Status run(P* p, int final) {
  if (p->done) { p->err = XML_ERROR_FINISHED; return XML_STATUS_ERROR; }
  if (p->err) return XML_STATUS_ERROR;
  p->st = XML_PARSING; p->final = final;
  for (;;) {
    R r = step(p);
    if (r == BAD) { p->err = p->stack.empty() ? XML_ERROR_SYNTAX : XML_ERROR_INVALID_TOKEN; return XML_STATUS_ERROR; }
    if (r == OK) { if (p->st == XML_FINISHED) { p->err = XML_ERROR_ABORTED; p->done = true; return XML_STATUS_ERROR; } if (p->st == XML_SUSPENDED) return XML_STATUS_SUSPENDED; continue; }
    break;
  }
  if (final) { if (p->phase != 3 || p->pos < p->in.size()) { p->err = XML_ERROR_NO_ELEMENTS; return XML_STATUS_ERROR; } p->st = XML_FINISHED; p->done = true; }
  return XML_STATUS_OK;
}
static P* mk(bool ns, char sep) {
  P* p = new P(); p->ud = 0; p->se = 0; p->ee = 0; p->cd = 0; p->ed = 0; p->sn = 0; p->en = 0; p->ns = ns; p->sep = sep; p->pos = 0; p->buf = 0; p->bufcap = 0; p->phase = 0; p->err = XML_ERROR_NONE; p->st = XML_INITIALIZED; p->final = p->done = p->doctype = false;
  return p;
}
#define PP(x) ((P*)(x))
}  // namespace
extern "C" {
XML_Parser __m_XML_ParserCreate(const char*) { return (XML_Parser)mk(false, 0); }
XML_Parser __m_XML_ParserCreateNS(const char*, char sep) { return (XML_Parser)mk(true, sep); }
void __m_XML_ParserFree(XML_Parser p) { if (!p) return; free(PP(p)->buf); delete PP(p); }
void __m_XML_SetUserData(XML_Parser p, void* u) { PP(p)->ud = u; }
void __m_XML_SetElementHandler(XML_Parser p, XML_StartElementHandler s, XML_EndElementHandler e) { PP(p)->se = s; PP(p)->ee = e; }
void __m_XML_SetCharacterDataHandler(XML_Parser p, XML_CharacterDataHandler h) { PP(p)->cd = h; }
void __m_XML_SetEntityDeclHandler(XML_Parser p, XML_EntityDeclHandler h) { PP(p)->ed = h; }
void __m_XML_SetNamespaceDeclHandler(XML_Parser p, XML_StartNamespaceDeclHandler s, XML_EndNamespaceDeclHandler e) { PP(p)->sn = s; PP(p)->en = e; }
XML_Status __m_XML_Parse(XML_Parser p, const char* s, int len, int final) { if (len < 0) { PP(p)->err = XML_ERROR_INVALID_ARGUMENT; return XML_STATUS_ERROR; } PP(p)->in.append(s, len); return run(PP(p), final); }
void* __m_XML_GetBuffer(XML_Parser p, int len) { if (len < 0) return 0; if (!PP(p)->buf || (size_t)len > PP(p)->bufcap) { free(PP(p)->buf); PP(p)->bufcap = len < 1024 ? 1024 : len; PP(p)->buf = (char*)malloc(PP(p)->bufcap); } return PP(p)->buf; }
XML_Status __m_XML_ParseBuffer(XML_Parser p, int len, int final) { if (len) PP(p)->in.append(PP(p)->buf, len); return run(PP(p), final); }
XML_Status __m_XML_StopParser(XML_Parser p, XML_Bool resumable) {
  if (PP(p)->st == XML_FINISHED) return XML_STATUS_ERROR;
  if (PP(p)->st == XML_SUSPENDED) { if (resumable) return XML_STATUS_ERROR; PP(p)->st = XML_FINISHED; return XML_STATUS_OK; }
  PP(p)->st = resumable ? XML_SUSPENDED : XML_FINISHED; return XML_STATUS_OK; }
void __m_XML_GetParsingStatus(XML_Parser p, XML_ParsingStatus* s) { s->parsing = PP(p)->st; s->finalBuffer = PP(p)->final; }
XML_Error __m_XML_GetErrorCode(XML_Parser p) { return PP(p)->err; }
const char* __m_XML_ErrorString(XML_Error e) { return e == XML_ERROR_NONE ? 0 : "model error"; }
unsigned long __m_XML_GetCurrentLineNumber(XML_Parser) { return 1; }
unsigned long __m_XML_GetCurrentColumnNumber(XML_Parser) { return 1; }
}
