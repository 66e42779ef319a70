// Independent RFC 3986 oracle: component split (appendix B), character classes, resolution (5.2) and dot removal (5.2.4).
#ifndef KV_URI_H
#define KV_URI_H
#include "kvu.h"
#include <string.h>
#include "boost/scoped_ptr.hpp"
namespace rfc {
using std::string;
struct Part { bool has; string t; Part() : has(false) {} void set(const string& s) { has = true; t = s; } };
struct Uri { bool ok; Part scheme, user, host, port, query, frag; bool auth; string path; Uri() : ok(true), auth(false) {} };
static inline bool al(unsigned char c) { return ((unsigned)(c | 32) - 'a') < 26u; }
static inline bool dg(unsigned char c) { return ((unsigned)c - '0') < 10u; }
static inline bool hx(unsigned char c) { return dg(c) | (((unsigned)(c | 32) - 'a') < 6u); }
static inline bool in(unsigned char c, const char* s) { bool r = false; for (; *s; s++) r |= c == (unsigned char)*s; return r; }
static inline bool un(unsigned char c) { return al(c) | dg(c) | in(c, "-._~"); }
static inline bool sub(unsigned char c) { return in(c, "!$&'()*+,;="); }
// every character of t is unreserved, a sub-delimiter, one of x, or starts a percent-encoding
static inline bool chars(const string& t, const char* x) {
  for (size_t i = 0; i < t.size(); i++) { unsigned char c = t[i]; if (c == '%') { if (i + 2 >= t.size() || !(hx(t[i + 1]) & hx(t[i + 2]))) return false; i += 2; } else if (!(un(c) | sub(c) | in(c, x))) return false; }
  return true;
}
static inline Uri split(const string& s0) {
  Uri u; string s = s0; size_t i = s.find('#'); if (i != string::npos) { u.frag.set(s.substr(i + 1)); s = s.substr(0, i); }
  i = s.find('?'); if (i != string::npos) { u.query.set(s.substr(i + 1)); s = s.substr(0, i); }
  i = 0; while (i < s.size() && s[i] != ':' && s[i] != '/') i++;
  if (i < s.size() && s[i] == ':') { u.scheme.set(s.substr(0, i)); s = s.substr(i + 1); }
  if (s.size() >= 2 && s[0] == '/' && s[1] == '/') {
    u.auth = true; size_t e = 2; while (e < s.size() && s[e] != '/') e++; string a = s.substr(2, e - 2); s = s.substr(e);
    i = a.find('@'); if (i != string::npos) { u.user.set(a.substr(0, i)); a = a.substr(i + 1); }
    i = a.find(':'); if (i != string::npos) { u.port.set(a.substr(i + 1)); a = a.substr(0, i); }
    u.host.set(a);
  }
  u.path = s;
  bool ok = true;
  if (u.scheme.has) { const string& c = u.scheme.t; ok = !c.empty() && al(c[0]); for (size_t k = 0; ok && k < c.size(); k++) ok = al(c[k]) | dg(c[k]) | in(c[k], "+-."); }
  if (ok && u.user.has) ok = chars(u.user.t, ":");
  if (ok && u.host.has) ok = chars(u.host.t, "");
  if (ok && u.port.has) for (size_t k = 0; ok && k < u.port.t.size(); k++) ok = dg(u.port.t[k]);
  if (ok) ok = chars(u.path, "/:@");
  if (ok && u.query.has) ok = chars(u.query.t, "/:@?");
  if (ok && u.frag.has) ok = chars(u.frag.t, "/:@?");
  u.ok = ok; return u;
}
static inline string join(const Uri& u) {
  string o; if (u.scheme.has) o += u.scheme.t + ":"; if (u.auth) { o += "//"; if (u.user.has) o += u.user.t + "@"; o += u.host.t; if (u.port.has) o += ":" + u.port.t; }
  o += u.path; if (u.query.has) o += "?" + u.query.t; if (u.frag.has) o += "#" + u.frag.t; return o;
}
static inline bool starts(const string& s, const char* p) { size_t n = strlen(p); return s.size() >= n && s.compare(0, n, p) == 0; }
// RFC 3986 5.2.4
static inline string dots(string i) {
  string o;
  while (!i.empty()) {
    if (starts(i, "../")) i = i.substr(3); else if (starts(i, "./")) i = i.substr(2);
    else if (starts(i, "/./")) i = i.substr(2); else if (i == "/.") i = "/";
    else if (starts(i, "/../") || i == "/..") { i = i.size() == 3 ? string("/") : i.substr(3); size_t k = o.rfind('/'); o = k == string::npos ? string() : o.substr(0, k); }
    else if (i == "." || i == "..") i.clear();
    else { size_t k = i.find('/', 1); if (k == string::npos) k = i.size(); o += i.substr(0, k); i = i.substr(k); }
  }
  return o;
}
// RFC 3986 5.2.2
static inline Uri resolve(const Uri& b, const Uri& r) {
  Uri t;
  if (r.scheme.has) { t = r; t.path = dots(r.path); return t; }
  if (r.auth) { t = r; t.path = dots(r.path); }
  else {
    t.auth = b.auth; t.user = b.user; t.host = b.host; t.port = b.port;
    if (r.path.empty()) { t.path = b.path; t.query = r.query.has ? r.query : b.query; }
    else {
      if (r.path[0] == '/') t.path = dots(r.path);
      else { string m; if (b.auth && b.path.empty()) m = "/" + r.path; else { size_t k = b.path.rfind('/'); m = (k == string::npos ? string() : b.path.substr(0, k + 1)) + r.path; } t.path = dots(m); }
      t.query = r.query;
    }
  }
  t.scheme = b.scheme; t.frag = r.frag; return t;
}
// as the library reports a path: without the leading slash
static inline string upath(const Uri& u) { return !u.path.empty() && u.path[0] == '/' ? u.path.substr(1) : u.path; }
}
#endif
