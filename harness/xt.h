// A small independent XML reader used as oracle: text -> generic tree.  Accepts the subset serializers emit
// (elements, attributes, character data, the five entities, decimal/hex character references < 128, CDATA).
#ifndef XT_H
#define XT_H
#include <string>
#include <vector>
struct XN {
  std::string name, text;
  std::vector<std::pair<std::string, std::string> > at;
  std::vector<XN> kids;
  bool operator==(const XN& o) const {
    if (name != o.name || text != o.text || at.size() != o.at.size() || kids.size() != o.kids.size()) return false;
    for (size_t i = 0; i < at.size(); i++) if (!has(o, at[i])) return false;
    for (size_t i = 0; i < kids.size(); i++) if (!(kids[i] == o.kids[i])) return false;
    return true;
  }
  static bool has(const XN& o, const std::pair<std::string, std::string>& a) { for (size_t j = 0; j < o.at.size(); j++) if (o.at[j] == a) return true; return false; }
  const std::string* attr(const std::string& n) const { for (size_t j = 0; j < at.size(); j++) if (at[j].first == n) return &at[j].second; return 0; }
  const XN* kid(const std::string& n) const { for (size_t j = 0; j < kids.size(); j++) if (kids[j].name == n) return &kids[j]; return 0; }
  size_t nkid(const std::string& n) const { size_t k = 0; for (size_t j = 0; j < kids.size(); j++) k += kids[j].name == n; return k; }
};
struct XR {
  const char *p, *e; bool ok;
  XR(const std::string& s) : p(s.data()), e(s.data() + s.size()), ok(true) {}
  bool at(const char* lit) { const char* q = p; while (*lit) { if (q >= e || *q != *lit) return false; q++; lit++; } return true; }
  void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
  std::string nm() { const char* b = p; while (p < e && *p != ' ' && *p != '>' && *p != '/' && *p != '=' && *p != '\n' && *p != '\t' && *p != '<') p++; if (b == p) ok = false; return std::string(b, p - b); }
  void ent(std::string* o) {
    if (at("&amp;")) { *o += '&'; p += 5; } else if (at("&lt;")) { *o += '<'; p += 4; } else if (at("&gt;")) { *o += '>'; p += 4; }
    else if (at("&quot;")) { *o += '"'; p += 6; } else if (at("&apos;")) { *o += '\''; p += 6; }
    else if (at("&#")) { p += 2; int v = 0, base = 10; if (p < e && *p == 'x') { base = 16; p++; } while (p < e && *p != ';') { int d = *p >= 'a' ? *p - 'a' + 10 : *p >= 'A' ? *p - 'A' + 10 : *p - '0'; v = v * base + d; p++; } if (p < e) p++; else ok = false; *o += (char)v; }
    else ok = false;
  }
  bool node(XN* n) {
    if (p >= e || *p != '<') return ok = false;
    p++; n->name = nm();
    for (;;) {
      ws(); if (p >= e) return ok = false;
      if (*p == '/') { p++; if (p >= e || *p != '>') return ok = false; p++; return ok; }
      if (*p == '>') { p++; break; }
      std::string k = nm(); if (!ok || p >= e || *p != '=') return ok = false; p++;
      if (p >= e || (*p != '"' && *p != '\'')) return ok = false;
      char q = *p++; std::string v;
      while (p < e && *p != q) { if (*p == '<') return ok = false; if (*p == '&') { ent(&v); if (!ok) return false; } else v += *p++; }
      if (p >= e) return ok = false; p++;
      for (size_t i = 0; i < n->at.size(); i++) if (n->at[i].first == k) return ok = false;
      n->at.push_back(std::make_pair(k, v));
    }
    for (;;) {
      if (p >= e) return ok = false;
      if (*p == '<') {
        if (at("<![CDATA[")) { p += 9; while (p < e && !at("]]>")) n->text += *p++; if (p >= e) return ok = false; p += 3; }
        else if (at("</")) { p += 2; std::string c = nm(); ws(); if (c != n->name || p >= e || *p != '>') return ok = false; p++; return ok; }
        else { n->kids.push_back(XN()); if (!node(&n->kids.back())) return false; }
      } else if (*p == '&') { ent(&n->text); if (!ok) return false; }
      else n->text += *p++;
    }
  }
};
static inline bool xread(const std::string& s, XN* n) { XR r(s); r.ws(); if (r.at("<?xml")) { while (r.p < r.e && *r.p != '>') r.p++; if (r.p < r.e) r.p++; r.ws(); } if (!r.node(n)) return false; r.ws(); return r.p == r.e; }
#endif
