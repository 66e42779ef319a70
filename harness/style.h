// Independent oracle of style resolution on generic XML trees (P14, P15).
#ifndef STYLE_H
#define STYLE_H
#include <map>
#include "kvu.h"
#include "xt.h"
namespace sty {
using std::string;
typedef std::map<string, string> Fields;  // "LineStyle/width" -> text
static inline void flat(const XN& n, const string& pre, Fields* f) { for (size_t i = 0; i < n.kids.size(); i++) { const XN& k = n.kids[i]; if (k.kids.empty()) { if (!k.text.empty()) (*f)[pre + k.name] = k.text; } else flat(k, pre + k.name + "/", f); } }
struct Oracle {
  std::map<string, const XN*> shared; string state; int used;
  Oracle(const XN& doc, const string& st) : state(st), used(0) { scan(doc); }
  void scan(const XN& n) { for (size_t i = 0; i < n.kids.size(); i++) { const XN& k = n.kids[i]; if (n.name == "Document" && (k.name == "Style" || k.name == "StyleMap") && k.attr("id")) shared[*k.attr("id")] = &k; if (k.name != "Style" && k.name != "StyleMap") scan(k); } }
  // at most `max` style URLs are followed; `used` counts them
  void url(const string& u, int max, Fields* f) { if (++used > max) return; if (u.empty() || u[0] != '#') return; std::map<string, const XN*>::iterator i = shared.find(u.substr(1)); if (i != shared.end()) sel(*i->second, max, f); }
  void both(const XN& n, int max, Fields* f) { const XN* u = n.kid("styleUrl"); url(u ? u->text : string(), max, f); for (size_t i = 0; i < n.kids.size(); i++) if (n.kids[i].name == "Style" || n.kids[i].name == "StyleMap") sel(n.kids[i], max, f); }
  void sel(const XN& s, int max, Fields* f) {
    if (s.name == "Style") flat(s, "", f);
    else for (size_t i = 0; i < s.kids.size(); i++) if (s.kids[i].name == "Pair") { const XN* k = s.kids[i].kid("key"); if ((k ? k->text : string("normal")) == state) both(s.kids[i], max, f); }
  }
};
}
#endif
