// P31: attributes are maps; namespace declarations are kept apart and kept whole.
// @h create q=30 t=120 | 0..7 strings (odd counts included), names symbolic of length 0..1, values symbolic of length 0..2, from a string vector and from a C array
// @h ops q=60 t=300 | every sequence of 3 operations (thorough 4) out of set, cut, merge, clone, get, split on two maps with symbolic names over { a b x:a x:b } and symbolic one-byte values
// @h split q=60 t=200 | three attributes with symbolic names of length 1..4 over { x n : a }, with and without eight further ones, split by prefix x or xn
// @h typed q=25 t=90 | typed get/set of int, bool, decimal and string values
// @h findkey q=20 t=60 | lookups by value over three symbolic one-byte values
// @h xmlns q=30 t=120 | Xmlns over default/prefixed declarations in every presence combination with symbolic prefixes and URIs
// @h parsed q=60 t=300 | 15 element types with known attributes: every subset of them present with symbolic values, plus an unknown attribute with symbolic name and value and namespace declarations
// @h table q=15 t=60 | every namespace identifier incl. out-of-range ones: prefix and URI are unique and found; absent otherwise
// @h scale q=40 t=100 | 1..300 attributes with and without prefix, values of 1..70000 characters: set, listed, split, merged, cloned, cut
// @h merged q=40 t=120 | an element with every subset of an id, an unknown attribute and two namespace declarations with symbolic values merged into one with every other subset: the union, the source winning; and MergeXmlns alike
// @outside more than 4 operations, names longer than 4 bytes over the full alphabet
#include "kml/engine/merge.h"
#include "kvu.h"
#include "xt.h"
#include "kml/base/attributes.h"
#include "kml/base/xmlns.h"
#include "kml/base/xml_namespaces.h"
using namespace kmldom; using namespace kmlbase;
using std::string;
// the oracle: an association list
struct M { std::vector<std::pair<string, string> > v;
  int at(const string& k) const { for (size_t i = 0; i < v.size(); i++) if (v[i].first == k) return (int)i; return -1; }
  void set(const string& k, const string& x) { int i = at(k); if (i < 0) v.push_back(std::make_pair(k, x)); else v[i].second = x; }
  bool cut(const string& k) { int i = at(k); if (i < 0) return false; v.erase(v.begin() + i); return true; } };
static void same(const Attributes& a, const M& m) {
  KV_ASSERT(a.GetSize() == m.v.size(), "number of attributes");
  for (size_t i = 0; i < m.v.size(); i++) { string x = "?"; KV_ASSERT(a.FindValue(m.v[i].first, &x) && x == m.v[i].second, "value under its name"); }
  std::vector<string> n; a.GetAttrNames(&n); KV_ASSERT(n.size() == m.v.size(), "names listed once"); for (size_t i = 0; i < n.size(); i++) KV_ASSERT(m.at(n[i]) >= 0, "only real names");
}
KV_HARNESS(create) {
  unsigned n = kv_pick(8); StringVector s; for (unsigned i = 0; i < n; i++) s.push_back(i % 2 ? kv_string(kv_pick(2), 'v') : kv_alpha(1, "ab"));
  M m; for (unsigned i = 0; i + 1 < n; i += 2) m.set(s[i], s[i + 1]);
  boost::scoped_ptr<Attributes> a(Attributes::Create(s)); KV_ASSERT(a, "created"); same(*a, m);
  bool nul = false; for (unsigned i = 0; i < n; i++) for (size_t j = 0; j < s[i].size(); j++) nul |= s[i][j] == 0;
  if (!nul) { const char* c[10]; for (unsigned i = 0; i < n; i++) c[i] = s[i].c_str(); c[n] = 0; c[n + 1] = 0; boost::scoped_ptr<Attributes> b(Attributes::Create(c)); KV_ASSERT(b, "created"); same(*b, m); }
}
static string nm() { static const char* t[] = {"a", "b", "x:a", "x:b"}; return t[kv_pick(4)]; }
KV_HARNESS(ops) {
  Attributes a, b; M ma, mb; b.SetValue("b", string("0")); mb.set("b", "0"); b.SetValue("x:a", string("1")); mb.set("x:a", "1");
  unsigned n = kv_tier() ? 4 : 3;
  for (unsigned i = 0; i < n; i++) {
    switch (kv_pick(6)) {
      case 0: { string k = nm(), v = kv_string(1, 'v'); a.SetValue(k, v); ma.set(k, v); break; }
      case 1: { string k = nm(), x; int p = ma.at(k); string w = p < 0 ? "" : ma.v[p].second; bool r = a.CutValue(k, &x); KV_ASSERT(r == (p >= 0) && (!r || x == w), "cut returns the value"); ma.cut(k); break; }
      case 2: a.MergeAttributes(b); for (size_t j = 0; j < mb.v.size(); j++) ma.set(mb.v[j].first, mb.v[j].second); break;
      case 3: { boost::scoped_ptr<Attributes> c(a.Clone()); same(*c, ma); c->SetValue("a", string("zz")); c->SetValue("new", string("q")); break; }
      case 4: { string k = nm(), x = "-"; bool r = a.GetValue(k, &x); int p = ma.at(k); KV_ASSERT(r == (p >= 0) && x == (r ? ma.v[p].second : "-"), "get leaves the target alone when absent"); break; }
      case 5: { boost::scoped_ptr<Attributes> s(a.SplitByPrefix("x")); M ms, rest; for (size_t j = 0; j < ma.v.size(); j++) if (ma.v[j].first.compare(0, 2, "x:") == 0) ms.set(ma.v[j].first.substr(2), ma.v[j].second); else rest.v.push_back(ma.v[j]); ma = rest; KV_ASSERT((s.get() != 0) == !ms.v.empty(), "split returns something iff there is"); if (s) same(*s, ms); break; }
    }
    same(a, ma);
  }
  same(b, mb);
}
KV_HARNESS(split) {
  Attributes a; M m; if (kv_pick(2)) for (int i = 0; i < 8; i++) { string k = string(i & 1 ? "x:m" : "xn:m") + char('0' + i); a.SetValue(k, "v"); m.set(k, "v"); } for (int i = 0; i < 3; i++) { string k = kv_alpha(1 + kv_pick(i == 0 ? 4 : 3), i == 0 ? "xn:a" : "x:"); string v(1, '0' + i); a.SetValue(k, v); m.set(k, v); }
  string p = kv_pick(2) ? "x" : "xn"; boost::scoped_ptr<Attributes> s(a.SplitByPrefix(p)); M ms, rest; string pc = p + ":";
  for (size_t j = 0; j < m.v.size(); j++) if (m.v[j].first.compare(0, pc.size(), pc) == 0) ms.set(m.v[j].first.substr(pc.size()), m.v[j].second); else rest.v.push_back(m.v[j]);
  same(a, rest); KV_ASSERT((s.get() != 0) == !ms.v.empty(), "something split"); if (s) same(*s, ms);
}
KV_HARNESS(typed) {
  Attributes a; a.SetValue("s", kv_string(2, 'q')); bool b = kv_bool(); a.SetValue("b", b); DecT d = kv_dect(2, 2, kv_pick(2)); a.SetValue("d", d.t); int i = (int)kv_choice(200) - 100; a.SetValue("i", i);
  bool gb = !b; KV_ASSERT(a.GetValue("b", &gb) && gb == b, "bool"); bool gb2 = !b; KV_ASSERT(a.GetBool("b", &gb2) && gb2 == b, "GetBool");
  double gd = 0; KV_ASSERT(a.GetDouble("d", &gd) && gd == d.v, "double"); int gi = 7; KV_ASSERT(a.CutValue("i", &gi) && gi == i && !a.FindValue("i", NULL), "int");
  gd = 5; KV_ASSERT(!a.GetDouble("none", &gd) && gd == 5, "absent leaves the target");
}
KV_HARNESS(findkey) {
  Attributes a; string v[3]; static const char* k[] = {"k0", "k1", "k2"}; for (int i = 0; i < 3; i++) { v[i] = kv_string(1, 'v'); a.SetValue(k[i], v[i]); }
  string q = kv_string(1, 'v'), r; bool f = a.FindKey(q, &r), w = q == v[0] || q == v[1] || q == v[2]; KV_ASSERT(f == w, "found iff some name has the value");
  if (f) { string back; KV_ASSERT(a.FindValue(r, &back) && back == q, "the name found has the value"); }
}
KV_HARNESS(xmlns) {
  unsigned f = kv_pick(8); string p0 = kv_name(1), p1 = kv_name(1), u0 = kv_name(2), u1 = kv_name(2), ud = kv_name(1); Attributes a; a.SetValue("id", string("i"));
  KV_ASSUME(p0 != p1); KV_ASSUME(u0 != u1);
  if (f & 1) a.SetValue("xmlns", ud); if (f & 2) a.SetValue("xmlns:" + p0, u0); if (f & 4) a.SetValue("xmlns:" + p1, u1);
  boost::scoped_ptr<Xmlns> x(Xmlns::Create(a)); KV_ASSERT((x.get() != 0) == (f != 0), "exists iff something is declared"); if (!x) return;
  KV_ASSERT(x->get_default() == (f & 1 ? ud : ""), "default namespace");
  KV_ASSERT(x->GetNamespace(p0) == (f & 2 ? u0 : "") && x->GetNamespace(p1) == (f & 4 ? u1 : ""), "prefix to namespace"); KV_ASSERT(x->GetKey(u0) == (f & 2 ? p0 : "") && x->GetKey(u1) == (f & 4 ? p1 : ""), "namespace to prefix");
  std::vector<string> pv; x->GetPrefixes(&pv); KV_ASSERT(pv.size() == (f >> 1 & 1u) + (f >> 2 & 1u), "prefixes"); KV_ASSERT(a.GetSize() == 1 + (f & 1u) + (f >> 1 & 1u) + (f >> 2 & 1u), "the attributes are unchanged");
}
struct EA { const char* el; const char* at[6]; char kind[7]; };  // s text, d decimal, i int, u units
static const EA ea[] = {
  {"Placemark", {"id", "targetId"}, "ss"}, {"Folder", {"id", "targetId"}, "ss"}, {"Point", {"id", "targetId"}, "ss"}, {"Style", {"id", "targetId"}, "ss"}, {"Icon", {"id", "targetId"}, "ss"},
  {"Schema", {"id", "name"}, "ss"}, {"SimpleField", {"type", "name"}, "ss"}, {"Data", {"id", "name", "targetId"}, "sss"}, {"SimpleData", {"name"}, "s"}, {"SchemaData", {"id", "schemaUrl", "targetId"}, "sss"},
  {"Snippet", {"maxLines"}, "i"}, {"hotSpot", {"x", "y", "xunits", "yunits"}, "dduu"}, {"kml", {"hint"}, "s"}, {"atom:link", {"href", "rel", "type", "hreflang", "title", "length"}, "sssssi"}, {"atom:category", {"term", "scheme", "label"}, "sss"}, {"screenXY", {"x", "y", "xunits", "yunits"}, "dduu"}, {"atom:content", {"src", "type"}, "ss"}, {"gx:SimpleArrayData", {"name"}, "s"}};
KV_HARNESS(parsed) {
  const EA& e = ea[kv_pick(sizeof ea / sizeof *ea)]; unsigned n = 0; while (e.kind[n]) n++; unsigned f = kv_pick(1u << n), u = kv_pick(4);
  std::vector<std::pair<string, string> > w; string t = string("<") + e.el; string sv = kv_text(1); KV_ASSUME(sv[0] != '\n' && sv[0] != '\t');
  for (unsigned i = 0; i < n; i++) if (f >> i & 1) { string v; switch (e.kind[i]) { case 's': v = i == 0 ? sv : string(1, 'A' + i); break; case 'd': v = i ? "0.25" : "-7.5"; break; case 'i': v = "3"; break; case 'u': v = i % 2 ? "pixels" : "insetPixels"; break; } w.push_back(std::make_pair(string(e.at[i]), v)); t += string(" ") + e.at[i] + "=\"" + xesc(v) + "\""; }
  if (u & 1) { string un = "q" + kv_name(1), uv = kv_text(1); KV_ASSUME(uv[0] != '\n' && uv[0] != '\t'); w.push_back(std::make_pair(un, uv)); t += " " + un + "=\"" + xesc(uv) + "\""; }
  if (u & 2) { string p = "p" + kv_name(1); w.push_back(std::make_pair(string("xmlns"), string("D"))); w.push_back(std::make_pair("xmlns:" + p, string("U"))); t += " xmlns='D' xmlns:" + p + "='U'"; }
  t += "/>"; ElementPtr p = Parse(t, NULL); KV_ASSERT(p, "accepted");
  XN x; KV_ASSERT(xread(SerializeRaw(p), &x) && x.name == e.el, "well-formed, attributes unique"); KV_ASSERT(x.at.size() == w.size(), "every attribute once");
  for (size_t i = 0; i < w.size(); i++) { const string* a = x.attr(w[i].first); KV_ASSERT(a && *a == w[i].second, "attribute written back"); }
  if (ObjectPtr o = AsObject(p)) { KV_ASSERT(o->has_id() == (XN::has(x, std::make_pair(string("id"), o->get_id()))), "id"); }
  const Attributes* un = p->GetUnknownAttributes(); KV_ASSERT((un ? un->GetSize() : 0) == (u & 1), "unknown attributes are exactly the unknown ones"); const Attributes* xm = p->GetXmlns(); KV_ASSERT((xm ? xm->GetSize() : 0) == (u & 2), "namespace declarations kept apart");
}
KV_HARNESS(table) {
  int i = (int)kv_pick(64) - 8; string p, u; bool f = FindXmlNamespaceAndPrefix((XmlnsId)i, &p, &u); KV_ASSERT(f == (i > XMLNS_NONE && i <= XMLNS_XSI), "exactly the declared identifiers"); if (!f) return;
  KV_ASSERT(!p.empty() && !u.empty(), "non-empty"); string p1, u1; KV_ASSERT(FindXmlNamespaceAndPrefix((XmlnsId)i, &p1, NULL) && FindXmlNamespaceAndPrefix((XmlnsId)i, NULL, &u1) && p1 == p && u1 == u, "either may be omitted");
  for (int j = 1; j <= XMLNS_XSI; j++) if (j != i) { string q, v; KV_ASSERT(FindXmlNamespaceAndPrefix((XmlnsId)j, &q, &v) && q != p && v != u, "prefixes and namespaces are unique"); }
}
KV_HARNESS(scale) {
  if (kv_pick(2)) { string v = kv_long(70000, kv_text(1)); Attributes a; a.SetValue("k", v); string g; KV_ASSERT(a.FindValue("k", &g) && g == v, "whole values"); boost::scoped_ptr<Attributes> c(a.Clone()); KV_ASSERT(c->FindValue("k", &g) && g == v, "cloned"); string x = "<e"; a.Serialize(&x); XN t; KV_ASSERT(xread(x + "/>", &t) && t.attr("k") && *t.attr("k") == v, "written"); return; }
  unsigned n = kv_size(300), ev = 1 + kv_pick(3); string t = kv_text(1); M m, s; StringVector l; for (unsigned i = 0; i < n; i++) { string k = (i % (ev + 1) == 0 ? "x:n" : "n") + num(i), v = t + num(i); l.push_back(k); l.push_back(v); if (i % (ev + 1) == 0) s.set("n" + num(i), v); else m.set(k, v); } boost::scoped_ptr<Attributes> a(Attributes::Create(l)), c(a->Clone()); KV_ASSERT(a->GetSize() == n && c->GetSize() == n, "all"); boost::scoped_ptr<Attributes> p(a->SplitByPrefix("x")); KV_ASSERT(p, "split"); same(*a, m); same(*p, s); a->MergeAttributes(*p); KV_ASSERT(a->GetSize() == n, "merged"); for (unsigned i = 0; i < n; i++) { string v; KV_ASSERT(c->CutValue(l[2 * i], &v) && v == l[2 * i + 1], "cut"); } KV_ASSERT(c->GetSize() == 0, "none left");
}
KV_HARNESS(merged) {
  static const char* const N[] = {"id", "u", "xmlns:a", "xmlns:b", "xmlns"}; std::map<string, string> m[2]; string s[2]; ElementPtr e[2]; unsigned w[2] = {kv_pick(32), kv_pick(32)};
  for (int k = 0; k < 2; k++) { s[k] = "<Placemark"; for (int i = 0; i < 5; i++) if (w[k] >> i & 1) { string v = i < 2 ? kv_name(1) : "n" + num(i + 5 * k); m[k][N[i]] = v; s[k] += string(" ") + N[i] + "=\"" + v + "\""; } e[k] = Parse(s[k] + "></Placemark>", NULL); KV_ASSERT(e[k], "parsed"); }
  std::map<string, string> want = m[1]; for (std::map<string, string>::iterator i = m[0].begin(); i != m[0].end(); ++i) want[i->first] = i->second;
  if (kv_pick(2)) kmlengine::MergeElements(e[0], e[1]); else { for (int i = 0; i < 2; i++) want[N[i]] = m[1].count(N[i]) ? m[1][N[i]] : "", m[1].count(N[i]) ? 0 : want.erase(N[i]); if (e[0]->GetXmlns()) e[1]->MergeXmlns(*e[0]->GetXmlns()); }
  kmlbase::Attributes a; e[1]->SerializeAttributes(&a); KV_ASSERT(a.GetSize() == want.size(), "exactly the union"); for (std::map<string, string>::iterator i = want.begin(); i != want.end(); ++i) { string v; KV_ASSERT(a.GetValue(i->first, &v) && v == i->second, "the source's value, otherwise the target's"); }
  KV_ASSERT(SerializeRaw(e[0]) == SerializeRaw(Parse(s[0] + "></Placemark>", NULL)), "the source is unchanged");
}
