// P14: style resolution against an independent resolver on the document's text.
// @h graph q=150 t=300 | two shared styles and two style maps whose pairs of the requested state name any of 6 targets (either style, either map - cycles included -, a missing id, another file) with and without an inline style, the feature's style URL any of 7 and its inline selector none, a style or a style map, both states, both pair orders; symbolic one-digit values
// @h field q=60 t=200 | every simple field of every sub-style, set or not in the shared style and in the inline one, symbolic or distinct values
// @h chain q=15 t=60 | chains of 1..8 style maps, states mixed; loops of 1..3 maps
// @h selector q=30 t=120 | StyleResolver::CreateResolvedStyleSelector for any URL of the graph: both states, ids cleared
// @h remote q=20 t=60 | style URLs into other files: fetched through the cache when there is one, ignored otherwise
// @h again q=60 t=150 | three features with style URLs out of 6 targets, one with an inline style, resolved one after another for either state, then the first again
// @h files q=60 t=150 | two files, each with any subset of 3 shared styles of the same ids and different values and a feature with any of their URLs, resolved in turn for either state: each only from its own file
// @outside more than five style URLs in all (only termination and that values come from reachable styles are checked there), ListStyle ItemIcon arrays, style maps of other files
#include "style.h"
#include "schema.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/kml_cache.h"
#include "kml/engine/style_resolver.h"
#include "kml/engine/style_merger.h"
using namespace kmldom; using kmlengine::KmlFile; using kmlengine::KmlFilePtr; using sty::Fields; using sty::Oracle; using std::string;
static const char* T[] = {"#s0", "#s1", "#m1", "#m0", "#zz", "o.kml#s0", ""};
static string dig() { return kv_alpha(1, "123456789"); }
static string style(const string& id, const string& a, const string& b, unsigned k) {  // which sub-styles a style sets varies
  string s = "<Style" + (id.empty() ? id : " id=\"" + id + "\"") + ">"; if (k & 1) s += "<LineStyle><color>0000000" + a + "</color><width>" + b + "</width></LineStyle>"; if (k & 2) s += "<LineStyle><width>" + b + "</width></LineStyle>"; if (k & 4) s += "<PolyStyle><fill>0</fill></PolyStyle><IconStyle><scale>" + a + "</scale><Icon><href>h" + b + "</href></Icon></IconStyle>"; if (k & 8) s += "<IconStyle><heading>" + b + "</heading></IconStyle>"; 
  if (k & 1) s += "<ListStyle><maxSnippetLines>" + b + "</maxSnippetLines></ListStyle>"; if (k & 2) s += "<ListStyle><bgColor>0000000" + a + "</bgColor></ListStyle>"; if (k & 4) s += "<LabelStyle><scale>" + b + "</scale></LabelStyle><BalloonStyle><text>t" + a + "</text></BalloonStyle>"; if (k & 8) s += "<LabelStyle><color>1000000" + b + "</color></LabelStyle><BalloonStyle><bgColor>2000000" + a + "</bgColor></BalloonStyle>"; return s + "</Style>";
}
static string pair(const string& key, const string& url, const string& inl) { return "<Pair>" + (key.empty() ? key : "<key>" + key + "</key>") + (url.empty() ? url : "<styleUrl>" + url + "</styleUrl>") + inl + "</Pair>"; }
static Fields got(const StylePtr& s) { XN n; KV_ASSERT(xread(SerializeRaw(s), &n), "the resolved style serialises"); Fields f; sty::flat(n, "", &f); return f; }
static void check(const KmlFilePtr& file, const XN& doc, const XN& feat, const FeaturePtr& f, bool high) {
  string before = SerializeRaw(file->get_root()); StylePtr r = kmlengine::CreateResolvedStyle(f, file, high ? STYLESTATE_HIGHLIGHT : STYLESTATE_NORMAL); KV_ASSERT(r, "a style is always returned"); KV_ASSERT(!r->GetParent(), "it is new");
  Fields g = got(r); Oracle o(doc, high ? "highlight" : "normal"); Fields w; o.both(feat, 5, &w);
  if (o.used <= 5) KV_ASSERT(g == w, "the resolved style has exactly the fields of the styles referred to, later ones and the inline one winning");
  else for (Fields::iterator i = g.begin(); i != g.end(); ++i) { bool any = false; Oracle p(doc, o.state); for (std::map<string, const XN*>::iterator k = p.shared.begin(); k != p.shared.end(); ++k) { Fields x; if (k->second->name == "Style") sty::flat(*k->second, "", &x); any |= x.count(i->first) && x[i->first] == i->second; } Fields inl; Oracle q(feat, o.state); for (size_t k = 0; k < feat.kids.size(); k++) q.sel(feat.kids[k], 0, &inl); any |= inl.count(i->first) && inl[i->first] == i->second; std::vector<const XN*> st(1, &doc); while (!any && !st.empty()) { const XN* n = st.back(); st.pop_back(); if (n->name == "Style") { Fields x; sty::flat(*n, "", &x); any |= x.count(i->first) && x[i->first] == i->second; } for (size_t k = 0; k < n->kids.size(); k++) st.push_back(&n->kids[k]); } KV_ASSERT(any, "every value comes from some style"); }
  if (r->has_linestyle()) { r->get_linestyle()->set_width(77); r->clear_linestyle(); } if (r->has_iconstyle() && r->get_iconstyle()->has_icon()) r->get_iconstyle()->get_icon()->set_href("changed"); r->set_id("zz");
  KV_ASSERT(SerializeRaw(file->get_root()) == before, "the document is unchanged and shares nothing with the result");
}
static void run(const string& styles, const string& feature, bool high) {
  string kml = "<kml><Document>" + styles + feature + "</Document></kml>"; KmlFilePtr file = KmlFile::CreateFromParse(kml, NULL); KV_ASSERT(file, "parsed"); XN doc; KV_ASSERT(xread(kml, &doc), "well-formed"); const XN& feat = doc.kids[0].kids.back();
  DocumentPtr d = AsDocument(AsKml(file->get_root())->get_feature()); check(file, doc, feat, d->get_feature_array_at(0), high);
}
KV_HARNESS(graph) {
  bool high = kv_pick(2); string st = high ? "highlight" : "normal", other = high ? "normal" : "highlight"; string a = dig(), b = dig();
  unsigned f = kv_pick(7), fi = kv_pick(3), t0 = kv_pick(6), i0 = kv_pick(2), t1 = kv_pick(6); bool order = kv_pick(2);
  string key = !high && order ? "" : st; string p = pair(key, T[t0], i0 ? style("", "4", dig(), 2) : ""), q = pair(other, "#s1", style("", "5", "5", 9));
  string s = style("s0", "1", a, 5) + style("s1", b, "2", 11 - 2) + "<StyleMap id=\"m0\">" + (order ? q + p : p + q) + "</StyleMap><StyleMap id=\"m1\">" + pair(st, T[t1], "") + pair(other, "#s0", "") + "</StyleMap>";
  string inl = fi == 0 ? string() : fi == 1 ? style("", "6", dig(), 2 + 8) : "<StyleMap>" + pair(st, T[t0], style("", "7", "8", 4)) + pair(other, "#s1", "") + "</StyleMap>";
  run(s, "<Placemark>" + (f == 6 ? string() : "<styleUrl>" + string(T[f]) + "</styleUrl>") + inl + "</Placemark>", high);
}
KV_HARNESS(chain) {
  bool high = kv_pick(2); unsigned n = 1 + kv_pick(8), loop = kv_pick(4); string s = style("s", dig(), "3", 5); for (unsigned i = 0; i < n; i++) { string nx = i + 1 < n ? "#c" + num(i + 1) : loop ? "#c" + num(n > loop ? n - loop : 0) : string("#s"); s += "<StyleMap id=\"c" + num(i) + "\">" + pair("normal", high ? "#s" : nx, "") + pair("highlight", high ? nx : "#s", i == 2 ? style("", "9", "9", 2) : "") + "</StyleMap>"; }
  run(s, "<GroundOverlay><styleUrl>#c0</styleUrl>" + style("", "2", "2", 8) + "</GroundOverlay>", high);
}
static const int SUB[] = {Type_IconStyle, Type_LabelStyle, Type_LineStyle, Type_PolyStyle, Type_BalloonStyle, Type_ListStyle};
KV_HARNESS(field) {
  int t = SUB[kv_pick(6)]; sch::Cls c = sch::cls(sch::find(t)); std::vector<size_t> s; for (size_t i = 0; i < c.n; i++) if (c.e[i].simple() && !c.e[i].attr) s.push_back(i); const sch::Ent& e = c.e[s[kv_pick(s.size())]]; unsigned m = kv_pick(4); string x;
  ElementPtr a = sch::make(t), b = sch::make(t); for (size_t i = 0; i < s.size(); i++) if (&c.e[s[i]] != &e) { if (i % 2) c.e[s[i]].set(a.get(), sch::cval(c.e[s[i]], 0, &x)); else c.e[s[i]].set(b.get(), sch::cval(c.e[s[i]], 1, &x)); }
  sch::Val va = e.def, vb = e.def; if (m & 1) { va = sch::cval(e, 2, &x); e.set(a.get(), va); } if (m & 2) { vb = sch::cval(e, 3, &x); if (e.k == 's') vb = sch::VS(kv_text(1)); if (e.k == 'd') vb = sch::VD(kv_dect(1, 1, false).v); if (e.k == 'c') vb = sch::VI(0x00010200L + kv_u8()); if (e.k == 'b') vb = sch::VI(kv_pick(2)); e.set(b.get(), vb); }
  KmlFactory* F = KmlFactory::GetFactory(); StylePtr sh = F->CreateStyle(), in = F->CreateStyle(); sh->set_id("s");
  struct Put { static void put(const StylePtr& s, const ElementPtr& e) { if (e->Type() == Type_IconStyle) s->set_iconstyle(AsIconStyle(e)); if (e->Type() == Type_LabelStyle) s->set_labelstyle(AsLabelStyle(e)); if (e->Type() == Type_LineStyle) s->set_linestyle(AsLineStyle(e)); if (e->Type() == Type_PolyStyle) s->set_polystyle(AsPolyStyle(e)); if (e->Type() == Type_BalloonStyle) s->set_balloonstyle(AsBalloonStyle(e)); if (e->Type() == Type_ListStyle) s->set_liststyle(AsListStyle(e)); }
    static ElementPtr get(const StylePtr& s, int t) { if (t == Type_IconStyle) return s->get_iconstyle(); if (t == Type_LabelStyle) return s->get_labelstyle(); if (t == Type_LineStyle) return s->get_linestyle(); if (t == Type_PolyStyle) return s->get_polystyle(); if (t == Type_BalloonStyle) return s->get_balloonstyle(); return s->get_liststyle(); } };
  Put::put(sh, a); Put::put(in, b); kmlengine::SharedStyleMap map; map["s"] = sh; string sa = SerializeRaw(sh), sb = SerializeRaw(in);
  StylePtr r = kmlengine::StyleResolver::CreateResolvedStyle("#s", in, map, "", NULL, STYLESTATE_NORMAL); ElementPtr q = Put::get(r, t); KV_ASSERT(q && q != a && q != b, "a sub-style of its own");
  KV_ASSERT(e.has(q.get()) == (m != 0) && sch::same(e, e.get(q.get()), m & 2 ? vb : va), "the inline value wins, else the shared one"); for (size_t i = 0; i < s.size(); i++) if (&c.e[s[i]] != &e) { const sch::Ent& f = c.e[s[i]]; KV_ASSERT(f.has(q.get()) && sch::same(f, f.get(q.get()), sch::cval(f, i % 2 ? 0 : 1, &x)), "every other field comes from the style that sets it"); }
  for (int i = 0; i < 6; i++) if (SUB[i] != t) KV_ASSERT(!Put::get(r, SUB[i]), "no other sub-style"); KV_ASSERT(SerializeRaw(sh) == sa && SerializeRaw(in) == sb, "the inputs are unchanged");
}
KV_HARNESS(selector) {
  unsigned f = kv_pick(7), t0 = kv_pick(6), t1 = kv_pick(6); string a = dig();
  string s = style("s0", "1", a, 5) + style("s1", "3", "2", 9) + "<StyleMap id=\"m0\">" + pair("normal", T[t0], "") + pair("highlight", T[t1], style("", "4", "4", 2)) + "</StyleMap><StyleMap id=\"m1\">" + pair("normal", "#s1", "") + pair("highlight", "#m0", "") + "</StyleMap>", kml = "<Document>" + s + "</Document>";
  KmlFilePtr file = KmlFile::CreateFromParse(kml, NULL); XN doc; KV_ASSERT(xread(kml, &doc), "well-formed"); StyleSelectorPtr r = kmlengine::StyleResolver::CreateResolvedStyleSelector(T[f], file->get_shared_style_map()); XN n; KV_ASSERT(r && xread(SerializeRaw(r), &n) && n.name == "StyleMap" && n.nkid("Pair") == 2 && n.kids.size() == 2, "a style map with one pair per state");
  KV_ASSERT(SerializeRaw(r).find("id=") == string::npos, "ids are cleared");
  for (int i = 0; i < 2; i++) { const XN& p = n.kids[i]; KV_ASSERT(p.kid("key") && p.kid("key")->text == (i ? "highlight" : "normal") && p.kid("Style") && !p.kid("styleUrl"), "normal, then highlight, each with a style"); Oracle o(doc, i ? "highlight" : "normal"); Fields w, g; o.url(T[f], 5, &w); sty::flat(*p.kid("Style"), "", &g); if (o.used <= 5) KV_ASSERT(g == w, "the style of that state"); }
}
struct Web : public kmlbase::NetFetcher { mutable unsigned n; mutable string last; string ok, data; Web() : n(0) {} virtual bool FetchUrl(const string& u, string* d) const { n++; last = u; if (u != ok) return false; *d = data; return true; } };
KV_HARNESS(remote) {
  Web w; string a = dig(); w.data = "<Document>" + style("x", a, "4", 1) + "</Document>"; kmlengine::KmlCache cache(&w, 2); bool haswww = kv_pick(2); static const char* U[] = {"o.kml#x", "http://h/d/o.kml#x", "o.kml#none", "o.kml", "no.kml#x", "http://h#x", "http://h?q#x", "a b#x", "../d/o.kml#x"}; unsigned u = kv_pick(9); w.ok = "http://h/d/o.kml#x";
  string kml = "<Document>" + style("x", "1", "1", 4) + "<Placemark><styleUrl>" + U[u] + "</styleUrl></Placemark></Document>"; KmlFilePtr f = haswww ? KmlFile::CreateFromStringWithUrl(kml, "http://h/d/f.kml", &cache) : KmlFile::CreateFromParse(kml, NULL); KV_ASSERT(f, "parsed");
  Fields g = got(kmlengine::CreateResolvedStyle(AsDocument(f->get_root())->get_feature_array_at(0), f, STYLESTATE_NORMAL)); if (haswww && (u == 0 || u == 1 || u == 8)) KV_ASSERT(g["LineStyle/color"] == "0000000" + a && g["LineStyle/width"] == "4" && g["ListStyle/maxSnippetLines"] == "4" && g.size() == 3, "the style of the other file"); else KV_ASSERT(g.empty(), "an unresolvable reference contributes nothing"); if (!haswww) KV_ASSERT(w.n == 0, "nothing is fetched without a cache");
}
KV_HARNESS(again) {
  string a = dig(), s = style("s0", "1", a, 5) + style("s1", a, "2", 9) + "<StyleMap id=\"m0\">" + pair("normal", "#s0", "") + pair("highlight", "#s1", style("", "4", "4", 2)) + "</StyleMap><StyleMap id=\"m1\">" + pair("normal", "#m0", "") + pair("highlight", "#m1", "") + "</StyleMap>", fs; unsigned u[3];
  for (int i = 0; i < 3; i++) { u[i] = i < 2 ? kv_pick(6) : 2; fs += "<Placemark><styleUrl>" + string(T[u[i]]) + "</styleUrl>" + (i == 1 ? style("", "6", "5", 10) : "") + "</Placemark>"; } string kml = "<kml><Document>" + s + fs + "</Document></kml>"; KmlFilePtr file = KmlFile::CreateFromParse(kml, NULL); KV_ASSERT(file, "parsed"); XN doc; KV_ASSERT(xread(kml, &doc), "well-formed"); DocumentPtr d = AsDocument(AsKml(file->get_root())->get_feature()); const XN& x = doc.kids[0]; size_t o = x.kids.size() - 3; unsigned h = kv_pick(16);
  for (int i = 0; i < 4; i++) { int j = i % 3; check(file, doc, x.kids[o + j], d->get_feature_array_at(j), h >> i & 1); }
}
KV_HARNESS(files) {
  static const char* const U[] = {"#s0", "#s1", "#m0"}; KmlFilePtr file[2]; XN doc[2]; FeaturePtr f[2]; string a = dig();
  for (int i = 0; i < 2; i++) { unsigned w = kv_pick(8); string v = i ? a : "7", s = (w & 1 ? style("s0", "1", v, i ? 5 : 10) : "") + (w & 2 ? style("s1", v, "2", i ? 9 : 6) : "") + (w & 4 ? "<StyleMap id=\"m0\">" + pair("normal", i ? "#s1" : "#s0", "") + pair("highlight", i ? "#s0" : "#s1", "") + "</StyleMap>" : ""); string kml = "<kml><Document>" + s + "<Placemark><styleUrl>" + U[kv_pick(3)] + "</styleUrl></Placemark></Document></kml>"; file[i] = KmlFile::CreateFromParse(kml, NULL); KV_ASSERT(file[i] && xread(kml, &doc[i]), "parsed"); f[i] = AsDocument(AsKml(file[i]->get_root())->get_feature())->get_feature_array_at(0); }
  bool h = kv_pick(2); for (int k = 0; k < 3; k++) { int i = k & 1; check(file[i], doc[i], doc[i].kids[0].kids.back(), f[i], h); }
}
