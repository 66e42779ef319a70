// P15: inlining and splitting styles against an independent resolver: every feature keeps its look, everything else stays.
// @h split q=60 t=200 | two features (Placemark, Folder with a nested one, overlay) each without style, with an inline style with or without an id, an inline style map, a style URL or both; shared styles with ids like the generated ones (an inline style whose generated id is taken may stay, by design)
// @h inline_ q=60 t=200 | features with any of 6 style URLs (shared styles, maps, chains, missing, other file, none) with and without an inline style or style map; shared styles before their use
// @h both q=30 t=120 | splitting and then inlining, and the reverse
// @h errors q=10 t=30 | text that does not parse yields an error and no tree; text without a Document is left alone
// @h many q=60 t=200 | documents of 1..101 features, each with its own inline style or a URL to one of as many shared styles; a symbolic value at the first, middle or last; split, inlined, and both
// @outside documents whose shared styles or style URLs come after their use (documented), style maps naming other files, features with two style selectors
#include "style.h"
#include "kml/engine/style_inliner.h"
#include "kml/engine/style_splitter.h"
using namespace kmldom; using sty::Fields; using sty::Oracle; using std::string;
static string dig() { return kv_alpha(1, "123456789"); }
static string sub(unsigned k, const string& v) { string s; if (k & 4) s += "<IconStyle><scale>" + v + "</scale><Icon><href>h" + v + "</href></Icon></IconStyle>"; if (k & 1) s += "<LineStyle><width>" + v + "</width></LineStyle>"; if (k & 2) s += "<PolyStyle><fill>0</fill></PolyStyle><LabelStyle><scale>2" + v + "</scale></LabelStyle>"; if (k & 4) s += "<BalloonStyle><text>t" + v + "</text></BalloonStyle>"; if (k & 1) s += "<ListStyle><bgColor>00112233</bgColor></ListStyle>"; return s; }
static string style(const string& id, unsigned k, const string& v) { return "<Style" + (id.empty() ? id : " id=\"" + id + "\"") + ">" + sub(k, v) + "</Style>"; }
static string pair(const string& key, const string& url, const string& inl) { return "<Pair><key>" + key + "</key>" + (url.empty() ? url : "<styleUrl>" + url + "</styleUrl>") + inl + "</Pair>"; }
static bool feature(const string& n) { return n == "Placemark" || n == "Folder" || n == "Document" || n == "GroundOverlay"; }
static bool selector(const string& n) { return n == "Style" || n == "StyleMap"; }
static void feats(const XN& n, std::vector<const XN*>* o) { if (feature(n.name)) o->push_back(&n); for (size_t i = 0; i < n.kids.size(); i++) if (n.kids[i].name != "Update") feats(n.kids[i], o); }
// everything but styles
static XN strip(const XN& n) { XN r; r.name = n.name; r.text = n.text; r.at = n.at; for (size_t i = 0; i < n.kids.size(); i++) if (!feature(n.name) || (n.kids[i].name != "styleUrl" && !selector(n.kids[i].name))) r.kids.push_back(strip(n.kids[i])); return r; }
static void looks(const XN& a0, const XN& b) { XN a = a0;
  KV_ASSERT(strip(a) == strip(b), "everything but styles is unchanged"); std::vector<const XN*> f, g; feats(a, &f); feats(b, &g); KV_ASSERT(f.size() == g.size(), "same features");
  for (size_t i = 0; i < f.size(); i++) { if (f[i]->name == "Document") continue; for (int h = 0; h < 2; h++) { Oracle o(a, h ? "highlight" : "normal"), p(b, h ? "highlight" : "normal"); Fields x, y; o.both(*f[i], 5, &x); p.both(*g[i], 5, &y); if (o.used <= 5) KV_ASSERT(x == y, "every feature resolves to the same style in either state"); } }
}
static XN parse(const string& s) { XN n; KV_ASSERT(xread(s, &n), "well-formed"); return n; }
static string split(const string& in) { string e; ElementPtr r = kmlengine::SplitStyles(in, &e); KV_ASSERT(r && e.empty(), "splits"); return SerializeRaw(r); }
static string inl(const string& in) { string e; ElementPtr r = kmlengine::InlineStyles(in, &e); KV_ASSERT(r && e.empty(), "inlines"); return SerializeRaw(r); }
static const char* IDS[] = {"s", "_0", "_1"};
static string shared(unsigned k, const string& v) { return style(IDS[k], 1 + 2, v) + style("t", 4, "8") + "<StyleMap id=\"m\">" + pair("normal", "#" + string(IDS[k]), "") + pair("highlight", "#t", style("", 1, "9")) + "</StyleMap>"; }
static string look(unsigned k, const string& sid, const string& v) {
  switch (k) { case 0: return ""; case 1: return style("", 1, v); case 2: return style("own", 5, v); case 3: return "<StyleMap>" + pair("normal", "#m", "") + pair("highlight", "", style("", 2, "")) + "</StyleMap>"; case 4: return "<StyleMap id=\"mine\">" + pair("highlight", "#t", style("", 1, v)) + "</StyleMap>";
    case 5: return "<styleUrl>#" + sid + "</styleUrl>"; case 6: return "<styleUrl>#m</styleUrl>" + style("", 1, v); case 7: return "<styleUrl>o.kml#s</styleUrl>"; case 8: return "<styleUrl>#none</styleUrl>" + style("l", 4, v); case 9: return "<styleUrl>#m</styleUrl><StyleMap>" + pair("normal", "#t", style("", 1, v)) + "</StyleMap>"; default: return "<styleUrl>#m</styleUrl>"; }
}
// the library's own form of unknown content and layout; reading and writing it is P01-P06
static string canon(const string& s) { ElementPtr e = Parse(s, NULL); KV_ASSERT(e, "parsed"); return SerializeRaw(e); }
static string doc(unsigned shape, const string& sh, const string& l1, const string& l2) {
  string a = "<Placemark id=\"p\"><name>n</name>" + l1 + "<Point><extrude>1</extrude></Point></Placemark>", b = "<GroundOverlay>" + l2 + "<color>01020304</color></GroundOverlay>";
  string upd = "<NetworkLinkControl><Update><Change><Placemark targetId=\"p\"><Style id=\"u\"><LineStyle><width>3</width></LineStyle></Style></Placemark></Change></Update></NetworkLinkControl>";
  if (shape == 0) return canon( "<Document>" + sh + a + b + "</Document>"); if (shape == 1) return canon("<kml>" + upd + "<Document>" + sh + "<Folder>" + l2 + a + "</Folder></Document></kml>"); return canon("<kml><Document><name>d</name>" + sh + b + a + "<u>x</u></Document></kml>");
}
static const unsigned NS[] = {0, 1, 2, 3, 4, 5, 6, 8};
KV_HARNESS(split) {
  unsigned k = kv_pick(3), shape = kv_pick(3), i = kv_pick(8), j = kv_pick(8); string v = dig(); string in = doc(shape, shared(k, "7"), look(NS[i], IDS[k], v), look(NS[j], IDS[k], "5")); string out = split(in); XN a = parse(in), b = parse(out); looks(a, b);
  std::vector<const XN*> f, g; feats(a, &f); feats(b, &g); Oracle o(a, "normal"), p(b, "normal"); size_t moved = 0;
  for (size_t q = 0; q < f.size(); q++) { bool url = f[q]->kid("styleUrl"), st = f[q]->kid("Style") || f[q]->kid("StyleMap"); if (f[q]->name == "Document") continue; if (st && !url && (k == 0 || g[q]->kid("styleUrl"))) { moved++; const XN* u = g[q]->kid("styleUrl"); KV_ASSERT(!g[q]->kid("Style") && !g[q]->kid("StyleMap") && u && u->text.size() > 1 && u->text[0] == '#', "the inline style is replaced by a style URL"); string id = u->text.substr(1); KV_ASSERT(p.shared.count(id) && !o.shared.count(id), "to a shared style with a fresh id"); } else { KV_ASSERT((g[q]->kid("Style") || g[q]->kid("StyleMap")) == st, "other styles stay"); if (url) KV_ASSERT(g[q]->kid("styleUrl")->text == f[q]->kid("styleUrl")->text, "other style URLs stay"); } }
  KV_ASSERT(p.shared.size() == o.shared.size() + moved, "one new shared style per style moved"); for (std::map<string, const XN*>::iterator q = o.shared.begin(); q != o.shared.end(); ++q) KV_ASSERT(p.shared.count(q->first) && *p.shared[q->first] == *q->second, "existing shared styles stay"); kv_obs(out);
}
KV_HARNESS(inline_) {
  unsigned k = kv_pick(2), shape = kv_pick(3), i = kv_pick(11), j = kv_pick(4); string v = dig(); string in = doc(shape, shared(k, "7"), look(i, IDS[k], v), look(j + 5, IDS[k], "5")); string out = inl(in); XN a = parse(in), b = parse(out); looks(a, b);
  Oracle o(b, "normal"); KV_ASSERT(o.shared.empty(), "no shared style is left"); std::vector<const XN*> f, g; feats(a, &f); feats(b, &g); Oracle oa(a, "normal"); for (size_t q = 0; q < g.size(); q++) { const XN* u = f[q]->kid("styleUrl"); bool local = u && u->text[0] == '#' && oa.shared.count(u->text.substr(1)); KV_ASSERT((g[q]->kid("styleUrl") != 0) == (u && !local), "resolvable style URLs are replaced, others stay"); if (u && !local) KV_ASSERT(g[q]->kid("styleUrl")->text == u->text, "as they are"); } kv_obs(out);
}
KV_HARNESS(both) {
  unsigned k = kv_pick(3), shape = kv_pick(3), i = kv_pick(11), j = kv_pick(4); string v = dig(); string in = doc(shape, shared(k, v), look(i, IDS[k], "6"), look(j + 1, IDS[k], "5")); bool si = kv_pick(2); string out = si ? inl(split(in)) : split(inl(in)); looks(parse(in), parse(out));
}
KV_HARNESS(errors) {
  unsigned k = kv_pick(4); static const char* B[] = {"", "<Document>", "<Document></Folder>", "<unk/>"}; string e; if (k < 4) { KV_ASSERT(!kmlengine::SplitStyles(B[k], &e) && !e.empty(), "no tree"); e.clear(); KV_ASSERT(!kmlengine::InlineStyles(B[k], &e) && !e.empty(), "no tree"); KV_ASSERT(!kmlengine::SplitStyles(B[k], NULL), "errors are optional"); }
  string in = canon("<Folder><Placemark>" + look(1 + kv_pick(4), "s", dig()) + "</Placemark></Folder>"); KV_ASSERT(parse(split(in)) == parse(in), "without a Document nothing is split"); KV_ASSERT(parse(inl(in)) == parse(in), "nor inlined");
}
static const XN* sel(const XN& n) { const XN* s = n.kid("Style"); return s ? s : n.kid("StyleMap"); }
static string wid(const XN& n, const char* key) { if (n.name == "Style") { const XN* l = n.kid("LineStyle"); return l && l->kid("width") ? l->kid("width")->text : "none"; } for (size_t i = 0; i < n.kids.size(); i++) if (n.kids[i].kid("key") && n.kids[i].kid("key")->text == key) { const XN* s = n.kids[i].kid("Style"); return s ? wid(*s, key) : "url"; } return "no pair"; }
KV_HARNESS(many) {
  unsigned n = kv_size(101), w = kv_pick(3), at = w == 0 ? 0 : w == 1 ? n / 2 : n - 1; string v = dig(); bool si = kv_pick(2); string sh, ft; for (unsigned i = 0; i < n; i++) { string x = i == at ? v : num(100 + i); if (si) ft += "<Placemark><name>" + num(i) + "</name>" + style("", 1, x) + "</Placemark>"; else { sh += style("s" + num(i), 1, x); ft += "<Placemark><name>" + num(i) + "</name><styleUrl>#s" + num(n - 1 - i) + "</styleUrl></Placemark>"; } }
  string in = canon("<Document>" + sh + ft + "</Document>"), out = si ? split(in) : inl(in), back = si ? inl(out) : split(out); XN d[3] = {parse(in), parse(out), parse(back)};
  for (int r = 0; r < 3; r++) { bool flat = si ? r != 1 : r == 1; std::map<string, const XN*> sw; std::vector<const XN*> p; for (size_t i = 0; i < d[r].kids.size(); i++) { const XN& k = d[r].kids[i]; if (selector(k.name)) { KV_ASSERT(k.attr("id") && !sw.count(*k.attr("id")), "shared styles have an id of their own"); sw[*k.attr("id")] = &k; } else { KV_ASSERT(k.name == "Placemark", "nothing else"); p.push_back(&k); } }
    KV_ASSERT(p.size() == n && sw.size() == (flat ? 0 : n), "every feature is kept, and as many shared styles as were split"); for (unsigned i = 0; i < n; i++) { unsigned j = si ? i : n - 1 - i; const XN *u = p[i]->kid("styleUrl"), *s = sel(*p[i]); KV_ASSERT(p[i]->kid("name")->text == num(i), "in order"); KV_ASSERT(flat ? s && !u : u && !s && u->text[0] == '#' && sw.count(u->text.substr(1)), "inline or shared"); const XN& l = flat ? *s : *sw[u->text.substr(1)]; string x = j == at ? v : num(100 + j); KV_ASSERT(wid(l, "normal") == x && wid(l, "highlight") == x, "each with its own look"); } }
}
