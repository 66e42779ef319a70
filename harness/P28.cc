// P28: links of a document.
// @h links q=40 t=150 | documents of 2 (thorough 3) constructs of 24 kinds (links, icons, old Url, models with aliases, item icons, sound cues, schema data, style URLs, style maps, updates, texts and attributes which are no links), the first link any symbolic character, the others symbolic letters, at two nestings
// @h order q=30 t=100 | features with several links each in every order
// @h relative q=40 t=150 | hrefs of 0..3 (thorough 4) symbolic characters of "a/.#:?" after each of 6 prefixes
// @h parents q=30 t=100 | documents of 3 constructs of 16 kinds at two nestings: the link and icon parents in document order
// @h hrefs q=20 t=60 | links and icons present, empty or absent: the href, or none and the output unchanged
// @h fetch q=40 t=150 | links and icons fetched through a cache with relative, absolute and missing targets, files with and without cache
// @h bad q=20 t=60 | documents broken at any place, NULL vectors
// @h many q=40 t=100 | documents of 1..300 links of mixed kinds, nested 1..64 deep or side by side, hrefs of 1..4097 characters: all found, in order
// @h anyref q=40 t=150 | a link and an icon whose href is a prefix of 4 and 1..3 (thorough 4) symbolic characters of "a/.:?#", in files of two URLs: the URL asked for is the one RFC 3986 gives, nothing is asked for a malformed one
// @outside HTML links in descriptions and balloon text, which are documented as not searched; more constructs per document; KMZ archives (P19)
#include "uri.h"
#include "kvu.h"
#include "kml/engine/get_links.h"
#include "kml/engine/get_link_parents.h"
#include "kml/engine/link_util.h"
#include "kml/engine/kml_cache.h"
#include "kml/engine/kml_file.h"
using namespace kmldom; using namespace kmlengine; using std::string;
typedef std::vector<string> SV;
static string T(const char* n, const string& s) { return string("<") + n + ">" + s + "</" + n + ">"; }
static string A(SV* w) { string t = w->empty() ? kv_text(1, 'q') : kv_name(1); w->push_back(t); return xesc(t); }
static string H(SV* w) { return T("href", A(w)); }
static const unsigned kKinds = 24;
static string construct(unsigned k, SV* w) {
  switch (k) {
    case 0: return "<NetworkLink><name>n</name><Link>" + H(w) + "<viewFormat>v</viewFormat></Link></NetworkLink>";
    case 1: return "<NetworkLink><Url>" + H(w) + "</Url></NetworkLink>";
    case 2: return "<GroundOverlay><Icon>" + H(w) + "</Icon></GroundOverlay>";
    case 3: return "<ScreenOverlay><Icon>" + H(w) + "</Icon></ScreenOverlay>";
    case 4: return "<PhotoOverlay><Icon>" + H(w) + "</Icon></PhotoOverlay>";
    case 5: return "<Placemark><Model><Link>" + H(w) + "</Link></Model></Placemark>";
    case 6: { string s = "<Placemark><Model><ResourceMap><Alias>" + T("targetHref", A(w)) + "<sourceHref>source</sourceHref></Alias><Alias>" ; s += T("targetHref", A(w)); return s + "</Alias></ResourceMap></Model></Placemark>"; }
    case 7: return "<Placemark>" + T("styleUrl", A(w)) + "</Placemark>";
    case 8: return "<Style><IconStyle><Icon>" + H(w) + "</Icon></IconStyle></Style>";
    case 9: return "<Style><ListStyle><ItemIcon>" + H(w) + "</ItemIcon></ListStyle></Style>";
    case 10: { string s = "<StyleMap><Pair><key>normal</key>" + T("styleUrl", A(w)) + "</Pair><Pair><key>highlight</key>"; s += T("styleUrl", A(w)); return s + "</Pair></StyleMap>"; }
    case 11: { string t = kv_alpha(1, "#az"); w->push_back(t); return "<Placemark><ExtendedData><SchemaData schemaUrl=\"" + t + "\"><SimpleData name=\"href\">x</SimpleData></SchemaData></ExtendedData></Placemark>"; }
    case 12: return "<Placemark><ExtendedData><SchemaData><SimpleData name=\"styleUrl\">x</SimpleData></SchemaData><Data name=\"href\"><value>http://v</value></Data></ExtendedData></Placemark>";
    case 13: return "<Placemark><description><![CDATA[<a href=\"x\">y</a>]]></description><atom:link href=\"z\"/></Placemark>";
    case 14: return "<Placemark id=\"href\" targetId=\"styleUrl\"><name>http://n</name><address>href</address></Placemark>";
    case 15: return "<gx:Tour><gx:Playlist><gx:SoundCue>" + H(w) + "</gx:SoundCue></gx:Playlist></gx:Tour>";
    case 16: return "<gx:Tour><gx:Playlist><gx:AnimatedUpdate><Update><targetHref>u</targetHref><Change><Placemark targetId=\"p\">" + T("styleUrl", A(w)) + "</Placemark></Change></Update></gx:AnimatedUpdate></gx:Playlist></gx:Tour>";
    case 17: return "<NetworkLink><Link><httpQuery>q</httpQuery></Link></NetworkLink><GroundOverlay><Icon/></GroundOverlay>";
    case 18: { string s = "<NetworkLink>" + T("styleUrl", A(w)); s += "<Link>" + H(w); return s + "</Link></NetworkLink>"; }
    case 19: return "<Style><BalloonStyle><text>href</text></BalloonStyle></Style><Schema name=\"s\" id=\"href\"/>";
    case 20: { string s = "<Placemark>" + T("styleUrl", "<![CDATA[" + (w->push_back("http://a/?b&c"), string("http://a/?b&c")) + "]]>"); return s + "</Placemark>"; }
    case 21: { string s = "<Folder><Placemark>" + T("styleUrl", A(w)) + "</Placemark>"; s += "<Document>"; s += "<Style><IconStyle><Icon>" + H(w); return s + "</Icon></IconStyle></Style></Document></Folder>"; }
    case 22: { w->push_back(""); return "<NetworkLink><Link><href></href></Link></NetworkLink>"; }
    default: { w->push_back(" \n x y "); return "<NetworkLink><Link><href> \n x y </href></Link></NetworkLink>"; } }
}
static string doc(const string& s, unsigned nest) { string d = "<Document>" + (nest ? "<Folder>" + s + "</Folder>" : s) + "</Document>"; return nest ? "<kml>" + d + "</kml>" : d; }
static void same(const SV& a, const SV& b) { KV_ASSERT(a.size() == b.size(), "every link once and nothing else"); for (size_t i = 0; i < a.size(); i++) KV_ASSERT(a[i] == b[i], "with its exact text, in document order"); }
KV_HARNESS(links) {
  SV w; string s; unsigned n = kv_tier() ? 3 : 2; unsigned first = kKinds; for (unsigned i = 0; i < n; i++) { unsigned k = i == 0 ? kv_pick(kKinds) : i == 1 ? kv_pick(kKinds) : kv_pick(4) * 6; if (i == 0) first = k; s += construct(k, &w); }
  SV got; got.push_back("kept"); KV_ASSERT(GetLinks(doc(s, first % 2), &got), "parsed"); KV_ASSERT(got[0] == "kept", "links are appended"); got.erase(got.begin()); same(got, w);
}
KV_HARNESS(order) {
  SV w; unsigned k = kv_pick(6); string s = "<Document>"; if (k < 3) { s += T("styleUrl", A(&w)); s += "<Style id=\"s\"><IconStyle><Icon>" + H(&w) + "</Icon></IconStyle><ListStyle><ItemIcon><state>open</state>"; s += H(&w) + "</ItemIcon><ItemIcon>"; s += H(&w) + "</ItemIcon></ListStyle></Style>"; } if (k != 1) { s += "<Placemark><Model><Link>" + H(&w) + "</Link><ResourceMap><Alias><sourceHref>z</sourceHref>"; s += T("targetHref", A(&w)) + "</Alias></ResourceMap></Model>"; if (k > 2) s += T("styleUrl", A(&w)); s += "</Placemark>"; }
  if (k > 3) { s += "<StyleMap><Pair><key>normal</key><Style><IconStyle><Icon>" + H(&w) + "</Icon></IconStyle></Style></Pair></StyleMap>"; } if (k == 5) { s += "<GroundOverlay>" + T("styleUrl", A(&w)); s += "<Icon>" + H(&w) + "</Icon></GroundOverlay>"; } s += "</Document>"; SV got; KV_ASSERT(GetLinks(s, &got), "parsed"); same(got, w);
}
KV_HARNESS(relative) {
  static const char* P[] = {"", "http://", "b/", "ftp://h/", "://", "../"}; string p = P[kv_pick(6)]; unsigned n = kv_pick(kv_tier() ? 5 : 4); string t = p + kv_alpha(n, "a/.#:?"), s = "<Document><NetworkLink><Link><href>" + t + "</href></Link></NetworkLink><Placemark><styleUrl>#local</styleUrl></Placemark><Placemark><styleUrl>st.kml#x</styleUrl></Placemark></Document>";
  SV got; KV_ASSERT(GetRelativeLinks(s, &got), "parsed"); size_t hash = t.find('#'); string u = t.substr(0, hash); size_t c = u.find("://"); bool scheme = c != string::npos && c > 0; for (size_t i = 0; scheme && i < c; i++) if (u[i] == '/' || u[i] == '?') scheme = false; bool rel = !scheme && !u.empty(); SV w; if (rel) w.push_back(t); w.push_back("st.kml#x"); same(got, w);
}
KV_HARNESS(parents) {
  static const char* K[] = {"<NetworkLink/>", "<GroundOverlay/>", "<ScreenOverlay/>", "<PhotoOverlay/>", "<Placemark><Model/></Placemark>", "<Style><IconStyle/></Style>", "<Style><ListStyle><ItemIcon/><ItemIcon/></ListStyle></Style>", "<Placemark><Point/></Placemark>", "<Folder><NetworkLink><Link/></NetworkLink></Folder>", "<Style><LineStyle/><BalloonStyle/></Style>", "<gx:Tour><gx:Playlist><gx:SoundCue/></gx:Playlist></gx:Tour>", "<Placemark><Style><IconStyle><Icon/></IconStyle></Style></Placemark>", "<GroundOverlay><Icon><href>x</href></Icon></GroundOverlay>", "<Placemark><MultiGeometry><Model><Link/></Model></MultiGeometry></Placemark>", "<StyleMap><Pair><Style><IconStyle/></Style></Pair></StyleMap>", "<Style><ListStyle/></Style>"};
  static const KmlDomType W[16][2] = {{Type_NetworkLink, Type_Unknown}, {Type_GroundOverlay, Type_Unknown}, {Type_ScreenOverlay, Type_Unknown}, {Type_PhotoOverlay, Type_Unknown}, {Type_Model, Type_Unknown}, {Type_IconStyle, Type_Unknown}, {Type_ItemIcon, Type_ItemIcon}, {Type_Unknown, Type_Unknown}, {Type_NetworkLink, Type_Unknown}, {Type_Unknown, Type_Unknown}, {Type_Unknown, Type_Unknown}, {Type_IconStyle, Type_Unknown}, {Type_GroundOverlay, Type_Unknown}, {Type_Model, Type_Unknown}, {Type_IconStyle, Type_Unknown}, {Type_Unknown, Type_Unknown}};
  string s; std::vector<int> w; for (int i = 0; i < 3; i++) { unsigned k = i < 2 ? kv_pick(16) : (w.size() * 5) % 16; s += K[k]; for (int j = 0; j < 2; j++) if (W[k][j] != Type_Unknown) w.push_back(W[k][j]); }
  ElementVector got; KV_ASSERT(GetLinkParents(doc(s, w.size() & 1), &got), "parsed"); KV_ASSERT(got.size() == w.size(), "every parent of a link or icon, and nothing else"); for (size_t i = 0; i < w.size(); i++) { KV_ASSERT(got[i]->Type() == w[i], "in document order"); bool l = w[i] == Type_NetworkLink || w[i] == Type_Model; KV_ASSERT(IsLinkParent(got[i]) == l && IsIconParent(got[i]) == !l, "either of a link or of an icon"); }
}
KV_HARNESS(hrefs) {
  unsigned k = kv_pick(7), m = kv_pick(4); string t = m == 3 ? string() : kv_text(1), out = "old"; KmlFactory* f = KmlFactory::GetFactory(); bool got = false; 
#define LINK(L) if (m) { if (m > 1) L->set_href(t); }
  if (k < 2) { LinkPtr l = f->CreateLink(); LINK(l) if (k == 0) { NetworkLinkPtr n = f->CreateNetworkLink(); if (m) n->set_link(l); got = GetLinkParentHref(n, &out); KV_ASSERT(!GetLinkParentHref(n, NULL), "nowhere to put it"); } else { ModelPtr n = f->CreateModel(); if (m) n->set_link(l); got = GetLinkParentHref(n, &out); } }
  else if (k < 5) { IconPtr l = f->CreateIcon(); LINK(l) OverlayPtr n; if (k == 2) n = f->CreateGroundOverlay(); if (k == 3) n = f->CreateScreenOverlay(); if (k == 4) n = f->CreatePhotoOverlay(); if (m) n->set_icon(l); got = GetIconParentHref(n, &out); }
  else if (k == 5) { IconStylePtr n = f->CreateIconStyle(); IconStyleIconPtr l = f->CreateIconStyleIcon(); LINK(l) if (m) n->set_icon(l); got = GetIconParentHref(n, &out); }
  else { ItemIconPtr l = f->CreateItemIcon(); LINK(l) got = GetHref(m ? l : ItemIconPtr(), &out); }
  KV_ASSERT(got == (m > 1), "exactly when there is one"); KV_ASSERT(out == (m > 1 ? t : "old"), "the href, or nothing");
}
struct Net : public kmlbase::NetFetcher { mutable SV asked; virtual bool FetchUrl(const string& url, string* out) const { asked.push_back(url); if (url.find('!') != string::npos) return false; *out = url.find(".kml") != string::npos ? "<Placemark id=\"x\"><name>" + xesc(url) + "</name></Placemark>" : "data of " + url; return true; } };
KV_HARNESS(fetch) {
  Net net; KmlCache cache(&net, 4); static const char* B[] = {"http://h/d/f.kml", "http://h/f.kml"}; static const char* D[] = {"http://h/d/", "http://h/"}; unsigned b = kv_pick(2), k = kv_pick(4); bool with = kv_pick(2); string x = kv_name(1), href, want; if (k == 0) { href = x + "y"; want = D[b] + href; } if (k == 1) { href = "http://o/" + x; want = href; } if (k == 2) { href = "!" + x; want = D[b] + href; } if (k == 3) { href = "./z/" + x; want = D[b] + ("z/" + x); }
  bool icon = kv_pick(2); if (!icon) { href += ".kml"; want += ".kml"; } KmlFilePtr f; string text = "<Document/>"; f = KmlFile::CreateFromStringWithUrl(text, B[b], with ? &cache : NULL); KV_ASSERT(f, "a file"); KmlFactory* g = KmlFactory::GetFactory(); bool has = kv_pick(2);
  if (icon) { GroundOverlayPtr o = g->CreateGroundOverlay(); IconPtr i = g->CreateIcon(); i->set_href(href); if (has) o->set_icon(i); string data = ""; bool got = FetchIcon(f, o, &data); KV_ASSERT(got == (with && has && k != 2), "the icon exactly when there is one to fetch"); if (got) KV_ASSERT(data == "data of " + want, "the data of the resolved URL"); }
  else { NetworkLinkPtr n = g->CreateNetworkLink(); LinkPtr l = g->CreateLink(); l->set_href(href); if (has) n->set_link(l); KmlFilePtr r = FetchLink(f, n); KV_ASSERT((r.get() != 0) == (with && has && k != 2), "the file exactly when there is one to fetch"); if (r) { KV_ASSERT(AsPlacemark(r->get_root()) && AsPlacemark(r->get_root())->get_name() == want, "the file of the resolved URL"); KV_ASSERT(r->get_url() == want, "knows its URL"); KV_ASSERT(FetchLink(f, n) == r, "is cached"); } }
  KV_ASSERT(net.asked.size() == (with && has ? 1u : 0u), "fetched once"); if (with && has) KV_ASSERT(net.asked[0] == want, "from the resolved URL");
}
KV_HARNESS(bad) {
  SV w; string s = doc(construct(0, &w) + construct(11, &w), 1); unsigned cut = kv_pick16(s.size()); string t = s.substr(0, cut); SV got; ElementVector p; KV_ASSERT(!GetLinks(t, &got), "not parsed"); KV_ASSERT(!GetLinkParents(t, &p), "not parsed"); SV r; KV_ASSERT(!GetRelativeLinks(t, &r) && r.empty(), "not parsed"); KV_ASSERT(!GetLinks(s, NULL) && !GetLinkParents(s, NULL) && !GetRelativeLinks(s, NULL), "nowhere to put it");
  KV_ASSERT(got.size() <= w.size(), "only links"); for (size_t i = 0; i < got.size(); i++) KV_ASSERT(got[i] == w[i], "only links");
}
KV_HARNESS(many) {
  unsigned k = kv_pick(3); SV w; string s; if (k == 2) { w.push_back(kv_long(4097, kv_name(1))); s = "<NetworkLink><Link>" + T("href", w[0]) + "</Link></NetworkLink>"; } else { unsigned n = kv_size(k ? 64 : 300); string t = kv_name(1), e; for (unsigned i = 0; i < n; i++) { w.push_back(t + num(i)); string h = T("href", w[i]); string x = i % 3 == 0 ? "<NetworkLink><Link>" + h + "</Link></NetworkLink>" : i % 3 == 1 ? "<GroundOverlay><Icon>" + h + "</Icon></GroundOverlay>" : "<Placemark>" + T("styleUrl", w[i]) + "</Placemark>"; if (k) { s += "<Folder>" + x; e += "</Folder>"; } else s += x; } s += e; }
  SV got; KV_ASSERT(GetLinks(doc(s, 0), &got), "parsed"); same(got, w); ElementVector p; KV_ASSERT(GetLinkParents(doc(s, 0), &p), "parsed"); size_t m = 0; for (size_t i = 0; i < w.size(); i++) m += k == 2 || i % 3 != 2; KV_ASSERT(p.size() == m, "every parent");
}
struct Any : public kmlbase::NetFetcher { mutable SV asked; virtual bool FetchUrl(const string& url, string* out) const { asked.push_back(url); *out = "<Placemark/>"; return true; } };
KV_HARNESS(anyref) {
  static const char* B[] = {"http://h/d/f.kml", "http://h:8/d/e/f?q#g"}; static const char* P[] = {"", "x/y", "http://o/", "/r"}; string base = B[kv_pick(2)], pre = P[kv_pick(4)], href = pre + kv_alpha(1 + kv_pick(kv_tier() ? 4 : 3), "a/.:?#"); bool icon = kv_pick(2);
  rfc::Uri r = rfc::split(href), t = rfc::resolve(rfc::split(base), r); if (rfc::starts(t.path, "//")) return;
  Any net; KmlCache cache(&net, 4); KmlFilePtr f; f = KmlFile::CreateFromStringWithUrl("<Document/>", base, &cache); KmlFactory* g = KmlFactory::GetFactory(); bool got; string data;
  if (icon) { GroundOverlayPtr o = g->CreateGroundOverlay(); IconPtr i = g->CreateIcon(); i->set_href(href); o->set_icon(i); got = FetchIcon(f, o, &data); }
  else { NetworkLinkPtr n = g->CreateNetworkLink(); LinkPtr l = g->CreateLink(); l->set_href(href); n->set_link(l); KmlFilePtr k = FetchLink(f, n); got = k.get() != 0; }
  KV_ASSERT(got == r.ok, "exactly the well-formed references are fetched"); KV_ASSERT(net.asked.size() == (r.ok ? 1u : 0u), "one request"); if (r.ok) KV_ASSERT(net.asked[0] == rfc::join(t), "for the resolved reference");
}
