// P22: feature lists keep every feature: splitting, sorting, saving and collecting from a parse.
// @h split q=60 t=250 | lists of 0..3 (thorough 4) placemarks with symbolic integer positions or none, a box with symbolic integer edges, maxima 0..3, into another list with one feature, or no list
// @h region q=30 t=100 | the same through a Region, with and without box
// @h sort q=60 t=250 | lists of 0..3 (thorough 4) features with scores of a symbolic digit, signed or missing: a stable permutation in non-increasing order
// @h large q=40 t=100 | three features with scores out of 9 around the limits of 16 and 32 bits: read back, sorted stably
// @h score q=20 t=60 | scores set and read back: every text of up to 3 digits with sign
// @h bounds q=30 t=100 | the box of a list of 0..3 placemarks with symbolic positions
// @h saver q=60 t=200 | a parse of documents with features at every place (containers, nested, within updates), shared and local styles with symbolic ids and style URLs, with and without style base and style map
// @h counter q=20 t=60 | counting elements while parsing documents of symbolic selection
// @h many q=60 t=150 | lists of 1..300 features split by a box with a limit of none or 1..300, sorted, saved: a symbolic position or score on one
// @outside lists of more than four features; scores beyond int
#include "xt.h"
#include "kvu.h"
#include "kml/convenience/convenience.h"
#include "kml/convenience/feature_list.h"
#include "kml/convenience/kml_feature_list_saver.h"
#include "kml/convenience/element_counter.h"
using namespace kmldom; using namespace kmlconvenience; using kmlengine::Bbox; using std::string;
static KmlFactory* F() { return KmlFactory::GetFactory(); }
static int coord() { return (int)(signed char)kv_u8(); }
struct It { PlacemarkPtr p; bool has; double la, lo; string text; };
static It item(unsigned i, bool pos) { It t; t.p = F()->CreatePlacemark(); t.p->set_name(string(1, 'a' + i)); t.has = pos; t.la = t.lo = 0; if (pos) { t.la = coord(); t.lo = coord(); CoordinatesPtr c = F()->CreateCoordinates(); c->add_latlng(t.la, t.lo); PointPtr q = F()->CreatePoint(); q->set_coordinates(c); t.p->set_geometry(q); } return t; }
static std::vector<It> items() { unsigned n = kv_pick(kv_tier() ? 5 : 4); std::vector<It> v; unsigned m = kv_pick(2); for (unsigned i = 0; i < n; i++) v.push_back(item(i, !(m && i == n / 2))); return v; }
static void expect(const FeatureList& l, const std::vector<FeaturePtr>& w) { KV_ASSERT(l.Size() == w.size(), "no feature is lost or duplicated"); FolderPtr f = F()->CreateFolder(); f->add_feature(F()->CreateNetworkLink()); KV_ASSERT(l.Save(f) == w.size(), "all are saved"); KV_ASSERT(f->get_feature_array_size() == w.size() + 1 && f->get_feature_array_at(0)->IsA(Type_NetworkLink), "appended"); for (size_t i = 0; i < w.size(); i++) KV_ASSERT(f->get_feature_array_at(i + 1) == w[i], "in order"); KV_ASSERT(l.Size() == w.size(), "and kept"); }
static void split(bool region) {
  std::vector<It> v = items(); FeatureList l, o; for (size_t i = 0; i < v.size(); i++) l.PushBack(v[i].p); l.PushBack(NULL); FeaturePtr pre = F()->CreateFolder(); o.PushBack(pre); unsigned mode = kv_pick(4); double n = coord(), s = coord(), e = 100, w = -90; size_t max = kv_pick(4); FeatureList* out = kv_pick(2) ? &o : 0; bool none = false; size_t got;
  if (!region) got = l.BboxSplit(Bbox(n, s, e, w), max, out);
  else { RegionPtr r = mode == 0 ? RegionPtr() : RegionPtr(F()->CreateRegion()); if (mode > 1) { LatLonAltBoxPtr b = F()->CreateLatLonAltBox(); b->set_north(n); b->set_south(s); b->set_east(e); b->set_west(w); r->set_latlonaltbox(b); } none = mode < 2; got = l.RegionSplit(r, max, out); }
  std::vector<FeaturePtr> keep, move; if (out) move.push_back(pre); size_t k = 0; for (size_t i = 0; i < v.size(); i++) { bool in = v[i].has && !none && v[i].la <= n && v[i].la >= s && v[i].lo <= e && v[i].lo >= w && (max == 0 || k < max); if (in) { k++; if (out) move.push_back(v[i].p); } else keep.push_back(v[i].p); }
  KV_ASSERT(got == k, "the number split off"); if (!out) move.push_back(pre); expect(l, keep); expect(o, move);
}
KV_HARNESS(split) { split(false); }
KV_HARNESS(region) { split(true); }
KV_HARNESS(sort) {
  unsigned n = kv_pick(kv_tier() ? 5 : 4); FeatureList l; std::vector<std::pair<int, FeaturePtr> > v; for (unsigned i = 0; i < n; i++) { It t = item(i, false); int sc = 0; unsigned k = i ? kv_pick(3) : 2; if (k) { string d = kv_alpha(1, "0123456789"); sc = d[0] - '0'; if (k == 1) sc = -sc; SetFeatureScore((k == 1 ? "-" : "") + d, t.p); } l.PushBack(t.p); v.push_back(std::make_pair(sc, FeaturePtr(t.p))); }
  l.Sort(); std::vector<FeaturePtr> w; std::vector<bool> used(n); for (unsigned i = 0; i < n; i++) { int b = -1; for (unsigned j = 0; j < n; j++) if (!used[j] && (b < 0 || v[j].first > v[b].first)) b = j; used[b] = true; w.push_back(v[b].second); } expect(l, w);
}
KV_HARNESS(large) {
  static const char* const S[] = {"32767", "32768", "65535", "65536", "-32769", "2147483647", "-2147483648", "0", "99999"}; static const double V[] = {32767, 32768, 65535, 65536, -32769, 2147483647., -2147483648., 0, 99999}; FeatureList l; unsigned k[3]; FeaturePtr f[3]; for (int i = 0; i < 3; i++) { k[i] = kv_pick(9); f[i] = item(i, false).p; SetFeatureScore(S[k[i]], f[i]); KV_ASSERT(GetFeatureScore(f[i]) == (int)V[k[i]], "the score last set"); l.PushBack(f[i]); }
  l.Sort(); std::vector<FeaturePtr> w; std::vector<bool> used(3); for (int i = 0; i < 3; i++) { int b = -1; for (int j = 0; j < 3; j++) if (!used[j] && (b < 0 || V[k[j]] > V[k[b]])) b = j; used[b] = true; w.push_back(f[b]); } expect(l, w);
}
KV_HARNESS(score) {
  FeaturePtr f = F()->CreatePlacemark(); KV_ASSERT(GetFeatureScore(f) == 0, "no score is 0"); unsigned n = 1 + kv_pick(3); string d; int v = 0; for (unsigned i = 0; i < n; i++) { string c = kv_alpha(1, "0123456789"); d += c; v = v * 10 + (c[0] - '0'); } bool neg = kv_pick(2); AddExtendedDataValue("x", "9", f); SetFeatureScore("77", f); SetFeatureScore((neg ? "-" : "") + d, f); AddExtendedDataValue("y", "8", f); KV_ASSERT(GetFeatureScore(f) == (neg ? -v : v), "the score last set");
}
KV_HARNESS(bounds) {
  std::vector<It> v = items(); FeatureList l; for (size_t i = 0; i < v.size(); i++) l.PushBack(v[i].p); Bbox b; l.ComputeBoundingBox(&b); l.ComputeBoundingBox(NULL); bool any = false; double n = 0, s = 0, e = 0, w = 0; for (size_t i = 0; i < v.size(); i++) if (v[i].has) { if (!any || v[i].la > n) n = v[i].la; if (!any || v[i].la < s) s = v[i].la; if (!any || v[i].lo > e) e = v[i].lo; if (!any || v[i].lo < w) w = v[i].lo; any = true; } if (any) KV_ASSERT(b.get_north() == n && b.get_south() == s && b.get_east() == e && b.get_west() == w, "the box of all positions"); else KV_ASSERT(b.get_north() < b.get_south(), "nothing");
}
KV_HARNESS(saver) {
  string id = kv_alpha(1, "st"), url = kv_pick(2) ? "#" : "o.kml#"; unsigned ul = kv_pick(3); url += string("style").substr(0, ul ? ul * 2 - 1 : 0); bool base = kv_pick(2), map = kv_pick(2), has = kv_pick(2), upd = kv_pick(2), wrap = kv_pick(2), idd = kv_pick(2); string style = "<Style" + (idd ? " id=\"" + id + "\"" : "") + "><LineStyle><width>2</width></LineStyle></Style>", u = has ? "<styleUrl>" + url + "</styleUrl>" : "";
  string up = upd ? "<NetworkLinkControl><Update><Change><Placemark targetId=\"x\"><name>no</name></Placemark></Change><Create><Folder targetId=\"f\"><GroundOverlay/></Folder></Create></Update></NetworkLinkControl>" : "";
  string d = "<Document>" + style + "<Placemark><name>1</name>" + u + "<Style id=\"loc\"/></Placemark><Folder>" + u + "<NetworkLink><name>2</name></NetworkLink><Folder><GroundOverlay><name>3</name>" + u + "</GroundOverlay></Folder></Folder><Document><StyleMap id=\"m\"/><gx:Tour><name>4</name></gx:Tour></Document></Document>"; if (wrap || upd) d = "<kml>" + up + d + "</kml>";
  FeatureList l; kmlengine::SharedStyleMap m; KmlFeatureListSaver sv(&l, map ? &m : NULL, base ? "b.kml" : NULL); Parser p; p.AddObserver(&sv); string err; ElementPtr r = p.Parse(d, &err); KV_ASSERT(r, "parsed"); FolderPtr f = F()->CreateFolder(); size_t n = l.Save(f); KV_ASSERT(n == 4, "every feature of the document, none of an update"); string w = has ? (base && url[0] == '#' && url.size() > 1 ? "b.kml" + url : url) : "";
  for (size_t i = 0; i < 4; i++) { FeaturePtr g = f->get_feature_array_at(i); KV_ASSERT(g->get_name() == string(1, '1' + i), "in document order"); bool h = has && i % 2 == 0; KV_ASSERT(g->has_styleurl() == h, "style URLs are kept"); if (h) KV_ASSERT(g->get_styleurl() == w, "with the base when local"); } KV_ASSERT(f->get_feature_array_at(0)->has_styleselector(), "own styles stay");
  if (map) { KV_ASSERT(m.size() == (idd ? 2u : 1u) && m.count("m"), "exactly the shared styles with an id"); if (idd) KV_ASSERT(m.count(id) && m[id]->IsA(Type_Style), "by id"); } DocumentPtr dd = AsDocument(wrap || upd ? AsKml(r)->get_feature() : AsFeature(r)); KV_ASSERT(dd && dd->get_styleselector_array_size() == (map && idd ? 0u : 1u), "other styles stay in the document"); KV_ASSERT(dd->get_feature_array_size() == 2, "containers stay");
}
KV_HARNESS(counter) {
  unsigned m = kv_pick(64); string s = "<Folder>"; std::map<int, int> w; w[Type_Folder] = 1; static const struct { const char* x; int t, c; } P[] = {{"<name>n</name>", Type_name, 0}, {"<Placemark><Point/></Placemark>", Type_Placemark, Type_Point}, {"<Placemark/>", Type_Placemark, 0}, {"<unk><Placemark/></unk>", 0, 0}, {"<Folder><Point/></Folder>", Type_Folder, Type_Point}, {"<GroundOverlay><Icon/></GroundOverlay>", Type_GroundOverlay, Type_Icon}}; for (int i = 0; i < 6; i++) if (m >> i & 1) { s += P[i].x; if (P[i].t) w[P[i].t]++; if (P[i].c) w[P[i].c]++; } s += "</Folder>";
  ElementCountMap c; ElementCounter ec(&c); Parser p; p.AddObserver(&ec); KV_ASSERT(p.Parse(s, NULL), "parsed"); int t = 0, u = 0; for (ElementCountMap::iterator i = c.begin(); i != c.end(); ++i) { KV_ASSERT(w[i->first] == i->second, "counted exactly"); t += i->second; } for (std::map<int, int>::iterator i = w.begin(); i != w.end(); ++i) u += i->second; KV_ASSERT(t == u, "all counted");
}
KV_HARNESS(many) {
  unsigned n = kv_size(300); std::vector<PlacemarkPtr> v; FeatureList l; int c = coord(); unsigned at = kv_pick(2) ? n - 1 : n / 2; bool sort = kv_pick(2); for (unsigned i = 0; i < n; i++) { PlacemarkPtr p = F()->CreatePlacemark(); p->set_name(num(i)); if (sort) SetFeatureScore(num(i == at ? c : (int)((i * 7) % 5) * 10), p); else p->set_geometry(CreatePointLatLon(i == at ? c : 0, i % 3 ? 5 : 50)); v.push_back(p); l.PushBack(p); }
  std::vector<FeaturePtr> w, o;
  if (sort) { l.Sort(); std::vector<int> sc; for (unsigned i = 0; i < n; i++) sc.push_back(i == at ? c : (int)((i * 7) % 5) * 10); std::vector<bool> used(n, false); for (unsigned k = 0; k < n; k++) { int b = -1; for (unsigned i = 0; i < n; i++) if (!used[i] && (b < 0 || sc[i] > sc[b])) b = i; used[b] = true; w.push_back(v[b]); } expect(l, w); return; }
  unsigned lim = kv_pick(2) ? kv_size(300) : 0; FeatureList out; size_t got = l.BboxSplit(Bbox(10, -10, 10, -10), lim, &out); for (unsigned i = 0; i < n; i++) { bool in = (i == at ? c >= -10 && c <= 10 : true) && i % 3 && (!lim || o.size() < lim); if (in) o.push_back(v[i]); else w.push_back(v[i]); } KV_ASSERT(got == o.size(), "the number split off"); expect(l, w); expect(out, o);
}
