// P34: convenience helpers build exactly the stated elements, and the readers return what was put in.
// @h numbers q=60 t=200 | cameras, look-ats, regions, points, placemarks, waits, fly-tos and animated updates from arbitrary doubles other than NaN, and every altitude mode; the elements they have, with fixed numbers
// @h data q=40 t=150 | histories of 3 (thorough 4) additions, replacements and reads of data values with symbolic one-character names and values
// @h atts q=40 t=150 | points from every order and presence of lat, lon and another attribute with symbolic decimals
// @h gpx q=60 t=200 | GPX text with up to three track points, each with or without lat, lon, ele, time, other elements in between, symbolic digits
// @h flyto q=20 t=60 | fly-to for features with and without view or location
// @h atom q=40 t=150 | entries and feeds: links by relation and type, categories by scheme, content source, titles, with symbolic texts
// @h entry q=40 t=150 | entries of features, features of entries and feeds: clones, links, containers; entries without feature
// @h stamp q=10 t=30 | placemarks with a time stamp for 8 date-times
// @h many q=40 t=100 | GPX tracks of 1..300 points with times of 1..4097 characters; data values added 1..300 times; feeds of 1..129 entries: all, in order
// @h simplify q=40 t=100 | coordinate lists of 0..4 tuples (thorough 5) over three positions and three altitudes or none, tolerance negative, 0, 1, 3 or 10 metres: exactly the tuples within the tolerance of their predecessor are left out
// @outside circles and simplification of coordinates (trigonometric functions); HTTP requests
#include "xt.h"
#include "kvu.h"
#include "kml/base/date_time.h"
#include "kml/base/expat_parser.h"
#include "kml/convenience/convenience.h"
#include "kml/convenience/atom_util.h"
#include "kml/convenience/gpx_trk_pt_handler.h"
using namespace kmldom; using namespace kmlconvenience; using kmlbase::Vec3; using std::string;
static KmlFactory* F() { return KmlFactory::GetFactory(); }
static string names(const XN& n) { string s = n.name; if (!n.at.empty()) { s += "["; for (size_t i = 0; i < n.at.size(); i++) s += (i ? "," : "") + n.at[i].first; s += "]"; } if (!n.kids.empty()) { s += "("; for (size_t i = 0; i < n.kids.size(); i++) s += (i ? "," : "") + names(n.kids[i]); s += ")"; } return s; }
static string shape(const ElementPtr& e) { XN n; KV_ASSERT(e && xread(SerializeRaw(e), &n), "well-formed"); return names(n); }
static double dec() { return kv_dect(1, 1, false).v; }
static void at(const GeometryPtr& g, double la, double lo, bool has, double al) { PointPtr p = AsPoint(g); KV_ASSERT(p && p->has_coordinates() && p->get_coordinates()->get_coordinates_array_size() == 1, "one coordinate"); Vec3 v = p->get_coordinates()->get_coordinates_array_at(0); KV_ASSERT(v.get_latitude() == la && v.get_longitude() == lo, "at that position"); KV_ASSERT(v.has_altitude() == has && (!has || v.get_altitude() == al), "with altitude if given"); }
static bool fixed; static double anyd() { static int n = 0; if (fixed) return ++n; double d; kv_sym(&d, 8, 0); KV_ASSUME(d == d); return d; }
static bool shaped(const ElementPtr& e, const char* w) { return !fixed || shape(e) == w; }
KV_HARNESS(numbers) {
  unsigned k = kv_pick(10); fixed = kv_pick(2); double a = anyd(), b = anyd(), c = anyd();
  if (k == 0) { int m = kv_pick(3); double d = anyd(), e = anyd(), f = anyd(); CameraPtr v = CreateCamera(a, b, c, d, e, f, m); KV_ASSERT(v->get_latitude() == a && v->get_longitude() == b && v->get_altitude() == c && v->get_heading() == d && v->get_tilt() == e && v->get_roll() == f && v->get_altitudemode() == m, "each argument is in its field"); KV_ASSERT(shaped(v, "Camera(longitude,latitude,altitude,heading,tilt,roll,altitudeMode)"), "nothing else"); }
  if (k == 1) { int m = kv_pick(3); double d = anyd(), e = anyd(), f = anyd(); LookAtPtr v = CreateLookAt(a, b, c, d, e, f, m); KV_ASSERT(v->get_latitude() == a && v->get_longitude() == b && v->get_altitude() == c && v->get_heading() == d && v->get_tilt() == e && v->get_range() == f && v->get_altitudemode() == m, "each argument is in its field"); KV_ASSERT(shaped(v, "LookAt(longitude,latitude,altitude,heading,tilt,range,altitudeMode)"), "nothing else"); }
  if (k == 2) { double d = anyd(), e = anyd(), f = anyd(); RegionPtr r = CreateRegion2d(a, b, c, d, e, f); LatLonAltBoxPtr x = r->get_latlonaltbox(); KV_ASSERT(x->get_north() == a && x->get_south() == b && x->get_east() == c && x->get_west() == d && r->get_lod()->get_minlodpixels() == e && r->get_lod()->get_maxlodpixels() == f, "each argument is in its field"); KV_ASSERT(shaped(r, "Region(LatLonAltBox(north,south,east,west),Lod(minLodPixels,maxLodPixels))"), "nothing else"); }
  if (k == 3) { PointPtr p = CreatePointLatLon(a, b); at(p, a, b, false, 0); KV_ASSERT(shaped(p, "Point(coordinates)"), "nothing else"); }
  if (k == 4) { bool h = kv_pick(2); Vec3 v = h ? Vec3(b, a, c) : Vec3(b, a); PointPtr p = CreatePointFromVec3(v); at(p, a, b, h, c); KV_ASSERT(shaped(p, "Point(coordinates)"), "nothing else"); }
  if (k == 5) { string n = kv_text(2); PlacemarkPtr p = CreatePointPlacemark(n, a, b); KV_ASSERT(p->get_name() == n, "name"); at(p->get_geometry(), a, b, false, 0); KV_ASSERT(shaped(p, "Placemark(name,Point(coordinates))"), "nothing else"); }
  if (k == 6) { GxWaitPtr w = CreateWait(b); KV_ASSERT(w->get_gx_duration() == b && shaped(w, "gx:Wait(gx:duration)"), "a wait of that duration"); }
  if (k == 7) { string t = kv_name(2); bool h = kv_pick(2); GxAnimatedUpdatePtr u = CreateAnimatedUpdateChangePoint(t, h ? Vec3(b, a, c) : Vec3(b, a), c); KV_ASSERT(u->get_gx_duration() == c, "duration"); ChangePtr ch = AsChange(u->get_update()->get_updateoperation_array_at(0)); KV_ASSERT(ch && ch->get_object_array_size() == 1, "one change"); PlacemarkPtr p = AsPlacemark(ch->get_object_array_at(0)); KV_ASSERT(p && p->get_targetid() == t && !p->has_id(), "of that target"); at(p->get_geometry(), a, b, h, c); KV_ASSERT(shaped(u, "gx:AnimatedUpdate(gx:duration,Update(targetHref,Change(Placemark[targetId](Point(coordinates)))))"), "nothing else"); }
  if (k == 8) { LinearRingPtr r = F()->CreateLinearRing(); r->set_extrude(true); PlacemarkPtr p = CreateBasicPolygonPlacemark(r); KV_ASSERT(shaped(p, "Placemark(Polygon(outerBoundaryIs(LinearRing(extrude))))"), "a polygon of that ring"); KV_ASSERT(AsPolygon(p->get_geometry())->get_outerboundaryis()->get_linearring() == r, "the ring itself"); }
  if (k == 9) { LookAtPtr l = F()->CreateLookAt(); a = fixed ? 5 : dec(); l->set_range(a); GxFlyToPtr f = CreateFlyTo(l, b); KV_ASSERT(f->get_gx_duration() == b && f->get_abstractview() != l && AsLookAt(f->get_abstractview())->get_range() == a, "a copy of the view"); KV_ASSERT(shaped(f, "gx:FlyTo(gx:duration,LookAt(range))"), "nothing else"); KV_ASSERT(!l->GetParent(), "the view is left alone"); }
}
KV_HARNESS(data) {
  PlacemarkPtr p = F()->CreatePlacemark(); std::vector<std::pair<string, string> > w; p->set_name("n"); unsigned n = kv_tier() ? 4 : 3; for (unsigned i = 0; i < n; i++) { string a = kv_alpha(1, "xy"), b = kv_text(1); unsigned k = kv_pick(3); if (k == 0) { AddExtendedDataValue(a, b, p); w.push_back(std::make_pair(a, b)); } else if (k == 1) { SetExtendedDataValue(a, b, p); w.clear(); w.push_back(std::make_pair(a, b)); } else { string v = "unset"; bool got = GetExtendedDataValue(p, a, &v); int f = -1; for (size_t j = w.size(); j-- > 0;) if (w[j].first == a) f = j; KV_ASSERT(got == (f >= 0), "found exactly when there is one"); KV_ASSERT(v == (f >= 0 ? w[f].second : "unset"), "the first of that name"); KV_ASSERT(!GetExtendedDataValue(p, a, NULL), "nowhere to put it"); } }
  KV_ASSERT(p->has_extendeddata() == !w.empty() && p->get_name() == "n", "nothing else is changed"); if (!w.empty()) { ExtendedDataPtr e = p->get_extendeddata(); KV_ASSERT(e->get_data_array_size() == w.size() && e->get_schemadata_array_size() == 0, "earlier values are kept"); for (size_t j = 0; j < w.size(); j++) { DataPtr d = e->get_data_array_at(j); KV_ASSERT(d->get_name() == w[j].first && d->get_value() == w[j].second && !d->has_displayname(), "in order"); } } AddExtendedDataValue("a", "b", NULL); SetExtendedDataValue("a", "b", NULL);
}
KV_HARNESS(atts) {
  DecT a = kv_dect(2, 1, kv_pick(2)), b = kv_dect(1, 2, kv_pick(2)); unsigned order = kv_pick(6), have = kv_pick(8); static const int O[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; static const char* K[] = {"lat", "lon", "latt"}; string v[3] = {a.t, b.t, "99"}; const char* at_[8]; int n = 0; for (int i = 0; i < 3; i++) { int q = O[order][i]; if (have >> q & 1) { at_[n++] = K[q]; at_[n++] = v[q].c_str(); } } at_[n] = 0; PointPtr p = CreatePointFromLatLonAtts(at_); KV_ASSERT((p.get() != 0) == ((have & 3) == 3), "a point exactly when both are given"); if (p) at(p, a.v, b.v, false, 0);
}
struct Rec { Vec3 v; string t; };
struct H : GpxTrkPtHandler { std::vector<Rec> r; void HandlePoint(const Vec3& w, const string& t) { Rec x; x.v = w; x.t = t; r.push_back(x); } };
KV_HARNESS(gpx) {
  unsigned n = 1 + kv_pick(3); string s = "<gpx><metadata><time>T0</time></metadata>"; struct W { double la, lo, al; bool h; string t; }; std::vector<W> w;
  for (unsigned i = 0; i < n; i++) { unsigned m = i == 0 || n < 3 ? kv_pick(16) : kv_pick(4) * 5; DecT a = i ? kv_dect(1, 0, false) : kv_dect(1, 1, true), b = kv_dect(1, 0, false), e = i ? kv_dect(1, 0, false) : kv_dect(2, 1, false); string t = kv_alpha(1, "ab"); bool sp = m & 4 && i == 0; s += "<trkpt" + (m & 1 ? " lat=\"" + a.t + "\"" : "") + (m & 2 ? " lon=\"" + b.t + "\"" : "") + ">" + (m & 4 ? "<ele>" + string(sp ? "\n " : "") + e.t + "</ele>" : "") + "<x>7</x>" + (m & 8 ? "<time>" + t + "</time>" : "") + "</trkpt><wpt><ele>3</ele></wpt>"; if ((m & 3) == 3) { W x; x.la = a.v; x.lo = b.v; x.h = m & 4; x.al = x.h ? e.v : 0; x.t = m & 8 ? t : ""; w.push_back(x); } }
  s += "</gpx>"; H h; string err; KV_ASSERT(kmlbase::ExpatParser::ParseString(s, &h, &err, false), "parsed"); KV_ASSERT(h.r.size() == w.size(), "every track point with a position, and no other"); for (size_t i = 0; i < w.size(); i++) { KV_ASSERT(h.r[i].v.get_latitude() == w[i].la && h.r[i].v.get_longitude() == w[i].lo, "its position"); KV_ASSERT(h.r[i].v.has_altitude() == w[i].h && h.r[i].v.get_altitude() == w[i].al, "its elevation"); KV_ASSERT(h.r[i].t == w[i].t, "its time"); }
}
KV_HARNESS(flyto) {
  unsigned k = kv_pick(4); PlacemarkPtr p = F()->CreatePlacemark(); double d = dec(); if (k & 1) { CameraPtr c = F()->CreateCamera(); c->set_heading(5); p->set_abstractview(c); } if (k & 2) p->set_geometry(CreatePointLatLon(3, 4)); GxFlyToPtr f = CreateFlyToForFeature(p, d); KV_ASSERT((f.get() != 0) == (k != 0), "none without view and location"); KV_ASSERT(!CreateFlyToForFeature(NULL, d), "no feature"); if (!f) return; KV_ASSERT(f->get_gx_duration() == d, "duration"); if (k & 1) KV_ASSERT(shape(f->get_abstractview()) == "Camera(heading)" && f->get_abstractview() != p->get_abstractview(), "a copy of its view"); else KV_ASSERT(AsLookAt(f->get_abstractview())->get_latitude() == 3 && AsLookAt(f->get_abstractview())->get_longitude() == 4, "at its location");
}
static bool ends(const string& s, const string& e) { return !s.empty() && !e.empty() && s.size() >= e.size() && s.substr(s.size() - e.size()) == e; }
KV_HARNESS(atom) {
  string x[3], rel[3], ty[3]; AtomEntryPtr e = AtomUtil::CreateBasicEntry(kv_text(1), "s"); KV_ASSERT(e->get_title().size() == 1 && e->get_summary() == "s" && shape(e) == "atom:entry(atom:title,atom:summary)", "an entry of title and summary"); unsigned n = kv_pick(4); for (unsigned i = 0; i < n; i++) { rel[i] = kv_alpha(1 + (i & 1), "ab"); ty[i] = kv_alpha(1, "tu"); x[i] = num(i); AtomLinkPtr l = AtomUtil::CreateBasicLink(x[i], rel[i], ty[i]); KV_ASSERT(l->get_href() == x[i] && l->get_rel() == rel[i] && l->get_type() == ty[i], "link"); e->add_link(l); AtomCategoryPtr c = F()->CreateAtomCategory(); c->set_term(x[i]); if (i != 1) c->set_scheme(rel[i]); e->add_category(c); }
  string q = kv_pick(3) ? kv_alpha(1, "ab") : string(kv_pick(2) ? "ab" : ""); string t = "t"; int fu = -1, fl = -1, fc = -1; for (int i = n; i-- > 0;) { if (ends(rel[i], q)) fu = i; if (ends(rel[i], q) && ty[i] == t) fl = i; if (i != 1 && ends(rel[i], q)) fc = i; }
  string h = "unset"; KV_ASSERT(AtomUtil::FindRelUrl(*e, q, &h) == (fu >= 0) && h == (fu >= 0 ? x[fu] : "unset"), "the first link of that relation"); KV_ASSERT(AtomUtil::FindRelUrl(*e, q, NULL) == (fu >= 0), "output is optional"); AtomLinkPtr l = AtomUtil::FindLink(*e, q, t); KV_ASSERT((l.get() != 0) == (fl >= 0), "the first link of that relation and type"); if (l) KV_ASSERT(l == e->get_link_array_at(fl), "itself"); AtomCategoryPtr c = AtomUtil::FindCategoryByScheme(*e, q); KV_ASSERT((c.get() != 0) == (fc >= 0), "the first category of that scheme"); if (c) KV_ASSERT(c == e->get_category_array_at(fc), "itself");
  KV_ASSERT(!AtomUtil::LinkIsOfRel(NULL, q), "no link"); string src = "unset"; bool hc = kv_pick(2), hs = kv_pick(2); if (hc) { AtomContentPtr k = F()->CreateAtomContent(); if (hs) k->set_src("the"); e->set_content(k); } KV_ASSERT(AtomUtil::GetContentSrc(e, &src) == (hc && hs) && src == (hc && hs ? "the" : "unset"), "the content's source"); KV_ASSERT(AtomUtil::GetContentSrc(e, NULL) == (hc && hs) && !AtomUtil::GetContentSrc(NULL, &src), "output is optional");
}
KV_HARNESS(entry) {
  string nm = kv_text(1), ds = kv_alpha(1, "a<"), g = kv_alpha(1, "xy"); bool hn = kv_pick(2), self = kv_pick(2), fself = kv_pick(2); PlacemarkPtr p = F()->CreatePlacemark(); if (hn) p->set_name(nm); p->set_description(ds); AtomEntryPtr e = AtomUtil::CreateEntryForFeature(p); KV_ASSERT(e && e->get_title() == (hn ? nm : "") && e->get_summary() == ds, "title and summary of the feature"); KV_ASSERT(AtomUtil::GetEntryFeature(e) == p, "the feature itself"); KV_ASSERT(!AtomUtil::CreateEntryForFeature(NULL) && !AtomUtil::GetEntryFeature(NULL) && !AtomUtil::CloneEntryFeature(NULL), "nothing of nothing"); if (self) e->add_link(AtomUtil::CreateBasicLink("me", "self", "t")); string before = SerializeRaw(e), sp = SerializeRaw(p);
  FeaturePtr c = AtomUtil::CloneEntryFeature(e); KV_ASSERT(c && c != p && c->get_description() == ds && c->has_name() == hn, "a clone"); KV_ASSERT(c->has_atomlink() == self && (!self || c->get_atomlink()->get_href() == "me"), "linked to the entry"); KV_ASSERT(SerializeRaw(e) == before && SerializeRaw(p) == sp, "the entry is unchanged");
  AtomFeedPtr f = F()->CreateAtomFeed(); AtomEntryPtr o = AtomUtil::CreateBasicEntry(g, "o"); f->add_entry(o); f->add_entry(e); f->add_entry(AtomUtil::CreateEntryForFeature(F()->CreateFolder())); if (fself) f->add_link(AtomUtil::CreateBasicLink("feed", "self", "t")); for (int i = 0; i < 2; i++) { FolderPtr w = F()->CreateFolder(); AtomUtil::GetFeedFeatures(f, w); KV_ASSERT(w->get_feature_array_size() == 2 && w->get_feature_array_at(0)->IsA(Type_Placemark) && w->get_feature_array_at(1)->IsA(Type_Folder), "every feature of the feed, in order, for every container"); KV_ASSERT(w->has_atomlink() == fself && (!fself || w->get_atomlink()->get_href() == "feed"), "linked to the feed"); } AtomUtil::GetFeedFeatures(NULL, NULL); AtomUtil::GetFeedFeatures(f, NULL);
  AtomEntryPtr q = AtomUtil::FindEntryByTitle(f, "x"); KV_ASSERT(q == (g == "x" ? o : hn && nm == "x" ? e : AtomEntryPtr()), "the first entry of that title");
  ElementPtr r = ParseAtom("<entry xmlns=\"http://www.w3.org/2005/Atom\" xmlns:gd=\"http://schemas.google.com/g/2005\"><gd:etag>no</gd:etag><gd:resourceId>document:" + g + "</gd:resourceId></entry>", NULL); AtomEntryPtr ge = AsAtomEntry(r); KV_ASSERT(ge, "parsed"); string id; KV_ASSERT(AtomUtil::GetGdResourceId(ge, &id) && id == "document:" + g, "its resource id"); KV_ASSERT(AtomUtil::GetGdResourceId(ge, NULL) && !AtomUtil::GetGdResourceId(e, &id), "output is optional");
}
KV_HARNESS(stamp) {
  static const char* T[] = {"2008-10-03T09:25:42Z", "1970-01-01T00:00:00Z", "2000-02-29T23:59:59Z", "2038-01-19T03:14:07Z"}; unsigned k = kv_pick(4); string t = T[k], id = kv_name(1); kmlbase::DateTime* d = kmlbase::DateTime::Create(t); KV_ASSERT(d, "a time"); PointPtr pt = CreatePointLatLon(1, 2); PlacemarkPtr p = CreatePointPlacemarkWithTimeStamp(pt, *d, id.c_str()); delete d; KV_ASSERT(p->get_name() == t.substr(11, 8) && p->get_styleurl() == "#" + id && AsTimeStamp(p->get_timeprimitive())->get_when() == t && p->get_geometry() == pt, "each in its field"); string v; KV_ASSERT(GetExtendedDataValue(p, "date", &v) && v == t.substr(0, 10) && GetExtendedDataValue(p, "time", &v) && v == t.substr(11, 8), "date and time"); KV_ASSERT(shape(p) == "Placemark(name,TimeStamp(when),styleUrl,ExtendedData(Data[name](value),Data[name](value)),Point(coordinates))", "nothing else");
}
KV_HARNESS(many) {
  unsigned k = kv_pick(3); string t = kv_alpha(1, "abc");
  if (k == 0) { unsigned n = kv_size(300); string l = kv_pick(2) ? "" : string(kv_size(4097), 'T'), s = "<gpx>"; for (unsigned i = 0; i < n; i++) s += "<trkpt lat=\"" + num(i % 80) + "\" lon=\"" + num(i) + "\"><ele>" + num(i) + "</ele><time>" + t + num(i) + (i == n / 2 ? l : "") + "</time></trkpt>"; H h; KV_ASSERT(kmlbase::ExpatParser::ParseString(s + "</gpx>", &h, NULL, false) && h.r.size() == n, "every point"); for (unsigned i = 0; i < n; i++) KV_ASSERT(h.r[i].v.get_latitude() == i % 80 && h.r[i].v.get_longitude() == i && h.r[i].v.get_altitude() == i && h.r[i].t == t + num(i) + (i == n / 2 ? l : ""), "in order"); }
  if (k == 1) { unsigned n = kv_size(300); PlacemarkPtr p = F()->CreatePlacemark(); for (unsigned i = 0; i < n; i++) AddExtendedDataValue("k" + num(i), t + num(i), p); for (unsigned i = 0; i < n; i++) { string v; KV_ASSERT(GetExtendedDataValue(p, "k" + num(i), &v) && v == t + num(i), "every value"); } KV_ASSERT(AsExtendedData(p->get_extendeddata())->get_data_array_size() == n, "once"); SetExtendedDataValue("k" + num(n - 1), "z", p); string v; KV_ASSERT(GetExtendedDataValue(p, "k" + num(n - 1), &v) && v == "z" && AsExtendedData(p->get_extendeddata())->get_data_array_size() == 1, "replaced"); }
  if (k == 2) { unsigned n = kv_size(129); AtomFeedPtr f = F()->CreateAtomFeed(); FolderPtr d = F()->CreateFolder(); for (unsigned i = 0; i < n; i++) { PlacemarkPtr p = F()->CreatePlacemark(); p->set_name(t + num(i)); f->add_entry(AtomUtil::CreateEntryForFeature(p)); } AtomUtil::GetFeedFeatures(f, d); KV_ASSERT(d->get_feature_array_size() == n, "every entry"); for (unsigned i = 0; i < n; i++) KV_ASSERT(d->get_feature_array_at(i)->get_name() == t + num(i), "in order"); }
}
KV_HARNESS(simplify) {
  static const double T[] = {-1, 0, 1, 3, 10}; double tol = T[kv_pick(5)]; unsigned n = kv_pick(kv_tier() ? 6 : 5); CoordinatesPtr a = F()->CreateCoordinates(), b = F()->CreateCoordinates(); bool pre = kv_pick(2); if (pre) b->add_latlng(7, 8); struct Q { int p; int h; double al; }; std::vector<Q> q, w;
  for (unsigned i = 0; i < n; i++) { Q x; unsigned k = i < 2 ? kv_pick(12) : kv_pick(3) * 4 + 1; x.p = k / 4; x.h = k % 4; x.al = x.h == 0 ? 0 : x.h == 1 ? 0 : x.h == 2 ? 2 : 7; double la = x.p == 1, lo = x.p == 2; if (x.h) a->add_latlngalt(la, lo, x.al); else a->add_latlng(la, lo); q.push_back(x); }
  for (unsigned i = 0; i < n; i++) { double d = i ? q[i].al - q[i - 1].al : 0; if (d < 0) d = -d; if (i && tol > 0 && q[i].p == q[i - 1].p && d <= tol) continue; w.push_back(q[i]); }
  SimplifyCoordinates(a, b, tol); SimplifyCoordinates(NULL, b, tol); SimplifyCoordinates(a, NULL, tol); KV_ASSERT(a->get_coordinates_array_size() == n, "the source is unchanged"); KV_ASSERT(b->get_coordinates_array_size() == w.size() + pre, "exactly the tuples that are far enough"); for (size_t i = 0; i < w.size(); i++) { Vec3 v = b->get_coordinates_array_at(i + pre); KV_ASSERT(v.get_latitude() == (w[i].p == 1) && v.get_longitude() == (w[i].p == 2) && v.get_altitude() == w[i].al && v.has_altitude() == (w[i].h != 0), "unchanged and in order"); }
}
