// P20: bounding boxes, centres and containment against minimum and maximum of the coordinates.
// @h expand q=40 t=200 timeout=20000 | a new box expanded by 1..3 (thorough 4) points, each coordinate any multiple of 1/1024 within -180..180: exactly minimum and maximum, in any order, every point contained
// @h contain q=30 t=100 timeout=20000 | any box and any point and second box of arbitrary doubles other than NaN: containment of points and boxes is what the edges say
// @h join q=40 t=200 timeout=20000 | boxes of 0..2 such points each, at most 3 in all (thorough 4), both axes symbolic for two points and one axis for more, joined in either order: the box of all the points
// @h centre q=40 t=150 timeout=60000 | any box with edges any multiples of 1/1024 within -180..180: the centre is the midpoint and inside
// @h feature q=60 t=250 | features of 20 shapes: placemarks with every geometry, nested multi-geometries, photo overlays, containers nested twice, with 0..3 coordinates each; symbolic integer coordinates
// @h text q=30 t=100 | bounds of parsed geometries whose coordinates are symbolic two-digit decimals
// @h view q=30 t=100 | the view of a feature looks at the centre of its bounds, absent bounds give none
// @h box q=20 t=60 | the centre of LatLonBox and LatLonAltBox with symbolic edges, NULL outputs and inputs
// @h align q=60 t=200 timeout=60000 | aligning a box in the quadtree of -180..180 to depth 0..4 (thorough 6), edges multiples of 1/8: the result contains the box, is a quadrant of the depth and no child of it would do
// @h many q=40 t=100 | geometries of 1..1025 points, collections of 1..300 members and folders of as many features, two extremes at the start, middle or end
// @outside coordinates outside -180..180; GroundOverlay and gx:Track bounds, which are documented as not computed; inner boundaries of polygons
#include "kvu.h"
#include "kml/engine/bbox.h"
#include "kml/engine/location_util.h"
#include "kml/engine/feature_view.h"
using namespace kmldom; using kmlengine::Bbox; using std::string;
static double dbl(double lim) { double d; kv_sym(&d, 8, 0); KV_ASSUME(d >= -lim); KV_ASSUME(d <= lim); return d; }
static double mn(double a, double b) { return a < b ? a : b; }
static double mx(double a, double b) { return a > b ? a : b; }
static double grid() { int v = (int)(kv_u32() & 0x7FFFF) - 0x40000; KV_ASSUME((v >= -184320) & (v <= 184320)); return v / 1024.0; }
struct Pt { double la, lo; };
struct Box { bool any; double n, s, e, w; Box() : any(false), n(0), s(0), e(0), w(0) {} void add(double la, double lo) { if (!any) { n = s = la; e = w = lo; any = true; } else { n = mx(n, la); s = mn(s, la); e = mx(e, lo); w = mn(w, lo); } } };
static void same(const Bbox& b, const Box& x) { KV_ASSERT(b.get_north() == x.n, "north is the greatest latitude"); KV_ASSERT(b.get_south() == x.s, "south is the least latitude"); KV_ASSERT(b.get_east() == x.e, "east is the greatest longitude"); KV_ASSERT(b.get_west() == x.w, "west is the least longitude"); }
KV_HARNESS(expand) {
  unsigned n = 1 + kv_pick(kv_tier() ? 4 : 3); std::vector<Pt> p; for (unsigned i = 0; i < n; i++) { Pt q; q.la = grid(); q.lo = grid(); p.push_back(q); } Bbox b, r; Box x; for (unsigned i = 0; i < n; i++) { if (kv_pick(2)) b.ExpandLatLon(p[i].la, p[i].lo); else { b.ExpandLatitude(p[i].la); b.ExpandLongitude(p[i].lo); } x.add(p[i].la, p[i].lo); r.ExpandLatLon(p[n - 1 - i].la, p[n - 1 - i].lo); }
  same(b, x); same(r, x); for (unsigned i = 0; i < n; i++) KV_ASSERT(b.Contains(p[i].la, p[i].lo), "contains its points");
}
KV_HARNESS(contain) {
  double v[4], w[4]; for (int i = 0; i < 4; i++) { v[i] = dbl(1e30); w[i] = dbl(1e30); } Bbox a(v[0], v[1], v[2], v[3]), b; b.set_north(w[0]); b.set_south(w[1]); b.set_east(w[2]); b.set_west(w[3]);
  KV_ASSERT(a.Contains(w[0], w[2]) == ((w[0] <= v[0]) & (w[0] >= v[1]) & (w[2] <= v[2]) & (w[2] >= v[3])), "a point is inside when it is within all edges");
  bool in = (w[0] <= v[0]) & (w[1] >= v[1]) & (w[2] <= v[2]) & (w[3] >= v[3]); KV_ASSERT(b.ContainedByBbox(a) == in, "a box is inside when its edges are"); KV_ASSERT(b.ContainedByBox(v[0], v[1], v[2], v[3]) == in, "same with bounds"); KV_ASSERT(a.get_north() == v[0] && a.get_south() == v[1] && a.get_east() == v[2] && a.get_west() == v[3] && b.get_west() == w[3], "edges are kept");
}
KV_HARNESS(join) {
  Bbox a, b; Box x; unsigned n = kv_pick(3), m = kv_pick(3), ax = kv_pick(3); if (ax == 2) KV_ASSUME(n + m < 3); if (!kv_tier()) KV_ASSUME(n + m < 4); for (unsigned i = 0; i < n + m; i++) { double la = ax != 1 ? grid() : 3.0 + i, lo = ax ? grid() : 9.0 - i; (i < n ? a : b).ExpandLatLon(la, lo); x.add(la, lo); } if (!x.any) return; Bbox c = a, d = b; c.ExpandFromBbox(b); d.ExpandFromBbox(a); same(c, x); same(d, x); if (m) KV_ASSERT(b.ContainedByBbox(c), "contained"); if (n) KV_ASSERT(a.ContainedByBbox(c), "contained");
}
KV_HARNESS(centre) {
  double a = grid(), b = grid(); KV_ASSUME(a <= b); unsigned k = kv_pick(2); Bbox x = k ? Bbox(b, a, 7, 3) : Bbox(9, 5, b, a); double la = -1, lo = -1; x.GetCenter(&la, &lo); double c = k ? la : lo, o = k ? lo : la; KV_ASSERT(c == (k ? x.GetCenterLat() : x.GetCenterLon()), "one centre"); KV_ASSERT(c - a == b - c, "the midpoint"); KV_ASSERT(o == (k ? 5 : 7), "in both directions"); KV_ASSERT(x.Contains(la, lo), "inside"); x.GetCenter(NULL, NULL);
}
static int coord() { unsigned char c = kv_u8(); return (int)(signed char)c; }
static KmlFactory* F() { return KmlFactory::GetFactory(); }
static CoordinatesPtr coords(unsigned n, Box* x, bool use = true) { CoordinatesPtr c = F()->CreateCoordinates(); for (unsigned i = 0; i < n; i++) { double la = coord(), lo = coord(); c->add_latlng(la, lo); if (use) x->add(la, lo); } return c; }
template <class T> static boost::intrusive_ptr<T> with(T* p, unsigned n, Box* x) { boost::intrusive_ptr<T> g(p); if (n < 9) g->set_coordinates(coords(n, x)); return g; }
static GeometryPtr geometry(unsigned k, Box* x) {
  switch (k) {
    case 0: return with(F()->CreatePoint(), 1, x); case 1: return with(F()->CreateLineString(), 3, x); case 2: return with(F()->CreateLinearRing(), 2, x); case 3: return with(F()->CreatePoint(), 9, x); case 4: return with(F()->CreateLineString(), 0, x);
    case 5: { PolygonPtr p = F()->CreatePolygon(); OuterBoundaryIsPtr o = F()->CreateOuterBoundaryIs(); o->set_linearring(with(F()->CreateLinearRing(), 3, x)); p->set_outerboundaryis(o); return p; } case 6: { PolygonPtr p = F()->CreatePolygon(); p->set_outerboundaryis(F()->CreateOuterBoundaryIs()); return p; } case 7: return F()->CreatePolygon();
    case 8: { ModelPtr m = F()->CreateModel(); LocationPtr l = F()->CreateLocation(); double la = coord(), lo = coord(); l->set_latitude(la); l->set_longitude(lo); m->set_location(l); x->add(la, lo); return m; } case 9: return F()->CreateModel();
    case 10: { MultiGeometryPtr m = F()->CreateMultiGeometry(); m->add_geometry(with(F()->CreatePoint(), 1, x)); m->add_geometry(F()->CreateLineString()); return m; }
    case 11: { MultiGeometryPtr m = F()->CreateMultiGeometry(), i = F()->CreateMultiGeometry(); m->add_geometry(F()->CreatePoint()); i->add_geometry(with(F()->CreateLineString(), 1, x)); m->add_geometry(i); m->add_geometry(with(F()->CreatePoint(), 1, x)); return m; } case 12: return F()->CreateMultiGeometry(); default: return NULL; }
}
static FeaturePtr feature(unsigned k, Box* x) {
  if (k < 14) { PlacemarkPtr p = F()->CreatePlacemark(); if (GeometryPtr g = geometry(k, x)) p->set_geometry(g); return p; } if (k == 14) { PhotoOverlayPtr p = F()->CreatePhotoOverlay(); p->set_point(with(F()->CreatePoint(), 1, x)); return p; } if (k == 15) return F()->CreatePhotoOverlay(); if (k == 16) return F()->CreateNetworkLink();
  if (k == 17) { FolderPtr f = F()->CreateFolder(); f->add_feature(feature(0, x)); f->add_feature(feature(16, x)); f->add_feature(feature(8, x)); return f; } if (k == 18) { DocumentPtr d = F()->CreateDocument(); FolderPtr f = F()->CreateFolder(); f->add_feature(feature(2, x)); d->add_feature(f); d->add_feature(feature(14, x)); return d; } DocumentPtr d = F()->CreateDocument(); d->add_feature(F()->CreateFolder()); d->add_feature(feature(3, x)); return d;
}
static void latlon(bool got, const Box& x, double la, double lo) { KV_ASSERT(got == x.any, "a location exactly when there is a coordinate"); if (x.any) { KV_ASSERT(la * 2 == x.n + x.s, "the middle latitude"); KV_ASSERT(lo * 2 == x.e + x.w, "the middle longitude"); } }
KV_HARNESS(feature) {
  unsigned k = kv_pick(20); Box x; FeaturePtr f = feature(k, &x); Bbox b; bool got = kmlengine::GetFeatureBounds(f, &b); KV_ASSERT(got == x.any, "bounds exactly when there is a coordinate"); if (x.any) same(b, x); KV_ASSERT(kmlengine::GetFeatureBounds(f, NULL) == x.any, "the box is optional"); double la = 0, lo = 0; got = kmlengine::GetFeatureLatLon(f, &la, &lo); latlon(got, x, la, lo);
  if (PlacemarkPtr p = AsPlacemark(f)) { GeometryPtr g = p->get_geometry(); Bbox c; KV_ASSERT(kmlengine::GetGeometryBounds(g, &c) == x.any, "same for the geometry"); if (x.any) same(c, x); got = kmlengine::GetGeometryLatLon(g, &la, &lo); latlon(got, x, la, lo); got = kmlengine::GetPlacemarkLatLon(p, &la, &lo); latlon(got, x, la, lo); if (PointPtr t = AsPoint(g)) { got = kmlengine::GetPointLatLon(t, &la, &lo); latlon(got, x, la, lo); } if (ModelPtr m = AsModel(g)) { got = kmlengine::GetModelLatLon(m, &la, &lo); latlon(got, x, la, lo); KV_ASSERT(kmlengine::GetModelLatLon(m, NULL, NULL) == x.any, "outputs are optional"); Bbox d; KV_ASSERT(kmlengine::GetModelBounds(m, &d) == x.any, "model bounds"); if (x.any) same(d, x); } }
  // bounds accumulate
  Bbox acc(100, 100, 100, 100); Box y = x; kmlengine::GetFeatureBounds(f, &acc); y.add(100, 100); same(acc, y);
}
KV_HARNESS(text) {
  DecT a = kv_dect(2, 1, kv_pick(2)), b = kv_dect(2, 0, false), c = kv_dect(1, 2, true); unsigned k = kv_pick(3); const char* T[] = {"LineString", "LinearRing", "Point"}; string s = string("<Placemark><") + T[k] + "><coordinates>" + a.t + "," + b.t + ",9 " + (k < 2 ? b.t + "," + c.t + " 100,0,0" : "") + "</coordinates></" + T[k] + "></Placemark>"; FeaturePtr f = AsFeature(Parse(s, NULL)); KV_ASSERT(f, "parsed"); Box x; x.add(b.v, a.v); if (k < 2) { x.add(c.v, b.v); x.add(0, 100); } Bbox o; KV_ASSERT(kmlengine::GetFeatureBounds(f, &o), "bounds"); same(o, x);
}
KV_HARNESS(view) {
  int k = kv_pick(4); int la = (int)kv_pick(5) * 30 - 60, lo = (int)kv_pick(5) * 40 - 80; PlacemarkPtr p = F()->CreatePlacemark(); if (k < 3) { LineStringPtr l = F()->CreateLineString(); CoordinatesPtr c = F()->CreateCoordinates(); c->add_latlng(la, lo); if (k) c->add_latlng(la + k * 10, lo - (int)k); l->set_coordinates(c); p->set_geometry(l); } LookAtPtr v = kmlengine::ComputeFeatureLookAt(p); KV_ASSERT((v.get() != 0) == (k < 3), "a view exactly when there are bounds"); if (!v) return; KV_ASSERT(v->get_latitude() == la + k * 5.0 && v->get_longitude() == lo - k / 2.0, "looks at the centre"); KV_ASSERT(v->has_range() && v->get_range() >= 1000.0 && (k || v->get_range() == 1000.0), "from no closer than the least range"); KV_ASSERT(!v->has_tilt() && !v->has_heading() && !v->has_altitude(), "straight down"); KV_ASSERT(v->get_altitudemode() == ALTITUDEMODE_RELATIVETOGROUND, "relative to the ground"); KV_ASSERT(!p->has_abstractview(), "the feature is unchanged"); KV_ASSERT(!kmlengine::ComputeFeatureLookAt(NULL), "no feature, no view");
}
KV_HARNESS(box) {
  bool k = kv_pick(2); AbstractLatLonBoxPtr b; if (k) b = F()->CreateLatLonBox(); else b = F()->CreateLatLonAltBox(); double n = coord(), s = coord(), e = coord(), w = coord(); b->set_north(n); b->set_south(s); b->set_east(e); b->set_west(w); double la = 0, lo = 0; kmlengine::GetCenter(b, &la, &lo); KV_ASSERT(la * 2 == n + s && lo * 2 == e + w, "the midpoint"); kmlengine::GetCenter(b, NULL, NULL); la = 3; kmlengine::GetCenter(NULL, &la, &lo); KV_ASSERT(la == 3, "nothing without a box"); Bbox x; KV_ASSERT(!kmlengine::GetFeatureBounds(NULL, &x) && !kmlengine::GetGeometryBounds(NULL, &x) && !kmlengine::GetCoordinatesBounds(NULL, &x) && !kmlengine::GetModelLatLon(NULL, &la, &lo) && !kmlengine::GetPointLatLon(NULL, &la, &lo), "nothing has no bounds");
}
KV_HARNESS(align) {
  int v[4]; for (int i = 0; i < 4; i++) { v[i] = (int)(short)kv_u16(); KV_ASSUME((v[i] >= -1440) & (v[i] <= 1440)); } KV_ASSUME((v[0] >= v[1]) & (v[2] >= v[3])); Bbox b(v[0] / 8.0, v[1] / 8.0, v[2] / 8.0, v[3] / 8.0), q(180, -180, 180, -180); unsigned d = kv_pick(kv_tier() ? 6 : 4); b.AlignBbox(&q, d); b.AlignBbox(NULL, d);
  double n = q.get_north(), s = q.get_south(), e = q.get_east(), w = q.get_west(); KV_ASSERT(b.ContainedByBbox(q), "the quadrant contains the box"); KV_ASSERT(n - s == e - w, "a square"); unsigned l = 0; double z = 360; while (n - s < z && l < 20) { z /= 2; l++; } KV_ASSERT(n - s == z && l <= d + 1, "a quadrant of at most the depth"); double rn = (n + 180) / z, re = (e + 180) / z; KV_ASSERT(rn == (double)(int)rn && re == (double)(int)re, "on the quadtree");
  if (l < d + 1) { double cy = (n + s) / 2, cx = (e + w) / 2; bool fits = ((v[1] / 8.0 >= cy) | (v[0] / 8.0 <= cy)) & ((v[3] / 8.0 >= cx) | (v[2] / 8.0 <= cx)); KV_ASSERT(!fits, "no smaller one does"); }
}
KV_HARNESS(many) {
  unsigned k = kv_pick(3), n = kv_size(k == 0 ? 1025 : 300), w = kv_pick(4), a = w & 1 ? n - 1 : n / 2, b = w & 1 ? n - 1 : 0; static const int E[] = {-128, 0, 4, 127}; int ex = E[kv_pick(4)], la = w & 2 ? ex : -3, lo = w & 2 ? 9 : ex; Box x; std::vector<Pt> p; for (unsigned i = 0; i < n; i++) { Pt q; q.la = i == a ? la : (int)(1 + i % 7); q.lo = i == b ? lo : (int)(2 + i % 5); p.push_back(q); x.add(q.la, q.lo); }
  PlacemarkPtr m = F()->CreatePlacemark(); FeaturePtr f = m; if (k == 0) { CoordinatesPtr c = F()->CreateCoordinates(); for (unsigned i = 0; i < n; i++) c->add_latlng(p[i].la, p[i].lo); LineStringPtr l = F()->CreateLineString(); l->set_coordinates(c); m->set_geometry(l); } else { MultiGeometryPtr g = F()->CreateMultiGeometry(); FolderPtr d = F()->CreateFolder(); for (unsigned i = 0; i < n; i++) { CoordinatesPtr c = F()->CreateCoordinates(); c->add_latlng(p[i].la, p[i].lo); PointPtr t = F()->CreatePoint(); t->set_coordinates(c); if (k == 1) g->add_geometry(t); else { PlacemarkPtr q = F()->CreatePlacemark(); q->set_geometry(t); d->add_feature(q); } } if (k == 1) m->set_geometry(g); else f = d; }
  Bbox o; KV_ASSERT(kmlengine::GetFeatureBounds(f, &o), "bounds"); same(o, x);
}
