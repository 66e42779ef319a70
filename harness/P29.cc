// P29: traversal reaches every element exactly once, in order.
// @h every q=60 t=200 | every element type as root with each of its child slots alone (arrays with two members of different types) or all of them, three levels deep, preorder and postorder: every element once, parents before (after) children, members of an array in order, the most specific handler
// @h groups q=60 t=200 | the same trees with a visitor that handles one of 20 base classes only: called once for exactly the elements of that class
// @h find q=100 t=300 | the same trees with a symbolic 16-bit type identifier: exactly the instances below the root, depth first; child listing with and without recursion
// @h features q=60 t=200 | feature hierarchies of three levels with symbolic member types: every feature visited once in document order, nothing else; root feature of every element type
// @h xmlns q=60 t=200 | every element type with every child slot: exactly the namespaces of the elements present are declared; earlier declarations of other prefixes stay
// @h scale q=40 t=100 | folders of 1..300 features or nested 1..129 deep, a symbolic one of them a placemark with geometry: each visited once, in order, and found
// @outside namespaces used by simple fields only (gx:altitudeMode and the like), unknown and misplaced content (not visited by design), trees deeper than three levels below the root
#include "anc.h"
#include "kml/engine.h"
#include "kml/engine/feature_visitor.h"
#include "kml/engine/find.h"
#include "kml/engine/find_xml_namespaces.h"
#include "kml/base/attributes.h"
using namespace sch; using namespace kmlengine;
typedef std::vector<ElementPtr> EV;
static bool FIELDS = false;  // with every simple field set too
static void fields(const ElementPtr& o, const Cls& c) { string x; if (FIELDS) for (size_t i = 0; i < c.n; i++) if (c.e[i].simple()) c.e[i].set(o.get(), cval(c.e[i], 0, &x)); }
static ElementPtr build(int t, unsigned depth, unsigned w) {
  ElementPtr o = make(t); int d = find(t); if (d < 0 || !depth) return o; Cls c = cls(d); fields(o, c);
  for (size_t i = 0; i < c.n; i++) { const Ent& e = c.e[i]; if (e.simple()) continue; unsigned nt = 0; while (e.types[nt] >= 0) nt++; for (unsigned k = 0; k < (e.k == 'n' ? 2 : 1); k++) e.cset(o.get(), build(e.types[(w + k) % nt], depth - 1, w + k)); }
  return o;
}
// root of a symbolic type with one symbolic slot, or all slots, filled
static ElementPtr tree() {
  Cls c = cls(kv_pick(NDEFS)); std::vector<size_t> s; for (size_t i = 0; i < c.n; i++) if (!c.e[i].simple()) s.push_back(i); unsigned k = kv_pick(s.size() + 1), w = kv_pick(2);
  if (k == s.size()) return build(c.t, 2, w);
  ElementPtr o = make(c.t); fields(o, c); const Ent& e = c.e[s[k]]; unsigned nt = 0; while (e.types[nt] >= 0) nt++; unsigned t0 = kv_pick(nt); for (unsigned j = 0; j < (e.k == 'n' ? 2 : 1); j++) e.cset(o.get(), build(e.types[(t0 + j) % nt], 2, w + j));
  return o;
}
static void below(const ElementPtr& o, EV* v) { int d = find(o->Type()); if (d < 0) return; Cls c = cls(d); for (size_t i = 0; i < c.n; i++) if (!c.e[i].simple()) for (size_t k = 0; k < c.e[i].csize(o.get()); k++) { ElementPtr x = c.e[i].cget(o.get(), k); v->push_back(x); below(x, v); } }
struct Rec { EV el; std::vector<string> how; void add(const ElementPtr& e, const char* h) { el.push_back(e); how.push_back(h); } };
#define ALLV(F) F(Element) F(AbstractLatLonBox) F(AbstractLink) F(AbstractView) F(Alias) F(BalloonStyle) F(BasicLink) F(Camera) F(Change) F(ColorStyle) F(Container) F(Coordinates) F(Create) F(Data) F(Delete) F(Document) F(ExtendedData) F(Feature) F(Field) F(Folder) F(Geometry) F(GroundOverlay) F(GxAnimatedUpdate) F(GxFlyTo) F(GxLatLonQuad) F(GxMultiTrack) F(GxPlaylist) F(GxSimpleArrayData) F(GxSimpleArrayField) F(GxSoundCue) F(GxTimeSpan) F(GxTimeStamp) F(GxTour) F(GxTourControl) F(GxTourPrimitive) F(GxTrack) F(GxWait) F(HotSpot) F(Icon) F(IconStyle) F(IconStyleIcon) F(ImagePyramid) F(InnerBoundaryIs) F(ItemIcon) F(Kml) F(LabelStyle) F(LatLonAltBox) F(LatLonBox) F(LineString) F(LineStyle) F(LinearRing) F(Link) F(LinkSnippet) F(ListStyle) F(Location) F(Lod) F(LookAt) F(Metadata) F(Model) F(MultiGeometry) F(NetworkLink) F(NetworkLinkControl) F(Object) F(Orientation) F(OuterBoundaryIs) F(Overlay) F(OverlayXY) F(Pair) F(PhotoOverlay) F(Placemark) F(Point) F(PolyStyle) F(Polygon) F(Region) F(ResourceMap) F(RotationXY) F(Scale) F(Schema) F(SchemaData) F(ScreenOverlay) F(ScreenXY) F(SimpleData) F(SimpleField) F(Size) F(Snippet) F(Style) F(StyleMap) F(StyleSelector) F(SubStyle) F(TimePrimitive) F(TimeSpan) F(TimeStamp) F(Update) F(UpdateOperation) F(Url) F(Vec2) F(ViewVolume)
struct All : Visitor, Rec {
#define F(X) virtual void Visit##X(const X##Ptr& e) { add(ElementPtr(e.get()), #X); }
  ALLV(F)
#undef F
};
static string lower(string s) { for (size_t i = 0; i < s.size(); i++) if (s[i] >= 'A' && s[i] <= 'Z') s[i] += 32; return s; }
// the handler named after the element (atom and xAL elements have none)
static string handler(const ElementPtr& e) { if (e->Type() == Type_coordinates) return "coordinates"; if (e->Type() == Type_IconStyleIcon) return "iconstyleicon"; string x = DEFS[find(e->Type())].xml; if (x.compare(0, 5, "atom:") == 0 || x.compare(0, 4, "xal:") == 0) return "element"; if (x.compare(0, 3, "gx:") == 0) x = "gx" + x.substr(3); return lower(x); }
static size_t at(const EV& v, const ElementPtr& e) { size_t n = 0, p = 0; for (size_t i = 0; i < v.size(); i++) if (v[i] == e) { n++; p = i; } KV_ASSERT(n == 1, "every element is visited exactly once"); return p; }
static void order(const EV& v, const ElementPtr& o, bool pre) { size_t p = at(v, o); int d = find(o->Type()); if (d < 0) return; Cls c = cls(d); for (size_t i = 0; i < c.n; i++) if (!c.e[i].simple()) { size_t prev = 0; for (size_t k = 0; k < c.e[i].csize(o.get()); k++) { ElementPtr x = c.e[i].cget(o.get(), k); size_t q = at(v, x); KV_ASSERT(pre ? p < q : q < p, "parents before (after) children"); KV_ASSERT(!k || prev < q, "siblings in order"); prev = q; order(v, x, pre); } } }
KV_HARNESS(every) {
  FIELDS = kv_pick(2);
  ElementPtr o = tree(); EV w(1, o); below(o, &w); bool pre = kv_bool(); All a; if (pre) SimplePreorderDriver(&a).Visit(o); else SimplePostorderDriver(&a).Visit(o);
  KV_ASSERT(a.el.size() == w.size(), "as many visits as elements"); order(a.el, o, pre); for (size_t i = 0; i < a.el.size(); i++) KV_ASSERT(lower(a.how[i]) == handler(a.el[i]), "the most specific handler");
}
#define GROUPS(F) F(Element, -1) F(Object, Type_Object) F(Feature, Type_Feature) F(Container, Type_Container) F(Overlay, Type_Overlay) F(Geometry, Type_Geometry) F(StyleSelector, Type_StyleSelector) F(SubStyle, Type_SubStyle) F(ColorStyle, Type_ColorStyle) F(TimePrimitive, Type_TimePrimitive) F(AbstractView, Type_AbstractView) F(AbstractLatLonBox, Type_AbstractLatLonBox) F(BasicLink, Type_BasicLink) F(AbstractLink, -2) F(GxTourPrimitive, Type_GxTourPrimitive) F(Vec2, Type_Vec2) F(UpdateOperation, -3) F(TimeSpan, Type_TimeSpan) F(TimeStamp, Type_TimeStamp) F(SimpleField, Type_SimpleField)
#define F(X, T) struct G##X : Visitor, Rec { virtual void Visit##X(const X##Ptr& e) { add(ElementPtr(e.get()), #X); } };
GROUPS(F)
#undef F
static bool member(int g, int t) { if (g == -1) return true; if (g == -2) return t == Type_Icon || t == Type_Link || t == Type_Url; if (g == -3) return t == Type_Create || t == Type_Delete || t == Type_Change; return inst(t, g); }
KV_HARNESS(groups) {
  FIELDS = kv_pick(2);
  ElementPtr o = tree(); EV w(1, o); below(o, &w); unsigned k = kv_pick(20), n = 0;
#define F(X, T) if (k == n++) { G##X a; SimplePreorderDriver(&a).Visit(o); size_t want = 0; for (size_t i = 0; i < w.size(); i++) want += member(T, w[i]->Type()); KV_ASSERT(a.el.size() == want, "called for exactly the elements of the class"); for (size_t i = 0; i < a.el.size(); i++) { KV_ASSERT(member(T, a.el[i]->Type()), "only elements of the class"); at(a.el, a.el[i]); } }
  GROUPS(F)
#undef F
}
KV_HARNESS(find) {
  FIELDS = kv_pick(2);
  ElementPtr o = tree(); EV w; below(o, &w); unsigned k = kv_pick(3);
  if (k == 0) { unsigned y = kv_u16(); ElementVector v; GetElementsById(o, (KmlDomType)y, &v); EV want; for (size_t i = 0; i < w.size(); i++) if (inst(w[i]->Type(), (int)y)) want.push_back(w[i]); KV_ASSERT(v.size() == want.size(), "exactly the elements of that type"); for (size_t i = 0; i < v.size(); i++) KV_ASSERT(v[i] == want[i], "in document order"); return; }
  bool rec = k == 1; EV want; if (rec) want = w; else { Cls c = cls(find(o->Type())); for (size_t i = 0; i < c.n; i++) if (!c.e[i].simple()) for (size_t j = 0; j < c.e[i].csize(o.get()); j++) want.push_back(c.e[i].cget(o.get(), j)); }
  ElementVector v; int n = GetChildElements(o, rec, &v); KV_ASSERT(n == (int)want.size() && v.size() == want.size(), "every child counted"); for (size_t i = 0; i < v.size(); i++) KV_ASSERT(v[i] == want[i], "depth first"); KV_ASSERT(GetChildElements(o, rec, NULL) == n, "the count alone");
}
struct FV : FeatureVisitor { EV v; virtual void VisitFeature(const FeaturePtr& f) { v.push_back(f); } };
static void feats(const ElementPtr& o, EV* v) { v->push_back(o); if (ContainerPtr c = AsContainer(o)) for (size_t i = 0; i < c->get_feature_array_size(); i++) feats(c->get_feature_array_at(i), v); }
static ElementPtr ftree(unsigned depth) { unsigned t = kv_pick(depth ? 5 : 3); static const int T[] = {Type_Placemark, Type_GroundOverlay, Type_GxTour, Type_Folder, Type_Document}; ElementPtr o = make(T[t]); if (ContainerPtr c = AsContainer(o)) { unsigned n = kv_pick(3); for (unsigned i = 0; i < n; i++) c->add_feature(AsFeature(ftree(depth - 1))); } return o; }
KV_HARNESS(features) {
  if (kv_bool()) { ElementPtr o = ftree(2); EV w; feats(o, &w); FV f; VisitFeatureHierarchy(AsFeature(o), f); KV_ASSERT(f.v.size() == w.size(), "every feature once"); for (size_t i = 0; i < w.size(); i++) KV_ASSERT(f.v[i] == w[i], "in document order"); return; }
  unsigned i = kv_pick(NDEFS + 1); if (i == NDEFS) { KV_ASSERT(!GetRootFeature(NULL), "no root"); return; } ElementPtr o = make(DEFS[i].t); bool isf = inst(DEFS[i].t, Type_Feature); KV_ASSERT(GetRootFeature(o) == (isf ? AsFeature(o) : FeaturePtr()), "a feature is its own root");
  KmlPtr k = KmlFactory::GetFactory()->CreateKml(); if (isf) k->set_feature(AsFeature(o)); KV_ASSERT(GetRootFeature(k) == (isf ? AsFeature(o) : FeaturePtr()), "the feature of <kml>");
}
KV_HARNESS(xmlns) {
  ElementPtr o = tree(); EV w(1, o); below(o, &w); bool gx = false, atom = false, xal = false, kml = false; for (size_t i = 0; i < w.size(); i++) { int d = find(w[i]->Type()); string x = d < 0 ? "coordinates" : DEFS[d].xml; if (!x.compare(0, 3, "gx:")) gx = true; else if (!x.compare(0, 5, "atom:")) atom = true; else if (!x.compare(0, 4, "xal:")) xal = true; else kml = true; }
  kmlbase::Attributes a; FindXmlNamespaces(o, &a); string s; KV_ASSERT(a.GetValue("gx", &s) == gx && (!gx || s == "http://www.google.com/kml/ext/2.2"), "gx"); KV_ASSERT(a.GetValue("atom", &s) == atom && (!atom || s == "http://www.w3.org/2005/Atom"), "atom"); KV_ASSERT(a.GetValue("xal", &s) == xal && (!xal || s == "urn:oasis:names:tc:ciq:xsdschema:xAL:2.0"), "xal"); KV_ASSERT(a.GetValue("kml", &s) == kml && (!kml || s == "http://www.opengis.net/kml/2.2"), "kml"); KV_ASSERT(a.GetSize() == (size_t)(gx + atom + xal + kml), "nothing else");
  string v = kv_text(1); kmlbase::Attributes b; b.SetValue("zz", v); o->MergeXmlns(b); FindAndInsertXmlNamespaces(o); const kmlbase::Attributes* x = o->GetXmlns(); KV_ASSERT(x, "declared"); kmlbase::Attributes* y = x->Clone(); KV_ASSERT(y->GetValue("zz", &s) && s == v, "earlier declarations stay"); KV_ASSERT(y->GetValue("xmlns", &s) == kml && (!kml || s == "http://www.opengis.net/kml/2.2"), "KML is the default namespace"); KV_ASSERT(y->GetValue("gx", &s) == gx && y->GetValue("atom", &s) == atom && y->GetValue("xal", &s) == xal && !y->GetValue("kml", &s), "prefixes"); delete y;
}
KV_HARNESS(scale) {
  KmlFactory* f = KmlFactory::GetFactory(); bool deep = kv_pick(2), pre = kv_pick(2); unsigned n = kv_size(deep ? 129 : 300), w = kv_pick(3), at_ = w == 0 ? 0 : w == 1 ? n / 2 : n - 1; FolderPtr r = f->CreateFolder(); ContainerPtr c = r; EV want; want.push_back(r); PointPtr pt = f->CreatePoint(); for (unsigned i = 0; i < n; i++) { FeaturePtr x; if (i == at_) { PlacemarkPtr p = f->CreatePlacemark(); p->set_geometry(pt); c->add_feature(p); want.push_back(p); want.push_back(pt); } else { FolderPtr d = f->CreateFolder(); c->add_feature(d); want.push_back(d); if (deep) c = d; } }
  All a; if (pre) { SimplePreorderDriver d(&a); d.Visit(r); } else { SimplePostorderDriver d(&a); d.Visit(r); } KV_ASSERT(a.el.size() == want.size(), "every element once"); order(a.el, r, pre); if (pre) KV_ASSERT(a.el == want, "in document order"); EV got; GetElementsById(r, Type_Point, &got); KV_ASSERT(got.size() == 1 && got[0] == pt, "found"); got.clear(); GetElementsById(r, Type_Folder, &got); KV_ASSERT(got.size() == n - 1, "all found"); FV v; VisitFeatureHierarchy(r, v); KV_ASSERT(v.v.size() == n + 1, "every feature");
}
