// P30: type queries, casts, factory creation and the name/enumeration tables agree with the schema.
// @h isa q=40 t=100 | every concrete type x every type identifier (symbolic 16 bits): IsA is true exactly for the type and its schema ancestors
// @h casts q=30 t=60 | every concrete type (and NULL) x every cast function: succeeds exactly for instances of the target class and returns the same object
// @h factory q=30 t=60 | creation by symbolic 16-bit type identifier: a fresh, empty, parentless element of that type for every concrete type, nothing otherwise
// @h names q=60 t=200 | every element and field name of the schema maps to an identifier and back; lookups of symbolic names (5 characters, or a schema name with one symbolic character) find only schema names
// @h enums q=60 t=200 | every enumeration: values and numbers correspond one to one; symbolic texts (5 characters, or a value with a symbolic character) and symbolic 32-bit numbers outside find nothing
// @h setenum q=40 t=100 | every enumerated field set to a symbolic number: in range it is written as its value, out of range never as another value, and serialization stays memory-safe
// @outside Metadata and UpdateOperation (an internal base class without a schema identifier)
#include "schema.h"
#include "anc.h"
#include "xt.h"
#include "kml/dom/xsd.h"
using namespace sch;
// types with no ancestors in the schema: everything else in DEFS
KV_HARNESS(isa) {
  size_t i = kv_pick(NDEFS); ElementPtr e = make(DEFS[i].t); KV_ASSERT(e && e->Type() == DEFS[i].t, "created with its type"); unsigned y = kv_u16(); bool want = y == (unsigned)DEFS[i].t;
  for (const Anc* a = ANC; a->t >= 0; a++) if (a->t == DEFS[i].t) for (int k = 0; k < 5 && a->a[k]; k++) want |= y == (unsigned)a->a[k];
  KV_ASSERT(e->IsA((KmlDomType)y) == want, "an instance of exactly its schema ancestors");
}
#define CST(X, T) { X##Ptr p = As##X(e); KV_ASSERT((void*)p.get() == (inst(t, T) ? (void*)e.get() : (void*)0), "the cast yields the object exactly when it is of the class"); }
#define CAST(X) CST(X, Type_##X)
KV_HARNESS(casts) {
  unsigned i = kv_pick(NDEFS + 2); ElementPtr e; if (i < NDEFS) e = make(DEFS[i].t); else if (i == NDEFS) e = make(Type_coordinates); int t = e ? (int)e->Type() : -1;
  CAST(AbstractLatLonBox) CAST(AbstractView) CAST(ColorStyle) CAST(Container) CAST(Feature) CAST(Geometry) CAST(Object) CAST(Overlay) CAST(StyleSelector) CAST(SubStyle) CAST(TimePrimitive) CAST(Alias) CAST(BalloonStyle) CAST(Camera) CAST(Change) CST(Coordinates, Type_coordinates) CAST(Create) CAST(Data) CAST(Delete) CAST(Document) CAST(ExtendedData)
  CAST(Folder) CAST(GroundOverlay) CST(HotSpot, Type_hotSpot) CAST(Icon) CAST(IconStyle) CAST(IconStyleIcon) CAST(ImagePyramid) CST(InnerBoundaryIs, Type_innerBoundaryIs) CAST(ItemIcon) CST(Kml, Type_kml) CAST(LabelStyle) CAST(LatLonAltBox) CAST(LatLonBox) CAST(LineString) CAST(LineStyle) CAST(LinearRing) CAST(Link) CST(LinkSnippet, Type_linkSnippet) CAST(ListStyle) CAST(Location) CAST(Lod) CAST(LookAt)
  CAST(Model) CAST(MultiGeometry) CAST(NetworkLink) CAST(NetworkLinkControl) CAST(Orientation) CST(OuterBoundaryIs, Type_outerBoundaryIs) CST(OverlayXY, Type_overlayXY) CAST(Pair) CAST(PhotoOverlay) CAST(Placemark) CAST(Point) CAST(PolyStyle) CAST(Polygon) CAST(Region) CAST(ResourceMap) CST(RotationXY, Type_rotationXY) CAST(Scale) CAST(Schema) CAST(SchemaData) CAST(ScreenOverlay) CST(ScreenXY, Type_screenXY) CAST(SimpleData) CAST(SimpleField)
  CST(Size, Type_size) CAST(Snippet) CAST(Style) CAST(StyleMap) CAST(TimeSpan) CAST(TimeStamp) CAST(Update) CAST(ViewVolume) CAST(AtomAuthor) CAST(AtomCategory) CAST(AtomContent) CAST(AtomEntry) CAST(AtomFeed) CAST(AtomLink) CAST(XalAddressDetails) CAST(XalAdministrativeArea) CAST(XalCountry) CAST(XalLocality) CAST(XalPostalCode) CAST(XalSubAdministrativeArea) CAST(XalThoroughfare)
  CAST(GxAnimatedUpdate) CAST(GxFlyTo) CAST(GxLatLonQuad) CAST(GxMultiTrack) CAST(GxPlaylist) CAST(GxSimpleArrayData) CAST(GxSimpleArrayField) CAST(GxSoundCue) CAST(GxTimeSpan) CAST(GxTimeStamp) CAST(GxTour) CAST(GxTourControl) CAST(GxTourPrimitive) CAST(GxTrack) CAST(GxWait)
}
KV_HARNESS(factory) {
  unsigned y = kv_u16(); ElementPtr e = KmlFactory::GetFactory()->CreateElementById((KmlDomType)y); bool conc = (y == Type_coordinates) | (y == Type_Metadata); for (size_t i = 0; i < NDEFS; i++) conc |= y == (unsigned)DEFS[i].t;
  KV_ASSERT((e.get() != 0) == conc, "exactly the concrete types can be created"); if (!e) return; KV_ASSERT((unsigned)e->Type() == y, "created with the type asked for"); KV_ASSERT(!e->GetParent(), "no parent");
  int d = find(e->Type()); if (d < 0) return; Cls c = cls(d); for (size_t i = 0; i < c.n; i++) KV_ASSERT(c.e[i].k == 't' || !c.e[i].has(e.get()), "nothing set"); XN x; KV_ASSERT(xread(SerializeRaw(e), &x) && x.name == c.xml && x.at.empty() && x.kids.empty() && x.text.empty(), "empty");
}
static std::vector<string>& all_names() { static std::vector<string> v; if (v.empty()) { for (size_t i = 0; i < NDEFS; i++) { Cls c = cls(i); if (c.t != Type_IconStyleIcon) v.push_back(c.xml); for (size_t j = 0; j < c.n; j++) if (c.e[j].simple() && !c.e[j].attr && c.e[j].k != 't') v.push_back(c.e[j].xml); } v.push_back("coordinates"); v.push_back("state"); v.push_back("gx:value"); v.push_back("gx:coord"); v.push_back("gx:angles"); } return v; }
static std::vector<string>& uniq() { static std::vector<string> u; if (u.empty()) { std::vector<string>& v = all_names(); for (size_t i = 0; i < v.size(); i++) { bool dup = false; for (size_t j = 0; j < u.size(); j++) dup |= u[j] == v[i]; if (!dup) u.push_back(v[i]); } } return u; }
// names in the library's table that are no fields in this schema table: groups, legacy names and attribute-like names
static const char* const EXTRA[] = {"AbstractColorStyleGroup", "Container", "Feature", "Geometry", "AbstractLatLonBox", "AbstractObjectGroup", "AbstractOverlayGroup", "StyleSelector", "AbstractSubStyleGroup", "TimePrimitive", "AbstractView", "BasicLink", "vec2Type", "IconStyleIcon", "Metadata", "altitudeModeGroup", "maxSnippetLines", "snippet", "units", "atom:label", "atom:scheme", "atom:term", "gx:AbstractTourPrimitiveGroup", "<Unknown>", "maxLength", 0};
static bool known(const string& s) { bool k = false; std::vector<string>& u = uniq(); for (size_t i = 0; i < u.size(); i++) if (u[i].size() == s.size()) k |= u[i] == s; for (const char* const* e = EXTRA; *e; e++) if (s.size() == __builtin_strlen(*e)) k |= s == *e; return k; }
KV_HARNESS(names) {
  kmldom::Xsd* x = Xsd::GetSchema(); std::vector<string>& u = uniq(); unsigned k = kv_pick(3);
  if (k == 0) { unsigned i = kv_pick(u.size()); int id = x->ElementId(u[i]); KV_ASSERT(id > Type_Unknown && id < Type_Invalid, "every schema name is known"); KV_ASSERT(x->ElementName(id) == u[i], "and maps back"); int d = -1; for (size_t j = 0; j < NDEFS; j++) if (u[i] == DEFS[j].xml && DEFS[j].t != Type_IconStyleIcon) d = (int)j;
    if (d >= 0) KV_ASSERT(id == DEFS[d].t && x->ElementType(id) == XSD_COMPLEX_TYPE, "complex elements"); else if (u[i] != "coordinates") KV_ASSERT(x->ElementType(id) == XSD_SIMPLE_TYPE, "simple elements"); ElementPtr e = KmlFactory::GetFactory()->CreateElementFromName(u[i]); KV_ASSERT((bool)e == (d >= 0 || u[i] == "coordinates"), "created by name"); if (e) KV_ASSERT(e->Type() == id, "of that type"); return; }
  if (k == 1) { int id = (int)(int16_t)kv_u16(); string n = x->ElementName(id); XsdType t = x->ElementType(id); bool in = (id > Type_Unknown) & (id < Type_Invalid); KV_ASSERT(n.empty() == !in, "identifiers outside the table have no name"); KV_ASSERT((t == XSD_UNKNOWN) == !in, "nor type"); if (!n.empty() && id != Type_IconStyleIcon) KV_ASSERT(x->ElementId(n) == id, "one to one"); return; }
  string s; if (kv_bool()) s = kv_text(5); else { s = u[kv_pick(u.size())]; s[kv_pick(s.size() < 4 ? s.size() : 4)] = kv_text(1)[0]; } int id = x->ElementId(s); KV_ASSERT((id != Type_Unknown) == known(s), "only schema names are known"); 
}
struct En { int t; const char* const* v; };
static const char* const eState[] = {"open", "closed", "error", "fetching0", "fetching1", "fetching2", 0};
static const En ENS[] = {{Type_altitudeMode, eAlt}, {Type_GxAltitudeMode, eGxAlt}, {Type_colorMode, eColorMode}, {Type_displayMode, eDisplay}, {Type_gridOrigin, eGrid}, {Type_listItemType, eItem}, {Type_refreshMode, eRefresh}, {Type_shape, eShape}, {Type_key, eKey}, {Type_units, eUnits}, {Type_viewRefreshMode, eViewRefresh}, {Type_GxFlyToMode, eFly}, {Type_GxPlayMode, ePlay}, {Type_state, eState}};
KV_HARNESS(enums) {
  kmldom::Xsd* x = Xsd::GetSchema(); const En& n = ENS[kv_pick(14)]; int cnt = 0; while (n.v[cnt]) cnt++; unsigned k = kv_pick(3);
  if (k == 0) { int v = (int)kv_u32(); string s = x->EnumValue(n.t, v); bool in = (v >= 0) & (v < cnt); KV_ASSERT(s.empty() == !in, "numbers outside the enumeration have no text"); for (int i = 0; i < cnt; i++) if (v == i) { KV_ASSERT(s == n.v[i], "number to text"); KV_ASSERT(x->EnumId(n.t, s) == i, "and back"); } return; }
  if (k == 1) { string s; if (kv_bool()) s = kv_text(5); else { s = n.v[kv_pick(cnt)]; s[kv_pick(s.size())] = kv_text(1)[0]; } int w = -1; for (int i = 0; i < cnt; i++) if (s == n.v[i]) w = i; KV_ASSERT(x->EnumId(n.t, s) == w, "text to number"); return; }
  int t = kv_u8(); bool en = false; for (int i = 0; i < 14; i++) en |= t == ENS[i].t; if (!en) { KV_ASSERT(x->EnumId(t, "normal") == -1 && x->EnumValue(t, 0).empty(), "no enumeration, no values"); }
}
KV_HARNESS(setenum) {
  static std::vector<std::pair<size_t, size_t> > en; if (en.empty()) for (size_t i = 0; i < NDEFS; i++) { Cls c = cls(i); for (size_t j = 0; j < c.n; j++) if (c.e[j].k == 'e') en.push_back(std::make_pair(i, j)); }
  std::pair<size_t, size_t> p = en[kv_pick(en.size())]; Cls c = cls(p.first); const Ent& e = c.e[p.second]; int cnt = 0; while (e.en[cnt]) cnt++; ElementPtr o = make(c.t); int v = (int)(int8_t)kv_u8(); e.set(o.get(), VI(v)); string s = SerializeRaw(o); XN x; KV_ASSERT(xread(s, &x), "well-formed"); string w; if (e.attr) { if (x.attr(e.xml)) w = *x.attr(e.xml); } else if (x.kid(e.xml)) w = x.kid(e.xml)->text;
  if ((v >= 0) & (v < cnt)) KV_ASSERT(w == e.en[v], "written as its value"); else KV_ASSERT(w.empty(), "no value invented");
}
