// The KML 2.2 / gx / atom / xAL content model as a table, written from the schemas: for every concrete element type its
// attributes, simple fields and child elements in schema order, with defaults.  Drives P01, P02, P06, P10, P11, P12, P29.
#ifndef SCHEMA_H
#define SCHEMA_H
#include "kvu.h"
#include "kml/dom.h"
#include "kml/base/color32.h"
namespace sch {
using namespace kmldom;
using std::string;
struct Val { double d; long i; string s; Val() : d(0), i(0) {} };
static inline Val VD(double d) { Val v; v.d = d; return v; }
static inline Val VI(long i) { Val v; v.i = i; return v; }
static inline Val VS(const string& s) { Val v; v.s = s; return v; }
// kinds: s string, d double, i int, b bool, e enum, c colour; 1 single child, n child array, t text content
struct Ent {
  const char* xml; char k; bool attr;
  bool (*has)(const Element*); Val (*get)(const Element*); void (*set)(Element*, const Val&); void (*clear)(Element*);
  Val def; const char* const* en;  // enum texts
  ElementPtr (*cget)(const Element*, size_t); void (*cset)(Element*, const ElementPtr&); size_t (*csize)(const Element*); const int* types;
  bool simple() const { return k != '1' && k != 'n'; }
};
struct Cls { const char* xml; KmlDomType t; const Ent* e; size_t n; };
#define KH(T, f) [](const Element* e) { return (bool)static_cast<const T*>(e)->has_##f(); }
#define KC(T, f) [](Element* e) { static_cast<T*>(e)->clear_##f(); }
#define KF(T, x, kd, at, f, get, put, def, en) {x, kd, at, KH(T, f), [](const Element* e) { T* o = static_cast<T*>(const_cast<Element*>(e)); return get; }, [](Element* e, const Val& v) { T* o = static_cast<T*>(e); put; }, KC(T, f), def, en, 0, 0, 0, 0}
#define S_(T, x, f) KF(T, x, 's', false, f, VS(o->get_##f()), o->set_##f(v.s), VS(""), 0)
#define SA(T, x, f) KF(T, x, 's', true, f, VS(o->get_##f()), o->set_##f(v.s), VS(""), 0)
#define D_(T, x, f, def) KF(T, x, 'd', false, f, VD(o->get_##f()), o->set_##f(v.d), VD(def), 0)
#define DA(T, x, f, def) KF(T, x, 'd', true, f, VD(o->get_##f()), o->set_##f(v.d), VD(def), 0)
#define I_(T, x, f, def) KF(T, x, 'i', false, f, VI(o->get_##f()), o->set_##f((int)v.i), VI(def), 0)
#define IA(T, x, f, def) KF(T, x, 'i', true, f, VI(o->get_##f()), o->set_##f((int)v.i), VI(def), 0)
#define B_(T, x, f, def) KF(T, x, 'b', false, f, VI(o->get_##f()), o->set_##f(v.i != 0), VI(def), 0)
#define E_(T, x, f, en) KF(T, x, 'e', false, f, VI(o->get_##f()), o->set_##f((int)v.i), VI(0), en)
#define EA(T, x, f, en) KF(T, x, 'e', true, f, VI(o->get_##f()), o->set_##f((int)v.i), VI(0), en)
#define C_(T, x, f, def) KF(T, x, 'c', false, f, VI((long)(o->get_##f().get_color_abgr() & 0xffffffffu)), o->set_##f(kmlbase::Color32((uint32_t)v.i)), VI(def), 0)
#define T_(T, f) KF(T, "", 't', false, f, VS(o->get_##f()), o->set_##f(v.s), VS(""), 0)
#define X_(T, f, P, tl) {"", '1', false, KH(T, f), 0, 0, KC(T, f), Val(), 0, [](const Element* e, size_t) { return ElementPtr(static_cast<const T*>(e)->get_##f()); }, [](Element* e, const ElementPtr& c) { static_cast<T*>(e)->set_##f(static_cast<P*>(c.get())); }, [](const Element* e) { return (size_t)static_cast<const T*>(e)->has_##f(); }, tl}
#define N_(T, f, P, tl) {"", 'n', false, [](const Element* e) { return static_cast<const T*>(e)->get_##f##_array_size() > 0; }, 0, 0, 0, Val(), 0, [](const Element* e, size_t i) { return ElementPtr(static_cast<T*>(const_cast<Element*>(e))->get_##f##_array_at(i)); }, [](Element* e, const ElementPtr& c) { static_cast<T*>(e)->add_##f(static_cast<P*>(c.get())); }, [](const Element* e) { return static_cast<const T*>(e)->get_##f##_array_size(); }, tl}
#define TL(n, ...) static const int n[] = {__VA_ARGS__, -1}
TL(tFeature, Type_Placemark, Type_Folder, Type_Document, Type_NetworkLink, Type_GroundOverlay, Type_ScreenOverlay, Type_PhotoOverlay, Type_GxTour);
TL(tGeometry, Type_Point, Type_LineString, Type_LinearRing, Type_Polygon, Type_MultiGeometry, Type_Model, Type_GxTrack, Type_GxMultiTrack);
TL(tView, Type_LookAt, Type_Camera); TL(tTime, Type_TimeSpan, Type_TimeStamp); TL(tGxTime, Type_GxTimeSpan, Type_GxTimeStamp); TL(tStyle, Type_Style, Type_StyleMap);
TL(tTour, Type_GxAnimatedUpdate, Type_GxFlyTo, Type_GxWait, Type_GxSoundCue, Type_GxTourControl); TL(tContainer, Type_Folder, Type_Document); TL(tOp, Type_Create, Type_Delete, Type_Change);
TL(tObject, Type_Placemark, Type_Folder, Type_Point, Type_LookAt, Type_Style, Type_IconStyle, Type_Link, Type_Icon, Type_Region, Type_Lod, Type_TimeSpan, Type_Data, Type_Schema, Type_Pair, Type_Location, Type_GxTour);
#define T1(n) TL(t##n, Type_##n)
T1(AtomAuthor); T1(AtomLink); T1(AtomCategory); T1(AtomContent); T1(AtomEntry); T1(XalAddressDetails); T1(XalCountry); T1(XalAdministrativeArea); T1(XalLocality); T1(XalSubAdministrativeArea); T1(XalThoroughfare); T1(XalPostalCode);
T1(Snippet); T1(Region); T1(ExtendedData); T1(Data); T1(SchemaData); T1(SimpleData); T1(GxSimpleArrayData); T1(Schema); T1(SimpleField); T1(GxSimpleArrayField); T1(Link); T1(Icon); T1(LatLonBox); T1(GxLatLonQuad); T1(LatLonAltBox); T1(Lod);
T1(IconStyle); T1(LabelStyle); T1(LineStyle); T1(PolyStyle); T1(BalloonStyle); T1(ListStyle); T1(IconStyleIcon); T1(Pair); T1(ItemIcon); T1(Location); T1(Orientation); T1(Scale); T1(ResourceMap); T1(Alias); T1(Model); T1(LinearRing); T1(GxTrack);
T1(ViewVolume); T1(ImagePyramid); T1(Point); T1(GxPlaylist); T1(Update); T1(NetworkLinkControl);
TL(tHotSpot, Type_hotSpot); TL(tOverlayXY, Type_overlayXY); TL(tScreenXY, Type_screenXY); TL(tRotationXY, Type_rotationXY); TL(tSize, Type_size); TL(tLinkSnippet, Type_linkSnippet); TL(tOuter, Type_outerBoundaryIs); TL(tInner, Type_innerBoundaryIs); TL(tCoord, Type_coordinates);
#define EN(n, ...) static const char* const n[] = {__VA_ARGS__, 0}
EN(eAlt, "clampToGround", "relativeToGround", "absolute"); EN(eGxAlt, "clampToSeaFloor", "relativeToSeaFloor"); EN(eColorMode, "normal", "random"); EN(eDisplay, "default", "hide"); EN(eGrid, "lowerLeft", "upperLeft");
EN(eItem, "check", "radioFolder", "checkOffOnly", "checkHideChildren"); EN(eRefresh, "onChange", "onInterval", "onExpire"); EN(eShape, "rectangle", "cylinder", "sphere"); EN(eKey, "normal", "highlight"); EN(eUnits, "fraction", "pixels", "insetPixels");
EN(eViewRefresh, "never", "onRequest", "onStop", "onRegion"); EN(eFly, "bounce", "smooth"); EN(ePlay, "pause");
#define OBJ(T) SA(T, "id", id), SA(T, "targetId", targetid)
#define ALT(T) E_(T, "altitudeMode", altitudemode, eAlt), E_(T, "gx:altitudeMode", gx_altitudemode, eGxAlt)
#define FEAT1(T) OBJ(T), S_(T, "name", name), B_(T, "visibility", visibility, 1), B_(T, "open", open, 0), X_(T, atomauthor, AtomAuthor, tAtomAuthor), X_(T, atomlink, AtomLink, tAtomLink), S_(T, "address", address), ADDR(T), X_(T, snippet, Snippet, tSnippet), S_(T, "description", description), X_(T, abstractview, AbstractView, tView), X_(T, timeprimitive, TimePrimitive, tTime), S_(T, "styleUrl", styleurl)
#define ADDR(T) X_(T, xaladdressdetails, XalAddressDetails, tXalAddressDetails), S_(T, "phoneNumber", phonenumber)
#define FEAT2(T) X_(T, region, Region, tRegion), X_(T, extendeddata, ExtendedData, tExtendedData), B_(T, "gx:balloonVisibility", gx_balloonvisibility, 0)
#define FEAT(T) FEAT1(T), X_(T, styleselector, StyleSelector, tStyle), FEAT2(T)
#define OVER(T) FEAT(T), C_(T, "color", color, 0xffffffffL), I_(T, "drawOrder", draworder, 0), X_(T, icon, Icon, tIcon)
#define LLB(T) OBJ(T), D_(T, "north", north, 180.0), D_(T, "south", south, -180.0), D_(T, "east", east, 180.0), D_(T, "west", west, -180.0)
#define LINK(T) OBJ(T), S_(T, "href", href), E_(T, "refreshMode", refreshmode, eRefresh), D_(T, "refreshInterval", refreshinterval, 4.0), E_(T, "viewRefreshMode", viewrefreshmode, eViewRefresh), D_(T, "viewRefreshTime", viewrefreshtime, 4.0), D_(T, "viewBoundScale", viewboundscale, 1.0), S_(T, "viewFormat", viewformat), S_(T, "httpQuery", httpquery)
#define VIEW(T, mid) OBJ(T), X_(T, gx_timeprimitive, TimePrimitive, tGxTime), D_(T, "longitude", longitude, 0.0), D_(T, "latitude", latitude, 0.0), D_(T, "altitude", altitude, 0.0), D_(T, "heading", heading, 0.0), D_(T, "tilt", tilt, 0.0), mid, ALT(T)
#define CSTYLE(T) OBJ(T), C_(T, "color", color, 0xffffffffL), E_(T, "colorMode", colormode, eColorMode)
#define VEC2(T) DA(T, "x", x, 1.0), DA(T, "y", y, 1.0), EA(T, "xunits", xunits, eUnits), EA(T, "yunits", yunits, eUnits)
// one class = one table
#define CLS(fn, T, ...) static const Ent* fn(size_t* n) { static const Ent a[] = {__VA_ARGS__}; *n = sizeof a / sizeof *a; return a; }
CLS(kAlias, Alias, OBJ(Alias), S_(Alias, "targetHref", targethref), S_(Alias, "sourceHref", sourcehref))
CLS(kAtomAuthor, AtomAuthor, S_(AtomAuthor, "atom:name", name), S_(AtomAuthor, "atom:uri", uri), S_(AtomAuthor, "atom:email", email))
CLS(kAtomCategory, AtomCategory, SA(AtomCategory, "term", term), SA(AtomCategory, "scheme", scheme), SA(AtomCategory, "label", label))
CLS(kAtomContent, AtomContent, SA(AtomContent, "src", src), SA(AtomContent, "type", type))
#define ATOMC(T) S_(T, "atom:id", id), S_(T, "atom:title", title), S_(T, "atom:updated", updated), N_(T, category, AtomCategory, tAtomCategory), N_(T, link, AtomLink, tAtomLink)
CLS(kAtomEntry, AtomEntry, ATOMC(AtomEntry), S_(AtomEntry, "atom:summary", summary), X_(AtomEntry, content, AtomContent, tAtomContent))
CLS(kAtomFeed, AtomFeed, ATOMC(AtomFeed), N_(AtomFeed, entry, AtomEntry, tAtomEntry))
CLS(kAtomLink, AtomLink, SA(AtomLink, "href", href), SA(AtomLink, "rel", rel), SA(AtomLink, "type", type), SA(AtomLink, "hreflang", hreflang), SA(AtomLink, "title", title), IA(AtomLink, "length", length, 0))
CLS(kBalloonStyle, BalloonStyle, OBJ(BalloonStyle), C_(BalloonStyle, "bgColor", bgcolor, 0xffffffffL), C_(BalloonStyle, "textColor", textcolor, 0xff000000L), S_(BalloonStyle, "text", text), E_(BalloonStyle, "displayMode", displaymode, eDisplay))
CLS(kCamera, Camera, VIEW(Camera, D_(Camera, "roll", roll, 0.0)))
CLS(kChange, Change, N_(Change, object, Object, tObject))
CLS(kCreate, Create, N_(Create, container, Container, tContainer))
CLS(kData, Data, OBJ(Data), SA(Data, "name", name), S_(Data, "displayName", displayname), S_(Data, "value", value))
CLS(kDelete, Delete, N_(Delete, feature, Feature, tFeature))
CLS(kDocument, Document, FEAT1(Document), N_(Document, styleselector, StyleSelector, tStyle), FEAT2(Document), N_(Document, schema, Schema, tSchema), N_(Document, feature, Feature, tFeature))
CLS(kExtendedData, ExtendedData, N_(ExtendedData, data, Data, tData), N_(ExtendedData, schemadata, SchemaData, tSchemaData))
CLS(kFolder, Folder, FEAT(Folder), N_(Folder, feature, Feature, tFeature))
CLS(kGroundOverlay, GroundOverlay, OVER(GroundOverlay), D_(GroundOverlay, "altitude", altitude, 0.0), ALT(GroundOverlay), X_(GroundOverlay, latlonbox, LatLonBox, tLatLonBox), X_(GroundOverlay, gx_latlonquad, GxLatLonQuad, tGxLatLonQuad))
CLS(kIcon, Icon, LINK(Icon))
CLS(kIconStyle, IconStyle, CSTYLE(IconStyle), D_(IconStyle, "scale", scale, 1.0), D_(IconStyle, "heading", heading, 0.0), X_(IconStyle, icon, IconStyleIcon, tIconStyleIcon), X_(IconStyle, hotspot, HotSpot, tHotSpot))
CLS(kIconStyleIcon, IconStyleIcon, OBJ(IconStyleIcon), S_(IconStyleIcon, "href", href), D_(IconStyleIcon, "gx:x", gx_x, 0.0), D_(IconStyleIcon, "gx:y", gx_y, 0.0), D_(IconStyleIcon, "gx:w", gx_w, 0.0), D_(IconStyleIcon, "gx:h", gx_h, 0.0))
CLS(kImagePyramid, ImagePyramid, OBJ(ImagePyramid), I_(ImagePyramid, "tileSize", tilesize, 256), I_(ImagePyramid, "maxWidth", maxwidth, 0), I_(ImagePyramid, "maxHeight", maxheight, 0), E_(ImagePyramid, "gridOrigin", gridorigin, eGrid))
CLS(kItemIcon, ItemIcon, OBJ(ItemIcon), S_(ItemIcon, "href", href))
CLS(kLabelStyle, LabelStyle, CSTYLE(LabelStyle), D_(LabelStyle, "scale", scale, 1.0))
CLS(kLatLonAltBox, LatLonAltBox, LLB(LatLonAltBox), D_(LatLonAltBox, "minAltitude", minaltitude, 0.0), D_(LatLonAltBox, "maxAltitude", maxaltitude, 0.0), ALT(LatLonAltBox))
CLS(kLatLonBox, LatLonBox, LLB(LatLonBox), D_(LatLonBox, "rotation", rotation, 0.0))
CLS(kLineString, LineString, OBJ(LineString), B_(LineString, "extrude", extrude, 0), B_(LineString, "tessellate", tessellate, 0), ALT(LineString), X_(LineString, coordinates, Coordinates, tCoord))
CLS(kLineStyle, LineStyle, CSTYLE(LineStyle), D_(LineStyle, "width", width, 1.0))
CLS(kLinearRing, LinearRing, OBJ(LinearRing), B_(LinearRing, "extrude", extrude, 0), B_(LinearRing, "tessellate", tessellate, 0), ALT(LinearRing), X_(LinearRing, coordinates, Coordinates, tCoord))
CLS(kLink, Link, LINK(Link))
CLS(kListStyle, ListStyle, OBJ(ListStyle), E_(ListStyle, "listItemType", listitemtype, eItem), C_(ListStyle, "bgColor", bgcolor, 0xffffffffL), N_(ListStyle, itemicon, ItemIcon, tItemIcon), I_(ListStyle, "maxSnippetLines", maxsnippetlines, 2))
CLS(kLocation, Location, OBJ(Location), D_(Location, "longitude", longitude, 0.0), D_(Location, "latitude", latitude, 0.0), D_(Location, "altitude", altitude, 0.0))
CLS(kLod, Lod, OBJ(Lod), D_(Lod, "minLodPixels", minlodpixels, 0.0), D_(Lod, "maxLodPixels", maxlodpixels, -1.0), D_(Lod, "minFadeExtent", minfadeextent, 0.0), D_(Lod, "maxFadeExtent", maxfadeextent, 0.0))
CLS(kLookAt, LookAt, VIEW(LookAt, D_(LookAt, "range", range, 0.0)))
CLS(kModel, Model, OBJ(Model), ALT(Model), X_(Model, location, Location, tLocation), X_(Model, orientation, Orientation, tOrientation), X_(Model, scale, Scale, tScale), X_(Model, link, Link, tLink), X_(Model, resourcemap, ResourceMap, tResourceMap))
CLS(kMultiGeometry, MultiGeometry, OBJ(MultiGeometry), N_(MultiGeometry, geometry, Geometry, tGeometry))
CLS(kNetworkLink, NetworkLink, FEAT(NetworkLink), B_(NetworkLink, "refreshVisibility", refreshvisibility, 0), B_(NetworkLink, "flyToView", flytoview, 0), X_(NetworkLink, link, Link, tLink))
CLS(kNetworkLinkControl, NetworkLinkControl, D_(NetworkLinkControl, "minRefreshPeriod", minrefreshperiod, 0.0), D_(NetworkLinkControl, "maxSessionLength", maxsessionlength, 0.0), S_(NetworkLinkControl, "cookie", cookie), S_(NetworkLinkControl, "message", message), S_(NetworkLinkControl, "linkName", linkname), S_(NetworkLinkControl, "linkDescription", linkdescription), X_(NetworkLinkControl, linksnippet, LinkSnippet, tLinkSnippet), S_(NetworkLinkControl, "expires", expires), X_(NetworkLinkControl, update, Update, tUpdate), X_(NetworkLinkControl, abstractview, AbstractView, tView))
CLS(kOrientation, Orientation, OBJ(Orientation), D_(Orientation, "heading", heading, 0.0), D_(Orientation, "tilt", tilt, 0.0), D_(Orientation, "roll", roll, 0.0))
CLS(kPair, Pair, OBJ(Pair), E_(Pair, "key", key, eKey), S_(Pair, "styleUrl", styleurl), X_(Pair, styleselector, StyleSelector, tStyle))
CLS(kPhotoOverlay, PhotoOverlay, OVER(PhotoOverlay), D_(PhotoOverlay, "rotation", rotation, 0.0), X_(PhotoOverlay, viewvolume, ViewVolume, tViewVolume), X_(PhotoOverlay, imagepyramid, ImagePyramid, tImagePyramid), X_(PhotoOverlay, point, Point, tPoint), E_(PhotoOverlay, "shape", shape, eShape))
CLS(kPlacemark, Placemark, FEAT(Placemark), X_(Placemark, geometry, Geometry, tGeometry))
CLS(kPoint, Point, OBJ(Point), B_(Point, "extrude", extrude, 0), ALT(Point), X_(Point, coordinates, Coordinates, tCoord))
CLS(kPolyStyle, PolyStyle, CSTYLE(PolyStyle), B_(PolyStyle, "fill", fill, 1), B_(PolyStyle, "outline", outline, 1))
CLS(kPolygon, Polygon, OBJ(Polygon), B_(Polygon, "extrude", extrude, 0), B_(Polygon, "tessellate", tessellate, 0), ALT(Polygon), X_(Polygon, outerboundaryis, OuterBoundaryIs, tOuter), N_(Polygon, innerboundaryis, InnerBoundaryIs, tInner))
CLS(kRegion, Region, OBJ(Region), X_(Region, latlonaltbox, LatLonAltBox, tLatLonAltBox), X_(Region, lod, Lod, tLod))
CLS(kResourceMap, ResourceMap, OBJ(ResourceMap), N_(ResourceMap, alias, Alias, tAlias))
CLS(kScale, Scale, OBJ(Scale), D_(Scale, "x", x, 1.0), D_(Scale, "y", y, 1.0), D_(Scale, "z", z, 1.0))
CLS(kSchema, Schema, OBJ(Schema), SA(Schema, "name", name), N_(Schema, simplefield, SimpleField, tSimpleField), N_(Schema, gx_simplearrayfield, GxSimpleArrayField, tGxSimpleArrayField))
CLS(kSchemaData, SchemaData, OBJ(SchemaData), SA(SchemaData, "schemaUrl", schemaurl), N_(SchemaData, simpledata, SimpleData, tSimpleData), N_(SchemaData, gx_simplearraydata, GxSimpleArrayData, tGxSimpleArrayData))
CLS(kScreenOverlay, ScreenOverlay, OVER(ScreenOverlay), X_(ScreenOverlay, overlayxy, OverlayXY, tOverlayXY), X_(ScreenOverlay, screenxy, ScreenXY, tScreenXY), X_(ScreenOverlay, rotationxy, RotationXY, tRotationXY), X_(ScreenOverlay, size, Size, tSize), D_(ScreenOverlay, "rotation", rotation, 0.0))
CLS(kSimpleData, SimpleData, SA(SimpleData, "name", name), T_(SimpleData, text))
CLS(kSimpleField, SimpleField, SA(SimpleField, "type", type), SA(SimpleField, "name", name), S_(SimpleField, "displayName", displayname))
CLS(kSnippet, Snippet, IA(Snippet, "maxLines", maxlines, 2), T_(Snippet, text))
CLS(kStyle, Style, OBJ(Style), X_(Style, iconstyle, IconStyle, tIconStyle), X_(Style, labelstyle, LabelStyle, tLabelStyle), X_(Style, linestyle, LineStyle, tLineStyle), X_(Style, polystyle, PolyStyle, tPolyStyle), X_(Style, balloonstyle, BalloonStyle, tBalloonStyle), X_(Style, liststyle, ListStyle, tListStyle))
CLS(kStyleMap, StyleMap, OBJ(StyleMap), N_(StyleMap, pair, Pair, tPair))
CLS(kTimeSpan, TimeSpan, OBJ(TimeSpan), S_(TimeSpan, "begin", begin), S_(TimeSpan, "end", end))
CLS(kTimeStamp, TimeStamp, OBJ(TimeStamp), S_(TimeStamp, "when", when))
CLS(kUpdate, Update, S_(Update, "targetHref", targethref), N_(Update, updateoperation, UpdateOperation, tOp))
CLS(kUrl, Url, LINK(Url))
CLS(kViewVolume, ViewVolume, OBJ(ViewVolume), D_(ViewVolume, "leftFov", leftfov, 0.0), D_(ViewVolume, "rightFov", rightfov, 0.0), D_(ViewVolume, "bottomFov", bottomfov, 0.0), D_(ViewVolume, "topFov", topfov, 0.0), D_(ViewVolume, "near", near, 0.0))
CLS(kHotSpot, HotSpot, VEC2(HotSpot))
CLS(kOverlayXY, OverlayXY, VEC2(OverlayXY))
CLS(kScreenXY, ScreenXY, VEC2(ScreenXY))
CLS(kRotationXY, RotationXY, VEC2(RotationXY))
CLS(kSize, Size, VEC2(Size))
CLS(kInner, InnerBoundaryIs, X_(InnerBoundaryIs, linearring, LinearRing, tLinearRing))
CLS(kOuter, OuterBoundaryIs, X_(OuterBoundaryIs, linearring, LinearRing, tLinearRing))
CLS(kKml, Kml, SA(Kml, "hint", hint), X_(Kml, networklinkcontrol, NetworkLinkControl, tNetworkLinkControl), X_(Kml, feature, Feature, tFeature))
CLS(kLinkSnippet, LinkSnippet, IA(LinkSnippet, "maxLines", maxlines, 2), T_(LinkSnippet, text))
CLS(kXalAddressDetails, XalAddressDetails, X_(XalAddressDetails, country, XalCountry, tXalCountry))
CLS(kXalAdministrativeArea, XalAdministrativeArea, S_(XalAdministrativeArea, "xal:AdministrativeAreaName", administrativeareaname), X_(XalAdministrativeArea, locality, XalLocality, tXalLocality), X_(XalAdministrativeArea, subadministrativearea, XalSubAdministrativeArea, tXalSubAdministrativeArea))
CLS(kXalCountry, XalCountry, S_(XalCountry, "xal:CountryNameCode", countrynamecode), X_(XalCountry, administrativearea, XalAdministrativeArea, tXalAdministrativeArea))
CLS(kXalLocality, XalLocality, S_(XalLocality, "xal:LocalityName", localityname), X_(XalLocality, thoroughfare, XalThoroughfare, tXalThoroughfare), X_(XalLocality, postalcode, XalPostalCode, tXalPostalCode))
CLS(kXalPostalCode, XalPostalCode, S_(XalPostalCode, "xal:PostalCodeNumber", postalcodenumber))
CLS(kXalSub, XalSubAdministrativeArea, S_(XalSubAdministrativeArea, "xal:SubAdministrativeAreaName", subadministrativeareaname), X_(XalSubAdministrativeArea, locality, XalLocality, tXalLocality))
CLS(kXalThoroughfare, XalThoroughfare, S_(XalThoroughfare, "xal:ThoroughfareNumber", thoroughfarenumber), S_(XalThoroughfare, "xal:ThoroughfareName", thoroughfarename))
CLS(kGxAnimatedUpdate, GxAnimatedUpdate, OBJ(GxAnimatedUpdate), D_(GxAnimatedUpdate, "gx:duration", gx_duration, 0.0), X_(GxAnimatedUpdate, update, Update, tUpdate))
CLS(kGxFlyTo, GxFlyTo, OBJ(GxFlyTo), D_(GxFlyTo, "gx:duration", gx_duration, 0.0), E_(GxFlyTo, "gx:flyToMode", gx_flytomode, eFly), X_(GxFlyTo, abstractview, AbstractView, tView))
CLS(kGxLatLonQuad, GxLatLonQuad, OBJ(GxLatLonQuad), X_(GxLatLonQuad, coordinates, Coordinates, tCoord))
CLS(kGxMultiTrack, GxMultiTrack, OBJ(GxMultiTrack), B_(GxMultiTrack, "gx:interpolate", gx_interpolate, 0), N_(GxMultiTrack, gx_track, GxTrack, tGxTrack))
CLS(kGxPlaylist, GxPlaylist, OBJ(GxPlaylist), N_(GxPlaylist, gx_tourprimitive, GxTourPrimitive, tTour))
CLS(kGxSimpleArrayData, GxSimpleArrayData, SA(GxSimpleArrayData, "name", name))
CLS(kGxSimpleArrayField, GxSimpleArrayField, SA(GxSimpleArrayField, "type", type), SA(GxSimpleArrayField, "name", name), S_(GxSimpleArrayField, "displayName", displayname))
CLS(kGxSoundCue, GxSoundCue, OBJ(GxSoundCue), S_(GxSoundCue, "href", href))
CLS(kGxTimeSpan, GxTimeSpan, OBJ(GxTimeSpan), S_(GxTimeSpan, "begin", begin), S_(GxTimeSpan, "end", end))
CLS(kGxTimeStamp, GxTimeStamp, OBJ(GxTimeStamp), S_(GxTimeStamp, "when", when))
CLS(kGxTour, GxTour, FEAT(GxTour), X_(GxTour, gx_playlist, GxPlaylist, tGxPlaylist))
CLS(kGxTourControl, GxTourControl, OBJ(GxTourControl), E_(GxTourControl, "gx:playMode", gx_playmode, ePlay))
CLS(kGxTrack, GxTrack, OBJ(GxTrack), ALT(GxTrack), X_(GxTrack, model, Model, tModel), X_(GxTrack, extendeddata, ExtendedData, tExtendedData))
CLS(kGxWait, GxWait, OBJ(GxWait), D_(GxWait, "gx:duration", gx_duration, 0.0))
struct Def { const char* xml; KmlDomType t; const Ent* (*f)(size_t*); };
static const Def DEFS[] = {
  {"Alias", Type_Alias, kAlias}, {"atom:author", Type_AtomAuthor, kAtomAuthor}, {"atom:category", Type_AtomCategory, kAtomCategory}, {"atom:content", Type_AtomContent, kAtomContent}, {"atom:entry", Type_AtomEntry, kAtomEntry}, {"atom:feed", Type_AtomFeed, kAtomFeed}, {"atom:link", Type_AtomLink, kAtomLink},
  {"BalloonStyle", Type_BalloonStyle, kBalloonStyle}, {"Camera", Type_Camera, kCamera}, {"Change", Type_Change, kChange}, {"Create", Type_Create, kCreate}, {"Data", Type_Data, kData}, {"Delete", Type_Delete, kDelete}, {"Document", Type_Document, kDocument}, {"ExtendedData", Type_ExtendedData, kExtendedData}, {"Folder", Type_Folder, kFolder}, {"GroundOverlay", Type_GroundOverlay, kGroundOverlay},
  {"Icon", Type_Icon, kIcon}, {"IconStyle", Type_IconStyle, kIconStyle}, {"Icon", Type_IconStyleIcon, kIconStyleIcon}, {"ImagePyramid", Type_ImagePyramid, kImagePyramid}, {"ItemIcon", Type_ItemIcon, kItemIcon}, {"LabelStyle", Type_LabelStyle, kLabelStyle}, {"LatLonAltBox", Type_LatLonAltBox, kLatLonAltBox}, {"LatLonBox", Type_LatLonBox, kLatLonBox}, {"LineString", Type_LineString, kLineString}, {"LineStyle", Type_LineStyle, kLineStyle}, {"LinearRing", Type_LinearRing, kLinearRing}, {"Link", Type_Link, kLink}, {"ListStyle", Type_ListStyle, kListStyle}, {"Location", Type_Location, kLocation}, {"Lod", Type_Lod, kLod}, {"LookAt", Type_LookAt, kLookAt},
  {"Model", Type_Model, kModel}, {"MultiGeometry", Type_MultiGeometry, kMultiGeometry}, {"NetworkLink", Type_NetworkLink, kNetworkLink}, {"NetworkLinkControl", Type_NetworkLinkControl, kNetworkLinkControl}, {"Orientation", Type_Orientation, kOrientation}, {"Pair", Type_Pair, kPair}, {"PhotoOverlay", Type_PhotoOverlay, kPhotoOverlay}, {"Placemark", Type_Placemark, kPlacemark}, {"Point", Type_Point, kPoint}, {"PolyStyle", Type_PolyStyle, kPolyStyle}, {"Polygon", Type_Polygon, kPolygon}, {"Region", Type_Region, kRegion}, {"ResourceMap", Type_ResourceMap, kResourceMap}, {"Scale", Type_Scale, kScale}, {"Schema", Type_Schema, kSchema}, {"SchemaData", Type_SchemaData, kSchemaData}, {"ScreenOverlay", Type_ScreenOverlay, kScreenOverlay}, {"SimpleData", Type_SimpleData, kSimpleData}, {"SimpleField", Type_SimpleField, kSimpleField}, {"Snippet", Type_Snippet, kSnippet}, {"Style", Type_Style, kStyle}, {"StyleMap", Type_StyleMap, kStyleMap}, {"TimeSpan", Type_TimeSpan, kTimeSpan}, {"TimeStamp", Type_TimeStamp, kTimeStamp}, {"Update", Type_Update, kUpdate}, {"Url", Type_Url, kUrl}, {"ViewVolume", Type_ViewVolume, kViewVolume},
  {"hotSpot", Type_hotSpot, kHotSpot}, {"overlayXY", Type_overlayXY, kOverlayXY}, {"screenXY", Type_screenXY, kScreenXY}, {"rotationXY", Type_rotationXY, kRotationXY}, {"size", Type_size, kSize}, {"innerBoundaryIs", Type_innerBoundaryIs, kInner}, {"outerBoundaryIs", Type_outerBoundaryIs, kOuter}, {"kml", Type_kml, kKml}, {"linkSnippet", Type_linkSnippet, kLinkSnippet},
  {"xal:AddressDetails", Type_XalAddressDetails, kXalAddressDetails}, {"xal:AdministrativeArea", Type_XalAdministrativeArea, kXalAdministrativeArea}, {"xal:Country", Type_XalCountry, kXalCountry}, {"xal:Locality", Type_XalLocality, kXalLocality}, {"xal:PostalCode", Type_XalPostalCode, kXalPostalCode}, {"xal:SubAdministrativeArea", Type_XalSubAdministrativeArea, kXalSub}, {"xal:Thoroughfare", Type_XalThoroughfare, kXalThoroughfare},
  {"gx:AnimatedUpdate", Type_GxAnimatedUpdate, kGxAnimatedUpdate}, {"gx:FlyTo", Type_GxFlyTo, kGxFlyTo}, {"gx:LatLonQuad", Type_GxLatLonQuad, kGxLatLonQuad}, {"gx:MultiTrack", Type_GxMultiTrack, kGxMultiTrack}, {"gx:Playlist", Type_GxPlaylist, kGxPlaylist}, {"gx:SimpleArrayData", Type_GxSimpleArrayData, kGxSimpleArrayData}, {"gx:SimpleArrayField", Type_GxSimpleArrayField, kGxSimpleArrayField}, {"gx:SoundCue", Type_GxSoundCue, kGxSoundCue}, {"gx:TimeSpan", Type_GxTimeSpan, kGxTimeSpan}, {"gx:TimeStamp", Type_GxTimeStamp, kGxTimeStamp}, {"gx:Tour", Type_GxTour, kGxTour}, {"gx:TourControl", Type_GxTourControl, kGxTourControl}, {"gx:Track", Type_GxTrack, kGxTrack}, {"gx:Wait", Type_GxWait, kGxWait}};
static const size_t NDEFS = sizeof DEFS / sizeof *DEFS;
static inline Cls cls(size_t i) { Cls c; c.xml = DEFS[i].xml; c.t = DEFS[i].t; c.e = DEFS[i].f(&c.n); return c; }
static inline int find(int t) { for (size_t i = 0; i < NDEFS; i++) if (DEFS[i].t == t) return (int)i; return -1; }
static inline const char* xmlname(int t) { if (t == Type_coordinates) return "coordinates"; int i = find(t); return i < 0 ? "" : DEFS[i].xml; }
static inline ElementPtr make(int t) { return KmlFactory::GetFactory()->CreateElementById((KmlDomType)t); }
// text of a value of a field
static inline string hex8(unsigned long c) { string s; for (int i = 7; i >= 0; i--) { unsigned d = (c >> (4 * i)) & 15; s += (char)(d < 10 ? '0' + d : 'a' + d - 10); } return s; }
static inline bool same(const Ent& e, const Val& a, const Val& b) { switch (e.k) { case 's': case 't': return a.s == b.s; case 'd': return a.d == b.d; default: return a.i == b.i; } }
// a small concrete value of a field, the w-th alternative; *t its text
static inline Val cval(const Ent& e, unsigned w, string* t) {
  Val v; switch (e.k) {
    case 's': case 't': v.s = string(1, (char)('p' + w)) + "&v"; *t = v.s; break;
    case 'd': v.d = 3 + (double)w + 0.5; *t = num(3 + w) + ".5"; break;
    case 'i': v.i = 3 + w; *t = num(v.i); break;
    case 'b': v.i = (w + 1) & 1; *t = v.i ? "1" : "0"; break;
    case 'e': { unsigned n = 0; while (e.en[n]) n++; v.i = (w + 1) % n; *t = e.en[v.i]; break; }
    case 'c': v.i = 0x7f010203 + w; *t = hex8(v.i); break;
  }
  return v;
}
// a value of a field far from the small ones: zero, negative, its default, the limits of the types, long texts; *t its text
static inline Val wide(const Ent& e, string* t) {
  Val v; switch (e.k) {
    case 's': case 't': { static const unsigned L[] = {0, 1, 31, 64, 127, 128, 255, 256, 257, 1023, 1025, 4097, 70001}; unsigned n = L[(e.k == 't') + kv_pick(13 - (e.k == 't'))]; for (unsigned i = 0; i < n; i++) v.s += (char)('a' + i % 23); if (n > 2) v.s[n - 2] = '&'; *t = v.s; break; }
    case 'd': { static const struct { const char* t; double d; } D[] = {{"0", 0.0}, {"-1", -1.0}, {"1", 1.0}, {"-0.5", -0.5}, {"0.1", 0.1}, {"-0.000001", -0.000001}, {"4", 4.0}, {"90", 90.0}, {"-90", -90.0}, {"90.000001", 90.000001}, {"180", 180.0}, {"-180", -180.0}, {"180.5", 180.5}, {"360", 360.0}, {"-360", -360.0}, {"-123.456789012345", -123.456789012345}, {"256", 256.0}, {"1000", 1000.0}, {"65536", 65536.0}, {"16777217", 16777217.0}, {"2147483648", 2147483648.0}, {"123456789012345", 123456789012345.0}, {"1e+20", 1e20}, {"-1e-20", -1e-20}}; unsigned k = kv_pick(24); v.d = D[k].d; *t = D[k].t; break; }
    case 'i': { static const long I[] = {0, -1, 1, 2, 99, 100, 127, 128, 255, 256, -128, -129, 32767, 32768, -32769, 65535, 65536, 1000000, 16777217, 2147483647L, -2147483647L - 1}; v.i = I[kv_pick(21)]; *t = num(v.i); break; }
    case 'c': { static const unsigned long C[] = {0, 0xffffffffUL, 0xff000000UL, 0x00ffffffUL, 0x80000000UL, 0x7fffffffUL, 1, 0xff0000ffUL}; v.i = C[kv_pick(8)]; *t = hex8(v.i); break; }
    default: { unsigned n = 2; if (e.k == 'e') for (n = 0; e.en[n]; n++) {} v.i = kv_pick(n); *t = e.k == 'e' ? e.en[v.i] : v.i ? "1" : "0"; } }
  return v;
}
}  // namespace sch
#endif
