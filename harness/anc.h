// Type hierarchy of the KML schema: the ancestors of every concrete type (P29, P30).
#ifndef ANC_H
#define ANC_H
#include "schema.h"
namespace sch {
struct Anc { int t; int a[5]; };
#define O Type_Object
static const Anc ANC[] = {
  {Type_Alias, {O}}, {Type_BalloonStyle, {Type_SubStyle, O}}, {Type_Camera, {Type_AbstractView, O}}, {Type_LookAt, {Type_AbstractView, O}}, {Type_Data, {O}}, {Type_SchemaData, {O}}, {Type_Document, {Type_Container, Type_Feature, O}}, {Type_Folder, {Type_Container, Type_Feature, O}},
  {Type_GroundOverlay, {Type_Overlay, Type_Feature, O}}, {Type_ScreenOverlay, {Type_Overlay, Type_Feature, O}}, {Type_PhotoOverlay, {Type_Overlay, Type_Feature, O}}, {Type_Placemark, {Type_Feature, O}}, {Type_NetworkLink, {Type_Feature, O}}, {Type_GxTour, {Type_Feature, O}},
  {Type_Icon, {Type_BasicLink, O}}, {Type_Link, {Type_BasicLink, O}}, {Type_Url, {Type_BasicLink, O}}, {Type_IconStyleIcon, {Type_BasicLink, O}},
  {Type_IconStyle, {Type_ColorStyle, Type_SubStyle, O}}, {Type_LabelStyle, {Type_ColorStyle, Type_SubStyle, O}}, {Type_LineStyle, {Type_ColorStyle, Type_SubStyle, O}}, {Type_PolyStyle, {Type_ColorStyle, Type_SubStyle, O}}, {Type_ListStyle, {Type_SubStyle, O}},
  {Type_ImagePyramid, {O}}, {Type_ItemIcon, {O}}, {Type_LatLonAltBox, {Type_AbstractLatLonBox, O}}, {Type_LatLonBox, {Type_AbstractLatLonBox, O}}, {Type_LineString, {Type_Geometry, O}}, {Type_LinearRing, {Type_Geometry, O}}, {Type_Point, {Type_Geometry, O}}, {Type_Polygon, {Type_Geometry, O}}, {Type_MultiGeometry, {Type_Geometry, O}}, {Type_Model, {Type_Geometry, O}}, {Type_GxTrack, {Type_Geometry, O}}, {Type_GxMultiTrack, {Type_Geometry, O}},
  {Type_Location, {O}}, {Type_Orientation, {O}}, {Type_Scale, {O}}, {Type_Lod, {O}}, {Type_Pair, {O}}, {Type_Region, {O}}, {Type_ResourceMap, {O}}, {Type_Schema, {O}}, {Type_Style, {Type_StyleSelector, O}}, {Type_StyleMap, {Type_StyleSelector, O}}, {Type_TimeSpan, {Type_TimePrimitive, O}}, {Type_TimeStamp, {Type_TimePrimitive, O}}, {Type_ViewVolume, {O}},
  {Type_hotSpot, {Type_Vec2}}, {Type_overlayXY, {Type_Vec2}}, {Type_screenXY, {Type_Vec2}}, {Type_rotationXY, {Type_Vec2}}, {Type_size, {Type_Vec2}},
  {Type_GxAnimatedUpdate, {Type_GxTourPrimitive, O}}, {Type_GxFlyTo, {Type_GxTourPrimitive, O}}, {Type_GxSoundCue, {Type_GxTourPrimitive, O}}, {Type_GxTourControl, {Type_GxTourPrimitive, O}}, {Type_GxWait, {Type_GxTourPrimitive, O}}, {Type_GxLatLonQuad, {O}}, {Type_GxPlaylist, {O}},
  {Type_GxTimeSpan, {Type_TimeSpan, Type_TimePrimitive, O}}, {Type_GxTimeStamp, {Type_TimeStamp, Type_TimePrimitive, O}}, {Type_GxSimpleArrayField, {Type_SimpleField}}, {-1, {0}}};
#undef O
static bool inst(int t, int y) { if (t < 0) return false; bool w = t == y; for (const Anc* a = ANC; a->t >= 0; a++) if (a->t == t) for (int k = 0; k < 5 && a->a[k]; k++) w |= y == a->a[k]; return w; }
}
#endif
