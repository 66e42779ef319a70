// P11: cloning makes an equal, independent deep copy.
// @h field q=90 t=300 | every element type x every attribute and simple field with a symbolic value set through the API: the clone has exactly that field, and serializes identically
// @h deep q=60 t=200 | every element type with every field and one or two children per slot (each with its own children): identical serialization, no element shared at any depth, parents inside the clone; then any one field of either copy is changed or cleared at a symbolic level: the other copy keeps its serialized form
// @h unknown q=90 t=300 | parsed documents with unknown attributes, namespaces, unknown and misplaced elements (with symbolic texts) inside any of 8 element kinds, including text-bearing ones
// @h mixed q=60 t=200 | a Folder of every sequence of 3 features out of 6 kinds (unknown content, Snippet, SimpleData, misplaced text-bearing elements, coordinates, plain) with symbolic texts: each keeps its own content
// @h arrays q=60 t=200 | coordinates (2d/3d symbolic decimals), gx:Track when/coord/angles, ItemIcon states, gx:value with symbolic contents
// @h scale q=60 t=150 | folders of 1..300 placemarks, nested 1..64 deep, with a name of 1..10000 characters, coordinates of 1..1025 tuples; a symbolic character in any: identical and nothing shared
// @h wide q=60 t=150 | every element type x every simple field holding 0, negative and extreme numbers, colours or texts of 0..70001 characters: the clone has exactly that value and the same serialized form
// @outside numbers of more than 15 significant digits, which serialization itself rounds (P08); whether an empty SimpleData text counts as present
#include "schema.h"
#include "xt.h"
#include "kml/engine/clone.h"
using namespace sch;
using kmlengine::Clone;
static Val sym(const Ent& e) {
  Val v; switch (e.k) {
    case 's': case 't': v.s = kv_text(2); break; case 'd': v.d = kv_dect(2, 1, false).v; break; case 'i': { string d = kv_alpha(2, "123456789"); v.i = (d[0] - '0') * 10 + d[1] - '0'; break; }
    case 'b': v.i = kv_pick(2); break; case 'e': { unsigned n = 0; while (e.en[n]) n++; v.i = kv_pick(n); break; } case 'c': { string b = kv_string(4, 0x11); unsigned long x = 0; for (int i = 0; i < 4; i++) x = x << 8 | (unsigned char)b[i]; v.i = (long)x; break; } }
  return v;
}
KV_HARNESS(field) {
  Cls c = cls(kv_pick(NDEFS)); std::vector<size_t> s; for (size_t i = 0; i < c.n; i++) if (c.e[i].simple()) s.push_back(i); KV_ASSUME(!s.empty()); const Ent& e = c.e[s[kv_pick(s.size())]]; ElementPtr o = make(c.t); Val v = sym(e); if (e.k == 't') KV_ASSUME(v.s != ""); e.set(o.get(), v);
  string before = SerializeRaw(o); ElementPtr k = Clone(o); KV_ASSERT(k && k != o && k->Type() == c.t, "a new element of the same type"); KV_ASSERT(e.has(k.get()) && same(e, e.get(k.get()), v), "the field is cloned");
  for (size_t i = 0; i < c.n; i++) if (&c.e[i] != &e && c.e[i].k != 't') KV_ASSERT(!c.e[i].has(k.get()), "nothing else is set"); KV_ASSERT(SerializeRaw(k) == before, "serializes identically"); KV_ASSERT(SerializeRaw(o) == before, "the original is unchanged"); KV_ASSERT(!k->GetParent(), "the clone has no parent");
}
static ElementPtr build(int t, unsigned depth, unsigned w, unsigned two) {
  ElementPtr o = make(t); if (t == Type_coordinates) { AsCoordinates(o)->add_latlngalt(1 + w, 2, 3); AsCoordinates(o)->add_latlng(4, 5); return o; } int d = find(t); if (d < 0) return o; Cls c = cls(d); string x;
  for (size_t i = 0; i < c.n; i++) { const Ent& e = c.e[i]; if (e.simple()) { e.set(o.get(), cval(e, w, &x)); continue; } if (!depth) continue; unsigned nt = 0; while (e.types[nt] >= 0) nt++; for (unsigned k = 0; k < (e.k == 'n' ? 1 + two : 1); k++) e.cset(o.get(), build(e.types[(w + k) % nt], depth - 1, w + k, 0)); }
  return o;
}
static void distinct(const ElementPtr& a, const ElementPtr& b) {
  KV_ASSERT(a && b && a != b && a->Type() == b->Type(), "no element is shared"); int d = find(a->Type()); if (d < 0) return; Cls c = cls(d);
  for (size_t i = 0; i < c.n; i++) { const Ent& e = c.e[i]; KV_ASSERT(e.has(a.get()) == e.has(b.get()), "same presence"); if (e.simple()) { KV_ASSERT(same(e, e.get(a.get()), e.get(b.get())), "same value"); continue; } size_t n = e.csize(a.get()); KV_ASSERT(e.csize(b.get()) == n, "same number of children"); for (size_t k = 0; k < n; k++) { ElementPtr y = e.cget(b.get(), k); KV_ASSERT(y->GetParent() == b, "parents within the clone"); distinct(e.cget(a.get(), k), y); } }
}
KV_HARNESS(deep) {
  unsigned ti = kv_pick(NDEFS), w = kv_pick(2); ElementPtr o = build(DEFS[ti].t, 2, w, 1); string before = SerializeRaw(o); ElementPtr k = Clone(o); KV_ASSERT(SerializeRaw(k) == before, "serializes identically"); KV_ASSERT(SerializeRaw(o) == before, "the original is unchanged"); distinct(o, k);
  bool which = kv_pick(2) != 0; ElementPtr m = which ? k : o, other = which ? o : k; unsigned lvl = kv_pick(2); Cls c = cls(ti); if (lvl) { ElementPtr ch; for (size_t i = 0; i < c.n && !ch; i++) if (!c.e[i].simple() && find(c.e[i].types[0]) >= 0) { ch = c.e[i].cget(m.get(), 0); } if (!ch) return; m = ch; int d = find(m->Type()); c = cls(d); }
  std::vector<size_t> s; for (size_t i = 0; i < c.n; i++) if (c.e[i].clear || c.e[i].simple()) s.push_back(i); KV_ASSUME(!s.empty()); const Ent& e = c.e[s[kv_pick(s.size())]]; string x; if (e.simple() && kv_pick(2)) e.set(m.get(), cval(e, 5, &x)); else e.clear(m.get()); KV_ASSERT(SerializeRaw(other) == before, "changing one copy leaves the other");
}
KV_HARNESS(unknown) {
  static const char* const R[][2] = {{"<Placemark id=\"p\" a:u=\"U\" xmlns:a=\"A\">", "</Placemark>"}, {"<Folder><name>f</name>", "</Folder>"}, {"<Placemark><Snippet maxLines=\"3\">", "</Snippet></Placemark>"}, {"<SchemaData><SimpleData name=\"n\">", "</SimpleData></SchemaData>"}, {"<kml xmlns=\"http://www.opengis.net/kml/2.2\" xmlns:k=\"K\">", "</kml>"}, {"<Point><coordinates>1,2,3 4,5", "</coordinates></Point>"}, {"<NetworkLinkControl><linkSnippet>", "</linkSnippet></NetworkLinkControl>"}, {"<ExtendedData>", "</ExtendedData>"}};
  unsigned r = kv_pick(8), a = kv_pick(7), b = kv_pick(7); string t = kv_text(1); struct P { static string mk(unsigned k, const string& t) { switch (k) { case 0: return "<u1 q=\"" + string("v") + "\">" + xesc(t) + "<u2/></u1>"; case 1: return "<LookAt id=\"m\"><tilt>3</tilt></LookAt>"; case 2: return "<tileSize>7</tileSize>"; case 3: return "<Lod><u3>" + xesc(t) + "</u3></Lod>"; case 4: return ""; case 5: return "<Pair><Snippet>" + xesc(t) + "</Snippet></Pair>"; default: return "x"; } } };
  string doc = string(R[r][0]) + P::mk(a, t) + P::mk(b, "z") + R[r][1]; ElementPtr o = Parse(doc, NULL); KV_ASSERT(o, "parsed"); string before = SerializeRaw(o); ElementPtr k = Clone(o); if (r == 3) { XN x, y; KV_ASSERT(xread(before, &x) && xread(SerializeRaw(k), &y) && x == y, "the clone serializes identically"); } else KV_ASSERT(SerializeRaw(k) == before, "the clone serializes identically"); KV_ASSERT(SerializeRaw(o) == before, "the original is unchanged");
  KV_ASSERT(SerializeRaw(Clone(k)) == SerializeRaw(k), "a clone of the clone too");
}
KV_HARNESS(mixed) {
  string t = kv_text(1), doc; for (int i = 0; i < 3; i++) { string z = xesc(i == 1 ? t : string(1, 'a' + i)), w = "<Placemark><name>" + num(i) + "</name>"; switch (kv_pick(6)) { case 0: w += "<u1>" + z + "</u1><u2 a=\"b\"/>"; break; case 1: w += "<Snippet>" + z + "</Snippet>"; break; case 2: w += "<ExtendedData><SchemaData><SimpleData name=\"s\">" + z + "</SimpleData><u3>" + z + "</u3></SchemaData></ExtendedData>"; break; case 3: w += "<SimpleData name=\"m\">" + z + "</SimpleData><Lod><u4>" + z + "</u4></Lod>"; break; case 4: w += "<Point><coordinates>1,2 3,4,5</coordinates><u5/></Point>"; break; } doc += w + "</Placemark>"; }
  ElementPtr o = Parse("<Folder>" + doc + "</Folder>", NULL); KV_ASSERT(o, "parsed"); string before = SerializeRaw(o); ElementPtr k = Clone(o); KV_ASSERT(SerializeRaw(k) == before, "the clone serializes identically"); KV_ASSERT(SerializeRaw(o) == before, "the original is unchanged");
  for (int i = 0; i < 3; i++) { FeaturePtr a = AsFolder(o)->get_feature_array_at(i), b = AsFolder(k)->get_feature_array_at(i); KV_ASSERT(a->has_snippet() == b->has_snippet() && (!a->has_snippet() || a->get_snippet()->get_text() == b->get_snippet()->get_text()), "text content"); KV_ASSERT(a->get_unknown_elements_array_size() == b->get_unknown_elements_array_size() && a->get_misplaced_elements_array_size() == b->get_misplaced_elements_array_size(), "foreign content stays where it was"); }
}
KV_HARNESS(arrays) {
  unsigned k = kv_pick(4); ElementPtr o; string t;
  if (k == 0) { CoordinatesPtr c = KmlFactory::GetFactory()->CreateCoordinates(); double a = kv_dect(2, 1, kv_pick(2)).v, b = kv_dect(1, 2, false).v, z = kv_dect(1, 1, true).v; c->add_latlngalt(a, b, z); c->add_latlng(b, a); PointPtr p = KmlFactory::GetFactory()->CreatePoint(); p->set_coordinates(c); PointPtr q = AsPoint(Clone(p)); KV_ASSERT(q && q->get_coordinates() != c && q->get_coordinates()->get_coordinates_array_size() == 2, "each tuple once");
    kmlbase::Vec3 v = q->get_coordinates()->get_coordinates_array_at(0), u = q->get_coordinates()->get_coordinates_array_at(1); KV_ASSERT(v.has_altitude() && !u.has_altitude(), "with or without an altitude"); KV_ASSERT(v.get_latitude() == a && v.get_longitude() == b && v.get_altitude() == z && u.get_latitude() == b && u.get_longitude() == a, "tuples in order"); KV_ASSERT(SerializeRaw(q) == SerializeRaw(p), "identical"); c->add_latlng(1, 1); KV_ASSERT(q->get_coordinates()->get_coordinates_array_size() == 2, "independent"); return; }
  if (k == 1) { string a = kv_text(1), b = kv_text(1); double d = kv_dect(1, 1, false).v; GxTrackPtr g = KmlFactory::GetFactory()->CreateGxTrack(); g->add_when(a); g->add_when(b); g->add_gx_coord(kmlbase::Vec3(d, 2, 3)); g->add_gx_coord(kmlbase::Vec3(4, 5, d)); g->add_gx_angles(kmlbase::Vec3(7, d, 8)); GxTrackPtr q = AsGxTrack(Clone(g)); KV_ASSERT(q && q->get_when_array_size() == 2 && q->get_when_array_at(0) == a && q->get_when_array_at(1) == b, "times"); KV_ASSERT(q->get_gx_coord_array_size() == 2 && q->get_gx_coord_array_at(0).get_longitude() == d && q->get_gx_coord_array_at(1).get_altitude() == d && q->get_gx_coord_array_at(1).get_longitude() == 4, "positions"); KV_ASSERT(q->get_gx_angles_array_size() == 1 && q->get_gx_angles_array_at(0).get_latitude() == d, "angles"); KV_ASSERT(SerializeRaw(q) == SerializeRaw(g), "identical"); return; }
  if (k == 2) { ItemIconPtr i = KmlFactory::GetFactory()->CreateItemIcon(); i->clear_state(); unsigned v[3]; for (int j = 0; j < 3; j++) { v[j] = kv_pick(6); i->add_state(v[j]); } ItemIconPtr q = AsItemIcon(Clone(i)); KV_ASSERT(q && q->get_state_array_size() == 3, "states"); for (int j = 0; j < 3; j++) KV_ASSERT(q->get_state_array_at(j) == (int)v[j], "in order"); KV_ASSERT(SerializeRaw(q) == SerializeRaw(i), "identical"); return; }
  string a = kv_text(2), b = kv_text(1); GxSimpleArrayDataPtr g = KmlFactory::GetFactory()->CreateGxSimpleArrayData(); g->set_name("n"); g->add_gx_value(a); g->add_gx_value(b); GxSimpleArrayDataPtr q = AsGxSimpleArrayData(Clone(g)); KV_ASSERT(q && q->get_gx_value_array_size() == 2 && q->get_gx_value_array_at(0) == a && q->get_gx_value_array_at(1) == b && q->get_name() == "n", "values"); KV_ASSERT(SerializeRaw(q) == SerializeRaw(g), "identical");
}
KV_HARNESS(scale) {
  KmlFactory* f = KmlFactory::GetFactory(); unsigned k = kv_pick(4); string t = kv_text(1, 'q'); FolderPtr r = f->CreateFolder(); PlacemarkPtr p = f->CreatePlacemark(); p->set_name(t);
  if (k == 0) { unsigned n = kv_size(300), at = kv_pick(2) ? n - 1 : n / 2; for (unsigned i = 0; i < n; i++) if (i == at) r->add_feature(p); else { PlacemarkPtr q = f->CreatePlacemark(); q->set_id(num(i)); r->add_feature(q); } }
  if (k == 1) { unsigned n = kv_size(64); ContainerPtr c = r; for (unsigned i = 1; i < n; i++) { FolderPtr d = f->CreateFolder(); c->add_feature(d); c = d; } c->add_feature(p); }
  if (k == 2) { p->set_name(kv_long(10000, t)); r->add_feature(p); }
  if (k == 3) { unsigned n = kv_size(1025); CoordinatesPtr c = f->CreateCoordinates(); for (unsigned i = 0; i < n; i++) if (i & 1) c->add_latlngalt(1, i, 2); else c->add_latlng(1, i); LineStringPtr l = f->CreateLineString(); l->set_coordinates(c); p->set_geometry(l); r->add_feature(p); }
  string before = SerializeRaw(r); ElementPtr c = Clone(r); KV_ASSERT(c && SerializeRaw(c) == before, "an equal copy"); p->set_name("other"); p->clear_geometry(); r->add_feature(f->CreateFolder()); KV_ASSERT(SerializeRaw(c) == before, "and an independent one");
}
KV_HARNESS(wide) {
  Cls c = cls(kv_pick(NDEFS)); std::vector<size_t> s; for (size_t i = 0; i < c.n; i++) if (c.e[i].simple()) s.push_back(i); KV_ASSUME(!s.empty()); const Ent& e = c.e[s[kv_pick(s.size())]]; string t; Val v = sch::wide(e, &t); ElementPtr a = make(c.t); e.set(a.get(), v); ElementPtr b = Clone(a);
  KV_ASSERT(b && b != a && b->Type() == c.t, "a clone"); if (e.k != 't' || !v.s.empty()) KV_ASSERT(e.has(b.get()) && same(e, e.get(b.get()), v), "the same value"); for (size_t i = 0; i < c.n; i++) if (&c.e[i] != &e && c.e[i].k != 't') KV_ASSERT(!c.e[i].has(b.get()), "nothing else is set"); KV_ASSERT(SerializeRaw(b) == SerializeRaw(a), "the same form");
}
