// P06: serialisation is a fixed point; raw and pretty forms agree.
// @h full q=60 t=150 | every element type with every field and every child slot filled, three levels deep: written, read, written again
// @h field q=90 t=300 | every element type x every attribute and simple field with a symbolic value
// @h frags q=120 t=600 | 7 parents x every ordered pair of 26 fragments (known, misplaced, unknown, text with markup, CDATA, entities, comments, processing instructions, namespaces, legacy names) with a symbolic character in the text (thorough: triples)
// @h bytes q=60 t=300 | 5 symbolic bytes of a markup alphabet inside Placemark, a name, an unknown element and coordinates: whatever the library accepts (thorough 6)
// @h coords q=120 t=200 | coordinates, gx:Track and model coordinates with symbolic decimals (fewer digits in the second tuple), 0-2 tuples (thorough 3), with and without altitudes
// @h file q=40 t=100 | every element type with every field and child (built, not parsed) as the root of a KmlFile: the string and stream forms of the file are the same, hold the root with its namespaces, and are read back as the same tree
// @outside an empty Snippet, linkSnippet or SimpleData text, which may gain white space in the pretty form; documents larger than the templates
#include "schema.h"
#include "xt.h"
#include <sstream>
#include "kml/engine.h"
using namespace sch;
static bool gains(const XN& n) { if ((n.name == "Snippet" || n.name == "linkSnippet" || n.name == "SimpleData") && n.text.empty()) return true; for (size_t i = 0; i < n.kids.size(); i++) if (gains(n.kids[i])) return true; return false; }
static void stable(const ElementPtr& e) {
  string s = SerializeRaw(e), p = SerializePretty(e); KV_ASSERT(SerializeRaw(e) == s && SerializePretty(e) == p, "serialising does not modify the tree");
  ElementPtr r = Parse(s, 0); KV_ASSERT(r, "the library accepts what it writes"); string s2 = SerializeRaw(r); KV_ASSERT(s2 == s, "writing again gives the same text");
  ElementPtr q = Parse(p, 0); KV_ASSERT(q, "the library accepts its pretty form"); XN x; KV_ASSERT(xread(s, &x), "well-formed"); if (gains(x)) return; KV_ASSERT(SerializeRaw(q) == s, "both forms hold the same tree"); KV_ASSERT(SerializePretty(r) == p && SerializePretty(q) == p, "the pretty form is a fixed point");
}
static ElementPtr build(int t, unsigned depth, unsigned w, unsigned two) {
  ElementPtr o = make(t); if (t == Type_coordinates) { AsCoordinates(o)->add_latlngalt(1 + w, 2, 3); AsCoordinates(o)->add_latlng(4, 5); return o; } int d = find(t); if (d < 0) return o; Cls c = cls(d); string x;
  for (size_t i = 0; i < c.n; i++) { const Ent& e = c.e[i]; if (e.simple()) { e.set(o.get(), cval(e, w, &x)); continue; } if (!depth) continue; unsigned nt = 0; while (e.types[nt] >= 0) nt++; for (unsigned k = 0; k < (e.k == 'n' ? 1 + two : 1); k++) e.cset(o.get(), build(e.types[(w + k) % nt], depth - 1, w + k, 0)); }
  return o;
}
KV_HARNESS(full) {
  ElementPtr o = build(DEFS[kv_pick(NDEFS)].t, 2, kv_pick(2), 1); stable(o); string s = SerializeRaw(o), p = SerializePretty(o); std::ostringstream a, b; SerializeToOstream(o, false, &a); SerializeToOstream(o, true, &b); KV_ASSERT(a.str() == s, "the stream form is the raw form"); KV_ASSERT(b.str() == p, "or the pretty form");
}
static Val sym(const Ent& e) {
  Val v; switch (e.k) {
    case 's': case 't': v.s = kv_text(2); break; case 'd': v.d = kv_dect(2, 2, true).v; break; case 'i': { string d = kv_alpha(2, "123456789"); v.i = (d[0] - '0') * 10 + d[1] - '0'; break; }
    case 'b': v.i = kv_pick(2); break; case 'e': { unsigned n = 0; while (e.en[n]) n++; v.i = kv_pick(n); break; } case 'c': { string b = kv_string(4, 0x11); unsigned long x = 0; for (int i = 0; i < 4; i++) x = x << 8 | (unsigned char)b[i]; v.i = (long)x; break; } }
  return v;
}
KV_HARNESS(field) { Cls c = cls(kv_pick(NDEFS)); KV_ASSUME(c.t != Type_IconStyleIcon); std::vector<size_t> s; for (size_t i = 0; i < c.n; i++) if (c.e[i].simple()) s.push_back(i); KV_ASSUME(!s.empty()); const Ent& e = c.e[s[kv_pick(s.size())]]; ElementPtr o = make(c.t); Val v = sym(e); for (size_t i = 0; i < c.n; i++) if (c.e[i].k == 't') c.e[i].set(o.get(), VS("x")); e.set(o.get(), v); stable(o); }
KV_HARNESS(frags) {
  static const char* const P[] = {"Placemark", "Document", "Folder", "Style", "ExtendedData", "GroundOverlay", "Icon"};
  static const char* const F[] = {"<name>@</name>", "<description>@</description>", "<description><b>@</b> x</description>", "<Snippet>@</Snippet>", "<Point><coordinates>1,2,3 4,5</coordinates></Point>", "<Folder><name>@</name></Folder>", "<Style><LineStyle><width>2</width></LineStyle></Style>", "<styleUrl>#@</styleUrl>", "<zz q=\"@\">t@<y/>u</zz>", "<zz/>", "<Alias><targetHref>@</targetHref></Alias>", "<Data name=\"@\"><value>@</value></Data>", "<SchemaData schemaUrl=\"#s\"><SimpleData name=\"a\">@</SimpleData></SchemaData>", "<Icon><href>@</href></Icon>", "<!-- @ -->", "<?pi x?>", "<name><![CDATA[@<]]></name>", "<name>&lt;&amp;&#65;@</name>", " @\n ", "<visibility> 1 </visibility>", "<Url><href>h@</href></Url>", "<gx:Tour><gx:Playlist><gx:Wait/></gx:Playlist></gx:Tour>", "<atom:link href=\"@\"/>", "<Schema name=\"s\" parent=\"Placemark\"/>", "<Region><LatLonAltBox><north>@</north></LatLonAltBox></Region>", "<Metadata><m:x xmlns:m=\"u\">@</m:x></Metadata>"};
  string t = "<"; unsigned pi = kv_pick(7); const char* p = P[pi]; t += p; if (pi & 1) t += " id=\"i\" xmlns:gx=\"g\" uu=\"v\""; t += ">"; string c = xesc(kv_text(1)); unsigned n = kv_tier() ? 3 : 2; for (unsigned i = 0; i < n; i++) { string f = F[kv_pick(26)]; for (size_t j = 0; j < f.size(); j++) if (f[j] == '@') { if (f[j - 1] == ' ') t += 'k'; else t += c; } else t += f[j]; } t += string("</") + p + ">";
  ElementPtr e = Parse(t, 0); if (!e) return; stable(e);
}
KV_HARNESS(bytes) {
  static const char* const A[] = {"<Placemark>", "<Placemark><name>", "<Folder><q>", "<Point><coordinates>"}; static const char* const B[] = {"</Placemark>", "</name></Placemark>", "</q></Folder>", "</coordinates></Point>"};
  unsigned k = kv_pick(4); string t = string(A[k]) + kv_alpha(kv_tier() ? 6 : 5, k == 3 ? "12,. \n-" : "<>/a&; ]") + B[k]; ElementPtr e = Parse(t, 0); if (!e) return; stable(e);
}
KV_HARNESS(coords) {
  unsigned k = kv_pick(2), n = kv_pick(kv_tier() ? 4 : 3); if (k == 0) { CoordinatesPtr c = KmlFactory::GetFactory()->CreateCoordinates(); for (unsigned i = 0; i < n; i++) { bool sm = i && !kv_tier(); double a = sm ? kv_dect(1, 1, true).v : kv_dect(2, 1, true).v, b = sm ? kv_dect(1, 0, false).v : kv_dect(1, 2, false).v; if (kv_bool()) c->add_latlngalt(a, b, sm ? kv_dect(1, 0, true).v : kv_dect(1, 1, true).v); else c->add_latlng(a, b); } LineStringPtr l = KmlFactory::GetFactory()->CreateLineString(); l->set_coordinates(c); if (kv_bool()) { PlacemarkPtr p = KmlFactory::GetFactory()->CreatePlacemark(); p->set_geometry(l); stable(p); } else stable(l); return; }
  GxTrackPtr g = KmlFactory::GetFactory()->CreateGxTrack(); for (unsigned i = 0; i < n; i++) { if (kv_bool()) g->add_when(kv_text(1)); g->add_gx_coord(kmlbase::Vec3(i && !kv_tier() ? kv_dect(1, 1, false).v : kv_dect(2, 1, true).v, 2, 3)); if (kv_bool()) g->add_gx_angles(kmlbase::Vec3(7, i && !kv_tier() ? kv_dect(1, 1, false).v : kv_dect(1, 2, false).v, 8)); } stable(g);
}
KV_HARNESS(file) {
  ElementPtr o = build(DEFS[kv_pick(NDEFS)].t, 1, kv_pick(2), 1); kmlengine::KmlFilePtr f = kmlengine::KmlFile::CreateFromImportLax(o); KV_ASSERT(f && f->get_root() == o, "imported"); string s; KV_ASSERT(f->SerializeToString(&s), "written"); std::ostringstream os; KV_ASSERT(f->SerializeToOstream(&os), "written to a stream"); KV_ASSERT(os.str() == s, "both the same"); string h = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n"; KV_ASSERT(s == h + SerializePretty(o), "header and root");
  kmlengine::KmlFilePtr g = kmlengine::KmlFile::CreateFromParse(s, 0); KV_ASSERT(g, "read back"); KV_ASSERT(SerializeRaw(g->get_root()) == SerializeRaw(o), "the same tree"); string s2; g->SerializeToString(&s2); KV_ASSERT(s2 == s, "a fixed point");
}
