// P12: merging changes exactly the fields the source sets.
// @h field q=120 t=400 | every element type x every attribute, simple field and text content, set or not on either side with symbolic values, next to every other field set in the target: MergeFields and MergeElements
// @h child q=60 t=200 | every element type x single child slot x child types present on either side or both: merged recursively, replaced (other type of the group) or cloned; never shared
// @h full q=60 t=200 | every element type, the target with every single-child slot filled, the source with any one or with all of them: every child is merged into its own counterpart
// @h array q=60 t=200 | every child array slot with 0-2 children on either side: the source's are appended as clones, in order
// @h other q=60 t=200 | merging with NULL, with itself, from an empty element, from an element with misplaced and unknown content, and coordinates with symbolic numbers
// @h attrs q=60 t=200 | eleven element types with up to two of eight attributes (known, unknown, default and prefixed namespace declarations) on either side or both, symbolic values: the maps are merged, the source winning
// @h scale q=40 t=100 | a source with a name of 1..10000 characters, 1..300 unknown attributes, or coordinates of 1..1025 tuples, merged into one with more or fewer: symbolic character within
// @h wide q=60 t=150 | every element type x every simple field: a source holding 0, negative and extreme numbers, colours or texts of 0..70001 characters merged into a target that has the field or not: exactly that value, the source unchanged
// @h entry q=40 t=100 | merging Atom entries and feeds: categories and links (up to one each) appended, content merged attribute by attribute, title and summary replaced; symbolic one-character texts
// @outside simple-valued arrays (gx:value, when, gx:coord, gx:angles), which are appended
#include "schema.h"
#include "xt.h"
#include "kml/engine/merge.h"
using namespace sch;
using kmlengine::MergeFields; using kmlengine::MergeElements;
static Val sym(const Ent& e) {
  Val v; switch (e.k) {
    case 's': if (kv_pick(2)) v.s = kv_text(1); break; case 't': v.s = kv_alpha(1, "ab<"); break; case 'd': v.d = kv_dect(1, 1, false).v; break; case 'i': { string d = kv_alpha(1, "123456789"); v.i = d[0] - '0'; break; }
    case 'b': v.i = kv_pick(2); break; case 'e': { unsigned n = 0; while (e.en[n]) n++; v.i = kv_pick(n); break; } case 'c': { unsigned char b = kv_u8(); v.i = 0x01020300L + b; break; } }
  return v;
}
KV_HARNESS(field) {
  Cls c = cls(kv_pick(NDEFS)); std::vector<size_t> s; for (size_t i = 0; i < c.n; i++) if (c.e[i].simple()) s.push_back(i); KV_ASSUME(!s.empty()); const Ent& e = c.e[s[kv_pick(s.size())]]; ElementPtr a = make(c.t), b = make(c.t); unsigned m = kv_pick(4); Val vs, vt = e.def; string x;
  for (size_t i = 0; i < s.size(); i++) if (&c.e[s[i]] != &e) c.e[s[i]].set(b.get(), cval(c.e[s[i]], 0, &x)); if (m & 1) { vs = sym(e); e.set(a.get(), vs); } if (m & 2) { vt = cval(e, 1, &x); e.set(b.get(), vt); } string sa = SerializeRaw(a);
  if (kv_pick(2)) MergeFields(a, b); else MergeElements(a, b); KV_ASSERT(SerializeRaw(a) == sa, "the source is unchanged"); KV_ASSERT(e.has(b.get()) == (m != 0), "present when either has it"); KV_ASSERT(same(e, e.get(b.get()), m & 1 ? vs : vt), "the source's value wins, otherwise the target's is kept");
  for (size_t i = 0; i < s.size(); i++) if (&c.e[s[i]] != &e) { const Ent& f = c.e[s[i]]; KV_ASSERT(f.has(b.get()) && same(f, f.get(b.get()), cval(f, 0, &x)), "every other field of the target is kept"); }
}
static const Ent* sfield(int t, unsigned w) { int d = find(t); if (d < 0) return 0; Cls c = cls(d); for (size_t i = 0; i < c.n; i++) if (c.e[i].simple() && string(c.e[i].xml) != "targetId" && !w--) return &c.e[i]; return 0; }
KV_HARNESS(child) {
  Cls c = cls(kv_pick(NDEFS)); std::vector<size_t> s; for (size_t i = 0; i < c.n; i++) if (c.e[i].k == '1') s.push_back(i); KV_ASSUME(!s.empty()); const Ent& e = c.e[s[kv_pick(s.size())]]; unsigned nt = 0; while (e.types[nt] >= 0) nt++; int ts = e.types[kv_pick(nt)]; unsigned q = kv_pick(nt + 1); int tt = q < nt ? e.types[q] : -1;
  if (ts == Type_coordinates) return; ElementPtr a = make(c.t), b = make(c.t), ca = make(ts), cb; const Ent *f0 = sfield(ts, 0), *f1 = sfield(ts, 1); string x; Val w0, w1; if (f0) { w0 = f0->k == 's' ? VS(kv_text(1)) : cval(*f0, 0, &x); f0->set(ca.get(), w0); } e.cset(a.get(), ca);
  if (tt >= 0) { cb = make(tt); if (ts == tt && f1) { w1 = cval(*f1, 2, &x); f1->set(cb.get(), w1); } if (ts == tt && f0) f0->set(cb.get(), cval(*f0, 3, &x)); e.cset(b.get(), cb); } string sa = SerializeRaw(a), sc = SerializeRaw(ca);
  MergeElements(a, b); KV_ASSERT(SerializeRaw(a) == sa && e.cget(a.get(), 0) == ca, "the source is unchanged"); KV_ASSERT(e.has(b.get()), "the child is merged in"); ElementPtr r = e.cget(b.get(), 0); KV_ASSERT(r != ca, "never shared"); KV_ASSERT(r->Type() == ts && r->GetParent() == b, "of the source's type");
  if (ts == tt) { KV_ASSERT(r == cb, "the target's own child is merged into"); if (f0) KV_ASSERT(f0->has(r.get()) && same(*f0, f0->get(r.get()), w0), "source value"); if (f1) KV_ASSERT(f1->has(r.get()) && same(*f1, f1->get(r.get()), w1), "target value kept"); } else KV_ASSERT(SerializeRaw(r) == sc, "a clone of the source's child");
  for (size_t i = 0; i < c.n; i++) if (&c.e[i] != &e && c.e[i].k != 't') KV_ASSERT(!c.e[i].has(b.get()), "nothing else is set");
}
KV_HARNESS(full) {
  Cls c = cls(kv_pick(NDEFS)); std::vector<size_t> s; for (size_t i = 0; i < c.n; i++) if (c.e[i].k == '1' && c.e[i].types[0] != Type_coordinates) s.push_back(i); KV_ASSUME(!s.empty()); unsigned one = kv_pick(s.size() + 1); ElementPtr a = make(c.t), b = make(c.t); std::vector<ElementPtr> old; string x;
  for (size_t j = 0; j < s.size(); j++) { const Ent& e = c.e[s[j]]; int t = e.types[0]; const Ent *f0 = sfield(t, 0), *f1 = sfield(t, 1); ElementPtr k = make(t); if (f0) f0->set(k.get(), cval(*f0, 3, &x)); if (f1) f1->set(k.get(), cval(*f1, 2, &x)); e.cset(b.get(), k); old.push_back(k); if (one == s.size() || one == j) { ElementPtr n = make(t); if (f0) f0->set(n.get(), cval(*f0, (unsigned)(4 + j), &x)); e.cset(a.get(), n); } }
  string sa = SerializeRaw(a); MergeElements(a, b); KV_ASSERT(SerializeRaw(a) == sa, "the source is unchanged");
  for (size_t j = 0; j < s.size(); j++) { const Ent& e = c.e[s[j]]; int t = e.types[0]; const Ent *f0 = sfield(t, 0), *f1 = sfield(t, 1); bool src = one == s.size() || one == j; ElementPtr r = e.cget(b.get(), 0); KV_ASSERT(r == old[j], "every child of the target stays, merged into"); if (f0) KV_ASSERT(f0->has(r.get()) && same(*f0, f0->get(r.get()), cval(*f0, src ? (unsigned)(4 + j) : 3, &x)), "the source's value where it has one"); if (f1) KV_ASSERT(f1->has(r.get()) && same(*f1, f1->get(r.get()), cval(*f1, 2, &x)), "the target's otherwise"); }
}
KV_HARNESS(array) {
  Cls c = cls(kv_pick(NDEFS)); std::vector<size_t> s; for (size_t i = 0; i < c.n; i++) if (c.e[i].k == 'n') s.push_back(i); KV_ASSUME(!s.empty()); const Ent& e = c.e[s[kv_pick(s.size())]]; unsigned nt = 0; while (e.types[nt] >= 0) nt++; unsigned na = kv_pick(3), nb = kv_pick(3), t0 = kv_pick(nt); ElementPtr a = make(c.t), b = make(c.t); std::vector<string> want; string x;
  for (unsigned i = 0; i < nb; i++) { ElementPtr k = make(e.types[(t0 + i) % nt]); const Ent* f = sfield(k->Type(), 0); if (f) f->set(k.get(), cval(*f, 3 + i, &x)); e.cset(b.get(), k); want.push_back(SerializeRaw(k)); } for (unsigned i = 0; i < na; i++) { ElementPtr k = make(e.types[t0]); const Ent* f = sfield(k->Type(), 0); if (f) f->set(k.get(), f->k == 's' ? VS(kv_text(1)) : cval(*f, i, &x)); e.cset(a.get(), k); want.push_back(SerializeRaw(k)); }
  string sa = SerializeRaw(a); MergeElements(a, b); KV_ASSERT(SerializeRaw(a) == sa, "the source is unchanged"); KV_ASSERT(e.csize(b.get()) == na + nb, "appended"); for (unsigned i = 0; i < na + nb; i++) { ElementPtr k = e.cget(b.get(), i); KV_ASSERT(SerializeRaw(k) == want[i], "in order, unchanged"); KV_ASSERT(k->GetParent() == b, "owned by the target"); if (i >= nb) KV_ASSERT(k != e.cget(a.get(), i - nb), "not shared"); }
}
static const char* const DOC = "<Placemark id=\"p\"><name>n</name><Snippet maxLines=\"3\">s</Snippet><ExtendedData><Data name=\"a\"><value>1</value></Data><Data name=\"b\"/></ExtendedData><Point><coordinates>1,2</coordinates></Point><u/></Placemark>";
KV_HARNESS(other) {
  unsigned k = kv_pick(5); ElementPtr b = Parse(DOC, NULL); KV_ASSERT(b, "parsed"); string sb = SerializeRaw(b);
  if (k == 0) { MergeFields(NULL, b); MergeElements(NULL, b); MergeFields(b, NULL); MergeElements(b, NULL); MergeElements(b, b); MergeFields(b, b); MergeElements(make(Type_Placemark), b); MergeFields(make(Type_Placemark), b); KV_ASSERT(SerializeRaw(b) == sb, "nothing changes"); return; }
  if (k == 1) { string t = kv_text(1); ElementPtr a = Parse("<Placemark><Lod id=\"z\"><minLodPixels>3</minLodPixels></Lod><LineStyle id=\"q\"/><u2>" + xesc(t) + "</u2></Placemark>", NULL); string sa = SerializeRaw(a); if (kv_pick(2)) MergeFields(a, b); else MergeElements(a, b); PlacemarkPtr p = AsPlacemark(b); KV_ASSERT(p->get_id() == "p" && p->get_name() == "n" && p->get_snippet()->get_text() == "s" && p->get_extendeddata()->get_data_array_size() == 2, "misplaced content of the source changes no field"); KV_ASSERT(SerializeRaw(a) == sa, "source unchanged"); return; }
  if (k == 2) { double x = kv_dect(1, 1, kv_pick(2)).v, y = kv_dect(1, 1, false).v; CoordinatesPtr c = KmlFactory::GetFactory()->CreateCoordinates(); c->add_latlngalt(x, y, 5); PointPtr q = KmlFactory::GetFactory()->CreatePoint(); q->set_coordinates(c); PlacemarkPtr a = KmlFactory::GetFactory()->CreatePlacemark(); a->set_geometry(q); MergeElements(a, b); CoordinatesPtr r = AsPoint(AsPlacemark(b)->get_geometry())->get_coordinates(); KV_ASSERT(r->get_coordinates_array_size() == 1 && r->get_coordinates_array_at(0).get_latitude() == x && r->get_coordinates_array_at(0).get_longitude() == y && r->get_coordinates_array_at(0).get_altitude() == 5, "coordinates are replaced"); return; }
  if (k == 3) { string t = kv_text(1); PlacemarkPtr a = KmlFactory::GetFactory()->CreatePlacemark(); SnippetPtr n = KmlFactory::GetFactory()->CreateSnippet(); n->set_text(t); a->set_snippet(n); MergeElements(a, b); KV_ASSERT(AsPlacemark(b)->get_snippet()->get_text() == t && AsPlacemark(b)->get_snippet()->get_maxlines() == 3 && AsPlacemark(b)->get_name() == "n", "text content is merged"); return; }
  string i = kv_text(1), w = kv_text(1); PlacemarkPtr a = KmlFactory::GetFactory()->CreatePlacemark(); a->set_id(i); a->set_styleurl(w); MergeElements(a, b); PlacemarkPtr p = AsPlacemark(b); KV_ASSERT(p->get_id() == i && p->get_styleurl() == w && p->get_name() == "n", "only the set fields"); KV_ASSERT(p->get_unknown_elements_array_size() == 1, "unknown content of the target is kept");
}

KV_HARNESS(attrs) {
  static const char* const T[] = {"Placemark", "kml", "Point", "Schema", "Data", "SchemaData", "Snippet", "hotSpot", "atom:link", "coordinates", "Update"}; static const char* const A[] = {"id", "u", "v:w", "xmlns", "xmlns:a", "xmlns:b", "name", "x"};
  string t = T[kv_pick(11)]; unsigned i = kv_pick(8), j = kv_pick(8); KV_ASSUME(i < j); string v = "1" + kv_alpha(1, "ab<");
  unsigned mi = kv_pick(4), mj = kv_pick(4); string in[2], x; const char* w[2]; std::vector<std::pair<string, string> > want; bool num = t == "hotSpot";
  for (int z = 0; z < 2; z++) { unsigned m = z ? mj : mi; const char* n = A[z ? j : i]; if (num && n[0] == 'x' && !n[1]) v = "1"; if (m & 1) in[0] += string(" ") + n + "=\"" + xesc(v) + "\""; if (m & 2) in[1] += string(" ") + n + "=\"t\""; }
  ElementPtr a = Parse("<" + t + in[0] + "/>", NULL), b = Parse("<" + t + in[1] + "/>", NULL); KV_ASSERT(a && b, "parsed"); string sa = SerializeRaw(a), sb = SerializeRaw(b); XN xa, xb, xr; KV_ASSERT(xread(sa, &xa) && xread(sb, &xb), "read"); (void)w;
  bool f = kv_pick(2); if (f) MergeFields(a, b); else MergeElements(a, b); KV_ASSERT(SerializeRaw(a) == sa, "the source is unchanged"); KV_ASSERT(xread(SerializeRaw(b), &xr), "read");
  for (size_t k = 0; k < xa.at.size(); k++) { const string* g = xr.attr(xa.at[k].first); KV_ASSERT(g && *g == xa.at[k].second, "every attribute of the source reaches the target"); } size_t only = 0;
  for (size_t k = 0; k < xb.at.size(); k++) if (!xa.attr(xb.at[k].first)) { only++; const string* g = xr.attr(xb.at[k].first); KV_ASSERT(g && *g == xb.at[k].second, "every other attribute of the target is kept"); } KV_ASSERT(xr.at.size() == xa.at.size() + only, "no other attribute");
  for (int z = 0; z < 2; z++) { unsigned m = z ? mj : mi; const string* g = xr.attr(A[z ? j : i]); if (t != "coordinates") KV_ASSERT((g != 0) == (m != 0) && (!g || num || *g == (m & 1 ? v : string("t"))), "as written in the documents"); }
}
KV_HARNESS(scale) {
  KmlFactory* f = KmlFactory::GetFactory(); unsigned k = kv_pick(3); string t = kv_text(1, 'q');
  if (k == 0) { PlacemarkPtr a = f->CreatePlacemark(), b = f->CreatePlacemark(); string l = kv_long(10000, t); a->set_name(l); b->set_name("x"); b->set_address("y"); MergeFields(a, b); KV_ASSERT(b->get_name() == l && b->get_address() == "y", "the field set by the source"); }
  if (k == 1) { unsigned n = kv_size(300); string x = "<Placemark"; for (unsigned i = 0; i < n; i++) x += " a" + num(i) + "=\"" + num(i) + "\""; ElementPtr a = Parse(x + "/>", NULL), b = Parse("<Placemark a0=\"z\" b=\"y\"/>", NULL); MergeFields(a, b); XN r; KV_ASSERT(xread(SerializeRaw(b), &r) && r.at.size() == n + 1 && r.attr("b") && *r.attr("b") == "y", "every attribute"); for (unsigned i = 0; i < n; i++) KV_ASSERT(r.attr("a" + num(i)) && *r.attr("a" + num(i)) == num(i), "of the source"); }
  if (k == 2) { unsigned n = kv_size(1025), m = kv_size(5); CoordinatesPtr a = f->CreateCoordinates(), b = f->CreateCoordinates(); for (unsigned i = 0; i < n; i++) a->add_latlng(1, i); for (unsigned i = 0; i < m; i++) b->add_latlng(9, 9); MergeElements(a, b); KV_ASSERT(b->get_coordinates_array_size() == n, "replaced"); for (unsigned i = 0; i < n; i++) KV_ASSERT(b->get_coordinates_array_at(i) == a->get_coordinates_array_at(i), "by those of the source"); }
}
KV_HARNESS(wide) {
  Cls c = cls(kv_pick(NDEFS)); std::vector<size_t> s; for (size_t i = 0; i < c.n; i++) if (c.e[i].simple()) s.push_back(i); KV_ASSUME(!s.empty()); const Ent& e = c.e[s[kv_pick(s.size())]]; string t; Val v = sch::wide(e, &t), z; z.s = "z"; z.d = 7.5; z.i = e.k == 'b' || e.k == 'e' ? 0 : 7; KV_ASSUME(e.k != 't' || !v.s.empty());
  for (int k = 0; k < 2; k++) { ElementPtr a = make(c.t), b = make(c.t); e.set(a.get(), v); if (k) e.set(b.get(), z); MergeElements(a, b); KV_ASSERT(e.has(b.get()) && same(e, e.get(b.get()), v), "the source's value"); KV_ASSERT(e.has(a.get()) && same(e, e.get(a.get()), v), "the source is unchanged"); for (size_t i = 0; i < c.n; i++) if (&c.e[i] != &e && c.e[i].k != 't') KV_ASSERT(!c.e[i].has(b.get()), "nothing else is set"); }
}
KV_HARNESS(entry) {
  KmlFactory* f = KmlFactory::GetFactory(); AtomEntryPtr e[2]; string src[2], ty[2], sm[2], ti[2]; unsigned nl[2], nc[2], ct[2]; for (int i = 0; i < 2; i++) { e[i] = f->CreateAtomEntry(); nl[i] = kv_pick(2); nc[i] = kv_pick(2); ct[i] = kv_pick(4); if (nc[i]) { AtomCategoryPtr c = f->CreateAtomCategory(); c->set_term(i ? "c1" : "c0"); e[i]->add_category(c); } if (nl[i]) { AtomLinkPtr l = f->CreateAtomLink(); l->set_href(i ? "l1" : "l0"); e[i]->add_link(l); } if (ct[i]) { AtomContentPtr c = f->CreateAtomContent(); if (ct[i] & 1) { src[i] = kv_alpha(1, "xy"); c->set_src(src[i]); } if (ct[i] & 2) { ty[i] = kv_alpha(1, "zw"); c->set_type(ty[i]); } e[i]->set_content(c); } unsigned t = kv_pick(3); if (t & 1) { sm[i] = kv_alpha(1, "pq"); e[i]->set_summary(sm[i]); } if (t & 2) { ti[i] = kv_alpha(1, "rs"); e[i]->set_title(ti[i]); } }
  string before = SerializeRaw(e[0]); kmlengine::MergeElements(e[0], e[1]); KV_ASSERT(SerializeRaw(e[0]) == before, "the source is left alone"); for (int i = 1; i >= 0; i--) { if (nc[i]) KV_ASSERT(e[1]->get_category_array_at(i ? 0 : nc[1])->get_term() == (i ? "c1" : "c0"), "categories in order"); if (nl[i]) KV_ASSERT(e[1]->get_link_array_at(i ? 0 : nl[1])->get_href() == (i ? "l1" : "l0"), "links in order"); } KV_ASSERT(e[1]->get_category_array_size() == nc[0] + nc[1] && e[1]->get_link_array_size() == nl[0] + nl[1], "arrays are appended");
  KV_ASSERT(e[1]->has_content() == (ct[0] || ct[1]), "content"); if (ct[0] || ct[1]) { AtomContentPtr c = e[1]->get_content(); KV_ASSERT(c->has_src() == !!((ct[0] | ct[1]) & 1) && c->get_src() == (ct[0] & 1 ? src[0] : src[1]) && c->has_type() == !!((ct[0] | ct[1]) & 2) && c->get_type() == (ct[0] & 2 ? ty[0] : ty[1]), "content is merged"); } KV_ASSERT(e[1]->get_summary() == (sm[0].empty() ? sm[1] : sm[0]) && e[1]->get_title() == (ti[0].empty() ? ti[1] : ti[0]), "fields are replaced");
}
