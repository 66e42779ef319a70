// P01: a parsed document keeps every recognised field of every element.
// @h one q=120 t=600 | every element type x every attribute and simple field alone, with a symbolic value (2 XML-legal characters, decimals of 3 digits, ints of 2 digits, booleans, every enumeration value, 8 symbolic hexadecimal digits): getter, presence, every other field absent at its default, and the serialized form
// @h pair q=90 t=400 | every element type x every ordered pair of its simple fields (either document order, equal or different values, or the same field twice)
// @h all q=60 t=200 | every element type with all its fields and one child per child slot, document order rotated by any amount or reversed: every getter, and the serialized children in schema order
// @h child q=60 t=300 | every element type x child slot x allowed child type (arrays: every pair of types): the child, with a symbolic id, is reached by its getter, keeps its own fields and is serialized once, in place
// @h arrays q=40 t=150 | ItemIcon states (every sequence of 3), gx:value, gx:Track when arrays, with symbolic texts
// @h bad q=60 t=200 | every enumerated field with a symbolic text of 3 characters or one wrong character: reported absent, not serialized, siblings kept
// @h scale q=60 t=150 | a Folder of 1..300 placemarks, a symbolic name and coordinates on any of three of them; folders nested 1..64 deep around one; a track of 1..300 times and places: every element and field, in order
// @h wide q=90 t=250 | every element type x every simple field holding its default, 0, negative and extreme numbers (24 decimals, 21 integers), 8 colours, texts of 0..70001 characters, parsed or set: getter, presence, and the serialized form read back
// @outside longer values (P03, P07, P08, P09 decide the conversions themselves); Metadata and lower-case snippet, which the library keeps as unknown content by design
#include "schema.h"
#include "xt.h"
using namespace sch;
static ElementPtr parse(const Cls& c, const string& attrs, const string& body) {
  string s = string("<") + c.xml + attrs + ">" + body + "</" + c.xml + ">";
  if (c.t == Type_IconStyleIcon) { IconStylePtr is = AsIconStyle(Parse("<IconStyle>" + s + "</IconStyle>", NULL)); KV_ASSERT(is && is->has_icon(), "icon of an icon style"); return is->get_icon(); }
  return Parse(s, NULL);
}
static string ser(const Cls& c, const ElementPtr& e) { return SerializeRaw(e); }
static Val sym(const Ent& e, string* t) {
  Val v; switch (e.k) {
    case 's': case 't': v.s = kv_text(2); if (e.attr) KV_ASSUME((v.s[0] != '\n') & (v.s[0] != '\t') & (v.s[1] != '\n') & (v.s[1] != '\t')); *t = v.s; break; case 'd': { DecT d = kv_dect(2, 1, false); v.d = d.v; *t = d.t; break; } case 'i': { string d = kv_alpha(2, "123456789"); v.i = (d[0] - '0') * 10 + d[1] - '0'; *t = d; break; }
    case 'b': { unsigned k = kv_pick(4); static const char* const b[] = {"0", "1", "false", "true"}; v.i = k & 1; *t = b[k]; break; }
    case 'e': { unsigned n = 0; while (e.en[n]) n++; v.i = kv_pick(n); *t = e.en[v.i]; break; }
    case 'c': { string h = kv_string(8, '1'); bool ok = true; unsigned long x = 0; for (int i = 0; i < 8; i++) { unsigned char ch = h[i]; bool dg = (unsigned)(ch - '0') < 10u, lo = (unsigned)(ch - 'a') < 6u; ok &= dg | lo; x = x << 4 | (unsigned long)(ch - '0' - (lo ? 'a' - '0' - 10 : 0)); } KV_ASSUME(ok); v.i = x & 0xffffffffUL; *t = h; break; } }
  return v;
}
static void put(const Ent& e, const string& t, string* attrs, string* body) { if (e.attr) *attrs += string(" ") + e.xml + "=\"" + xesc(t) + "\""; else if (e.k == 't') *body += xesc(t); else *body += string("<") + e.xml + ">" + xesc(t) + "</" + e.xml + ">"; }
// the field as it appears in serialized form
static void shown(const Ent& e, const XN& x, const string& t, const Val& v) {
  if (e.attr) { const string* a = x.attr(e.xml); KV_ASSERT(a, "attribute written"); if (e.k == 'd') KV_ASSERT(a->size() <= 4, "number written"); else KV_ASSERT(*a == t, "attribute value written"); }
  else if (e.k == 't') KV_ASSERT(x.text == t, "content written");
  else { KV_ASSERT(x.nkid(e.xml) == 1, "field written exactly once"); const string& w = x.kid(e.xml)->text; if (e.k == 'b') KV_ASSERT(w == (v.i ? "1" : "0"), "field value written"); else if (e.k == 'd') { KV_ASSERT(w.size() <= 4, "number written"); } else KV_ASSERT(w == t, "field value written"); }
}
static std::vector<size_t> simp(const Cls& c) { std::vector<size_t> r; for (size_t i = 0; i < c.n; i++) if (c.e[i].simple()) r.push_back(i); return r; }
KV_HARNESS(one) {
  Cls c = cls(kv_pick(NDEFS)); std::vector<size_t> s = simp(c); KV_ASSUME(!s.empty()); const Ent& e = c.e[s[kv_pick(s.size())]]; string t, at, bd; Val v = sym(e, &t); put(e, t, &at, &bd);
  ElementPtr o = parse(c, at, bd); KV_ASSERT(o && o->Type() == c.t, "parsed as its type"); KV_ASSERT(e.has(o.get()), "present"); KV_ASSERT(same(e, e.get(o.get()), v), "value");
  for (size_t i = 0; i < c.n; i++) { const Ent& f = c.e[i]; if (&f == &e || (f.k == 't' && !e.attr)) continue; if (f.k == 't') continue; KV_ASSERT(!f.has(o.get()), "nothing else is set"); if (f.simple()) KV_ASSERT(same(f, f.get(o.get()), f.def), "nothing else changes"); }
  XN x; KV_ASSERT(xread(ser(c, o), &x) && x.name == c.xml, "serialized under its name"); shown(e, x, t, v); KV_ASSERT(x.at.size() + x.kids.size() == (e.k == 't' ? 0u : 1u), "nothing else is serialized");
  if (e.k == 'd') { ElementPtr o2 = parse(c, e.attr ? string(" ") + e.xml + "=\"" + *x.attr(e.xml) + "\"" : string(), e.attr ? string() : string("<") + e.xml + ">" + x.kid(e.xml)->text + "</" + e.xml + ">"); KV_ASSERT(o2 && same(e, e.get(o2.get()), v), "the written number reads back"); }
}
KV_HARNESS(pair) {
  Cls c = cls(kv_pick(NDEFS)); std::vector<size_t> s = simp(c); KV_ASSUME(!s.empty()); size_t a = kv_pick(s.size()), b = kv_pick(s.size()); const Ent &e = c.e[s[a]], &f = c.e[s[b]]; KV_ASSUME(!(a == b && (e.attr || e.k == 't')));
  string te, tf, at, bd; Val v = cval(e, 0, &te), w = cval(f, e.k == f.k && a != b ? kv_pick(2) : 1, &tf); put(e, te, &at, &bd); put(f, tf, &at, &bd); ElementPtr o = parse(c, at, bd); KV_ASSERT(o, "parsed");
  if (a != b) KV_ASSERT(e.has(o.get()) && same(e, e.get(o.get()), v), "first field"); KV_ASSERT(f.has(o.get()) && same(f, f.get(o.get()), w), "second field");
  for (size_t i = 0; i < s.size(); i++) if (i != a && i != b && c.e[s[i]].k != 't') KV_ASSERT(!c.e[s[i]].has(o.get()) && same(c.e[s[i]], c.e[s[i]].get(o.get()), c.e[s[i]].def), "nothing else is set");
  XN x; KV_ASSERT(xread(ser(c, o), &x), "serialized"); if (a != b) { if (e.k != 'd') shown(e, x, te, v); } if (f.k != 'd') shown(f, x, tf, w);
  if (!e.attr && !f.attr && e.k != 't' && f.k != 't' && a != b) { KV_ASSERT(x.kids.size() == 2, "both written"); KV_ASSERT(x.kids[a < b ? 0 : 1].name == e.xml && x.kids[a < b ? 1 : 0].name == f.xml, "in schema order"); }
}
KV_HARNESS(all) {
  Cls c = cls(kv_pick(NDEFS)); std::vector<string> items, want; string at, t; std::vector<Val> vs(c.n); string content;
  for (size_t i = 0; i < c.n; i++) {
    const Ent& e = c.e[i]; if (!e.simple()) { string n = xmlname(e.types[0]); items.push_back("<" + n + "></" + n + ">"); want.push_back(n); continue; }
    vs[i] = cval(e, 0, &t); string b; put(e, t, &at, &b); if (!b.empty()) { if (e.k == 't') content = b; else { items.push_back(b); want.push_back(e.xml); } }
  }
  size_t m = items.size(); unsigned r = m ? kv_pick(m + 1) : 0; string body = content; for (size_t i = 0; i < m; i++) body += r == m ? items[m - 1 - i] : items[(i + r) % m];
  ElementPtr o = parse(c, at, body); KV_ASSERT(o, "parsed"); for (size_t i = 0; i < c.n; i++) { const Ent& e = c.e[i]; KV_ASSERT(e.has(o.get()), "every field and child present"); if (e.simple()) KV_ASSERT(same(e, e.get(o.get()), vs[i]), "every field value"); else KV_ASSERT(e.csize(o.get()) == 1 && e.cget(o.get(), 0)->Type() == e.types[0], "every child"); }
  KV_ASSERT(o->get_unknown_elements_array_size() == 0 && o->get_misplaced_elements_array_size() == 0, "nothing is taken for unknown");
  XN x; KV_ASSERT(xread(ser(c, o), &x), "serialized"); KV_ASSERT(x.kids.size() == m, "everything once"); for (size_t i = 0; i < m; i++) KV_ASSERT(x.kids[i].name == want[i], "children in schema order");
}
static string leaf(int t, const string& id, const Ent** pf, Val* v) {  // a child element with one field set
  int d = find(t); *pf = 0; string n = xmlname(t), at, bd; if (d >= 0) { Cls c = cls(d); for (size_t i = 0; i < c.n && !*pf; i++) if (c.e[i].k == 's' && string(c.e[i].xml) != "targetId") { *pf = &c.e[i]; *v = VS(id); put(c.e[i], id, &at, &bd); } }
  return "<" + n + at + ">" + bd + "</" + n + ">";
}
KV_HARNESS(child) {
  Cls c = cls(kv_pick(NDEFS)); std::vector<size_t> s; for (size_t i = 0; i < c.n; i++) if (!c.e[i].simple()) s.push_back(i); KV_ASSUME(!s.empty()); const Ent& e = c.e[s[kv_pick(s.size())]];
  unsigned nt = 0; while (e.types[nt] >= 0) nt++; int ta = e.types[kv_pick(nt)], tb = e.k == 'n' ? e.types[kv_pick(nt)] : -1; string ia = kv_alpha(2, "abc"), ib = "q"; const Ent *fa, *fb = 0; Val va, vb; string xa = leaf(ta, ia, &fa, &va), xb = tb >= 0 ? leaf(tb, ib, &fb, &vb) : "";
  ElementPtr o = parse(c, "", xa + xb); KV_ASSERT(o && e.has(o.get()), "child present"); KV_ASSERT(e.csize(o.get()) == (tb >= 0 ? 2u : 1u), "each child once"); ElementPtr k = e.cget(o.get(), 0);
  KV_ASSERT(k && k->Type() == ta && k->GetParent() == o, "the child, of its type, with its parent"); if (fa) KV_ASSERT(fa->has(k.get()) && same(*fa, fa->get(k.get()), va), "with its fields");
  if (tb >= 0) { ElementPtr k2 = e.cget(o.get(), 1); KV_ASSERT(k2 && k2->Type() == tb && k2 != k, "in order"); if (fb) KV_ASSERT(fb->has(k2.get()) && same(*fb, fb->get(k2.get()), vb), "with its fields"); }
  for (size_t i = 0; i < c.n; i++) if (&c.e[i] != &e) KV_ASSERT(!c.e[i].has(o.get()) || c.e[i].k == 't', "nothing else is set");
  XN x, ya, yb; KV_ASSERT(xread(ser(c, o), &x) && xread(xa, &ya) && (tb < 0 || xread(xb, &yb)), "serialized"); KV_ASSERT(x.kids.size() == (tb >= 0 ? 2u : 1u), "each once"); KV_ASSERT(x.kids[0] == ya, "child serialized as read"); if (tb >= 0) KV_ASSERT(x.kids[1] == yb, "children in order");
}
KV_HARNESS(arrays) {
  unsigned k = kv_pick(3); if (k == 0) {
    static const char* const st[] = {"open", "closed", "error", "fetching0", "fetching1", "fetching2"}; unsigned n = 1 + kv_pick(3), v[3]; string t; for (unsigned i = 0; i < n; i++) { v[i] = kv_pick(6); t += (i ? " " : "") + string(st[v[i]]); }
    ItemIconPtr o = AsItemIcon(Parse("<ItemIcon><state>" + t + "</state></ItemIcon>", NULL)); KV_ASSERT(o && o->has_state() && o->get_state_array_size() == n, "every state"); for (unsigned i = 0; i < n; i++) KV_ASSERT(o->get_state_array_at(i) == (int)v[i], "in order"); KV_ASSERT(SerializeRaw(o) == "<ItemIcon><state>" + t + "</state></ItemIcon>", "written back");
  } else {
    string a = kv_text(2), b = kv_text(1); const char* nm = k == 1 ? "gx:value" : "when"; string bd = string("<") + nm + ">" + xesc(a) + "</" + nm + "><" + nm + ">" + xesc(b) + "</" + nm + ">", root = k == 1 ? "gx:SimpleArrayData" : "gx:Track";
    ElementPtr e = Parse("<" + root + ">" + bd + "</" + root + ">", NULL); KV_ASSERT(e, "parsed");
    if (k == 1) { GxSimpleArrayDataPtr o = AsGxSimpleArrayData(e); KV_ASSERT(o && o->get_gx_value_array_size() == 2 && o->get_gx_value_array_at(0) == a && o->get_gx_value_array_at(1) == b, "values in order"); } else { GxTrackPtr o = AsGxTrack(e); KV_ASSERT(o && o->get_when_array_size() == 2 && o->get_when_array_at(0) == a && o->get_when_array_at(1) == b, "times in order"); }
    XN x; KV_ASSERT(xread(SerializeRaw(e), &x) && x.kids.size() == 2 && x.kids[0].name == nm && x.kids[0].text == a && x.kids[1].text == b, "written back");
  }
}
KV_HARNESS(bad) {
  static std::vector<std::pair<size_t, size_t> > en; if (en.empty()) for (size_t i = 0; i < NDEFS; i++) { Cls c = cls(i); for (size_t j = 0; j < c.n; j++) if (c.e[j].k == 'e') en.push_back(std::make_pair(i, j)); }
  std::pair<size_t, size_t> p = en[kv_pick(en.size())]; Cls c = cls(p.first); const Ent& e = c.e[p.second]; string t; if (kv_pick(2)) t = kv_text(3); else { t = e.en[0]; t[1] = kv_alpha(1, "XYZ~")[0]; }
  string at, bd; put(e, t, &at, &bd); bool obj = string(c.e[0].xml) == "id"; if (obj) at += " id=\"k\""; ElementPtr o = parse(c, at, bd); KV_ASSERT(o, "parsed"); KV_ASSERT(!e.has(o.get()), "a text that is no enumeration value is not set");
  if (obj) KV_ASSERT(c.e[0].has(o.get()) && c.e[0].get(o.get()).s == "k", "siblings are kept"); XN x; KV_ASSERT(xread(ser(c, o), &x) && x.nkid(e.xml) == 0, "not serialized"); (void)at;
}
KV_HARNESS(scale) {
  unsigned how = kv_pick(3); string s = kv_text(1, 'q');
  if (how == 0) { unsigned n = kv_size(300), w = kv_pick(3), at = w == 0 ? 0 : w == 1 ? n / 2 : n - 1; string x = "<Folder><name>f</name>"; for (unsigned i = 0; i < n; i++) x += "<Placemark id=\"i" + num(i) + "\"><name>" + (i == at ? xesc(s) : string("n")) + num(i) + "</name><visibility>" + (i & 1 ? "0" : "1") + "</visibility><Point><coordinates>" + num(i) + ",2</coordinates></Point></Placemark>"; FolderPtr f = AsFolder(Parse(x + "</Folder>", NULL)); KV_ASSERT(f && f->get_feature_array_size() == n, "every feature"); for (unsigned i = 0; i < n; i++) { PlacemarkPtr p = AsPlacemark(f->get_feature_array_at(i)); KV_ASSERT(p && p->get_id() == "i" + num(i) && p->get_name() == (i == at ? s : string("n")) + num(i) && p->has_visibility() && p->get_visibility() == !(i & 1), "its fields"); PointPtr g = AsPoint(p->get_geometry()); KV_ASSERT(g && g->get_coordinates()->get_coordinates_array_size() == 1 && g->get_coordinates()->get_coordinates_array_at(0).get_longitude() == i, "its place"); } XN t; KV_ASSERT(xread(SerializeRaw(f), &t) && t.nkid("Placemark") == n, "all written"); }
  if (how == 1) { unsigned n = kv_size(64); string a, b; for (unsigned i = 0; i < n; i++) { a += "<Folder><name>d" + num(i) + "</name>"; b += "</Folder>"; } ElementPtr e = Parse(a + "<Placemark><name>" + xesc(s) + "</name></Placemark>" + b, NULL); for (unsigned i = 0; i < n; i++) { FolderPtr f = AsFolder(e); KV_ASSERT(f && f->get_name() == "d" + num(i) && f->get_feature_array_size() == 1, "every level"); e = f->get_feature_array_at(0); } KV_ASSERT(AsPlacemark(e) && AsPlacemark(e)->get_name() == s, "the innermost"); }
  if (how == 2) { unsigned n = kv_size(300); string x = "<gx:Track>"; for (unsigned i = 0; i < n; i++) x += "<when>" + num(i) + xesc(s) + "</when>"; for (unsigned i = 0; i < n; i++) x += "<gx:coord>" + num(i) + " 2 3</gx:coord>"; GxTrackPtr t = AsGxTrack(Parse(x + "</gx:Track>", NULL)); KV_ASSERT(t && t->get_when_array_size() == n && t->get_gx_coord_array_size() == n, "every time and place"); for (unsigned i = 0; i < n; i++) KV_ASSERT(t->get_when_array_at(i) == num(i) + s && t->get_gx_coord_array_at(i).get_longitude() == i && t->get_gx_coord_array_at(i).get_altitude() == 3, "in order"); }
}
KV_HARNESS(wide) {
  Cls c = cls(kv_pick(NDEFS)); std::vector<size_t> s = simp(c); KV_ASSUME(!s.empty()); const Ent& e = c.e[s[kv_pick(s.size())]]; string t, at, bd; Val v = sch::wide(e, &t); put(e, t, &at, &bd); ElementPtr o = parse(c, at, bd); KV_ASSERT(o && o->Type() == c.t, "parsed as its type");
  for (int k = 0; k < 2; k++) {
    KV_ASSERT(e.has(o.get()) && same(e, e.get(o.get()), v), "present with its value"); for (size_t i = 0; i < c.n; i++) if (&c.e[i] != &e && c.e[i].k != 't') KV_ASSERT(!c.e[i].has(o.get()), "nothing else is set");
    XN x; KV_ASSERT(xread(ser(c, o), &x) && x.name == c.xml, "serialized under its name"); KV_ASSERT(x.at.size() + x.kids.size() == (e.k == 't' ? 0u : 1u), "nothing else is serialized"); string w = e.attr ? *x.attr(e.xml) : e.k == 't' ? x.text : x.kid(e.xml)->text; if (e.k != 'd') KV_ASSERT(w == t, "written as it is");
    string a2, b2; put(e, w, &a2, &b2); ElementPtr o2 = parse(c, a2, b2); KV_ASSERT(o2 && e.has(o2.get()) && same(e, e.get(o2.get()), v), "reads back");
    o = make(c.t); e.set(o.get(), v);
  }
}
