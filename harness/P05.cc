// P05: unknown and misplaced content.
// @h alltypes q=60 t=120 | every element type the library can create as parent x {unknown child, unknown attribute, misplaced complex child, unknown child around a known one}
// @h order q=80 t=300 | 5 parents x every sequence of 3 children from 10 known/misplaced/unknown items (thorough 4)
// @h body q=40 t=200 | unknown element with 3 symbolic XML-legal characters as its text (given escaped), beside known siblings; also nested one level down
// @h uattr q=30 t=100 | attributes of unknown elements and unknown attributes of known elements: 2 symbolic name characters, 2 symbolic value characters (given escaped)
// @h uname q=30 t=100 | unknown child whose name is 4 symbolic name characters (known or unknown, any case)
// @h pairs q=170 t=300 | every element type as parent x every element name of the schemas (simple or complex) that is no slot of that parent, before a known sibling where the parent has one: kept exactly once, whatever the parent
// @h nest q=60 t=200 | unknown content nested 1 to 96 deep with a symbolic letter at its heart, holding unknown, misplaced or known elements; unknown elements with 1 to 9 attributes and 1 to 9 children
// @h desc q=30 t=100 | description elements inside unknown content, before and after known descriptions
// @h scale q=60 t=150 | an element with 1..300 unknown children, misplaced children or unknown attributes, one with a symbolic text; an unknown element of 1..300 attributes or children, or 1..70000 characters
// @outside attributes and child elements of simple (text-only) fields, character data directly inside structured elements, comments and processing instructions: dropped by design; foreign markup inside description is taken as its text by design
#include "schema.h"
#include "xt.h"
#include "kml/dom/xsd.h"
using namespace kmldom;
static XN tree(const std::string& s) { XN n; bool ok = xread(s, &n); KV_ASSERT(ok, "serialised text is well-formed"); return n; }
static void strip(XN* n) {  // white space between children carries no meaning
  if (n->kids.size()) { bool w = true; for (size_t i = 0; i < n->text.size(); i++) w &= n->text[i] == '\n' || n->text[i] == ' '; if (w) n->text = ""; }
  for (size_t i = 0; i < n->kids.size(); i++) strip(&n->kids[i]);
}
KV_HARNESS(alltypes) {
  unsigned id = 1 + kv_pick16(Type_Invalid - 1);
  Xsd* xsd = Xsd::GetSchema();
  ElementPtr made = KmlFactory::GetFactory()->CreateElementById((KmlDomType)id);
  if (!made || xsd->ElementType(id) != XSD_COMPLEX_TYPE) { KV_ASSERT(!made || xsd->ElementType(id) == XSD_COMPLEX_TYPE, "only complex elements are created"); return; }
  if (id == Type_IconStyleIcon || id == Type_coordinates) return;  // tag shared with Icon; text-only
  std::string nm = xsd->ElementName(id);
  unsigned k = kv_pick(4);
  static const char* in[] = {"<zz q=\"1\">t<y/>u</zz>", "", "<Alias><targetHref>h</targetHref></Alias>", "<zz><name>n</name></zz>"};
  if (k == 2 && (id == Type_ResourceMap || id == Type_Change)) return;  // Alias/objects belong there
  std::string x = "<" + nm + (k == 1 ? " uu=\"vv\"" : "") + ">" + in[k] + "</" + nm + ">";
  ElementPtr e = Parse(x, 0);
  KV_ASSERT(e && (unsigned)e->Type() == id, "foreign content does not make the parse fail");
  XN n = tree(SerializeRaw(e));
  KV_ASSERT(n.name == nm, "same parent");
  if (k == 1) { KV_ASSERT(n.attr("uu") && *n.attr("uu") == "vv", "unknown attribute kept"); return; }
  XN want = tree(in[k]);
  KV_ASSERT(n.nkid(want.name) == 1, "kept exactly once");
  strip(&n); strip(&want);
  KV_ASSERT(*n.kid(want.name) == want, "kept unchanged");
}
static bool SLOT(int parent, unsigned id) {  // slots the table has no entry for: simple-valued arrays
  return (parent == Type_GxTrack && (id == Type_when || id == Type_GxCoord || id == Type_GxAngles)) || (parent == Type_GxSimpleArrayData && id == Type_GxValue) || (parent == Type_ItemIcon && id == Type_state);
}
struct Item { const char* text; int cls[5]; };  // class per parent: >=0 known with schema rank, -1 misplaced, -2 unknown
// parents: Placemark, Folder, Style, NetworkLink, Point
static const char* kPar[] = {"Placemark", "Folder", "Style", "NetworkLink", "Point"};
static const Item kIt[] = {
  {"<name>n</name>", {0, 0, -1, 0, -1}},
  {"<visibility>0</visibility>", {1, 1, -1, 1, -1}},
  {"<zz>a<b>c</b>d</zz>", {-2, -2, -2, -2, -2}},
  {"<extrude>1</extrude>", {-1, -1, -1, -1, 0}},
  {"<Lod><minLodPixels>3</minLodPixels></Lod>", {-1, -1, -1, -1, -1}},
  {"<qq v=\"1\"><Point><extrude>1</extrude></Point></qq>", {-2, -2, -2, -2, -2}},
  {"<PolyStyle><fill>0</fill></PolyStyle>", {-1, -1, 5, -1, -1}},
  {"<description>d</description>", {2, 2, -1, 2, -1}},
  {"<Link><href>h</href></Link>", {-1, -1, -1, 6, -1}},
  {"<zz/>", {-2, -2, -2, -2, -2}},
};
KV_HARNESS(order) {
  unsigned par = kv_pick(5), cnt = kv_tier() ? 4 : 3; unsigned pick[4]; std::string x = std::string("<") + kPar[par] + ">";
  for (unsigned i = 0; i < cnt; i++) {
    pick[i] = kv_pick(10);
    for (unsigned j = 0; j < i; j++) if (pick[j] == pick[i] && kIt[pick[i]].cls[par] >= 0) return;  // a repeated known field: last one wins, not this property
    x += kIt[pick[i]].text;
  }
  x += std::string("</") + kPar[par] + ">";
  ElementPtr e = Parse(x, 0);
  KV_ASSERT(e, "parses");
  XN n = tree(SerializeRaw(e)); strip(&n);
  KV_ASSERT(n.kids.size() == cnt, "nothing dropped, nothing duplicated");
  std::vector<XN> want;
  for (int rank = 0; rank < 8; rank++) for (unsigned i = 0; i < cnt; i++) if (kIt[pick[i]].cls[par] == rank) want.push_back(tree(kIt[pick[i]].text));
  for (int c = -1; c >= -2; c--) {
    size_t at = 0; bool first = true;  // foreign items keep their relative order within their kind
    for (unsigned i = 0; i < cnt; i++) if (kIt[pick[i]].cls[par] == c) {
      XN w = tree(kIt[pick[i]].text); strip(&w);
      size_t j = first ? 0 : at + 1; while (j < n.kids.size() && !(n.kids[j] == w)) j++;
      KV_ASSERT(j < n.kids.size(), "foreign content kept, unchanged and in order");
      at = j; first = false;
    }
  }
  for (size_t i = 0; i < want.size(); i++) { strip(&want[i]); KV_ASSERT(n.nkid(want[i].name) == 1 && *n.kid(want[i].name) == want[i], "known siblings unaffected"); }
}
KV_HARNESS(body) {
  std::string t = kv_text(kv_tier() ? 4 : 3); bool nest = kv_pick(2);
  std::string u = nest ? "<zz><y>" + xesc(t) + "</y></zz>" : "<zz>" + xesc(t) + "</zz>";
  ElementPtr e = Parse("<Placemark><name>n</name>" + u + "<visibility>0</visibility></Placemark>", 0);
  KV_ASSERT(e, "parses");
  PlacemarkPtr p = AsPlacemark(e);
  KV_ASSERT(p->get_name() == "n" && !p->get_visibility(), "known siblings unaffected");
  std::string s = SerializeRaw(e); kv_obs(s);
  XN n = tree(s);
  KV_ASSERT(n.kids.size() == 3 && n.nkid("zz") == 1, "kept once");
  const XN* z = n.kid("zz");
  KV_ASSERT(nest ? z->kids.size() == 1 && z->kids[0].name == "y" && z->kids[0].text == t : z->text == t, "text of unknown content unchanged");
  ElementPtr r = Parse(s, 0);
  KV_ASSERT(r && SerializeRaw(r) == s, "stays unchanged from then on");
}
KV_HARNESS(uattr) {
  std::string nm = "u" + kv_name(1), v = kv_text(2), x; bool known = kv_pick(2);
  if (known) x = "<Placemark " + nm + "=\"" + xesc(v) + "\"><name>n</name></Placemark>";
  else x = "<Placemark><name>n</name><zz " + nm + "=\"" + xesc(v) + "\" w=\"1\"/></Placemark>";
  // literal white space in an attribute is normalised to spaces by XML itself
  for (size_t i = 0; i < v.size(); i++) KV_ASSUME(v[i] != '\n' && v[i] != '\t');
  ElementPtr e = Parse(x, 0);
  KV_ASSERT(e && AsPlacemark(e)->get_name() == "n", "parses");
  std::string s = SerializeRaw(e); kv_obs(s);
  XN n = tree(s);
  const XN* h = known ? &n : n.kid("zz");
  KV_ASSERT(h && h->attr(nm) && *h->attr(nm) == v, "unknown attribute kept with its value");
  KV_ASSERT(h->at.size() == (known ? 1u : 2u), "no attribute lost or invented");
}
KV_HARNESS(uname) {
  std::string nm = kv_name(4);
  std::string u = "<" + nm + ">7</" + nm + ">";
  ElementPtr e = Parse("<Folder>" + u + "<address>b</address></Folder>", 0);
  KV_ASSERT(e, "parses");
  KV_ASSERT(AsFolder(e)->get_address() == "b", "known sibling unaffected");
  XN n = tree(SerializeRaw(e));
  KV_ASSERT(n.nkid(nm) == 1, "kept exactly once under its own name");
  if (Xsd::GetSchema()->ElementType(Xsd::GetSchema()->ElementId(nm)) != XSD_COMPLEX_TYPE)
    KV_ASSERT( n.kid(nm)->text == "7" || n.kid(nm)->text == "1" || n.kid(nm)->text == "0", "content kept");
  kv_obs(SerializeRaw(e));
}
KV_HARNESS(pairs) {
  using namespace sch; Cls c = cls(kv_pick(NDEFS)); if (c.t == Type_IconStyleIcon) return;
  unsigned id = 1 + kv_pick16(Type_Invalid - 1); Xsd* xsd = Xsd::GetSchema(); XsdType xt = xsd->ElementType(id); std::string nm = xsd->ElementName(id);
  if (nm == "" || (xt != XSD_COMPLEX_TYPE && xt != XSD_SIMPLE_TYPE)) return;
  ElementPtr made = KmlFactory::GetFactory()->CreateElementById((KmlDomType)id);
  if (xt == XSD_COMPLEX_TYPE && !made) return;
  std::string sib; for (size_t i = 0; i < c.n; i++) { const Ent& e = c.e[i]; if (e.attr) continue;
    if (e.simple() && e.k != 't') { if (nm == e.xml) return; if (sib == "" && e.k == 's') sib = std::string("<") + e.xml + ">k</" + e.xml + ">"; }
    if (!e.simple() && made) for (const int* t = e.types; *t >= 0; t++) if (*t == (int)id || nm == xmlname(*t)) return; }
  if (made && c.t == Type_Change && made->IsA(Type_Object)) return;
  if (SLOT(c.t, id)) return;
  static const char* const cont[] = {"", "id=\"i\"", "uu=\"v\""};
  std::string x = "<" + nm + (xt == XSD_COMPLEX_TYPE ? std::string(" ") + cont[made->IsA(Type_Object) ? 1 : 2] : std::string("")) + ">" + (xt == XSD_SIMPLE_TYPE ? "1" : id == Type_coordinates ? "1,2,3" : "") + "</" + nm + ">";
  ElementPtr e = Parse("<" + std::string(c.xml) + ">" + x + sib + "</" + c.xml + ">", 0); KV_ASSERT(e && e->Type() == c.t, "parses");
  XN n = tree(SerializeRaw(e)); KV_ASSERT(n.nkid(nm) == 1, "kept exactly once"); KV_ASSERT(n.kids.size() == (sib == "" ? 1u : 2u), "nothing else lost or invented");
  if (xt == XSD_SIMPLE_TYPE) KV_ASSERT(n.kid(nm)->text == "1", "with its text"); else if (id != Type_coordinates) KV_ASSERT(n.kid(nm)->at.size() == 1, "with its attribute");
}
KV_HARNESS(nest) {
  unsigned kind = kv_pick(2); std::string t = kv_alpha(1, "ab<&"), u;
  if (kind) { static const char* const in[] = {"", "<name>x</name>", "<Point><extrude>1</extrude></Point>"}; unsigned d = 1 + kv_pick(96), w = kv_pick(3); u = xesc(t) + in[w]; for (unsigned i = 0; i < d; i++) u = i % 3 == 1 ? "<y k=\"" + num(i) + "\">" + u + "</y>" : "<zz>" + u + "</zz>"; if ((d - 1) % 3 == 1) u = "<zz>" + u + "</zz>"; }
  else { unsigned na = kv_pick(10), nc = kv_pick(10); u = "<zz"; for (unsigned i = 0; i < na; i++) u += " a" + num(i) + "=\"" + num(i * 3) + xesc(t) + "\""; u += ">"; for (unsigned i = 0; i < nc; i++) u += i == 4 ? "<c>" + xesc(t) + "</c>" : "<c/>"; u += "</zz>"; }
  static const char* const par[][2] = {{"<Placemark><name>n</name>", "<visibility>0</visibility></Placemark>"}, {"<Lod><minLodPixels>1</minLodPixels>", "<maxLodPixels>2</maxLodPixels></Lod>"}}; unsigned pr = kv_pick(2);
  ElementPtr e = Parse(par[pr][0] + u + par[pr][1], 0); KV_ASSERT(e, "parses"); XN n = tree(SerializeRaw(e)), want = tree(u); strip(&n); strip(&want);
  KV_ASSERT(n.kids.size() == 3 && n.nkid("zz") == 1, "kept once, siblings too"); KV_ASSERT(*n.kid("zz") == want, "unchanged, however deep, with all its attributes and children");
}
KV_HARNESS(desc) {
  static const char* it[] = {"<description>a</description>", "<zz><description>b</description></zz>", "<zz><description><description>c</description></description></zz>", "<name>n</name>", "<zz>d</zz>"};
  unsigned a = kv_pick(5), b = kv_pick(5), c = kv_pick(5);
  std::string t = kv_alpha(1, "ab<&");
  std::string x = std::string("<Folder><Placemark>") + it[a] + it[b] + "</Placemark><Placemark>" + it[c] + "<description>" + xesc(t) + "</description></Placemark></Folder>";
  if (a == b && (a == 0 || a == 3)) return;
  if (c == 0) return;
  ElementPtr e = Parse(x, 0);
  KV_ASSERT(e, "parses");
  FolderPtr f = AsFolder(e);
  KV_ASSERT(f->get_feature_array_size() == 2, "both features present");
  FeaturePtr p = f->get_feature_array_at(0), q = f->get_feature_array_at(1);
  KV_ASSERT(p->has_description() == (a == 0 || b == 0) && (!p->has_description() || p->get_description() == "a"), "description of the first feature");
  KV_ASSERT(p->has_name() == (a == 3 || b == 3), "name of the first feature");
  KV_ASSERT(q->has_description() && q->get_description() == t, "description of the second feature");
  XN n = tree(SerializeRaw(e));
  KV_ASSERT(n.kids.size() == 2 && n.kids[0].kids.size() == 2 && n.kids[1].kids.size() == 2, "everything kept in its own feature");
}
KV_HARNESS(scale) {
  unsigned k = kv_pick(6); string t = kv_text(1, 'q'), x; if (k == 5) { string l = kv_long(70000, t); XN n = tree(SerializeRaw(Parse("<Placemark><zz>" + xesc(l) + "</zz><name>n</name></Placemark>", NULL))); KV_ASSERT(n.nkid("zz") == 1 && n.kid("zz")->text == l && n.kid("name"), "the whole text"); return; }
  unsigned n = kv_size(300), w = kv_pick(3), at = w == 0 ? 0 : w == 1 ? n / 2 : n - 1; string at_, kids; for (unsigned i = 0; i < n; i++) { string v = xesc((i == at ? t : string("v")) + num(i)); if (k == 0 || k == 4) kids += "<zz>" + v + "</zz>"; if (k == 1) kids += "<Pair><styleUrl>" + v + "</styleUrl></Pair>"; if (k == 2 || k == 3) at_ += " a" + num(i) + "=\"" + v + "\""; }
  if (k < 3) x = "<Placemark" + at_ + ">" + kids + "<name>n</name></Placemark>"; else x = "<Placemark><uu" + at_ + ">" + kids + "</uu><name>n</name></Placemark>";
  ElementPtr e = Parse(x, NULL); KV_ASSERT(e, "parses"); XN r = tree(SerializeRaw(e)); KV_ASSERT(r.kid("name"), "the rest stays"); if (k >= 3) { KV_ASSERT(r.nkid("uu") == 1, "once"); r = *r.kid("uu"); }
  std::vector<string> got; for (size_t i = 0; i < r.kids.size(); i++) { if (r.kids[i].name == "zz") got.push_back(r.kids[i].text); if (r.kids[i].name == "Pair") { KV_ASSERT(r.kids[i].kid("styleUrl"), "its content"); got.push_back(r.kids[i].kid("styleUrl")->text); } }
  for (unsigned i = 0; i < n; i++) { string v = (i == at ? t : string("v")) + num(i); if (k == 2 || k == 3) { const string* a = r.attr("a" + num(i)); KV_ASSERT(a, "every attribute"); if (v.find('\n') == string::npos && v.find('\t') == string::npos) KV_ASSERT(*a == v, "with its value"); } else { KV_ASSERT(got.size() == n, "every child once"); KV_ASSERT(got[i] == v, "in order"); } }
}
