// P16: applying an update against an independent update interpreter on a generic XML tree.
// @h ops q=60 t=300 | a document with seven identified objects (containers, placemarks, a network link, a style, a point) and 2 (thorough 3) operations in sequence, each a Change, Create or Delete with a target out of those seven, a missing one or none, in three variants of content with symbolic text
// @h idmap q=40 t=150 | the same single and paired operations through ProcessUpdate, a NULL map, and a map which swaps two ids, keeps one and lacks the others
// @h multi q=40 t=200 | one operation with two objects each, same or different targets
// @h types q=40 t=150 | a Change of every simple kind of object within features: geometry, style, sub-style, view, region, link and region box, symbolic field values
// @h dup q=20 t=60 | documents in which two features have one id, in one or in different containers, nested: exactly the last one is the target
// @h ids q=15 t=60 | sources which have an id of their own, targets which have a target id, targets with symbolic ids of 2 characters
// @h scale q=60 t=150 | updates of 1..129 operations (deletions, changes or creations of one each, or one operation with that many members) on a document of as many features, symbolic name
// @h sequence q=60 t=200 | two updates of one operation each applied one after the other to the same file, the second the same object as the first or another
// @outside Change of a target by an element of another type; created objects as targets of later operations; more than three operations
#include "xt.h"
#include "kvu.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/update.h"
#include "kml/engine/update_processor.h"
using namespace kmldom; using namespace kmlengine; using std::string;
static XN parse(const string& s) { XN n; KV_ASSERT(xread(s, &n), "well-formed"); return n; }
static const char* RANK[] = {"name", "visibility", "open", "styleUrl", "Style", "Link", "extrude", "coordinates", "Point", "LineString", 0};
static int rank(const string& n) { for (int i = 0; RANK[i]; i++) if (n == RANK[i]) return i; return 100; }
static XN* at(XN* n, const string& id) { XN* r = 0; const string* a = n->attr("id"); if (a && *a == id) r = n; for (size_t i = 0; i < n->kids.size(); i++) if (XN* k = at(&n->kids[i], id)) r = k; return r; }  // the last one
static bool drop(XN* n, XN* t) { for (size_t i = 0; i < n->kids.size(); i++) { if (&n->kids[i] == t) { n->kids.erase(n->kids.begin() + i); return true; } if (drop(&n->kids[i], t)) return true; } return false; }
static XN* parent(XN* n, XN* t) { for (size_t i = 0; i < n->kids.size(); i++) { if (&n->kids[i] == t) return n; if (XN* p = parent(&n->kids[i], t)) return p; } return 0; }
static bool container(const string& n) { return n == "Document" || n == "Folder"; }
static bool feature(const string& n) { return container(n) || n == "Placemark" || n == "NetworkLink" || n == "GroundOverlay"; }
static void merge(const XN& s, XN* t) {
  if (!s.text.empty()) t->text = s.text;
  for (size_t i = 0; i < s.kids.size(); i++) { const XN& k = s.kids[i]; XN* h = 0; for (size_t j = 0; j < t->kids.size(); j++) if (t->kids[j].name == k.name) h = &t->kids[j]; if (h && !feature(k.name)) { merge(k, h); continue; }
    if (k.name == "LineString") for (size_t j = 0; j < t->kids.size(); j++) if (t->kids[j].name == "Point") { t->kids.erase(t->kids.begin() + j); break; }
    size_t p = 0; while (p < t->kids.size() && rank(t->kids[p].name) <= rank(k.name)) p++; t->kids.insert(t->kids.begin() + p, k); }
}
typedef std::map<string, string> Map;
static void apply(const XN& upd, XN* root, const Map* m) {
  for (size_t i = 0; i < upd.kids.size(); i++) { const XN& op = upd.kids[i]; for (size_t j = 0; j < op.kids.size(); j++) { const XN& s = op.kids[j]; const string* a = s.attr("targetId"); if (!a) continue; string id = *a; if (m) { Map::const_iterator f = m->find(id); if (f == m->end()) continue; id = f->second; } XN* t = at(root, id); if (!t) continue;
    if (op.name == "Change") merge(s, t); else if (op.name == "Create") { if (container(t->name) && container(s.name)) for (size_t k = 0; k < s.kids.size(); k++) if (feature(s.kids[k].name)) t->kids.push_back(s.kids[k]); } else if (op.name == "Delete" && feature(t->name)) { XN* p = parent(root, t); if (p && (container(p->name) || p->name == "kml")) drop(root, t); } } }
}
static const char DOC[] = "<kml><Document id=\"A\"><name>a</name><Style id=\"S\"><LineStyle><width>2</width></LineStyle></Style><Placemark id=\"B\"><name>b</name><Point id=\"P\"><extrude>1</extrude></Point></Placemark><Folder id=\"C\"><visibility>0</visibility><Placemark id=\"D\"><name>d</name></Placemark><Folder><name>plain</name><Placemark id=\"E\"><LineString><extrude>1</extrude></LineString></Placemark></Folder><NetworkLink id=\"F\"/></Folder></Document></kml>";
static const char ID[] = "ABCDEFSPX"; static const char* TAG[] = {"Document", "Placemark", "Folder", "Placemark", "Placemark", "NetworkLink", "Style", "Point", "Placemark"};
static const unsigned NT = 9;
static string tgt(unsigned t) { return t < NT ? string(" targetId=\"") + ID[t] + "\"" : string(); }
static string change(unsigned t, unsigned v, const string& s) {
  string tag = t < NT ? TAG[t] : "Placemark", c;
  if (tag == "Style") c = "<LineStyle><width>" + num(3 + v) + "</width></LineStyle>"; else if (tag == "Point") c = "<extrude>0</extrude>"; else if (v == 0) c = "<name>" + xesc(s) + "</name>"; else if (v == 1) c = "<visibility>0</visibility><open>1</open>"; else if (tag == "Placemark") c = "<name>" + xesc(s) + "</name><LineString><extrude>0</extrude></LineString>"; else if (tag == "NetworkLink") c = "<Link><href>" + xesc(s) + "</href></Link>"; else c = "<Placemark><name>" + xesc(s) + "</name></Placemark>";
  return "<" + tag + tgt(t) + ">" + c + "</" + tag + ">";
}
static string create(unsigned t, unsigned v, const string& s) { string tag = v == 1 ? "Document" : "Folder"; return "<" + tag + tgt(t) + ">" + (v == 2 ? "<name>no</name>" : "") + (v ? "<Placemark" + string(v == 1 ? " targetId=\"B\"" : "") + "><name>" + xesc(s) + "</name></Placemark>" : "") + "<Folder id=\"N\"><Placemark id=\"M\"><Point><extrude>1</extrude></Point></Placemark></Folder></" + tag + ">"; }
static string del(unsigned t, unsigned v) { string tag = t < NT && t < 6 && v == 0 ? TAG[t] : "Placemark"; return "<" + tag + tgt(t) + "/>"; }
static string op(unsigned k, unsigned t, unsigned v, const string& s) { return k == 0 ? "<Change>" + change(t, v, s) + "</Change>" : k == 1 ? "<Create>" + create(t, v, s) + "</Create>" : "<Delete>" + del(t, v) + "</Delete>"; }
static UpdatePtr update(const string& ops) { ElementPtr e = Parse("<Update>" + ops + "</Update>", NULL); KV_ASSERT(e, "the update parses"); return AsUpdate(e); }
static KmlFilePtr file(const string& s) { KmlFilePtr f = KmlFile::CreateFromParse(s, NULL); KV_ASSERT(f, "the document parses"); return f; }
static void check(const string& docs, const string& ops, unsigned how, const Map& m) {
  KmlFilePtr f = file(docs); UpdatePtr u = update(ops); string su = SerializeRaw(u); kmlbase::StringMap sm(m.begin(), m.end());
  if (how == 0) ProcessUpdate(u, f); else if (how == 1) ProcessUpdateWithIdMap(u, NULL, f); else ProcessUpdateWithIdMap(u, &sm, f);
  KV_ASSERT(SerializeRaw(u) == su, "the update is unchanged"); XN want = parse(docs), up = parse(su); apply(up, &want, how == 2 ? &m : 0); string out = SerializeRaw(f->get_root()); KV_ASSERT(parse(out) == want, "exactly the targeted objects are changed"); kv_obs(out);
}
KV_HARNESS(ops) { unsigned n = kv_tier() ? 3 : 2; string ops, s = kv_alpha(1, "ab<"); for (unsigned i = 0; i < n; i++) { unsigned k = kv_pick(3), t = kv_pick(NT + 1), v = kv_pick(3); if (i == 2) KV_ASSUME(v == 0); ops += op(k, t, v, i ? "q" : s); } check(DOC, ops, 0, Map()); }
KV_HARNESS(idmap) { unsigned how = kv_pick(3); Map m; m["B"] = "C"; m["C"] = "B"; m["X"] = "D"; m["E"] = "nope"; m["A"] = "A"; string ops; unsigned n = 1 + kv_pick(2); for (unsigned i = 0; i < n; i++) { static const unsigned T[] = {0, 1, 2, 3, 4, 8, 9}; unsigned k = kv_pick(3), t = T[kv_pick(7)]; if (how == 2 && k == 0) { string id = t < NT ? string(1, ID[t]) : ""; string tag = id == "B" ? "Folder" : id == "A" ? "Document" : "Placemark"; if (id == "C") tag = "Placemark"; ops += "<Change><" + tag + tgt(t) + "><name>z" + num(i) + "</name></" + tag + "></Change>"; } else ops += op(k, t, 0, "q"); } check(DOC, ops, how, m); }
KV_HARNESS(multi) { unsigned k = kv_pick(3), a = kv_pick(NT + 1), b = kv_pick(NT + 1), v = kv_pick(3); string s = kv_text(1); string x = k == 0 ? "<Change>" + change(a, v, s) + change(b, 0, "z") + "</Change>" : k == 1 ? "<Create>" + create(a, v, s) + create(b, 0, "z") + "</Create>" : "<Delete>" + del(a, 0) + del(b, 0) + "</Delete>"; check(DOC, x, 0, Map()); }
KV_HARNESS(types) {
  static const char* T[][2] = {{"LineStyle", "width"}, {"Point", "extrude"}, {"LookAt", "range"}, {"Lod", "minLodPixels"}, {"LatLonAltBox", "north"}, {"Link", "refreshInterval"}, {"Icon", "viewBoundScale"}, {"LatLonBox", "rotation"}, {"Region", "!"}, {"Style", "!"}, {"Data", "displayName"}};
  unsigned k = kv_pick(11); string tag = T[k][0], v = kv_alpha(1, "123456789"), fld = T[k][1]; if (fld == "extrude") v = kv_pick(2) ? "1" : "0";
  string doc = "<Document><Style id=\"Style\"><LineStyle id=\"LineStyle\"><width>4</width></LineStyle><PolyStyle><fill>0</fill></PolyStyle></Style><GroundOverlay><LookAt id=\"LookAt\"><range>7</range><altitudeMode>absolute</altitudeMode></LookAt><Region id=\"Region\"><LatLonAltBox id=\"LatLonAltBox\"><north>1</north><south>2</south></LatLonAltBox><Lod id=\"Lod\"><maxLodPixels>3</maxLodPixels></Lod></Region><Icon id=\"Icon\"><href>h</href></Icon><LatLonBox id=\"LatLonBox\"><north>1</north><rotation>2</rotation></LatLonBox></GroundOverlay><Placemark><ExtendedData><Data id=\"Data\" name=\"n\"><displayName>x</displayName><value>5</value></Data></ExtendedData><Point id=\"Point\"><extrude>0</extrude></Point></Placemark><NetworkLink><Link id=\"Link\"><href>g</href></Link></NetworkLink></Document>";
  string c = fld == "!" ? (tag == "Region" ? "<Lod><maxLodPixels>" + v + "</maxLodPixels></Lod>" : "<LineStyle><width>" + v + "</width></LineStyle>") : "<" + fld + ">" + v + "</" + fld + ">"; KmlFilePtr f = file(doc); UpdatePtr u = update("<Change><" + tag + " targetId=\"" + tag + "\">" + c + "</" + tag + "></Change>"); ProcessUpdate(u, f);
  XN w = parse(doc); XN* t = at(&w, fld == "!" ? (tag == "Region" ? "Lod" : "LineStyle") : tag); string fn = fld == "!" ? (tag == "Region" ? "maxLodPixels" : "width") : fld; XN* h = 0; for (size_t i = 0; i < t->kids.size(); i++) if (t->kids[i].name == fn) h = &t->kids[i]; XN x; x.name = fn; x.text = v; if (h) *h = x; else if (fn == "minLodPixels") t->kids.insert(t->kids.begin(), x); else t->kids.push_back(x); KV_ASSERT(parse(SerializeRaw(f->get_root())) == w, "exactly that field is changed");
}
KV_HARNESS(dup) {
  static const char* D[] = {"<Document><Folder id=\"B\"><Placemark id=\"D\"/></Folder><Folder id=\"B\"><name>2</name></Folder></Document>", "<Document><Placemark id=\"B\"/><Folder><Placemark id=\"B\"/><Placemark id=\"D\"/></Folder></Document>", "<Document><Folder><Folder id=\"B\"><Placemark id=\"D\"><name>x</name></Placemark></Folder></Folder><Placemark id=\"B\"/></Document>", "<Folder id=\"B\"><Placemark id=\"B\"><name>1</name></Placemark><Placemark id=\"B\"><name>2</name></Placemark><Folder id=\"B\"><Placemark id=\"D\"/></Folder></Folder>", "<kml><Document id=\"D\"><Folder id=\"B\"/></Document></kml>"};
  string doc = D[kv_pick(5)], ops; for (int i = 0; i < 2; i++) { unsigned k = kv_pick(3), t = kv_pick(2) ? 1 : 3; if (i == 0 && k != 2) t = 1; string tag = "Folder"; ops += k == 2 ? op(2, t, 0, "") : k == 1 ? op(1, t, 0, "") : ""; } KmlFilePtr f = file(doc); UpdatePtr u = update(ops);
  XN want = parse(doc), up = parse(SerializeRaw(u)); std::vector<XN*> order;
  // the target of each operation is the object which the file's map gives, i.e. the last one of the document as parsed; once it is removed there is none
  bool gone[2] = {false, false}; for (size_t i = 0; i < up.kids.size(); i++) { string id = *up.kids[i].kids[0].attr("targetId"); bool& g = gone[id == "D"]; if (g) continue; XN* t = at(&want, id); XN one; one.name = "Update"; one.kids.push_back(up.kids[i]); if (t) { bool d = up.kids[i].name == "Delete" && feature(t->name) && parent(&want, t); if (d) { if (at(t, "D")) gone[1] = true; g = true; } } else continue; apply(one, &want, 0); }
  ProcessUpdate(u, f); KV_ASSERT(parse(SerializeRaw(f->get_root())) == want, "exactly the object of that id in the file is the target");
}
KV_HARNESS(ids) {
  string a = kv_name(2), b = kv_name(2), own = kv_pick(2) ? " id=\"Z\"" : "", tt = kv_pick(2) ? " targetId=\"T\"" : ""; KmlFilePtr f = file("<Folder id=\"Q\"><Placemark id=\"" + a + "\"" + tt + "><name>n</name></Placemark></Folder>"); UpdatePtr u = update("<Change><Placemark" + own + " targetId=\"" + b + "\"><name>m</name></Placemark></Change>"); ProcessUpdate(u, f);
  bool hit = a == b; KV_ASSERT(parse(SerializeRaw(f->get_root())) == parse("<Folder id=\"Q\"><Placemark id=\"" + a + "\"" + tt + "><name>" + (hit ? "m" : "n") + "</name></Placemark></Folder>"), "ids of the file never change");
  KV_ASSERT(f->GetObjectById(a), "it is still found"); ProcessUpdate(NULL, f); ProcessUpdate(u, NULL);
}
KV_HARNESS(scale) {
  unsigned k = kv_pick(6), n = kv_size(129); string s = kv_text(1, 'q'), x = "<Document id=\"d\">", o; for (unsigned i = 0; i < n; i++) x += "<Placemark id=\"p" + num(i) + "\"/>"; x += "<Placemark id=\"last\"/></Document>"; static const char* B[] = {"<Delete>", "<Change>", "<Create>"}; static const char* E[] = {"</Delete>", "</Change>", "</Create>"}; unsigned op_ = k % 3; bool one = k < 3;
  if (one) o += B[op_]; for (unsigned i = 0; i < n; i++) { if (!one) o += B[op_]; if (op_ == 0) o += "<Placemark targetId=\"p" + num(i) + "\"/>"; if (op_ == 1) o += "<Placemark targetId=\"p" + num(i) + "\"><name>" + xesc(s) + num(i) + "</name></Placemark>"; if (op_ == 2) o += "<Document targetId=\"d\"><Placemark><name>" + xesc(s) + num(i) + "</name></Placemark></Document>"; if (!one) o += E[op_]; } if (one) o += E[op_];
  KmlFilePtr f = file(x); ProcessUpdate(update(o), f); DocumentPtr d = AsDocument(f->get_root()); size_t m = d->get_feature_array_size(); KV_ASSERT(m == (op_ == 0 ? 1 : op_ == 1 ? n + 1 : 2 * n + 1), "exactly the targets"); if (op_ == 1) for (unsigned i = 0; i < n; i++) KV_ASSERT(d->get_feature_array_at(i)->get_name() == s + num(i), "each is changed"); KV_ASSERT(d->get_feature_array_at(op_ == 0 ? 0 : n)->get_id() == "last" && !d->get_feature_array_at(op_ == 0 ? 0 : n)->has_name(), "the other is left alone"); if (op_ == 2) for (unsigned i = 0; i < n; i++) KV_ASSERT(d->get_feature_array_at(n + 1 + i)->get_name() == s + num(i), "added in order");
}
KV_HARNESS(sequence) {
  string o1 = op(kv_pick(3), kv_pick(NT), kv_pick(2), "p"), o2 = kv_pick(3) ? op(kv_pick(3), kv_pick(NT), 0, kv_alpha(1, "ab")) : ""; KmlFilePtr f = file(DOC); UpdatePtr u = update(o1), v = o2.empty() ? u : update(o2); XN want = parse(DOC); ProcessUpdate(u, f); apply(parse(SerializeRaw(u)), &want, 0); KV_ASSERT(parse(SerializeRaw(f->get_root())) == want, "the first update"); ProcessUpdate(v, f); apply(parse(SerializeRaw(v)), &want, 0); KV_ASSERT(parse(SerializeRaw(f->get_root())) == want, "the second update changes exactly its targets");
}
