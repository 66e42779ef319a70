// P13: object and shared-style lookup by id is exact.
// @h parse q=90 t=400 | a Document with shared Style and StyleMap, a Placemark with inline style and geometry, and a Folder with a nested Document that has a style: each of 3 (thorough 4) symbolically chosen positions carries an id of one symbolic character; every lookup with a symbolic character, file-level parse
// @h strict q=60 t=300 | the same documents with strict parsing: fails exactly when two objects have one id
// @h import q=120 t=300 | the same trees imported, strictly and laxly
// @h long q=30 t=100 | two ids of 3 symbolic characters each, on a Style and a Placemark, and a lookup of 3 symbolic characters
// @h map q=120 t=300 | mapping, clearing and remapping ids over the same trees: the map has exactly the ids, duplicates are listed, every id is cleared or replaced
// @h many q=60 t=150 | documents of 1..300 shared styles or features with distinct ids, one of them symbolic or 1..4097 characters long, parsed and imported: each is found, and nothing under other ids
// @h two q=60 t=150 | two documents with a symbolic id each at any place, alive at once, parsed or imported: lookups in one never see the other
// @outside more than four ids at once; ids longer than 3 characters
#include "kvu.h"
#include "kml/dom.h"
#include "kml/engine.h"
#include "kml/engine/id_mapper.h"
#include "kml/engine/object_id_parser_observer.h"
#include "kml/engine/shared_style_parser_observer.h"
using namespace kmldom; using namespace kmlengine; using std::string;
// positions in document (= serialisation) order; shared = a style selector directly in a Document
static const int NP = 12;
static const bool SHARED[NP] = {false, true, true, false, false, false, false, false, false, true, false, false};
static const char* const TAG[NP] = {"Document", "Style", "StyleMap", "Placemark", "Style", "LineStyle", "Point", "Folder", "Document", "StyleMap", "Pair", "Placemark"};
struct Doc { string id[NP]; bool has[NP]; string xml() const { string a[NP]; for (int i = 0; i < NP; i++) { a[i] = string("<") + TAG[i]; if (has[i]) a[i] += " id=\"" + xesc(id[i]) + "\""; a[i] += ">"; }
  return "<kml>" + a[0] + a[1] + "</Style>" + a[2] + "</StyleMap>" + a[3] + a[4] + a[5] + "</LineStyle></Style>" + a[6] + "</Point></Placemark>" + a[7] + a[8] + a[9] + a[10] + "</Pair></StyleMap>" + a[11] + "</Placemark></Document></Folder></Document></kml>"; }
  int last(const string& s, bool shared) const { int r = -1; for (int i = 0; i < NP; i++) if (has[i] && (!shared || SHARED[i]) && id[i] == s) r = i; return r; }
  bool dup() const { for (int i = 0; i < NP; i++) for (int j = 0; j < i; j++) if (has[i] && has[j] && id[i] == id[j]) return true; return false; } };
static Doc doc(unsigned n) { Doc d; for (int i = 0; i < NP; i++) d.has[i] = false; unsigned p = 0; for (unsigned k = 0; k < n; k++) { p += kv_pick(NP - n - p + k + 1); d.has[p] = true; d.id[p] = kv_alpha(1, "abcdef"); p++; } return d; }
static void walk(const ElementPtr& root, ElementPtr* e) {
  DocumentPtr d = AsDocument(AsKml(root)->get_feature()); e[0] = d; e[1] = d->get_styleselector_array_at(0); e[2] = d->get_styleselector_array_at(1); PlacemarkPtr p = AsPlacemark(d->get_feature_array_at(0)); e[3] = p; e[4] = p->get_styleselector(); e[5] = AsStyle(p->get_styleselector())->get_linestyle(); e[6] = p->get_geometry(); FolderPtr f = AsFolder(d->get_feature_array_at(1)); e[7] = f; DocumentPtr g = AsDocument(f->get_feature_array_at(0)); e[8] = g; e[9] = g->get_styleselector_array_at(0); e[10] = AsStyleMap(g->get_styleselector_array_at(0))->get_pair_array_at(0); e[11] = g->get_feature_array_at(0);
}
static void lookups(const Doc& d, const KmlFilePtr& f) {
  ElementPtr e[NP]; walk(f->get_root(), e); string q = kv_alpha(1, "abcdef"); int w = d.last(q, false), s = d.last(q, true); ObjectPtr o = f->GetObjectById(q); StyleSelectorPtr y = f->GetSharedStyleById(q);
  KV_ASSERT((o.get() != 0) == (w >= 0), "found exactly when an object has that id"); if (w >= 0) KV_ASSERT(o == e[w], "the last object with that id"); KV_ASSERT((y.get() != 0) == (s >= 0), "found exactly when a shared style has that id"); if (s >= 0) KV_ASSERT(y == e[s], "the last shared style with that id"); KV_ASSERT(!f->GetObjectById("") && !f->GetSharedStyleById(""), "no object has the empty id"); KV_ASSERT(!f->GetObjectById(q + "a"), "no prefix matches");
}
KV_HARNESS(parse) { Doc d = doc(kv_tier() ? 4 : 3); KmlFilePtr f = KmlFile::CreateFromParse(d.xml(), 0); KV_ASSERT(f, "parsed"); lookups(d, f); }
KV_HARNESS(strict) {
  Doc d = doc(3); bool which = kv_bool(); ObjectIdMap m; SharedStyleMap s; ObjectIdParserObserver o(&m, true); SharedStyleParserObserver y(&s, true); Parser p; if (which) p.AddObserver(&o); else p.AddObserver(&y); string err; ElementPtr r = p.Parse(d.xml(), &err);
  bool bad = false; for (int i = 0; i < NP; i++) for (int j = 0; j < i; j++) if (d.has[i] && d.has[j] && (which || (SHARED[i] && SHARED[j])) && d.id[i] == d.id[j]) bad = true; KV_ASSERT((r.get() == 0) == bad, "fails exactly on duplicate ids"); if (bad) KV_ASSERT(!err.empty(), "with an error"); else if (which) KV_ASSERT(m.size() == 3, "every id is mapped"); else { size_t n = 0; for (int i = 0; i < NP; i++) n += d.has[i] && SHARED[i]; KV_ASSERT(s.size() == n, "every shared style is mapped"); }
}
KV_HARNESS(import) {
  Doc d = doc(3); ElementPtr r = Parse(d.xml(), 0); KV_ASSERT(r, "parsed"); bool lax = kv_bool(); KmlFilePtr f = lax ? KmlFile::CreateFromImportLax(r) : KmlFile::CreateFromImport(r); KV_ASSERT((f.get() != 0) == (lax || !d.dup()), "strict import fails exactly on duplicate ids"); if (f) lookups(d, f);
}
KV_HARNESS(long) {
  string a = kv_name(3), b = kv_name(3), q = kv_name(3); KmlFilePtr f = KmlFile::CreateFromParse("<Document><Style id=\"" + a + "\"/><Placemark id=\"" + b + "\"/></Document>", 0); KV_ASSERT(f, "parsed"); DocumentPtr d = AsDocument(f->get_root()); ObjectPtr o = f->GetObjectById(q); StyleSelectorPtr s = f->GetSharedStyleById(q);
  if (q == b) KV_ASSERT(o == d->get_feature_array_at(0), "the placemark"); else if (q == a) KV_ASSERT(o == d->get_styleselector_array_at(0), "the style"); else KV_ASSERT(!o, "nothing"); KV_ASSERT(s == (q == a ? d->get_styleselector_array_at(0) : StyleSelectorPtr()), "the shared style");
}
KV_HARNESS(map) {
  Doc d = doc(3); ElementPtr r = Parse(d.xml(), 0); KV_ASSERT(r, "parsed"); ElementPtr e[NP]; walk(r, e); unsigned k = kv_pick(3); ObjectIdMap m; ElementVector dup; MapIds(r, &m, &dup); size_t n = 0; for (int i = 0; i < NP; i++) if (d.has[i]) { KV_ASSERT(m.count(d.id[i]) == 1 && m[d.id[i]] == e[d.last(d.id[i], false)], "the last one wins"); n += d.last(d.id[i], false) == i; } KV_ASSERT(m.size() == n && dup.size() == 3 - n, "exactly the ids, and the duplicates"); for (size_t i = 0; i < dup.size(); i++) { ObjectPtr o = AsObject(dup[i]); KV_ASSERT(o && o->has_id() && m[o->get_id()] != o, "duplicates are those that lost"); }
  if (k == 0) { ClearIds(r); for (int i = 0; i < NP; i++) KV_ASSERT(!AsObject(e[i])->has_id(), "every id is cleared"); return; }
  if (k == 1) { kmlbase::StringMap sm; string from = kv_alpha(1, "abcdef"), to = kv_name(1); sm[from] = to; ObjectIdMap out; int c = RemapIds(m, sm, &out); int hit = d.last(from, false); KV_ASSERT(c == (int)m.size() - (hit >= 0), "ids without a mapping are cleared"); KV_ASSERT(out.size() == (size_t)(hit >= 0), "remapped objects"); for (ObjectIdMap::iterator i = m.begin(); i != m.end(); ++i) { ObjectPtr o = i->second; if (hit >= 0 && o == e[hit]) KV_ASSERT(o->get_id() == to && out[to] == o, "mapped"); else KV_ASSERT(!o->has_id(), "cleared"); } return; }
  ObjectIdMap m2; MapIds(r, &m2, NULL); KV_ASSERT(m2.size() == m.size(), "the duplicate list is optional");
}
KV_HARNESS(many) {
  unsigned k = kv_pick(2), w = kv_pick(3); bool lng = kv_pick(2); unsigned n = lng ? 3 : kv_size(300), at = w == 0 ? 0 : w == 1 ? n / 2 : n - 1; string id = lng ? kv_long(4097, kv_name(1)) : "q" + kv_name(1), x = "<Document>"; for (unsigned i = 0; i < n; i++) { string a = i == at ? id : "i" + num(i); x += k ? "<Placemark id=\"" + a + "\"/>" : "<Style id=\"" + a + "\"/>"; } x += "</Document>"; KmlFilePtr f; if (kv_pick(2)) f = KmlFile::CreateFromParse(x, NULL); else f = KmlFile::CreateFromImport(Parse(x, NULL)); KV_ASSERT(f, "a file"); DocumentPtr d = AsDocument(f->get_root());
  for (unsigned i = 0; i < n; i++) { string a = i == at ? id : "i" + num(i); ObjectPtr o = k ? ObjectPtr(d->get_feature_array_at(i)) : ObjectPtr(d->get_styleselector_array_at(i)); KV_ASSERT(f->GetObjectById(a) == o, "found by its id"); KV_ASSERT(f->GetSharedStyleById(a) == (k ? StyleSelectorPtr() : AsStyleSelector(o)), "shared style by its id"); } KV_ASSERT(!f->GetObjectById("i" + num(n)) && !f->GetObjectById(id + "x") && !f->GetObjectById(""), "nothing else");
}
KV_HARNESS(two) {
  Doc a = doc(1), b = doc(1); KmlFilePtr f = KmlFile::CreateFromParse(a.xml(), 0), g = kv_bool() ? KmlFile::CreateFromParse(b.xml(), 0) : KmlFile::CreateFromImport(Parse(b.xml(), 0)); KV_ASSERT(f && g, "parsed"); lookups(a, f); lookups(b, g); f = 0; lookups(b, g);
}
