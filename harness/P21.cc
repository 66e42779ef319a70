// P21: the region quadtree and regionation.
// @h quadrant q=60 t=200 | parents with one edge any multiple of 1/2 within -180..180 and the opposite one of 1 (thorough 4) others, altitudes, altitude mode and lod present or not, every quadrant: exactly a quarter, the rest copied
// @h descend q=40 t=150 | every path of 3 (thorough 5) quadrants and one continuing to depth 12 from the root of the quadtree and from another box: the identifier names the box
// @h walk q=60 t=250 | regionation with any choice of which of the 4 children and of the 4 children of one of these (thorough two) have data or a feature: regions visited, documents, links and file names
// @h deep q=40 t=150 | regionation along one path to any depth of 1..12, along 16 patterns of quadrants, with and without a sibling near its end: a file of its own for each region, linked from its parent
// @h list q=90 t=300 | lists of 0..3 (thorough 4) placemarks at symbolic integer positions within and outside the root region, some without location, 1..2 features per region: every feature inside once, in the first region with space
// @h aligned q=60 t=200 | lists of 1..3 placemarks at 9 positions each (poles, meridians, quadrant borders, deep positions), one or two features per region through the aligned regionator
// @h handler q=40 t=150 | the handler of ten features per region with 0..13 placemarks, the last two at symbolic positions
// @h util q=30 t=100 | documents, network links, boxes and clones of regions; regions without box or lod; boxes outside of the quadtree
// @outside coordinates of more than 15 significant digits, that is quadrants below depth 15 of the root quadtree; handlers which return no feature for a region with children; files written (P30)
#include "kvu.h"
#include "kml/engine.h"
#include "kml/convenience/convenience.h"
#include "kml/convenience/feature_list.h"
#include "kml/regionator/regionator.h"
#include "kml/regionator/regionator_util.h"
#include "kml/regionator/feature_list_region_handler.h"
#include "kml/base/file.h"
#include <map>
#include <set>
namespace kmlbase { struct KvFile { static std::map<std::string, std::string>* out; static bool WriteStringToFile(const std::string& d, const std::string& f) { (*out)[f] = d; return true; } }; std::map<std::string, std::string>* KvFile::out; }
#define File KvFile
#define private public
#include "kml/regionator/feature_list_regionator.h"
#undef private
#undef File
using namespace kmldom; using namespace kmlregionator; using kmlconvenience::FeatureList; using std::string;
static KmlFactory* F() { return KmlFactory::GetFactory(); }
struct Q { double n, s, e, w; };
static Q box(const RegionPtr& r) { LatLonAltBoxPtr b = r->get_latlonaltbox(); Q q = {b->get_north(), b->get_south(), b->get_east(), b->get_west()}; return q; }
static Q child(const Q& q, int k) { double la = (q.n + q.s) / 2, lo = (q.e + q.w) / 2; Q c = q; if (k < 2) c.s = la; else c.n = la; if (k % 2 == 0) c.e = lo; else c.w = lo; return c; }
static void eq(const Q& a, const Q& b) { KV_ASSERT(a.n == b.n && a.s == b.s && a.e == b.e && a.w == b.w, "the region is exactly the quadrant"); }
static RegionPtr region(const Q& q, bool lod = true) { if (lod) return kmlconvenience::CreateRegion2d(q.n, q.s, q.e, q.w, 256, -1); RegionPtr r = F()->CreateRegion(); LatLonAltBoxPtr b = F()->CreateLatLonAltBox(); b->set_north(q.n); b->set_south(q.s); b->set_east(q.e); b->set_west(q.w); r->set_latlonaltbox(b); return r; }
static const Q kRoot = {180, -180, 180, -180};
static double grid() { int v = (int)(kv_u16() & 0x7FF) - 1024; KV_ASSUME((v >= -360) & (v <= 360)); return v / 2.0; }
KV_HARNESS(quadrant) {
  static const double E[] = {-180, -7.5, 0, 3}; bool ax = kv_pick(2), sw = kv_pick(2); double a = grid(), b = kv_tier() ? E[kv_pick(4)] : E[1]; if (sw) std::swap(a, b); Q q = {40, 10, 33.5, -12.25}; if (ax) { q.n = a; q.s = b; } else { q.e = a; q.w = b; } unsigned k = kv_pick(4), m = kv_tier() ? kv_pick(4) : (k + 2 * ax + sw) & 3; RegionPtr p = region(q, m & 1); if (m & 2) { p->get_latlonaltbox()->set_minaltitude(1.5); p->get_latlonaltbox()->set_altitudemode(ALTITUDEMODE_ABSOLUTE); p->set_id("i"); if (m & 1) p->get_lod()->set_minfadeextent(7); }
  RegionPtr c = CreateChildRegion(p, (quadrant_t)k); eq(box(c), child(q, k)); eq(box(p), q); LatLonAltBoxPtr l = c->get_latlonaltbox(); KV_ASSERT(l->has_minaltitude() == ((m & 2) != 0) && !l->has_maxaltitude() && (!(m & 2) || l->get_minaltitude() == 1.5) && l->has_altitudemode() == ((m & 2) != 0), "altitudes are those of the parent"); KV_ASSERT(c->has_lod() == ((m & 1) != 0), "so is the lod"); if (m & 1) KV_ASSERT(c->get_lod()->get_minlodpixels() == 256 && c->get_lod()->get_maxlodpixels() == -1 && c->get_lod()->has_minfadeextent() == ((m & 2) != 0), "so is the lod"); KV_ASSERT(!c->has_id(), "no id");
}
KV_HARNESS(descend) {
  Q q = kv_pick(2) ? kRoot : (Q){11, 3, 22.5, -1}; RegionPtr r = region(q); Qid id = Qid::CreateRoot(); string w = "q0"; KV_ASSERT(id.IsRoot() && id.str() == w && id.depth() == 1, "the root"); unsigned n = kv_tier() ? 5 : 3, k = 0; for (unsigned d = 0; d < 12; d++) { k = d < n ? kv_pick(4) : (k * 3 + d) % 4; r = CreateChildRegion(r, (quadrant_t)k); q = child(q, k); eq(box(r), q); id = id.CreateChild((quadrant_t)k); w += (char)('0' + k); KV_ASSERT(id.str() == w && id.depth() == d + 2 && !id.IsRoot(), "the identifier names the path"); }
}
// a handler which records
struct Rec : public RegionHandler {
  std::map<string, bool> data; std::map<string, FeaturePtr> feat; std::vector<string> visits; std::map<string, Q> boxes; std::vector<KmlPtr> docs; std::vector<string> files;
  virtual bool HasData(const RegionPtr& r) { visits.push_back("?" + r->get_id()); boxes[r->get_id()] = box(r); KV_ASSERT(r->has_lod() && r->get_lod()->get_minlodpixels() == 256, "lod"); return data[r->get_id()]; }
  virtual FeaturePtr GetFeature(const RegionPtr& r) { visits.push_back("!" + r->get_id()); return feat[r->get_id()]; }
  virtual void SaveKml(const KmlPtr& k, const string& f) { docs.push_back(k); files.push_back(f); }
};
static void expect(Rec& h, const string& id, const Q& q, std::vector<string>* v, std::vector<string>* order, std::map<string, int>* no, int* count, std::map<string, bool>* out) { v->push_back("?" + id); eq(h.boxes[id], q); if (!h.data[id]) { (*out)[id] = false; return; } (*no)[id] = ++*count; for (int k = 0; k < 4; k++) expect(h, id + (char)('0' + k), child(q, k), v, order, no, count, out); v->push_back("!" + id); (*out)[id] = h.feat[id].get() != 0; if ((*out)[id]) order->push_back(id); }
KV_HARNESS(walk) {
  Rec h; Q root = {32, 0, 48, -16}; h.data["q0"] = true; FolderPtr ff = F()->CreateFolder(); std::vector<string> ids; ids.push_back("q0"); unsigned deep = kv_pick(4), nn = kv_tier() ? kv_pick(16) : 0; unsigned m = kv_pick(16), mm = m >> deep & 1 ? kv_pick(16) : 0; for (int k = 0; k < 4; k++) { string c = string("q0") + (char)('0' + k); h.data[c] = m >> k & 1; if (h.data[c]) ids.push_back(c); if (k == (int)deep && h.data[c]) for (int j = 0; j < 4; j++) { string g = c + (char)('0' + j); h.data[g] = mm >> j & 1; if (h.data[g]) ids.push_back(g); } if (k == (int)((deep + 1) % 4) && h.data[c]) for (int j = 0; j < 4; j++) { string g = c + (char)('0' + j); h.data[g] = nn >> j & 1; if (h.data[g]) ids.push_back(g); } }
  for (size_t i = 0; i < ids.size(); i++) { PlacemarkPtr p = F()->CreatePlacemark(); p->set_name(ids[i]); h.feat[ids[i]] = p; } // one leaf may turn out to have no feature after all
  unsigned none = kv_pick(3); string gone; if (none == 1 && ids.size() > 1) { gone = ids.back(); bool leaf = true; for (size_t i = 0; i < ids.size(); i++) if (ids[i].size() > gone.size() && ids[i].compare(0, gone.size(), gone) == 0) leaf = false; if (leaf) h.feat[gone] = NULL; } bool named = none == 2, dir = none == 2 && (m & 1);
  RegionPtr rr = region(root); { Regionator r(h, rr); if (named) r.SetRootFilename("top.kml"); if (m & 2) r.SetNaturalRegion(rr); KV_ASSERT(r.Regionate(dir ? "out" : NULL), "completes"); } KV_ASSERT(!rr->has_id(), "the region supplied is unchanged");
  std::vector<string> v, order; std::map<string, int> no; std::map<string, bool> out; int count = 0; expect(h, "q0", root, &v, &order, &no, &count, &out); KV_ASSERT(h.visits == v, "exactly the children of regions with data are visited, features are asked for after the children"); KV_ASSERT(h.docs.size() == order.size(), "one document for every region with data");
  std::map<string, string> file; std::set<string> used; for (size_t i = 0; i < order.size(); i++) { string n = named && order[i] == "q0" ? "top.kml" : num(no[order[i]]) + ".kml"; if (!named && order[i] == "q0") KV_ASSERT(n == "1.kml", "root"); file[order[i]] = n; KV_ASSERT(h.files[i] == (dir ? "out/" + n : n), "file name"); KV_ASSERT(used.insert(n).second, "names are distinct"); }
  for (size_t i = 0; i < order.size(); i++) { string id = order[i]; DocumentPtr d = AsDocument(h.docs[i]->get_feature()); KV_ASSERT(d && d->get_name() == id, "the document of the region"); eq(box(d->get_region()), h.boxes[id]); KV_ASSERT(d->get_atomlink()->get_href() == file["q0"] && d->get_atomlink()->get_rel() == (id == "q0" ? "self" : "up"), "linked to the root"); KV_ASSERT(d->has_abstractview() == (id == "q0" && (m & 2)), "the root has the view"); std::vector<string> kids; for (int k = 0; k < 4; k++) { string c = id + (char)('0' + k); if (out[c]) kids.push_back(c); } KV_ASSERT(d->get_feature_array_size() == kids.size() + 1, "a link for each child with data and the feature"); for (size_t k = 0; k < kids.size(); k++) { NetworkLinkPtr l = AsNetworkLink(d->get_feature_array_at(k)); KV_ASSERT(l && l->get_link()->get_href() == file[kids[k]] && l->get_link()->get_viewrefreshmode() == VIEWREFRESHMODE_ONREGION, "the link is to the child's file"); eq(box(l->get_region()), h.boxes[kids[k]]); } KV_ASSERT(d->get_feature_array_at(kids.size()) == h.feat[id], "the feature of the region"); }
}
KV_HARNESS(deep) {
  Rec h; Q root = {32, 0, 48, -16}; unsigned n = 1 + kv_pick(12), pat = kv_pick(16), two = kv_pick(2); string id = "q0"; std::vector<string> ids; for (unsigned d = 0; d < n; d++) { h.data[id] = true; PlacemarkPtr p = F()->CreatePlacemark(); p->set_name(id); h.feat[id] = p; ids.push_back(id); unsigned k = d % 2 ? pat / 4 : pat % 4; if (two && d + 2 == n) { string o = id + (char)('0' + (k + 1) % 4); h.data[o] = true; h.feat[o] = F()->CreatePlacemark(); ids.push_back(o); } id += (char)('0' + k); }
  Regionator r(h, region(root)); KV_ASSERT(r.Regionate(NULL), "completes"); KV_ASSERT(h.docs.size() == ids.size(), "one document for every region with data"); std::map<string, string> file; std::set<string> used; for (size_t i = 0; i < h.docs.size(); i++) { DocumentPtr d = AsDocument(h.docs[i]->get_feature()); file[d->get_name()] = h.files[i]; KV_ASSERT(used.insert(h.files[i]).second, "every document has a file of its own"); }
  for (size_t i = 0; i < ids.size(); i++) KV_ASSERT(file.count(ids[i]) == 1, "every region with data"); for (size_t i = 0; i < h.docs.size(); i++) { DocumentPtr d = AsDocument(h.docs[i]->get_feature()); string me = d->get_name(); size_t kids = 0; for (int k = 0; k < 4; k++) { string c = me + (char)('0' + k); if (!h.data[c]) continue; NetworkLinkPtr l = AsNetworkLink(d->get_feature_array_at(kids++)); KV_ASSERT(l && l->get_link()->get_href() == file[c], "linked to the child's file, however deep"); } KV_ASSERT(d->get_feature_array_size() == kids + 1 && d->get_feature_array_at(kids) == h.feat[me], "the region's own feature"); }
}
struct Flr : public FeatureListRegionator<NullProgress> { std::vector<KmlPtr> docs; std::vector<string> files; Flr(FeatureList* l, unsigned m) : FeatureListRegionator<NullProgress>(l, m, NULL) {} virtual void SaveKml(const KmlPtr& k, const string& f) { docs.push_back(k); files.push_back(f); } };
struct Pm { PlacemarkPtr p; double la, lo; bool has; };
static Pm pm(bool has, double la, double lo, unsigned i) { Pm r; r.la = la; r.lo = lo; r.has = has; r.p = F()->CreatePlacemark(); r.p->set_name(num(i)); if (has) r.p->set_geometry(kmlconvenience::CreatePointLatLon(la, lo)); return r; }
static bool in(const Q& q, const Pm& p) { return p.has && p.la <= q.n && p.la >= q.s && p.lo <= q.e && p.lo >= q.w; }
// the documents hold every feature inside exactly once
static void conserved(const std::vector<KmlPtr>& docs, const std::vector<string>& files, const std::vector<Pm>& l, const Q& root, unsigned max) {
  std::vector<int> seen(l.size(), 0); std::map<string, int> linked; for (size_t i = 0; i < docs.size(); i++) { DocumentPtr d = AsDocument(docs[i]->get_feature()); Q q = box(d->get_region()); size_t n = d->get_feature_array_size(); KV_ASSERT(n >= 1, "a folder"); FolderPtr f = AsFolder(d->get_feature_array_at(n - 1)); KV_ASSERT(f && f->get_feature_array_size() >= 1 && f->get_feature_array_size() <= max, "between one and the requested number of features"); for (size_t j = 0; j < f->get_feature_array_size(); j++) { FeaturePtr x = f->get_feature_array_at(j); size_t k = 0; while (k < l.size() && l[k].p != x) k++; KV_ASSERT(k < l.size(), "a feature of the list"); seen[k]++; KV_ASSERT(in(q, l[k]), "is within the region of its document"); } for (size_t j = 0; j + 1 < n; j++) { NetworkLinkPtr k = AsNetworkLink(d->get_feature_array_at(j)); KV_ASSERT(k, "a link"); linked[k->get_link()->get_href()]++; } }
  for (size_t k = 0; k < l.size(); k++) KV_ASSERT(seen[k] == (in(root, l[k]) ? 1 : 0), "every feature within the root region is in exactly one document"); size_t tops = 0; for (size_t i = 0; i < files.size(); i++) { int c = linked[files[i]]; KV_ASSERT(c <= 1, "linked once"); if (!c) { tops++; KV_ASSERT(files[i] == "1.kml", "only the root is not linked"); } } KV_ASSERT(tops == (docs.empty() ? 0u : 1u), "one root"); size_t links = 0; for (std::map<string, int>::iterator i = linked.begin(); i != linked.end(); ++i) links += i->second; KV_ASSERT(links + 1 == docs.size() || docs.empty(), "no link to nothing");
}
KV_HARNESS(list) {
  unsigned n = kv_pick(kv_tier() ? 5 : 4), max = 1 + kv_pick(2), no = kv_pick(3); Q root = {64, -64, 96, -32}; std::vector<Pm> l; FeatureList fl; for (unsigned i = 0; i < n; i++) { int la = (signed char)kv_u8(), lo = (signed char)kv_u8(); Pm p = pm(no != i + 1, la, lo, i); l.push_back(p); fl.PushBack(p.p); }
  Flr h(&fl, max); RegionPtr r = region(root); Regionator g(h, r); KV_ASSERT(g.Regionate(NULL), "completes"); conserved(h.docs, h.files, l, root, max);
  // the root document has the first ones
  std::vector<FeaturePtr> first; for (unsigned i = 0; i < n && first.size() < max; i++) if (in(root, l[i])) first.push_back(l[i].p); KV_ASSERT(h.docs.empty() == first.empty(), "documents exactly when there is something inside"); if (!h.docs.empty()) { DocumentPtr d = AsDocument(h.docs.back()->get_feature()); FolderPtr f = AsFolder(d->get_feature_array_at(d->get_feature_array_size() - 1)); KV_ASSERT(f->get_feature_array_size() == first.size(), "the first region takes as many as it may"); for (size_t i = 0; i < first.size(); i++) KV_ASSERT(f->get_feature_array_at(i) == first[i], "the first ones, in order"); }
}
static double POS[9][2] = {{0, 0}, {90, 180}, {-90, -180}, {45, 90}, {-0.5, 22.5}, {12.345678, -98.765432}, {12.345678, -98.765431}, {0.000001, 0.000001}, {37.5, -122.25}};
KV_HARNESS(aligned) {
  unsigned n = 1 + kv_pick(3), max = 1 + kv_pick(2); std::vector<Pm> l; FeatureList fl; unsigned a = 0; for (unsigned i = 0; i < n; i++) { a = i < 2 || kv_tier() ? kv_pick(9) : (a * 2 + 1) % 9; Pm p = pm(true, POS[a][0], POS[a][1], i); l.push_back(p); fl.PushBack(p.p); }
  std::map<string, string> out; kmlbase::KvFile::out = &out; KV_ASSERT(FeatureListRegionator<>::Regionate(&fl, max, NULL, NULL), "completes"); KV_ASSERT(!FeatureListRegionator<>::Regionate(NULL, max, NULL, NULL), "nothing to do without a list"); std::vector<int> seen(n, 0); KV_ASSERT(out.count("1.kml") == 1, "a root"); size_t links = 0;
  for (std::map<string, string>::iterator i = out.begin(); i != out.end(); ++i) { KmlPtr k = AsKml(Parse(i->second, NULL)); KV_ASSERT(k, "well-formed"); DocumentPtr d = AsDocument(k->get_feature()); Q q = box(d->get_region()); size_t m = d->get_feature_array_size(); FolderPtr f = AsFolder(d->get_feature_array_at(m - 1)); KV_ASSERT(f && f->get_feature_array_size() >= 1 && f->get_feature_array_size() <= max, "the features of the region"); for (size_t j = 0; j < f->get_feature_array_size(); j++) { string nm = f->get_feature_array_at(j)->get_name(); unsigned x = nm[0] - '0'; KV_ASSERT(nm.size() == 1 && x < n, "a feature of the list"); seen[x]++; KV_ASSERT(in(q, l[x]), "within its region"); } for (size_t j = 0; j + 1 < m; j++) { NetworkLinkPtr k2 = AsNetworkLink(d->get_feature_array_at(j)); KV_ASSERT(k2 && out.count(k2->get_link()->get_href()) == 1, "links to a document"); links++; } } for (unsigned i = 0; i < n; i++) KV_ASSERT(seen[i] == 1, "every feature is in exactly one document"); KV_ASSERT(links + 1 == out.size(), "every document is linked"); KV_ASSERT(fl.Size() == n, "the list is unchanged");
}
struct H10 : public FeatureListRegionHandler { std::vector<KmlPtr> docs; std::vector<string> files; H10(FeatureList* l) : FeatureListRegionHandler(l) {} virtual void SaveKml(const KmlPtr& k, const string& f) { docs.push_back(k); files.push_back(f); } };
KV_HARNESS(handler) {
  unsigned n = kv_pick(14); std::vector<Pm> l; FeatureList fl; Q root = {64, -64, 96, -32}; for (unsigned i = 0; i < n; i++) { int la = i + 2 >= n ? (int)(signed char)kv_u8() : (int)i * 9 - 50, lo = i + 1 >= n ? (int)(signed char)kv_u8() : (int)i * 7; Pm p = pm(true, la, lo, i); l.push_back(p); fl.PushBack(p.p); } H10 h(&fl); Regionator g(h, region(root)); KV_ASSERT(g.Regionate(NULL), "completes"); conserved(h.docs, h.files, l, root, 10);
}
KV_HARNESS(util) {
  unsigned k = kv_pick(8); Q q = {40, 10, 33.5, -12.25}; RegionPtr r = region(q); r->set_id("rr"); string t = kv_text(1);
  if (k == 0) { DocumentPtr d = CreateRegionDocument(r); KV_ASSERT(d->get_region() != r && d->get_feature_array_size() == 0, "a clone"); eq(box(d->get_region()), q); KV_ASSERT(d->get_region()->get_lod()->get_minlodpixels() == 256, "lod"); }
  if (k == 1) { NetworkLinkPtr n = CreateRegionNetworkLink(r, t); eq(box(n->get_region()), q); KV_ASSERT(n->get_region() != r && n->get_link()->get_href() == t && n->get_link()->get_viewrefreshmode() == VIEWREFRESHMODE_ONREGION, "a link"); }
  if (k == 2) { q.n = grid(); q.w = grid(); r->get_latlonaltbox()->set_north(q.n); r->get_latlonaltbox()->set_west(q.w); PlacemarkPtr p = CreateLineStringBox(t, r); KV_ASSERT(p->get_name() == t, "named"); CoordinatesPtr c = AsLineString(p->get_geometry())->get_coordinates(); KV_ASSERT(c->get_coordinates_array_size() == 5, "five points"); double w[5][2] = {{q.n, q.w}, {q.n, q.e}, {q.s, q.e}, {q.s, q.w}, {q.n, q.w}}; for (int i = 0; i < 5; i++) KV_ASSERT(c->get_coordinates_array_at(i).get_latitude() == w[i][0] && c->get_coordinates_array_at(i).get_longitude() == w[i][1], "around the box and back"); }
  if (k == 3) { RegionPtr e = F()->CreateRegion(); PlacemarkPtr p = CreateLineStringBox(t, e); KV_ASSERT(p->get_name() == t && !p->has_geometry(), "no box, no line"); for (int i = 0; i < 4; i++) { RegionPtr c = CreateChildRegion(e, (quadrant_t)i); KV_ASSERT(c && !c->has_latlonaltbox() && !c->has_lod(), "nothing to divide"); } KV_ASSERT(!CloneRegion(NULL) && !CloneLod(NULL) && !CloneLatLonAltBox(NULL), "clones of nothing"); }
  if (k == 4) { LatLonAltBoxPtr b = CloneLatLonAltBox(r->get_latlonaltbox()); LodPtr o = CloneLod(r->get_lod()); RegionPtr c = CloneRegion(r); KV_ASSERT(b != r->get_latlonaltbox() && o != r->get_lod() && c != r && SerializeRaw(c) == SerializeRaw(r) && SerializeRaw(b) == SerializeRaw(r->get_latlonaltbox()) && SerializeRaw(o) == SerializeRaw(r->get_lod()), "clones"); }
  if (k == 5) { double z = grid(); LatLonBoxPtr b = F()->CreateLatLonBox(), o = F()->CreateLatLonBox(); b->set_north(z + 100); b->set_south(z); b->set_east(5); b->set_west(4); bool ok = z + 100 <= 180; KV_ASSERT(CreateAlignedAbstractLatLonBox(b, o) == ok, "boxes of the quadtree"); if (ok) KV_ASSERT(o->get_north() >= z + 100 && o->get_south() <= z && o->get_east() >= 5 && o->get_west() <= 4, "the quadrant contains the box"); else KV_ASSERT(!o->has_north(), "unchanged"); KV_ASSERT(!CreateAlignedAbstractLatLonBox(NULL, o) && !CreateAlignedAbstractLatLonBox(b, NULL), "nothing"); }
  if (k == 6) { Rec h; RegionPtr e = F()->CreateRegion(); KV_ASSERT(!Regionator::RegionateAligned(h, e, NULL) && h.visits.empty(), "no box to regionate"); Q far = {200, 190, 5, 4}; KV_ASSERT(!Regionator::RegionateAligned(h, region(far), NULL) && h.visits.empty(), "outside of the quadtree"); }
  if (k == 7) { Rec h; Q p = {40, 30, 20, 10}; h.data["q0"] = true; h.feat["q0"] = F()->CreatePlacemark(); KV_ASSERT(Regionator::RegionateAligned(h, region(p), NULL), "completes"); KV_ASSERT(h.docs.size() == 1, "one document"); Q w = h.boxes["q0"]; KV_ASSERT(w.n >= 40 && w.s <= 30 && w.e >= 20 && w.w <= 10 && w.n - w.s == w.e - w.w, "a quadrant with the region"); DocumentPtr d = AsDocument(h.docs[0]->get_feature()); LookAtPtr v = AsLookAt(d->get_abstractview()); KV_ASSERT(v && v->get_latitude() == 35 && v->get_longitude() == 15, "the view is of the region itself"); }
}
