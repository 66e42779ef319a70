// P33: parse observers see every element and can stop or filter the parse.
// @h events q=60 t=300 | documents built from 4 slots each holding one of 8 items (features, nested folders, unknown content, fields, misplaced elements): the event sequence equals that of an independent walk of the document; plain and namespace-aware
// @h filter q=60 t=300 | the same documents, first or second observer refusing the k-th child for every k: exactly that child is missing
// @h stop q=60 t=300 | the same documents, either observer stopping at the k-th start or k-th added child for every k: no tree, an error message, no further starts
// @h sym q=30 t=120 | a child element whose name is 3..5 symbolic name characters: announced exactly when known
// @h file q=20 t=60 | KmlFile/KmlStream parses with an observer: same events as the plain parse
// @h scale q=40 t=100 | 1..64 observers, documents of 1..300 features or nested 1..64 deep: every event, in order; a stop at any of three places
// @h reuse q=40 t=120 | one Parser used for two documents of 1..2 slots, the first accepted, stopped, refused a child or cut off, through Parse or ParseNS: events and tree of the second as with a new Parser
// @outside observers that modify the tree (P13, P15 cover the library's own); exceptions thrown by observers
#include "kvu.h"
#include "xt.h"
#include "kml/engine.h"
#include "kml/dom/parser.h"
#include "kml/dom/xsd.h"
#include "kml/engine/kml_stream.h"
using namespace kmldom; using std::string; using std::vector;
static string tn(const ElementPtr& e) { return Xsd::GetSchema()->ElementName(e->Type()); }
struct Rec : ParserObserver {
  vector<string> ev; int newstop, endrefuse, addstop, nn, ne, na; string refused;
  Rec() : newstop(-1), endrefuse(-1), addstop(-1), nn(0), ne(0), na(0) {}
  bool NewElement(const ElementPtr& e) { ev.push_back("+" + tn(e)); return nn++ != newstop; }
  bool EndElement(const ElementPtr& p, const ElementPtr& c) { ev.push_back("-" + tn(p) + "/" + tn(c)); return ne++ != endrefuse; }
  bool AddChild(const ElementPtr& p, const ElementPtr& c) { ev.push_back("=" + tn(p) + "/" + tn(c)); return na++ != addstop; }
};
static void walk(const XN& n, const XN* par, vector<string>* ev) {  // known elements of n, in document order
  if (!Xsd::GetSchema()->ElementId(n.name)) return;
  ev->push_back("+" + n.name); if (n.name != "description") for (size_t i = 0; i < n.kids.size(); i++) walk(n.kids[i], &n, ev);
  if (par) { ev->push_back("-" + par->name + "/" + n.name); ev->push_back("=" + par->name + "/" + n.name); }
}
static const char* IT[] = {"", "<name>n</name>", "<Placemark><Point><coordinates>1,2</coordinates></Point></Placemark>", "<Folder><open>1</open><u>x</u></Folder>", "<zz><name>i</name></zz>", "<Style><LineStyle><width>2</width></LineStyle></Style>", "<description>d<b>h</b></description>", "<Point><name>q</name></Point>"};
static string doc(unsigned slots) { string s = "<kml><Document>"; for (unsigned i = 0; i < slots; i++) s += IT[kv_pick(8)]; return s + "</Document></kml>"; }
KV_HARNESS(events) {
  string s = doc(kv_tier() ? 4 : 3); XN x; KV_ASSERT(xread(s, &x), "oracle reads the document"); vector<string> w; walk(x, 0, &w);
  Parser p; Rec a, b; p.AddObserver(&a); p.AddObserver(&b); bool ns = kv_pick(2); ElementPtr r = ns ? p.ParseNS(s, NULL) : p.Parse(s, NULL); KV_ASSERT(r, "parsed");
  KV_ASSERT(a.ev == w && b.ev == w, "every known element is announced in document order"); KV_ASSERT(SerializeRaw(r) == SerializeRaw(Parse(s, NULL)), "observers do not change the tree");
}
static size_t cnt(const vector<string>& v, char c) { size_t n = 0; for (size_t i = 0; i < v.size(); i++) n += v[i][0] == c; return n; }
// the document without the k-th finished known element (k counts in order of completion)
static bool drop(XN* n, const XN* par, int* k) {
  if (!Xsd::GetSchema()->ElementId(n->name)) return false;
  if (n->name != "description") for (size_t i = 0; i < n->kids.size(); i++) { if (drop(&n->kids[i], n, k)) { n->kids.erase(n->kids.begin() + i); return false; } if (*k < 0) return false; }
  return par && (*k)-- == 0;
}
static string ser(const XN& n) { string s = "<" + n.name + ">" + (n.name == "description" || n.kids.empty() ? n.text : string()); for (size_t i = 0; i < n.kids.size(); i++) s += ser(n.kids[i]); return s + "</" + n.name + ">"; }
KV_HARNESS(filter) {
  string s = doc(kv_tier() ? 3 : 2); XN x; KV_ASSERT(xread(s, &x), "oracle reads the document"); vector<string> w; walk(x, 0, &w); size_t m = cnt(w, '-'); KV_ASSUME(m > 0);
  unsigned k = kv_pick(m), who = kv_pick(2); Parser p; Rec a, b; p.AddObserver(&a); p.AddObserver(&b); (who ? b : a).endrefuse = k; ElementPtr r = p.Parse(s, NULL); KV_ASSERT(r, "refusing a child does not fail the parse");
  XN y = x; int kk = k; drop(&y, 0, &kk);
  string t = ser(y); ElementPtr q = Parse(t, NULL); KV_ASSERT(q && SerializeRaw(r) == SerializeRaw(q), "exactly the refused child is kept out");
  KV_ASSERT(cnt(a.ev, '+') == cnt(w, '+') && cnt(b.ev, '+') == cnt(w, '+') && cnt(a.ev, '-') == m, "the rest is still announced");
}
KV_HARNESS(stop) {
  string s = doc(kv_tier() ? 3 : 2); XN x; KV_ASSERT(xread(s, &x), "oracle reads the document"); vector<string> w; walk(x, 0, &w); unsigned kind = kv_pick(2), who = kv_pick(2); size_t m = cnt(w, kind ? '=' : '+'); KV_ASSUME(m > 0);
  unsigned k = kv_pick(m); Parser p; Rec a, b; p.AddObserver(&a); p.AddObserver(&b); if (kind) (who ? b : a).addstop = k; else (who ? b : a).newstop = k; string e; ElementPtr r = kv_pick(2) ? p.ParseNS(s, &e) : p.Parse(s, &e);
  KV_ASSERT(!r, "a stopped parse yields no tree"); KV_ASSERT(!e.empty(), "and reports an error");
  size_t upto = 0, seen = 0; for (size_t i = 0; i < w.size(); i++) { if (w[i][0] == '+') upto++; if (w[i][0] == (kind ? '=' : '+') && seen++ == k) break; }
  KV_ASSERT(cnt(a.ev, '+') == upto, "nothing more is announced after the stop"); KV_ASSERT(cnt(b.ev, '+') == upto - (kind == 0 && who == 0), "nothing more is announced after the stop");
}
KV_HARNESS(sym) {
  string n = kv_name(3 + kv_pick(3)), s = "<Folder><" + n + "/><open>1</open></Folder>"; Parser p; Rec a; p.AddObserver(&a); KV_ASSERT(p.Parse(s, NULL), "parsed");
  bool known = Xsd::GetSchema()->ElementId(n) != 0; vector<string> w; w.push_back("+Folder"); if (known) { w.push_back("+" + n); w.push_back("-Folder/" + n); w.push_back("=Folder/" + n); } w.push_back("+open"); w.push_back("-Folder/open"); w.push_back("=Folder/open");
  KV_ASSERT(a.ev == w, "announced exactly when known");
}
KV_HARNESS(file) {
  string s = doc(2); Rec a, b; { Parser p; p.AddObserver(&a); p.Parse(s, NULL); }
  std::istringstream is(s); boost::scoped_ptr<kmlengine::KmlStream> k(kmlengine::KmlStream::ParseFromIstream(&is, NULL, &b)); KV_ASSERT(k, "stream parse"); KV_ASSERT(a.ev == b.ev, "same events");
}
KV_HARNESS(scale) {
  unsigned k = kv_pick(3), n = kv_size(k == 1 ? 300 : 64); string s = "<kml><Document>"; if (k == 0) s += IT[2]; if (k == 1) for (unsigned i = 0; i < n; i++) s += IT[1 + i % 7]; if (k == 2) { for (unsigned i = 0; i < n; i++) s += "<Folder>"; s += IT[2]; for (unsigned i = 0; i < n; i++) s += "</Folder>"; } s += "</Document></kml>"; XN x; KV_ASSERT(xread(s, &x), "oracle reads the document"); vector<string> w; walk(x, 0, &w);
  Parser p; vector<Rec> r(k == 0 ? n : 1); for (size_t i = 0; i < r.size(); i++) p.AddObserver(&r[i]); ElementPtr e = p.Parse(s, NULL); KV_ASSERT(e, "parsed"); for (size_t i = 0; i < r.size(); i++) KV_ASSERT(r[i].ev == w, "every event, in order"); unsigned total = r[0].nn, q = kv_pick(3), at = q == 0 ? 1 : q == 1 ? total / 2 : total - 1; Parser p2; Rec z; z.newstop = at; p2.AddObserver(&z); KV_ASSERT(!p2.Parse(s, NULL) && z.nn == (int)at + 1, "stopped there");
}
KV_HARNESS(reuse) {
  Parser p; Rec a, b; p.AddObserver(&a); p.AddObserver(&b); unsigned how = kv_pick(4), k = kv_pick(3); string s = doc(1), t = doc(kv_tier() ? 2 : 1), e; if (how == 1) a.newstop = k; if (how == 2) b.endrefuse = k; if (how == 3) s.erase(s.size() - 4 * (k + 1)); if (kv_pick(2)) p.ParseNS(s, &e); else p.Parse(s, &e);
  a = Rec(); b = Rec(); XN x; KV_ASSERT(xread(t, &x), "oracle reads the document"); vector<string> w; walk(x, 0, &w); string f; ElementPtr r = kv_pick(2) ? p.ParseNS(t, &f) : p.Parse(t, &f); KV_ASSERT(r && f.empty(), "the second document parses whatever became of the first"); KV_ASSERT(a.ev == w && b.ev == w, "and is announced completely"); KV_ASSERT(SerializeRaw(r) == SerializeRaw(Parse(t, NULL)), "the tree is that of the second document");
}
