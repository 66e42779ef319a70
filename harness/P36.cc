// P36: the service clients send exactly the requests stated by their interfaces, and cope with every reply.
// @h headers q=40 t=120 | histories of 3 (thorough 4) header operations with symbolic one-character names and values; the default request echo for every method
// @h login q=60 t=200 | logins with symbolic names and passwords of letters; replies that fail, or hold up to three of the lines SID, Auth (symbolic token of up to two characters), X in every order, last line with or without its newline
// @h feeds q=60 t=200 | the four clients' meta feeds: transport failure, or a reply that is a feed with up to two entries of symbolic title, an entry, KML, broken XML or empty
// @h requests q=90 t=300 | creating a map, posting CSV, KML or media, uploading and downloading a spreadsheet, searching by box, fetching a feature feed: symbolic texts, transport failure or entry/feed/broken replies
// @h features q=90 t=300 | adding a feature (placemark, folder, one with clashing ids) and posting the placemarks of every nesting of up to 4 features, each post failing or not
// @h pages q=90 t=300 | map documents from one to three feed pages with up to two (the third: one) entries each (feature, other element, nothing), any page failing, broken or not a feed
// @h uris q=30 t=100 | feature, search and KML URIs of entries with or without content, source and links, symbolic texts
// @h many q=60 t=200 | posting the placemarks of 1..65 features, one of them failing; map documents of 1..33 pages and of one page with 1..101 entries, feeds of as many entries; a symbolic name at the first, middle or last
// @outside texts which need escaping in a form body (the login interface does not say who escapes them); a server whose pages refer to each other in a circle
#include "xt.h"
#include "kvu.h"
#include "kml/convenience/atom_util.h"
#include "kml/convenience/google_doc_list.h"
#include "kml/convenience/google_maps_data.h"
#include "kml/convenience/google_picasa_web.h"
#include "kml/convenience/google_spreadsheets.h"
#include "kml/convenience/http_client.h"
#include "kml/engine/bbox.h"
using namespace kmldom; using namespace kmlconvenience; using std::string;
struct Req { HttpMethodEnum m; string uri; StringPairVector h; bool hasdata, wanted; string data; };
struct Rep { bool ok; string text; };
struct Net { std::vector<Req> q; std::vector<Rep> r; bool dead; Net() : dead(false) {} };
struct Mock : HttpClient {
  Net* n; Mock(Net* n_, const string& app = "app") : HttpClient(app), n(n_) {}
  ~Mock() { n->dead = true; }
  bool SendRequest(HttpMethodEnum m, const string& uri, const StringPairVector* h, const string* d, string* out) const { Req x; x.m = m; x.uri = uri; if (h) x.h = *h; x.hasdata = d != 0; if (d) x.data = *d; x.wanted = out != 0; n->q.push_back(x); KV_ASSERT(n->q.size() <= n->r.size(), "no more requests than stated"); const Rep& r = n->r[n->q.size() - 1]; if (r.ok && out) *out = r.text; return r.ok; }
};
static void reply(Net* n, bool ok, const string& t) { Rep r; r.ok = ok; r.text = t; n->r.push_back(r); }
static KmlFactory* F() { return KmlFactory::GetFactory(); }
static bool same(const StringPairVector& a, const StringPairVector& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].first != b[i].first || a[i].second != b[i].second) return false; return true; }
static void is(const Req& q, HttpMethodEnum m, const string& uri) { KV_ASSERT(q.m == m, "method"); KV_ASSERT(q.uri == uri, "address"); }
static string hdr(const Req& q, const char* k) { string v; for (size_t i = 0; i < q.h.size(); i++) if (q.h[i].first == k) { KV_ASSERT(v.empty(), "sent once"); v = q.h[i].second; } return v; }

KV_HARNESS(headers) {
  static const char* M[] = {0, "OPTIONS", "GET", "HEAD", "POST", "PUT", "DELETE", "TRACE", "CONNECT"};
  string app = kv_alpha(1, "pq"); HttpClient c(app); StringPairVector w, x, o; w.push_back(std::make_pair(string("User-Agent"), app + " GData-C++/1.0")); KV_ASSERT(same(c.get_headers(), w) && c.get_auth_token().empty(), "a new client names the application");
  unsigned n = kv_tier() ? 4 : 3;
  for (unsigned i = 0; i < n; i++) { string k = kv_alpha(1, "ab"), v = kv_alpha(i ? 1 : kv_pick(2), "xy"); unsigned op = kv_pick(4);
    if (op == 0) { c.AddHeader(k, v); w.push_back(std::make_pair(k, v)); }
    if (op == 1) { HttpClient::PushHeader(k, v, &o); x.push_back(std::make_pair(k, v)); HttpClient::PushHeader(k, v, NULL); }
    if (op == 2) { string g = "unset"; int f = -1; for (size_t j = x.size(); j-- > 0;) if (x[j].first == k) f = j; KV_ASSERT(HttpClient::FindHeader(k, o, &g) == (f >= 0) && g == (f >= 0 ? x[f].second : "unset"), "the first header of that name"); KV_ASSERT(HttpClient::FindHeader(k, o, NULL) == (f >= 0), "output is optional"); }
    if (op == 3) { StringPairVector t = c.get_headers(); HttpClient::AppendHeaders(t, &o); x.insert(x.end(), w.begin(), w.end()); HttpClient::AppendHeaders(t, NULL); }
    KV_ASSERT(same(c.get_headers(), w) && same(o, x), "headers are appended in order");
  }
  unsigned m = 1 + kv_pick(8); bool h = kv_pick(2); string u = kv_alpha(1, "/u"), e = string(M[m]) + " " + u + "\n", r = "", d = "data"; for (size_t i = 0; i < w.size(); i++) e += w[i].first + ": " + w[i].second + "\n"; if (h) for (size_t i = 0; i < o.size(); i++) { KV_ASSERT(HttpClient::FormatHeader(o[i]) == x[i].first + ": " + x[i].second, "format"); e += x[i].first + ": " + x[i].second + "\n"; }
  KV_ASSERT(c.SendRequest((HttpMethodEnum)m, u, h ? &o : NULL, kv_pick(2) ? &d : NULL, &r) && r == e, "the request is echoed with every header"); KV_ASSERT(c.SendRequest((HttpMethodEnum)m, u, NULL, NULL, NULL), "output is optional"); r.clear(); KV_ASSERT(c.FetchUrl(u, &r) && r.compare(0, 6, "GET " + u + "\n") == 0, "a fetch is a GET");
}
KV_HARNESS(login) {
  Net n; string app = kv_alpha(1, "pq"); Mock c(&n, app); StringPairVector w = c.get_headers(); string sv = kv_name(1), em = kv_name(1) + "@x.y", pw = kv_name(2); bool ok = kv_pick(4) != 0; string tok = kv_name(kv_pick(3)); static const int O[][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; unsigned ord = kv_pick(6), have = kv_pick(8); bool nl = kv_pick(2); string L[3] = {"SID=s", "Auth=" + tok, "X=t"}, r; for (int i = 0; i < 3; i++) if (have >> O[ord][i] & 1) r += (r.empty() ? "" : "\n") + L[O[ord][i]]; if (nl && !r.empty()) r += "\n"; reply(&n, ok, r);
  bool got = c.Login(sv, em, pw); KV_ASSERT(n.q.size() == 1, "one request"); is(n.q[0], HTTP_POST, "https://www.google.com/accounts/ClientLogin"); KV_ASSERT(n.q[0].hasdata && n.q[0].data == "Email=" + em + "&Passwd=" + pw + "&accountType=HOSTED_OR_GOOGLE&source=" + app + "&service=" + sv, "the form");
  KV_ASSERT(got == (ok && (have & 2)), "logged in exactly when a token came"); if (got) w.push_back(std::make_pair(string("Authorization"), "GoogleLogin auth=" + tok)); KV_ASSERT(same(c.get_headers(), w), "later requests carry the token, and only then"); KV_ASSERT(c.get_auth_token() == (got ? tok : ""), "the token");
}
static const char* NS = " xmlns=\"http://www.w3.org/2005/Atom\"";
static string mkreply(unsigned k, const string& t, unsigned n) { if (k == 0) { string s = string("<feed") + NS + ">"; for (unsigned i = 0; i < n; i++) s += "<entry><title>" + xesc(t) + num(i) + "</title></entry>"; return s + "</feed>"; } if (k == 1) return string("<entry") + NS + "><title>" + xesc(t) + "</title></entry>"; if (k == 2) return "<kml xmlns=\"http://www.opengis.net/kml/2.2\"><Placemark/></kml>"; if (k == 3) return string("<feed") + NS + "><entry>"; return ""; }
static void feed(const AtomFeedPtr& f, bool ok, unsigned k, const string& t, unsigned n) { KV_ASSERT((f.get() != 0) == (ok && k == 0), "a feed exactly when one was received"); if (f) { KV_ASSERT(f->get_entry_array_size() == n, "with its entries"); for (unsigned i = 0; i < n; i++) KV_ASSERT(f->get_entry_array_at(i)->get_title() == t + num(i), "in order"); } }
KV_HARNESS(feeds) {
  Net n; Mock* c = new Mock(&n); unsigned who = kv_pick(4); bool xml = kv_pick(2), ok = kv_pick(2); unsigned k = kv_pick(5), m = k == 0 ? kv_pick(3) : 0; string t = kv_text(1), r = mkreply(k, t, m), got = "unset"; reply(&n, ok, r); bool x = false; AtomFeedPtr f; string uri, ver;
  if (who == 0) { GoogleMapsData* g = GoogleMapsData::Create(c); uri = "http://maps.google.com/maps/feeds/maps/default/full"; ver = "2.0"; KV_ASSERT(g->get_scope() + g->get_metafeed_uri() == uri && g->get_http_client() == c && string(g->get_service_name()) == "local", "stated address"); if (xml) x = g->GetMetaFeedXml(&got); else f = g->GetMetaFeed(); KV_ASSERT(same(StringPairVector(1, c->get_headers().back()), StringPairVector(1, std::make_pair(string("GData-Version"), ver))), "version"); delete g; KV_ASSERT(!GoogleMapsData::Create(NULL), "a client is needed"); }
  if (who == 1) { GoogleDocList* g = GoogleDocList::Create(c); uri = "http://docs.google.com/feeds/default/private/full"; ver = "3.0"; KV_ASSERT(g->get_scope() + g->get_metafeed_uri() == uri && string(g->get_service_name()) == "writely", "stated address"); if (xml) x = g->GetMetaFeedXml(&got); else f = g->GetMetaFeed(); KV_ASSERT(same(StringPairVector(1, c->get_headers().back()), StringPairVector(1, std::make_pair(string("GData-Version"), ver))), "version"); delete g; KV_ASSERT(!GoogleDocList::Create(NULL), "a client is needed"); }
  if (who == 2) { GoogleSpreadsheets* g = GoogleSpreadsheets::Create(c); uri = "http://spreadsheets.google.com/feeds/spreadsheets/private/full"; ver = "3.0"; KV_ASSERT(g->get_scope() + g->get_metafeed_uri() == uri && string(g->get_service_name()) == "wise", "stated address"); if (xml) x = g->GetMetaFeedXml(&got); else f = g->GetMetaFeed(); KV_ASSERT(same(StringPairVector(1, c->get_headers().back()), StringPairVector(1, std::make_pair(string("GData-Version"), ver))), "version"); delete g; KV_ASSERT(!GoogleSpreadsheets::Create(NULL), "a client is needed"); }
  if (who == 3) { GooglePicasaWeb* g = GooglePicasaWeb::Create(c); uri = "http://picasaweb.google.com/data/feed/api/user/default"; ver = "2"; KV_ASSERT(g->get_scope() + g->get_metafeed_uri() == uri && string(g->get_service_name()) == "lh2", "stated address"); if (xml) x = g->GetMetaFeedXml(&got); else f = g->GetMetaFeed(); KV_ASSERT(same(StringPairVector(1, c->get_headers().back()), StringPairVector(1, std::make_pair(string("GData-Version"), ver))), "version"); delete g; KV_ASSERT(!GooglePicasaWeb::Create(NULL), "a client is needed"); }
  KV_ASSERT(n.dead, "the client is destroyed with its owner"); KV_ASSERT(n.q.size() == 1 && n.q[0].h.empty() && !n.q[0].hasdata, "one plain request"); is(n.q[0], HTTP_GET, uri);
  if (xml) KV_ASSERT(x == ok && got == (ok ? r : "unset"), "the reply is passed through"); else feed(f, ok, k, t, m);
}
KV_HARNESS(requests) {
  Net n; unsigned op = kv_pick(8); bool ok = kv_pick(2); unsigned k = kv_pick(4); string t = kv_text(1), a = kv_text(1), b = kv_text(2), r = mkreply(k, t, 1), got = "unset"; reply(&n, ok, r); const string meta = "http://maps.google.com/maps/feeds/maps/default/full";
  if (op < 6) { Mock* c = new Mock(&n); GoogleMapsData* g = GoogleMapsData::Create(c);
    if (op == 0) { bool x = g->CreateMap(a, b, &got); KV_ASSERT(x == ok && got == (ok ? r : "unset"), "the reply is passed through"); KV_ASSERT(n.q.size() == 1, "one request"); is(n.q[0], HTTP_POST, meta); KV_ASSERT(hdr(n.q[0], "Content-Type") == "application/atom+xml" && n.q[0].h.size() == 1, "it is Atom"); AtomEntryPtr e = AsAtomEntry(ParseAtom(n.q[0].data, NULL)); KV_ASSERT(e && e->get_title() == a && e->get_summary() == b, "an entry of that title and summary"); }
    if (op >= 1 && op <= 3) { AtomEntryPtr e = op == 1 ? g->PostCsv(a, b, &got) : op == 2 ? g->PostKml(a, b) : g->PostMedia(a, "x/y", b, NULL); KV_ASSERT(n.q.size() == 1, "one request"); is(n.q[0], HTTP_POST, meta); KV_ASSERT(n.q[0].hasdata && n.q[0].data == b, "the data itself"); KV_ASSERT(hdr(n.q[0], "Slug") == a && hdr(n.q[0], "Content-Type") == (op == 1 ? "text/csv" : op == 2 ? "application/vnd.google-earth.kml+xml" : "x/y") && n.q[0].h.size() == 2, "its title and type"); KV_ASSERT((e.get() != 0) == (ok && k == 1), "the entry of the new map exactly when one was received"); if (e) KV_ASSERT(e->get_title() == t, "that entry"); }
    if (op == 4) { string u = "http://h/" + kv_name(1); AtomFeedPtr f = g->GetFeatureFeedByUri(u); KV_ASSERT(n.q.size() == 1 && !n.q[0].hasdata && n.q[0].h.empty(), "one request"); is(n.q[0], HTTP_GET, u); feed(f, ok, k, t, 1); }
    if (op == 5) { DecT N = kv_dect(1, 0, false), S = kv_dect(1, 0, true), E = kv_dect(1, 0, kv_pick(2)), W = kv_dect(1, 0, kv_pick(2)); kmlengine::Bbox bb(N.v, S.v, E.v, W.v); AtomEntryPtr e = F()->CreateAtomEntry(); AtomContentPtr co = F()->CreateAtomContent(); co->set_src("http://h/m/full"); e->set_content(co); AtomFeedPtr f = g->SearchMapByBbox(e, bb); KV_ASSERT(n.q.size() == 1 && !n.q[0].hasdata && n.q[0].h.empty(), "one request"); is(n.q[0], HTTP_GET, "http://h/m/snippet?box=" + W.t + "," + S.t + "," + E.t + "," + N.t); feed(f, ok, k, t, 1); }
    delete g; }
  if (op == 6) { GoogleDocList* g = GoogleDocList::Create(new Mock(&n)); bool x = g->UploadSpreadsheet(b, a, &got); KV_ASSERT(x == ok && got == (ok ? r : "unset"), "the reply is passed through"); KV_ASSERT(n.q.size() == 1, "one request"); is(n.q[0], HTTP_POST, "http://docs.google.com/feeds/default/private/full"); KV_ASSERT(n.q[0].hasdata && n.q[0].data == b && n.q[0].h.size() == 1 && hdr(n.q[0], "Content-Type") == a, "the data and its type"); delete g; }
  if (op == 7) { GoogleSpreadsheets* g = GoogleSpreadsheets::Create(new Mock(&n)); bool has = kv_pick(2); string id = kv_name(1), fmt = kv_name(kv_pick(2)); AtomEntryPtr e = AsAtomEntry(ParseAtom(string("<entry") + NS + " xmlns:gd=\"http://schemas.google.com/g/2005\">" + (has ? "<gd:resourceId>" + id + "</gd:resourceId>" : "<gd:other>7</gd:other>") + "</entry>", NULL)); KV_ASSERT(e, "parsed"); bool x = g->DownloadSpreadsheet(e, fmt, &got); KV_ASSERT(x == (ok && has) && got == (x ? r : "unset"), "the reply is passed through"); KV_ASSERT(n.q.size() == (has ? 1 : 0), "one request if it is a document"); if (has) { KV_ASSERT(!n.q[0].hasdata && n.q[0].h.empty(), "plain"); is(n.q[0], HTTP_GET, "http://spreadsheets.google.com/feeds/download/spreadsheets/Export?key=" + id + "&exportFormat=" + fmt); } delete g; }
}
static PlacemarkPtr pm(const string& name, bool geo) { PlacemarkPtr p = F()->CreatePlacemark(); p->set_name(name); if (geo) p->set_geometry(F()->CreatePoint()); return p; }
static void posted(const Req& q, const string& uri, const FeaturePtr& f) { is(q, HTTP_POST, uri); KV_ASSERT(hdr(q, "Content-Type") == "application/atom+xml" && q.h.size() == 1, "it is Atom"); AtomEntryPtr e = AsAtomEntry(ParseAtom(q.data, NULL)); KV_ASSERT(e && e->get_title() == f->get_name() && e->get_summary() == f->get_description() && e->has_content(), "an entry named for the feature"); KV_ASSERT(e->get_content()->get_type() == "application/vnd.google-earth.kml+xml", "of KML"); FeaturePtr g = AtomUtil::GetEntryFeature(e); KV_ASSERT(g && SerializeRaw(g) == SerializeRaw(f), "holding that feature"); }
KV_HARNESS(features) {
  Net n; GoogleMapsData* g = GoogleMapsData::Create(new Mock(&n)); string u = "http://h/" + kv_name(1), got = "unset"; bool many = kv_pick(2);
  if (!many) { unsigned k = kv_pick(3); bool ok = kv_pick(2), want = kv_pick(2); reply(&n, ok, "reply"); FeaturePtr f; string t = kv_text(1); if (k == 0) f = pm(t, true); else { FolderPtr d = F()->CreateFolder(); d->set_name(t); d->set_description(kv_text(1)); d->add_feature(pm("i", false)); if (k == 2) { d->set_id("x"); d->get_feature_array_at(0)->set_id(kv_alpha(1, "xy")); } f = d; }
    bool clash = k == 2 && AsFolder(f)->get_feature_array_at(0)->get_id() == "x"; string before = SerializeRaw(f); bool x = g->AddFeature(u, f, want ? &got : NULL); KV_ASSERT(clash || x == ok, "true exactly when it was posted"); if (!clash) { KV_ASSERT(n.q.size() == 1 && got == (ok && want ? "reply" : "unset"), "one request"); posted(n.q[0], u, f); } KV_ASSERT(SerializeRaw(f) == before && !f->GetParent(), "the feature is left alone"); }
  else { // a tree of up to four features below the root: each is a placemark, or a folder or document that holds the rest
    unsigned sz = 1 + kv_pick(kv_tier() ? 4 : 3); FolderPtr root = F()->CreateFolder(); ContainerPtr cur = root; std::vector<FeaturePtr> w; for (unsigned i = 0; i < sz; i++) { unsigned k = kv_pick(4); if (k == 3) { ContainerPtr c; if (i & 1) c = F()->CreateDocument(); else c = F()->CreateFolder(); cur->add_feature(c); cur = c; } else if (k == 2) cur->add_feature(F()->CreateGroundOverlay()); else { PlacemarkPtr p = pm(kv_text(1), true); if (k == 1) p->clear_name(); cur->add_feature(p); w.push_back(p); if (k == 1) cur = root; } }
    int good = 0; for (size_t i = 0; i < w.size(); i++) { bool ok = kv_pick(2); good += ok; reply(&n, ok, "r"); } int c = g->PostPlacemarks(root, u); KV_ASSERT(n.q.size() == w.size(), "every placemark is posted once"); KV_ASSERT(c == good, "those which succeeded are counted");
    std::vector<FeaturePtr> ord; struct W { static void go(const ContainerPtr& c, std::vector<FeaturePtr>* o) { for (size_t i = 0; i < c->get_feature_array_size(); i++) { FeaturePtr f = c->get_feature_array_at(i); if (AsPlacemark(f)) o->push_back(f); if (ContainerPtr d = AsContainer(f)) go(d, o); } } }; W::go(root, &ord); for (size_t i = 0; i < ord.size(); i++) posted(n.q[i], u, ord[i]); }
  delete g; KV_ASSERT(n.dead, "the client is destroyed with its owner");
}
KV_HARNESS(pages) {
  Net n; GoogleMapsData* g = GoogleMapsData::Create(new Mock(&n)); unsigned pages = 1 + kv_pick(3); std::vector<string> w; AtomFeedPtr first; bool cut = false; unsigned reqs = 0; int id = 0;
  for (unsigned p = 0; p < pages; p++) { string s = string("<feed") + NS + ">"; if (p + 1 < pages) s += "<link rel=\"next\" href=\"http://h/" + num(p + 1) + "\"/>"; else s += "<link rel=\"self\" href=\"http://h/self\"/>"; unsigned m = cut ? 0 : kv_pick(p == 2 ? 2 : 3); std::vector<string> mine; for (unsigned i = 0; i < m; i++) { unsigned k = kv_pick(4); string nm = "n" + num(id++); s += "<entry>"; if (k) s += "<content>"; if (k == 1) { s += "<Placemark xmlns=\"http://www.opengis.net/kml/2.2\"><name>" + nm + "</name></Placemark>"; mine.push_back(nm); } if (k == 2) s += "<Style xmlns=\"http://www.opengis.net/kml/2.2\"/>"; if (k) s += "</content>"; s += "</entry>"; } s += "</feed>";
    if (p == 0) { first = AsAtomFeed(ParseAtom(s, NULL)); KV_ASSERT(first, "parsed"); w = mine; } else { if (!cut) { unsigned how = kv_pick(4); reqs++; reply(&n, how != 1, how == 2 ? s.substr(0, s.size() - 3) : how == 3 ? "<kml/>" : s); if (how) cut = true; else w.insert(w.end(), mine.begin(), mine.end()); } } }
  DocumentPtr d = g->CreateDocumentOfMapFeatures(first); KV_ASSERT(n.q.size() == reqs, "each page is fetched once"); for (unsigned i = 0; i < reqs; i++) is(n.q[i], HTTP_GET, "http://h/" + num(i + 1)); KV_ASSERT(d && d->get_feature_array_size() == w.size(), "the features of every page"); for (size_t i = 0; i < w.size(); i++) KV_ASSERT(d->get_feature_array_at(i)->get_name() == w[i], "in order"); KV_ASSERT(!g->CreateDocumentOfMapFeatures(NULL), "no feed, no document");
  FolderPtr f = F()->CreateFolder(); int c = GoogleMapsData::GetMapKml(first, f); KV_ASSERT(c >= 0 && (size_t)c == f->get_feature_array_size(), "counted"); KV_ASSERT(GoogleMapsData::GetMapKml(NULL, f) == -1 && GoogleMapsData::GetMapKml(first, NULL) == -1, "both are needed"); delete g;
}
KV_HARNESS(uris) {
  AtomEntryPtr e = F()->CreateAtomEntry(); unsigned k = kv_pick(3); string src = kv_alpha(3, "/a"); if (k) { AtomContentPtr c = F()->CreateAtomContent(); if (k == 2) c->set_src(src); e->set_content(c); } bool alt = kv_pick(2); string h = "http://h?" + kv_name(1); if (kv_pick(2)) e->add_link(AtomUtil::CreateBasicLink("o", "self", "t")); if (alt) e->add_link(AtomUtil::CreateBasicLink(h, "alternate", "t"));
  string u = "unset"; KV_ASSERT(GoogleMapsData::GetFeatureFeedUri(e, &u) == (k == 2) && u == (k == 2 ? src : "unset"), "the source of the content"); KV_ASSERT(GoogleMapsData::GetFeatureFeedUri(e, NULL) == (k == 2) && !GoogleMapsData::GetFeatureFeedUri(NULL, &u), "optional"); size_t sl = src.rfind('/'); bool has = k == 2 && sl != string::npos; u = "unset"; KV_ASSERT(GoogleMapsData::GetSearchFeedUri(e, &u) == has && u == (has ? src.substr(0, sl + 1) + "snippet" : "unset"), "beside the feature feed"); KV_ASSERT(GoogleMapsData::GetSearchFeedUri(e, NULL) == has, "optional"); u = "unset"; KV_ASSERT(GoogleMapsData::GetKmlUri(e, &u) == alt && u == (alt ? h + "&output=kml" : "unset"), "the alternate link as KML"); KV_ASSERT(GoogleMapsData::GetKmlUri(e, NULL) == alt && !GoogleMapsData::GetKmlUri(NULL, &u), "optional");
  string q = kv_alpha(1, "&x"), w = q; DecT a = kv_dect(1, 0, false), b = kv_dect(1, 1, true), c = kv_dect(2, 0, false), d = kv_dect(1, 0, true); GoogleMapsData::AppendBoxParameter(a.v, b.v, c.v, d.v, &q); KV_ASSERT(q.compare(0, 5, w + "box=") == 0 && q.substr(5, d.t.size() + 1) == d.t + ",", "west comes first, appended"); GoogleMapsData::AppendBoxParameter(1, 2, 3, 4, NULL);
}
KV_HARNESS(many) {
  unsigned how = kv_pick(4), n = kv_size(how == 0 ? 65 : how == 1 ? 33 : 101), w = kv_pick(3), at = w == 0 ? 0 : w == 1 ? n / 2 : n - 1; string t = kv_name(1); Net net; GoogleMapsData* g = GoogleMapsData::Create(new Mock(&net)); std::vector<string> nm; for (unsigned i = 0; i < n; i++) nm.push_back(i == at ? t : "n" + num(i));
  if (how == 0) { bool deep = kv_pick(2); FolderPtr root = F()->CreateFolder(); ContainerPtr c = root; for (unsigned i = 0; i < n; i++) { c->add_feature(pm(nm[i], true)); reply(&net, i != at, ""); if (deep) { FolderPtr f = F()->CreateFolder(); c->add_feature(f); c = f; } } int k = g->PostPlacemarks(root, "http://h/u"); KV_ASSERT(k == (int)n - 1 && net.q.size() == n, "every placemark is posted once, those which succeeded are counted"); for (unsigned i = 0; i < n; i++) KV_ASSERT(net.q[i].data.find("<name>" + nm[i] + "</name>") != string::npos, "in order"); }
  else if (how == 3) { string s = string("<feed") + NS + ">"; for (unsigned i = 0; i < n; i++) s += "<entry><title>" + nm[i] + "</title></entry>"; reply(&net, true, s + "</feed>"); AtomFeedPtr f = g->GetMetaFeed(); KV_ASSERT(f && f->get_entry_array_size() == n, "every entry"); for (unsigned i = 0; i < n; i++) KV_ASSERT(f->get_entry_array_at(i)->get_title() == nm[i], "in order"); }
  else { unsigned pg = how == 1 ? n : 1, m = how == 1 ? 1 : n, i = 0; AtomFeedPtr first; for (unsigned p = 0; p < pg; p++) { string s = string("<feed") + NS + ">"; if (p + 1 < pg) s += "<link rel=\"next\" href=\"http://h/" + num(p + 1) + "\"/>"; for (unsigned j = 0; j < m; j++) s += "<entry><content><Placemark xmlns=\"http://www.opengis.net/kml/2.2\"><name>" + nm[i++] + "</name></Placemark></content></entry>"; s += "</feed>"; if (p == 0) first = AsAtomFeed(ParseAtom(s, NULL)); else reply(&net, true, s); } DocumentPtr d = g->CreateDocumentOfMapFeatures(first); KV_ASSERT(net.q.size() == pg - 1 && d && d->get_feature_array_size() == n, "the features of every page"); for (i = 0; i < n; i++) KV_ASSERT(d->get_feature_array_at(i)->get_name() == nm[i], "in order"); }
  delete g;
}
