// P18: the fetch caches are bounded FIFO maps from URL to what was fetched.
// @h history q=60 t=300 | cache sizes 0..3 holding any number of 3 URLs fetched in any rotation, then every history of 3 (thorough 4) operations fetch/save/delete/remove-oldest, the fetch refused, unreadable or of content with a symbolic byte
// @h overflow q=20 t=60 | cache sizes 1..4: size+3 distinct URLs in any of their orders, then draining
// @h urls q=15 t=60 | pairs of arbitrary URLs of length 0..3 (equal or not)
// @h lifetime q=10 t=30 | items held by the caller survive eviction, deletion and the cache itself
// @h kmlfetch q=40 t=150 | histories of 3 (thorough 4) KmlCache fetches (KML relative and absolute, data) over 4 URLs, cache sizes 1..2
// @h kmz q=40 t=150 | histories of 3 fetches out of 6 references from a file inside a KMZ archive (the archive, files within it, beside it, in both places, missing), with KML and data fetches, symbolic contents
// @h scale q=40 t=100 | cache sizes 1..300, size + 3 distinct URLs fetched, then the newest hit, the oldest refetched and all drained; URLs and contents of 1..4097 characters
// @outside more operations or URLs; thread safety (documented as absent)
#include "zip.h"
#include <map>
#include "boost/intrusive_ptr.hpp"
#include "kml/base/net_cache.h"
#include "kml/base/memory_file.h"
#include "kml/engine/kml_cache.h"
#include "kml/engine/kml_file.h"
using std::string; using namespace kmlbase;
static int alive = 0;
struct Item : public Referent {
  string data; Item(const string& d) : data(d) { alive++; } ~Item() { alive--; }
  static Item* CreateFromString(const string& d) { return d.size() >= 1 && d[0] == '!' ? NULL : new Item(d); }
};
typedef boost::intrusive_ptr<Item> ItemPtr;
struct Net : public NetFetcher {
  mutable unsigned calls; mutable string asked; bool ok; string data; Net() : calls(0), ok(true) {}
  virtual bool FetchUrl(const string& url, string* out) const { calls++; asked = url; if (!ok) { *out = "junk"; return false; } *out = data; return true; }
};
struct Ref { string url; Item* item; };
static string U(unsigned i) { static const char* u[] = {"http://h/a", "http://h/b", "http://h/", "http://h/a/", "", "http://H/a", "b"}; return u[i]; }
struct Model {
  size_t max; std::vector<Ref> q; Model(size_t m) : max(m) {}
  Item* get(const string& u) { for (size_t i = 0; i < q.size(); i++) if (q[i].url == u) return q[i].item; return NULL; }
  void put(const string& u, Item* it) { if (!max) return; if (q.size() == max) q.erase(q.begin()); Ref r; r.url = u; r.item = it; q.push_back(r); }
  void del(const string& u) { for (size_t i = 0; i < q.size(); i++) if (q[i].url == u) { q.erase(q.begin() + i); return; } }
};
static void agree(NetCache<Item>& c, Model& m, unsigned n) { KV_ASSERT(c.Size() == m.q.size() && c.Size() <= m.max, "the cache holds exactly the expected number of entries, never more than its size"); for (unsigned i = 0; i < n; i++) KV_ASSERT(c.LookUp(U(i)).get() == m.get(U(i)), "a look-up returns the object cached for that URL or nothing"); }
KV_HARNESS(history) {
  unsigned max = kv_pick(4); {
  Net net; NetCache<Item> c(&net, max); Model m(max); unsigned nu = 3, steps = kv_tier() ? 4 : 3;
  string d = kv_text(1); std::vector<ItemPtr> hold;
  unsigned pre = kv_pick(max + 1), rot = pre ? kv_pick(nu) : 0; for (unsigned i = 0; i < pre; i++) { string u = U((rot + i) % nu); net.data = "p" + d; ItemPtr it = c.Fetch(u); KV_ASSERT(it && it->data == "p" + d, "filling"); m.put(u, it.get()); hold.push_back(it); }
  agree(c, m, 4); KV_ASSERT(!c.Save(U(0), NULL) && !c.Save(U(3), NULL), "nothing is not cached"); agree(c, m, 4);
  for (unsigned k = 0; k < steps; k++) {
    unsigned op = kv_pick(k + 1 < steps ? 6 : 2); if (op == 1) op = 1 + (k + max) % 2; else if (op > 1) op++;
    if (op < 3) {  // fetch: good, refused, unreadable
      string u = U(kv_pick(nu)); net.ok = op != 1; net.data = op == 2 ? "!" + d : num(k) + d; unsigned before = net.calls; Item* had = m.get(u); ItemPtr it = c.Fetch(u);
      if (had) { KV_ASSERT(it.get() == had && net.calls == before, "a hit returns the cached object without fetching"); }
      else { KV_ASSERT(net.calls == before + 1 && net.asked == u, "a miss asks the fetcher exactly once, for that URL"); if (op == 0) { KV_ASSERT(it && it->data == num(k) + d, "what was fetched is returned"); m.put(u, it.get()); hold.push_back(it); } else KV_ASSERT(!it, "a failed fetch returns nothing"); }
    } else if (op == 3) { string u = U(kv_pick(nu)); ItemPtr it = new Item("s" + num(k)); hold.push_back(it); bool want = !m.get(u) && max > 0; KV_ASSERT(c.Save(u, it) == want, "saving succeeds exactly for a URL not cached"); if (want) m.put(u, it.get()); }
    else if (op == 4) { string u = U(kv_pick(nu)); bool want = m.get(u) != NULL; KV_ASSERT(c.Delete(u) == want, "deleting succeeds exactly for a URL cached"); m.del(u); }
    else if (op == 5) { bool want = !m.q.empty(); KV_ASSERT(c.RemoveOldest() == want, "removing the oldest succeeds exactly when there is one"); if (want) m.q.erase(m.q.begin()); }
    else break;
    agree(c, m, 4);
  }
  hold.clear(); KV_ASSERT(alive == (int)m.q.size(), "the cache keeps exactly its entries alive");
  }
  KV_ASSERT(alive == 0, "destroying the cache releases its entries");
}
KV_HARNESS(overflow) {
  unsigned max = 1 + kv_pick(4); Net net; NetCache<Item> c(&net, max); Model m(max); std::vector<unsigned> left; for (unsigned i = 0; i < max + 3 && i < 6; i++) left.push_back(i); std::vector<ItemPtr> hold; unsigned free_ = 3;
  while (!left.empty()) { unsigned i = free_ ? kv_pick(left.size()) : 0; if (free_) free_--; string u = U(left[i]); left.erase(left.begin() + i); net.data = "x" + u; ItemPtr it = c.Fetch(u); KV_ASSERT(it && it->data == "x" + u, "fetched"); hold.push_back(it); m.put(u, it.get()); agree(c, m, 7); }
  while (!m.q.empty()) { KV_ASSERT(c.RemoveOldest(), "drains"); m.q.erase(m.q.begin()); agree(c, m, 7); } KV_ASSERT(!c.RemoveOldest(), "empty");
}
KV_HARNESS(urls) {
  string a = kv_string(kv_pick(4)), b = kv_string(kv_pick(4)); Net net; NetCache<MemoryFile> c(&net, 2); net.data = "1"; MemoryFilePtr x = c.Fetch(a); net.data = "2"; MemoryFilePtr y = c.Fetch(b);
  bool eq = a == b; KV_ASSERT(x->get_content() == "1" && y->get_content() == (eq ? "1" : "2"), "URLs are distinguished exactly"); KV_ASSERT(c.Size() == (eq ? 1u : 2u) && net.calls == (eq ? 1u : 2u), "one entry and one fetch per distinct URL"); KV_ASSERT(c.LookUp(a) == x && c.LookUp(b) == y, "look-up");
}
KV_HARNESS(lifetime) {
  ItemPtr keep; { Net net; net.data = "x" + kv_text(2); NetCache<Item> c(&net, 1); keep = c.Fetch("u"); unsigned k = kv_pick(4); if (k == 0) c.Delete("u"); else if (k == 1) c.Fetch("v"); else if (k == 2) c.RemoveOldest(); KV_ASSERT(keep->data == net.data, "an item outlives its entry"); }
  KV_ASSERT(alive == 1, "only the held item is left"); keep = NULL; KV_ASSERT(alive == 0, "and goes with its holder");
}
// ---- KmlCache: parsed files and data through the same bounded caches
struct Web : public NetFetcher { mutable std::vector<string> asked; std::map<string, string> page; virtual bool FetchUrl(const string& u, string* d) const { asked.push_back(u); std::map<string, string>::const_iterator i = page.find(u); if (i == page.end()) return false; *d = i->second; return true; } };
KV_HARNESS(kmlfetch) {
  Web w; string t = kv_name(1); w.page["http://h/d/a.kml"] = "<kml><Document><name>A" + t + "</name></Document></kml>"; w.page["http://h/d/b.kml"] = "<Placemark id=\"B\"/>"; w.page["http://h/d/bad.kml"] = "<kml>"; unsigned max = 1 + kv_pick(2);
  kmlengine::KmlCache c(&w, max); Model kml(max), mem(max); std::vector<kmlengine::KmlFilePtr> hold; static const char* F[] = {"a.kml", "b.kml", "bad.kml", "no.kml"};
  unsigned steps = kv_tier() ? 4 : 3;
  for (unsigned k = 0; k < steps; k++) {
    string f = F[kv_pick(4)], u = "http://h/d/" + f; unsigned op = kv_pick(3); size_t before = w.asked.size(); bool exists = w.page.count(u);
    if (op < 2) {
      kmlengine::KmlFilePtr r = op ? c.FetchKmlAbsolute(u) : c.FetchKmlRelative("http://h/d/x.kml", f); Item* had = kml.get(u);
      if (had) { KV_ASSERT((void*)r.get() == (void*)had && w.asked.size() == before, "a parsed file in the cache is returned as it is"); }
      else {
        bool inmem = mem.get(u); KV_ASSERT(w.asked.size() == before + (inmem ? 0 : 1), "its text is fetched once unless cached"); if (!inmem) KV_ASSERT(w.asked.back() == u, "from the resolved URL"); if (exists && !inmem) mem.put(u, (Item*)1);
        bool good = f[0] == 'a' || f == "b.kml"; KV_ASSERT((bool)r == good, "a file is returned exactly when it was fetched and parses");
        if (r) { KV_ASSERT(r->get_url() == u && r->get_kml_cache() == &c, "it knows its URL and cache"); KV_ASSERT((r->GetObjectById("B") != NULL) == (f == "b.kml"), "and is the right file"); kml.put(u, (Item*)r.get()); hold.push_back(r); }
      }
    } else {
      string d("old"); bool r = c.FetchDataRelative("http://h/d/x.kml", f, &d); bool inmem = mem.get(u); KV_ASSERT(r == exists, "data is returned exactly when it can be fetched"); KV_ASSERT(w.asked.size() == before + (inmem ? 0 : 1), "fetched once unless cached"); if (exists && !inmem) mem.put(u, (Item*)1); KV_ASSERT(d == (r ? w.page[u] : string("old")), "its content, exactly");
    }
  }
  string d; KV_ASSERT(!c.FetchKmlAbsolute("rel/a.kml") && !c.FetchKmlRelative("", "a.kml") && !c.FetchDataRelative("x", "y", &d) && !c.FetchDataRelative("http://h/d/x.kml", "a.kml", NULL), "bad bases, targets or outputs yield nothing");
}
KV_HARNESS(kmz) {
  Web w; string t = kv_name(1); std::vector<ZE> z; z.push_back(ZE("doc.kml", "<Folder id=\"doc\"/>")); z.push_back(ZE("in.kml", "<Placemark id=\"in\"/>")); z.push_back(ZE("both.kml", "<Placemark id=\"inner\"/>")); z.push_back(ZE("s/d.kml", "<Placemark id=\"sub\"/>"));
  w.page["http://h/d/k.kmz"] = zipbytes(z); w.page["http://h/d/out.kml"] = "<Placemark id=\"out\"><name>" + t + "</name></Placemark>"; w.page["http://h/d/both.kml"] = "<Placemark id=\"outer\"/>";
  static const struct { const char *ref, *id, *url; } R[] = {{"in.kml", "in", "http://h/d/k.kmz/in.kml"}, {"out.kml", "out", "http://h/d/out.kml"}, {"both.kml", "inner", "http://h/d/k.kmz/both.kml"}, {"s/d.kml", "sub", "http://h/d/k.kmz/s/d.kml"}, {"none.kml", 0, 0}, {"http://h/d/both.kml", "outer", "http://h/d/both.kml"}};
  kmlengine::KmlCache c(&w, 8); std::map<string, kmlengine::KmlFilePtr> got; string base = "http://h/d/k.kmz/doc.kml";
  for (int k = 0; k < 3; k++) { unsigned r = kv_pick(6); bool dat = kv_pick(2);
    if (dat) { string d = "old"; bool ok = c.FetchDataRelative(base, R[r].ref, &d); KV_ASSERT(ok == (R[r].id != 0), "found inside the archive, else beside it"); if (ok) KV_ASSERT(d.find(string("id=\"") + R[r].id + "\"") != string::npos, "the right data"); continue; }
    kmlengine::KmlFilePtr f = c.FetchKmlRelative(base, R[r].ref); KV_ASSERT((f.get() != 0) == (R[r].id != 0), "found inside the archive, else beside it"); if (!f) continue;
    KV_ASSERT(f->GetObjectById(R[r].id), "the right file"); KV_ASSERT(f->get_url() == R[r].url && f->get_kml_cache() == &c, "it knows where it was found"); if (r == 1) KV_ASSERT(kmldom::AsFeature(f->get_root())->get_name() == t, "with its content");
    kmlengine::KmlFilePtr g = c.FetchKmlAbsolute(R[r].url); KV_ASSERT(g, "and is cached under that URL"); if (!got.count(R[r].url)) { got[R[r].url] = f; } KV_ASSERT(g == got[R[r].url], "the same object from then on"); }
  for (size_t i = 0; i < w.asked.size(); i++) for (size_t j = 0; j < i; j++) KV_ASSERT(w.asked[i] != w.asked[j] || !w.page.count(w.asked[i]), "nothing that was fetched is fetched twice");
}
KV_HARNESS(scale) {
  if (kv_pick(2)) { Net net; net.data = kv_long(4097, kv_text(1)); string u = "http://h/" + kv_long(4097, kv_name(1)); NetCache<MemoryFile> c(&net, 2); MemoryFilePtr f = c.Fetch(u); KV_ASSERT(f && f->get_content() == net.data && net.asked == u, "the whole content"); string d = net.data; net.data = "other"; MemoryFilePtr g = c.Fetch(u + "x"); KV_ASSERT(g && g->get_content() == "other" && c.LookUp(u) == f && c.Size() == 2, "URLs are told apart to the end"); return; }
  unsigned max = kv_size(300); Net net; NetCache<Item> c(&net, max); std::vector<ItemPtr> hold; string d = kv_text(1); for (unsigned i = 0; i < max + 3; i++) { net.data = "x" + num(i) + d; ItemPtr it = c.Fetch("u" + num(i)); KV_ASSERT(it && it->data == net.data, "fetched"); hold.push_back(it); KV_ASSERT(c.Size() == (i < max ? i + 1 : max), "bounded"); }
  for (unsigned i = 0; i < max + 3; i++) KV_ASSERT(c.LookUp("u" + num(i)).get() == (i < 3 ? 0 : hold[i].get()), "exactly the newest are kept"); unsigned n = net.calls; KV_ASSERT(c.Fetch("u" + num(max + 2)) == hold[max + 2] && net.calls == n, "a hit"); ItemPtr z = c.Fetch("u0"); KV_ASSERT(net.calls == n + 1 && z != hold[0] && !c.LookUp("u3") && c.Size() == max, "a miss"); for (unsigned i = 0; i < max; i++) KV_ASSERT(c.RemoveOldest(), "drains"); KV_ASSERT(c.Size() == 0 && !c.RemoveOldest(), "empty");
}
