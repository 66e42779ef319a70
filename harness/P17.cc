// P17: references are split, resolved, normalised and mapped to files as RFC 3986 and the headers say.
// @h split q=40 t=200 | every text of length 0..4 (thorough 0..5) of ASCII bytes other than '[' and NUL: accepted exactly when RFC 3986 accepts it, components the RFC's
// @h parts q=25 t=120 | references built from every combination of present/absent scheme, user, host, port, path of 0..3 segments, query and fragment, each component 1..2 arbitrary legal characters
// @h resolve q=90 t=200 | every reference of length 0..4 (thorough 0..6) over { a . / ? # : } against bases with 0..3 path segments, with and without query and fragment
// @h relbase q=10 t=30 | bases that are no absolute URI, or malformed: nothing is resolved
// @h kmz q=30 t=120 | texts of up to 4 (thorough 6) pieces out of { .kmz .kml / a .kmzx doc.kmz : }
// @h fetchable q=15 t=60 | references from the combinations of parts
// @h relative q=30 t=120 | KMZ-aware relative references: 4 bases x 8 targets with symbolic names
// @h files q=30 t=120 | every file name of length 0..3 of non-NUL bytes without a backslash; every drive-letter or relative Windows name of two segments with 1 arbitrary character each
// @h normal q=30 t=120 | paths of length 0..5 (thorough 0..6) over { a . / }, with a host and without; percent-encodings of every byte
// @h model q=15 t=60 | base, geometry and target references of 2 segments each
// @h href q=30 t=120 | every text of length 0..6 (thorough 0..8) over { a : / # ? }
// @outside IPv6 and IPvFuture host literals, non-ASCII references, longer texts; references whose resolved path would begin with "//" (uriparser inserts "/." there)
// @assume uriparser behaves as engine/models_uri.cc models it (each explored path is replayed with the real uriparser and must agree)
#include "uri.h"
#include "kml/engine/kml_uri.h"
#include "kml/engine/kml_uri_internal.h"
#include "kml/engine/href.h"
#include "kml/base/uri_parser.h"
using std::string; using namespace kmlengine; using kmlbase::UriParser;
static const string KEEP("\x01untouched");
static void same(const rfc::Part& p, const string& got) { KV_ASSERT(got == (p.has ? p.t : KEEP), "a component present in the reference is returned exactly, an absent one leaves the output alone"); }
static void check(const string& s) {
  rfc::Uri u = rfc::split(s);
  string sc(KEEP), h(KEEP), po(KEEP), pa(KEEP), q(KEEP), f(KEEP), p2(KEEP), f2(KEEP);
  bool ok = SplitUri(s, &sc, &h, &po, &pa, &q, &f);
  KV_ASSERT(ok == u.ok, "a reference is accepted exactly when RFC 3986 accepts it"); kv_obs_int(ok);
  bool hp = SplitUriPath(s, &p2), hf = SplitUriFragment(s, &f2);
  if (!ok) { KV_ASSERT(sc == KEEP && h == KEEP && po == KEEP && pa == KEEP && q == KEEP && f == KEEP && !hp && !hf && p2 == KEEP && f2 == KEEP, "a rejected reference yields no component"); KV_ASSERT(!SplitUri(s, NULL, NULL, NULL, NULL, NULL, NULL), "rejected without outputs too"); return; }
  same(u.scheme, sc); same(u.host, h); same(u.port, po); same(u.query, q); same(u.frag, f); KV_ASSERT(hf == u.frag.has, "fragment presence"); same(u.frag, f2);
  string want = rfc::upath(u); KV_ASSERT(pa == want || (want.empty() && pa == KEEP), "the path is returned exactly (without its leading slash)"); KV_ASSERT(p2 == pa && hp == (pa != KEEP), "SplitUriPath agrees"); if (!want.empty()) KV_ASSERT(hp, "a non-empty path is reported present");
  KV_ASSERT(SplitUri(s, NULL, NULL, NULL, NULL, NULL, NULL), "outputs are optional");
  string q2(KEEP); KV_ASSERT(SplitUri(s, NULL, NULL, NULL, NULL, &q2, NULL) && q2 == q, "each output is independent of the others");
}
KV_HARNESS(split) {
  string s = kv_string(kv_pick(kv_tier() ? 6 : 5)); for (size_t i = 0; i < s.size(); i++) KV_ASSUME((s[i] > 0) & (s[i] != '[')); check(s);
}
static string legal(unsigned n, const char* x) { string s = kv_string(n, 'a'); bool ok = true; for (size_t i = 0; i < n; i++) ok &= rfc::un(s[i]) | rfc::sub(s[i]) | rfc::in(s[i], x); KV_ASSUME(ok); return s; }
static rfc::Uri parts(bool full) {
  rfc::Uri u; unsigned m = full ? kv_pick(4) : 3; unsigned n = 1;
  if (m & 1) { string s = kv_string(2, 'x'); KV_ASSUME(rfc::al(s[0]) & (rfc::al(s[1]) | rfc::dg(s[1]) | rfc::in(s[1], "+-."))); u.scheme.set(s); }
  if (m & 2) { u.auth = true; unsigned k = kv_pick(4); if (k & 1) u.user.set(legal(n, ":")); u.host.set(legal(n, "")); if (k & 2) { string p = kv_string(1, '8'); KV_ASSUME(rfc::dg(p[0])); u.port.set(p); } }
  unsigned ns = kv_pick(4); for (unsigned i = 0; i < ns; i++) { if (i || u.auth) u.path += "/"; u.path += legal(1, i || u.scheme.has ? ":@" : "@"); }
  unsigned k = kv_pick(4); if (k & 1) u.query.set(legal(n, ":@/?")); if (k & 2) u.frag.set(legal(n, ":@/?"));
  return u;
}
KV_HARNESS(parts) {
  rfc::Uri u = parts(true); string s = rfc::join(u); string sc, h, po, pa, q, f;
  KV_ASSERT(SplitUri(s, &sc, &h, &po, &pa, &q, &f), "a legal reference is accepted");
  KV_ASSERT(sc == u.scheme.t && h == u.host.t && po == u.port.t && pa == rfc::upath(u) && q == u.query.t && f == u.frag.t, "each component is the one the reference was built from");
  boost::scoped_ptr<UriParser> p(UriParser::CreateFromParse(s.c_str())); KV_ASSERT(p.get() && p->GetScheme(NULL) == u.scheme.has && p->GetHost(NULL) == u.host.has && p->GetPort(NULL) == u.port.has && p->GetQuery(NULL) == u.query.has && p->GetFragment(NULL) == u.frag.has, "presence of each component");
  string back; KV_ASSERT(p->ToString(&back) && back == s, "a parsed reference is written back as it was"); kv_obs(back);
}
KV_HARNESS(fetchable) {
  rfc::Uri u = parts(true); string s = rfc::join(u); string f("old"); KV_ASSERT(GetFetchableUri(s, &f), "a legal reference has a fetchable form"); KV_ASSERT(GetFetchableUri(s, NULL), "the output is optional");
  if (u.scheme.has && u.auth && !u.user.has && !u.path.empty()) { u.query = rfc::Part(); u.frag = rfc::Part(); KV_ASSERT(f == rfc::join(u), "the fetchable form is scheme, host, port and path"); }
  string g("old"); KV_ASSERT(!GetFetchableUri("a b", &g) && g == "old", "a malformed reference has none");
  string w; KV_ASSERT(GetFetchableUri("file:///d/x.kmz/y#z", &w) && w == "file:///d/x.kmz/y", "references without a host keep their scheme and slashes");
}
static void resolves(const string& base, const string& ref) {
  rfc::Uri b = rfc::split(base), r = rfc::split(ref); string got("old"); bool ok = ResolveUri(base, ref, &got); kv_obs_int(ok); kv_obs(got);
  if (!r.ok) { KV_ASSERT(!ok && got == "old", "a malformed reference resolves to nothing"); return; }
  rfc::Uri t = rfc::resolve(b, r); if (rfc::starts(t.path, "//")) return;
  KV_ASSERT(ok, "a legal reference resolves"); KV_ASSERT(got == rfc::join(t), "the result is the one of RFC 3986 section 5.2");
}
static string mkbase() { string b = "http://h"; unsigned n = kv_pick(4); for (unsigned i = 0; i < n; i++) b += "/" + kv_alpha(1, "b."); if (kv_bool()) b += "?q#f"; return b; }
// uriparser keeps an empty path of a reference "scheme:" or "//h" as it is: no slash is added
KV_HARNESS(resolve) {
  string b = mkbase(); unsigned n = kv_pick(kv_tier() ? 7 : 5); string r = kv_alpha(n, "a./?#:");
  // a first segment with a colon is a scheme; schemes with a rootless path are the generic case and stay inside
  resolves(b, r);
}
KV_HARNESS(relbase) {
  string got("old"); static const char* B[] = {"a/b", "/a", "//h/a", "", "#f", "?q", "1:/a", "http://h h/", ":"}; string r = kv_alpha(kv_pick(3), "a./#");
  KV_ASSERT(!ResolveUri(B[kv_pick(9)], r, &got) && got == "old", "only an absolute URI can be a base"); KV_ASSERT(!ResolveUri("http://h/a", r, NULL), "no output, no result");
  boost::scoped_ptr<KmlUri> u(KmlUri::CreateRelative(B[kv_pick(9)], r)); KV_ASSERT(!u.get(), "no reference without an absolute base");
}
KV_HARNESS(kmz) {
  static const char* P[] = {".kmz", ".kml", "/", "a", ".kmzx", "d.kmz", ":"}; unsigned n = kv_pick(kv_tier() ? 7 : 5); string s; for (unsigned i = 0; i < n; i++) s += P[kv_pick(7)];
  string x = kv_alpha(1, "a/.z"); if (kv_bool()) s += x + "b";
  // oracle: the archive's name is the first segment that ends in ".kmz"
  size_t at = string::npos; for (size_t i = 0; i + 4 <= s.size() && at == string::npos; i++) if (s[i] == '.' && s[i + 1] == 'k' && s[i + 2] == 'm' && s[i + 3] == 'z' && (i + 4 == s.size() || s[i + 4] == '/')) at = i;
  string u("old"), p("old"); bool r = KmzSplit(s, &u, &p); KV_ASSERT(r == (at != string::npos), "a reference names an archive exactly when a segment ends in .kmz"); kv_obs_int(r);
  if (!r) KV_ASSERT(u == "old" && p == "old", "a reference without an archive yields nothing");
  else { KV_ASSERT(u == s.substr(0, at + 4), "the archive's URL"); KV_ASSERT(p == (at + 4 == s.size() ? string() : s.substr(at + 5)), "the path inside the archive"); }
  KV_ASSERT(KmzSplit(s, NULL, NULL) == r, "outputs are optional");
}
KV_HARNESS(relative) {
  string a = kv_name(1), b = kv_name(1); static const char* B[] = {"http://h/d/x.kml", "http://h/d/x.kmz/doc.kml", "http://h/d/x.kmz", "file:///d/x.kmz/e/doc.kml"}; string base = B[kv_pick(4)];
  string T[] = {a, a + "/" + b, "../" + a, "../../" + a + b, "/" + a, "http://o/" + a + ".kmz", a + ".kmz/" + b + ".kml#f", a + "?" + b}; string t = T[kv_pick(8)];
  boost::scoped_ptr<KmlUri> u(KmlUri::CreateRelative(base, t)); KV_ASSERT(u.get(), "legal base and target");
  rfc::Uri w = rfc::resolve(rfc::split(base), rfc::split(t)); string url = rfc::join(w); KV_ASSERT(u->get_url() == url, "the URL is the resolved target"); KV_ASSERT(u->get_target() == t, "the target is kept");
  w.query = rfc::Part(); w.frag = rfc::Part(); string f = rfc::join(w); size_t i = f.find(".kmz"); KV_ASSERT(u->is_kmz() == (i != string::npos), "known to be in an archive exactly when it is");
  if (u->is_kmz()) { KV_ASSERT(u->get_kmz_url() == f.substr(0, i + 4), "the archive's URL"); KV_ASSERT(u->get_path_in_kmz() == (f.size() > i + 4 ? f.substr(i + 5) : string()), "the path inside the archive"); u->set_path_in_kmz("q.kml"); KV_ASSERT(u->get_path_in_kmz() == "q.kml" && u->get_url() == u->get_kmz_url() + "/q.kml", "a new path inside the archive"); }
  kv_obs(url);
}
static string esc(const string& f) { string o; for (size_t i = 0; i < f.size(); i++) { unsigned char c = f[i]; if (rfc::un(c) | (c == '/')) o += (char)c; else { o += '%'; o += "0123456789ABCDEF"[c >> 4]; o += "0123456789ABCDEF"[c & 15]; } } return o; }
KV_HARNESS(files) {
  if (kv_bool()) {
    string f = kv_string(kv_pick(4)); for (size_t i = 0; i < f.size(); i++) KV_ASSUME((f[i] != 0) & (f[i] != '\\'));
    string u, g; KV_ASSERT(FilenameToUri(f, &u), "every name has a URI"); KV_ASSERT(u == (!f.empty() && f[0] == '/' ? "file://" : "") + esc(f), "the URI of a file name is the name with every other character encoded, with the file scheme when absolute");
    KV_ASSERT(UriToFilename(u, &g) && g == f, "and maps back to it"); kv_obs(u);
    KV_ASSERT(!FilenameToUri(f, NULL) && !UriToFilename(u, NULL), "an output is required");
  } else {
    string a = kv_string(1), b = kv_string(1); KV_ASSUME((a[0] != 0) & (a[0] != '\\') & (a[0] != ':') & (b[0] != 0) & (b[0] != '\\') & (b[0] != ':') & (a[0] != '/') & (b[0] != '/')); bool drive = kv_bool();
    string f = string(drive ? "C:\\" : "") + a + "\\" + b, u, g; KV_ASSERT(FilenameToUri(f, &u), "every name has a URI"); KV_ASSERT(u == (drive ? "file:///C:/" : "") + esc(a) + "/" + esc(b), "the URI of a Windows name");
    KV_ASSERT(UriParser::UriToWindowsFilename(u, &g) && g == f, "and maps back to it"); kv_obs(u);
  }
}
KV_HARNESS(normal) {
  if (kv_bool()) {
    string p = kv_alpha(kv_pick(kv_tier() ? 7 : 6), "a./"); bool host = kv_bool(); string got, h;
    if (host) { KV_ASSERT(NormalizeUri("HTTP://Ex.Com/" + p, &got), "normalises"); KV_ASSERT(got == "http://ex.com" + rfc::dots("/" + p), "scheme and host in lower case, dot segments removed"); }
    else { KV_ASSUME(p.empty() || p[0] != '/'); if (p.find("//") != string::npos) return; KV_ASSERT(NormalizeHref(p, &h), "normalises");
      // oracle: segments with leading ".." kept
      std::vector<string> o; bool dir = false; size_t i = 0; while (i <= p.size() && !p.empty()) { size_t e = p.find('/', i); if (e == string::npos) e = p.size(); string s = p.substr(i, e - i); dir = false; if (s == ".") dir = true; else if (s == "..") { if (o.empty() || o.back() == "..") o.push_back(s); else { o.pop_back(); dir = true; } } else if (s.empty()) dir = true; else o.push_back(s); i = e + 1; }
      string w; for (size_t k = 0; k < o.size(); k++) w += (k ? "/" : "") + o[k]; if (dir && !o.empty()) w += "/"; KV_ASSERT(h == w, "dot segments are removed, leading parent references kept"); KV_ASSERT(!NormalizeHref(p, NULL), "an output is required"); }
    kv_obs(got + h);
  } else {
    string b = kv_string(1); unsigned char c = b[0]; static const char D[] = "0123456789abcdef"; string pc = "%"; pc += D[c >> 4]; pc += D[c & 15]; string got; bool ok = NormalizeUri("x:/a" + pc + "?" + pc + "#" + pc, &got); KV_ASSERT(ok, "normalises");
    string w; if (rfc::un(c)) w = b; else { w = "%"; w += "0123456789ABCDEF"[c >> 4]; w += "0123456789ABCDEF"[c & 15]; } KV_ASSERT(got == "x:/a" + w + "?" + w + "#" + w, "encodings of unreserved characters are decoded, others written in upper case"); kv_obs(got);
    string e("old"); KV_ASSERT(!NormalizeUri("a b", &e) && e == "old", "malformed references are not normalised");
  }
}
KV_HARNESS(model) {
  string a = kv_name(1); string base = "http://h/d/m.kmz/doc.kml"; string G[] = {a + "/b.dae", "../" + a, "/" + a + "/x", "http://o/" + a + "/y", "a b"}; string T[] = {"../t/" + a, a, "/" + a, "http://p/" + a, "x y"}; string g = G[kv_pick(5)], t = T[kv_pick(5)], r("old");
  bool ok = ResolveModelTargetHref(base, g, t, &r); bool want = g != "a b" && t != "x y"; KV_ASSERT(ok == want, "resolved exactly when all are legal"); if (!ok) { KV_ASSERT(r == "old", "nothing written otherwise"); return; }
  rfc::Uri gu = rfc::resolve(rfc::split(base), rfc::split(g)); KV_ASSERT(r == rfc::join(rfc::resolve(gu, rfc::split(t))), "the target is relative to the geometry, which is relative to the file"); KV_ASSERT(!ResolveModelTargetHref(base, g, t, NULL), "an output is required"); kv_obs(r);
}
KV_HARNESS(href) {
  string s = kv_alpha(kv_pick(kv_tier() ? 9 : 7), "a:/#?"); Href h(s);
  size_t p = s.find('#'); string frag = p == string::npos ? "" : s.substr(p + 1), u = s.substr(0, p), sc, nl, pa = u;
  size_t c = u.find("://"); if (c != string::npos && c > 0 && u.find('/') == c + 1 && u.substr(0, c).find('?') == string::npos) { sc = u.substr(0, c); string rest = u.substr(c + 3); size_t e = rest.find('/'); nl = rest.substr(0, e); pa = e == string::npos ? string() : rest.substr(e + 1); }
  KV_ASSERT(h.get_fragment() == frag && h.has_fragment() == !frag.empty(), "fragment"); KV_ASSERT(h.get_scheme() == sc && h.has_scheme() == !sc.empty(), "scheme"); KV_ASSERT(h.get_net_loc() == nl && h.has_net_loc() == !nl.empty(), "network location"); KV_ASSERT(h.get_path() == pa && h.has_path() == !pa.empty(), "path");
  KV_ASSERT(h.IsRelative() == (sc.empty() && nl.empty()) && h.IsRelativePath() == (sc.empty() && nl.empty() && !pa.empty()) && h.IsFragmentOnly() == (!frag.empty() && sc.empty() && nl.empty() && pa.empty()), "classification");
}
