// P04: parsing is total and the same through every entry point.
// @h bytes q=60 t=300 | every byte string of length 0..4 (thorough 0..5) through Parse, ParseNS, ParseAtom, KmlFile and KmlStream
// @h edit q=90 t=500 | four templates, every position: that byte replaced by (or followed by) any byte 1..255 other than ':' and '&', through all entry points
// @h cut q=30 t=120 | four templates truncated at every position, or with a second root appended
// @h chunks q=60 t=300 | two symbolic bytes in a document fed to the parser in three chunks cut at every pair of positions
// @h stream q=60 t=300 | a document longer than the stream buffer, with its 4096-byte boundary at every position of a fragment holding a symbolic byte
// @h depth q=30 t=90 | nesting 95..105 deep: containers, unknown elements, or known inside unknown, open or empty innermost element
// @h entity q=20 t=60 | documents declaring a general or parameter entity, with symbolic entity name, used or not
// @h root q=30 t=120 | root element with every symbolic name of length 1..3, and known names with one symbolic character
// @h oldschema q=40 t=120 | Schema elements with parent attribute naming any of eleven element names, symbolic name, in six placements: no crash, agreement
// @h atom q=20 t=60 | ParseAtom of documents with symbolic root or child names, with and without the Atom namespace, and 97..103 deep
// @h namespaces q=40 t=120 | ParseNS and ParseAtom of documents whose elements are bound to the KML or Atom namespace by a symbolic prefix or a default declaration, for ParseAtom with the namespace name exact, cut short by 1..5, lengthened, or with any one byte replaced
// @h badstream q=15 t=60 | a stream that fails (badbit) after any number of bytes, or is bad from the start
// @outside texts over 5 arbitrary bytes that are not single edits of the templates; encodings other than UTF-8/ASCII; KMZ input (P19); out-of-memory
#include "kvu.h"
#include "kml/engine.h"
#include "kml/engine/kml_stream.h"
#include "kml/base/expat_parser.h"
#include "kml/dom/kml_handler.h"
#include "kml/dom/xsd.h"
#include <sstream>
#include <string.h>
using namespace kmldom; using namespace kmlengine;
using std::string;
static void outcome(const ElementPtr& e, const string& err, const char*) {
  KV_ASSERT(e || !err.empty(), "a tree, or an error message");
}
static string ser(const ElementPtr& e) { return e ? SerializeRaw(e) : "-"; }
static void all(const string& s, bool ns) {
  string err; ElementPtr p = Parse(s, &err); outcome(p, err, "Parse"); string t = ser(p); kv_obs_int(p ? 1 : 0); kv_obs(t);
  if (ns) { string e2; ElementPtr n = ParseNS(s, &e2); outcome(n, e2, "ParseNS"); KV_ASSERT((n != 0) == (p != 0), "ParseNS agrees on acceptance"); KV_ASSERT(ser(n) == t, "ParseNS agrees on the tree"); }
  string e3; std::istringstream is(s); boost::scoped_ptr<KmlStream> k(KmlStream::ParseFromIstream(&is, &e3, NULL));
  if (k) { KV_ASSERT(k->get_root(), "a stream parse that succeeds has a root"); KV_ASSERT(p && ser(k->get_root()) == t, "stream parse agrees"); }
  else KV_ASSERT(!p && !e3.empty(), "stream parse agrees on rejection and reports it");
  if (s.size() < 4 || s.compare(0, 2, "PK") != 0) { string e4; KmlFilePtr f = KmlFile::CreateFromParse(s, &e4); if (f) KV_ASSERT(p && ser(f->get_root()) == t, "file parse agrees"); else KV_ASSERT(!p && !e4.empty(), "file parse agrees on rejection and reports it"); }
  KV_ASSERT((ParseKml(s) != 0) == (p != 0), "ParseKml agrees");
}
KV_HARNESS(bytes) {
  string s = kv_string(kv_pick(kv_tier() ? 6 : 5), '<'); all(s, false);
  string e; ElementPtr n = ParseNS(s, &e); outcome(n, e, "ParseNS"); string e2; ElementPtr a = ParseAtom(s, &e2); outcome(a, e2, "ParseAtom");
}
static const char* T[] = {"<Point><coordinates>1,2</coordinates></Point>", "<Folder id='a'><name>x</name><u b='c'>t</u></Folder>", "<?xml version='1.0'?><kml><!--c--><Style/></kml>", "<Placemark><description><b>h</b><![CDATA[d]]></description></Placemark>"};
KV_HARNESS(edit) {
  string s = T[kv_pick(4)]; unsigned p = kv_pick(s.size()); unsigned char c = kv_u8(); KV_ASSUME((c != 0) & (c != ':') & (c != '&'));
  if (kv_pick(2)) s[p] = (char)c; else s.insert(p, 1, (char)c);
  all(s, true);
}
KV_HARNESS(cut) {
  string s = T[kv_pick(4)]; unsigned p = kv_pick(s.size() + 2); if (p <= s.size()) s.resize(p); else s += T[kv_pick(4)];
  all(s, true);
  if (p < s.size() || p == 0) KV_ASSERT(!Parse(s, NULL), "an incomplete document is rejected");
}
KV_HARNESS(chunks) {
  string s = "<Placemark id='" + kv_name(1) + "'><name>" + kv_text(1) + "é</name><u>v</u></Placemark>";
  unsigned a = kv_pick(s.size() + 1), b = kv_pick(s.size() + 1); KV_ASSUME(a <= b);
  ElementPtr w = Parse(s, NULL);
  parser_observer_vector_t o; KmlHandler h(o); kmlbase::ExpatParser p(&h, false); string e;
  bool ok = p.ParseBuffer(s.substr(0, a), &e, false) && p.ParseBuffer(s.substr(a, b - a), &e, false) && p.ParseBuffer(s.substr(b), &e, true);
  KV_ASSERT(ok == (w != 0), "acceptance does not depend on the chunks"); if (ok) KV_ASSERT(ser(h.PopRoot()) == ser(w), "the tree does not depend on the chunks"); else KV_ASSERT(!e.empty(), "error reported");
}
KV_HARNESS(stream) {
  string frag = "<name>n" + kv_text(1) + "é</name><Point><coordinates>1,2,3</coordinates></Point>";
  unsigned at = kv_pick(frag.size() + 1); string head = "<Placemark><!--"; size_t pad = 4096 - at - head.size() - 3;
  string s = head + string(pad, 'c') + "-->" + frag + "</Placemark>"; bool trunc = kv_pick(2); if (trunc) s.resize(4096);
  all(s, false);
}
KV_HARNESS(depth) {
  unsigned n = 95 + kv_pick(11), k = kv_pick(3), em = kv_pick(2); string o, c; const char* nm = k == 0 ? "Folder" : "u";
  for (unsigned i = 0; i < n; i++) { const char* t = (k && i == 0) ? "Folder" : (k == 2 && i % 2) ? "Folder" : nm; if (em && i + 1 == n) { o += string("<") + t + "/>"; } else { o += string("<") + t + ">"; c = string("</") + t + ">" + c; } }
  string s = o + c; all(s, true);
  KV_ASSERT((Parse(s, NULL) != 0) == (n <= 100), "exactly documents nested up to 100 deep are accepted");
}
KV_HARNESS(entity) {
  string n = kv_name(1 + kv_pick(2)); unsigned k = kv_pick(3), u = kv_pick(2);
  string s = "<!DOCTYPE kml [" + (k == 0 ? "<!ENTITY " + n + " \"v\">" : k == 1 ? "<!ENTITY % " + n + " \"v\">" : string("<!ENTITY a \"b\"><!ENTITY ") + n + " \"v\">") + "]><kml>" + (u ? "<Placemark><name>&" + n + ";</name></Placemark>" : string()) + "</kml>";
  all(s, true); KV_ASSERT(!Parse(s, NULL), "a document declaring entities is rejected");
}
KV_HARNESS(root) {
  string n; unsigned k = kv_pick(8); static const char* kn[] = {"kml", "Point", "name", "Link", "href"};
  if (k < 3) n = kv_name(k + 1); else { n = kn[k - 3]; unsigned p = kv_pick(n.size()); n[p] = kv_name(1)[0]; }
  string s = kv_pick(2) ? "<" + n + "/>" : "<" + n + ">x</" + n + ">"; ElementPtr e = Parse(s, NULL);
  bool known = Xsd::GetSchema()->ElementId(n) != 0;
  KV_ASSERT((e != 0) == known, "exactly known root elements are accepted"); all(s, true);
}
KV_HARNESS(oldschema) {
  static const char* nm[] = {"Schema", "Document", "kml", "Placemark", "S", "SimpleField", "name", "Folder", "ExtendedData", "SchemaData", "u"};
  string n = nm[kv_pick(11)]; if (n == "u") n = kv_name(2);
  string sc = "<Schema name='" + n + "' parent='Placemark'><SimpleField type='int' name='f'/></Schema>", use = "<" + n + "><f>1</f></" + n + ">";
  unsigned k = kv_pick(6);
  string s = k == 0 ? sc : k == 1 ? "<kml><Document>" + sc + use + "</Document></kml>" : k == 2 ? "<Document><Folder>" + sc + "</Folder>" + use + use + "</Document>" : k == 3 ? "<Document>" + sc + "<Schema name='T' id='t'/>" + use + "</Document>" : k == 4 ? "<Placemark>" + sc + "<f><name>x</name></f>" + use + "</Placemark>" : "<Document>" + sc + "<" + n + "><f/><v><f>2</f></v></" + n + "></Document>";
  all(s, true);
}
struct BadBuf : std::streambuf {
  string s; size_t n; bool thrown; BadBuf(const string& d, size_t k) : s(d), n(k) {}
  std::streamsize xsgetn(char* b, std::streamsize m) { if (n == 0) throw 1; std::streamsize k = m < (std::streamsize)n ? m : n; memcpy(b, s.data(), k); s.erase(0, k); n -= k; if (k < m) throw 1; return k; }
};
KV_HARNESS(badstream) {
  string s = "<kml><Placemark><name>" + kv_text(1) + "</name></Placemark></kml>"; unsigned k = kv_pick(s.size() + 2);
  string err; boost::scoped_ptr<KmlStream> r;
  if (k > s.size()) { std::istringstream is(s); is.setstate(std::ios::failbit); r.reset(KmlStream::ParseFromIstream(&is, &err, NULL)); }
  else { BadBuf b(s, k); std::istream is(&b); r.reset(KmlStream::ParseFromIstream(&is, &err, NULL)); }
  KV_ASSERT(!r || r->get_root(), "a stream parse that succeeds has a root");
  KV_ASSERT(!r && !err.empty(), "a stream that fails before its end is rejected");
}
KV_HARNESS(atom) {
  unsigned k = kv_pick(4), n = 97 + kv_pick(7); string nm = kv_name(1 + kv_pick(2)), s, xm = " xmlns='http://www.w3.org/2005/Atom'";
  if (k == 0) s = "<" + nm + xm + "/>"; else if (k == 1) s = "<" + nm + ">t</" + nm + ">"; else if (k == 2) s = "<feed" + xm + "><" + nm + ">t<" + nm + "/></" + nm + "></feed>";
  else { string o, c; for (unsigned i = 0; i < n; i++) { string t = i ? "u" : "feed"; o += "<" + t + (i ? "" : xm) + ">"; c = "</" + t + ">" + c; } s = o + c; }
  string e; ElementPtr p = ParseAtom(s, &e); outcome(p, e, "ParseAtom"); kv_obs_int(p ? 1 : 0);
  if (k == 0) KV_ASSERT((p != 0) == (Xsd::GetSchema()->ElementId("atom:" + nm) != 0), "an unknown root is rejected"); else if (k == 1) KV_ASSERT((p != 0) == (Xsd::GetSchema()->ElementId(nm) != 0), "an unknown root is rejected"); else if (k == 2) KV_ASSERT(p && p->Type() == Type_AtomFeed, "unknown children are kept"); else KV_ASSERT((p != 0) == (n <= 100), "depth limit");
}

static const char* URI[] = {"http://www.opengis.net/kml/2.2", "http://www.google.com/kml/ext/2.2", "http://www.w3.org/2005/Atom", "urn:oasis:names:tc:ciq:xsdschema:xAL:2.0"};
KV_HARNESS(namespaces) {
  bool atom = kv_pick(2); unsigned how = atom ? kv_pick(4) : 0; bool dflt = kv_pick(2); string p = kv_name(1); unsigned w = atom && kv_pick(2) ? 2 : 0; string u = URI[w];
  if (how == 1) u = u.substr(0, u.size() - 1 - kv_pick(5)); else if (how == 2) u += kv_alpha(1, "x/2"); else if (how == 3) { unsigned i = kv_pick(4); unsigned char c = kv_u8(); KV_ASSUME(((unsigned)(c - 'a') < 26u) | ((unsigned)(c - '0') < 10u) | (c == '.')); u[i == 3 ? u.size() - 1 : i * 9] = c; } bool exact = u == URI[w];
  string q = dflt ? "" : p + ":", x = dflt ? " xmlns='" + u + "'" : " xmlns:" + p + "='" + u + "'", e;
  if (!atom) { static const char* N[] = {"visibility", "snippet", "Snippet", "Point"}; unsigned k = kv_pick(4); string body = k == 0 ? "0" : k < 3 ? "s" : "";
    if (p == "k" && !dflt) return;
    string ns = "<k:Placemark xmlns:k='" + string(URI[0]) + "'><k:name>t</k:name><" + q + N[k] + x + ">" + body + "</" + q + N[k] + "></k:Placemark>", st = "<Placemark><name>t</name><" + string(N[k]) + ">" + body + "</" + N[k] + "></Placemark>";
    ElementPtr a = ParseNS(ns, &e), b = Parse(st, NULL); KV_ASSERT(a && b, "parsed"); KV_ASSERT(SerializeRaw(a) == SerializeRaw(b), "whatever the prefix, an element of the KML namespace is known"); PlacemarkPtr f = AsPlacemark(a); KV_ASSERT(f && f->get_name() == "t", "the rest"); }
  else { string s = w == 2 ? "<" + q + "feed" + x + "/>" : "<feed xmlns='" + string(URI[2]) + "'><entry><content><" + q + "Placemark" + x + "/></content></entry></feed>"; ElementPtr a = ParseAtom(s, &e); if (w == 2) KV_ASSERT((a != 0) == exact, "a feed of the Atom namespace"); else { KV_ASSERT(a, "parsed"); AtomContentPtr c = AsAtomFeed(a)->get_entry_array_at(0)->get_content(); KV_ASSERT(c->get_misplaced_elements_array_size() == (exact ? 1 : 0), "a feature of the KML namespace"); } }
}
