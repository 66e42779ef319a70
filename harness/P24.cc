// P24: entity expansion in balloon text.
// @h expand q=40 t=200 | every template of length 0..7 (thorough 0..9) over { $ [ ] a b } with entities a -> v and b -> w, values of length 0..2 over { x $ [ }
// @h selfref q=25 t=90 | 1..3 references to an entity whose value embeds its own reference between 0..2 symbolic bytes, other references around
// @h delims q=30 t=120 | every template of length 0..6 over { { } k l } with start/end markers each absent or present, one key of length 1..2, value of length 0..3
// @h bytes q=25 t=90 | reference among 0..3 symbolic bytes of any kind on each side, symbolic 0..2 byte value
// @h fields q=40 t=200 | features with every combination of id, name, address, Snippet, description, targetId, Data (with/without displayName, value, name), SchemaData; empty address; template naming all entities with symbolic one-byte texts
// @h schemas q=30 t=120 | two SchemaData over two Schemas with 2 SimpleFields each (display name present or not), SimpleData names declared or not, symbolic texts; balloon table
// @h balloon q=30 t=120 | balloon from BalloonStyle text (inline or shared) or the default layout, every presence combination of name, description, data
// @h scale q=40 t=100 | templates of 1..300 references to one or as many entities, values and keys of 1..4097 characters; features with 1..129 data
// @h again q=30 t=100 | balloons of two features of one file with different subsets of name, data, schema data and balloon style, made in every order of three
// @outside references to a second entity spelled inside an entity's value (expanded or not depending on name order); templates longer than 9 bytes over the full marker alphabet
#include "kvu.h"
#include "kml/engine.h"
#include "kml/engine/entity_mapper.h"
#include "kml/engine/feature_balloon.h"
using namespace kmldom; using namespace kmlbase; using namespace kmlengine;
using std::string;
// left-to-right replacement of one reference
static string subst(const string& in, const string& ref, const string& v) {
  string o; size_t i = 0;
  while (i < in.size()) { if (i + ref.size() <= in.size() && in.compare(i, ref.size(), ref) == 0) { o += v; i += ref.size(); } else o += in[i++]; }
  return o;
}
KV_HARNESS(expand) {
  string t = kv_alpha(kv_pick(kv_tier() ? 10 : 8), "$[]ab");
  StringMap m; string v = kv_alpha(kv_pick(3), "x$["), w = kv_alpha(kv_pick(3), "x$["); m["a"] = v; m["b"] = w;
  string got = CreateExpandedEntities(t, m);
  // references cannot overlap, so one scan over the template is the specification; combinations in which an inserted
  // value completes a new reference to b are outside the claim
  string o; size_t i = 0;
  while (i < t.size()) { if (i + 4 <= t.size() && t[i] == '$' && t[i + 1] == '[' && t[i + 3] == ']') { if (t[i + 2] == 'a') { o += v; i += 4; continue; } if (t[i + 2] == 'b') { o += w; i += 4; continue; } } o += t[i++]; }
  string seq = subst(subst(t, "$[a]", v), "$[b]", w);
  KV_ASSUME(seq == o);
  KV_ASSERT(got == o, "every reference, and nothing else, is replaced by its value");
}
KV_HARNESS(selfref) {
  string x = kv_alpha(kv_pick(3), "x$]["), y = kv_alpha(kv_pick(3), "y$]["); string v = x + "$[k]" + y;
  unsigned n = 1 + kv_pick(3); string t, want; for (unsigned i = 0; i < n; i++) { bool o = kv_pick(2); t += string(o ? "$[n]" : ".") + "$[k]"; want += string(o ? "$[n]" : ".") + v; }
  StringMap m; m["k"] = v; KV_ASSERT(CreateExpandedEntities(t, m) == want, "a value holding its own reference is inserted as it is, for every occurrence");
}
KV_HARNESS(delims) {
  string t = kv_alpha(kv_pick(7), "{}kl"); string s = kv_pick(2) ? "{" : "", e = kv_pick(2) ? "}" : "", k = kv_pick(2) ? "k" : "kl", v = kv_alpha(kv_pick(4), "kx{");
  StringMap m; m[k] = v;
  KV_ASSERT(CreateExpandedStrings(t, m, s, e) == subst(t, s + k + e, v), "left-to-right replacement of start+key+end");
}
KV_HARNESS(bytes) {
  string a = kv_string(kv_pick(4), '$'), b = kv_string(kv_pick(4), '['), v = kv_string(kv_pick(3), 'v');
  StringMap m; m["ab"] = v; string t = a + "$[ab]" + b;
  KV_ASSERT(CreateExpandedEntities(t, m) == a + v + b, "only the reference is replaced");
  KV_ASSERT(CreateExpandedEntities(a + "$[ac]" + b, m) == a + "$[ac]" + b, "unknown references are kept");
  StringMap none; KV_ASSERT(CreateExpandedEntities(t, none) == t, "nothing known");
}
static string tx() { return kv_alpha(1, "xyz"); }
KV_HARNESS(fields) {
  unsigned f = kv_pick(256); string v[9]; for (int i = 0; i < 9; i++) v[i] = tx();
  string k = "<kml><Document><Schema id='s' name='S'><SimpleField name='f' type='string'><displayName>" + v[8] + "</displayName></SimpleField></Schema><Placemark";
  StringMap want; if (f & 1) k += " id='p'"; if ((f & 3) == 3) { k += " targetId='" + v[0] + "'"; want["targetId"] = v[0]; } k += ">"; if (f & 4) v[1] = kv_pick(2) ? v[1] : "";
  if (f & 1) want["id"] = "p";
  if (f & 2) { k += "<name>" + v[0] + "</name>"; want["name"] = v[0]; }
  if (f & 4) { k += "<address>" + v[1] + "</address>"; want["address"] = v[1]; }
  if (f & 8) { k += "<Snippet>" + v[2] + "</Snippet>"; want["Snippet"] = v[2]; }
  if (f & 16) { k += "<description>" + v[3] + "</description>"; want["description"] = v[3]; }
  k += "<ExtendedData>";
  if (f & 32) { k += "<Data name='d'>"; if (f & 64) { k += "<displayName>" + v[4] + "</displayName>"; want["d/displayName"] = v[4]; } k += "<value>" + v[5] + "</value></Data>"; want["d"] = v[5]; unsigned e = kv_pick(4); k += "<Data name='e'>"; if (e & 1) { k += "<displayName>" + v[4] + "</displayName>"; want["e/displayName"] = v[4]; } want["e"] = ""; if (e & 2) { k += "<value>" + v[6] + "</value>"; want["e"] = v[6]; } k += "</Data><Data><displayName>un</displayName><value>named</value></Data>"; }
  if (f & 128) { k += "<SchemaData schemaUrl='#s'><SimpleData name='f'>" + v[7] + "</SimpleData></SchemaData>"; want["S/f"] = v[7]; want["S/f/displayName"] = v[8]; }
  k += "</ExtendedData></Placemark></Document></kml>";
  KmlFilePtr kf = KmlFile::CreateFromParse(k, NULL); KV_ASSERT(kf, "accepted");
  FeaturePtr p = AsDocument(AsKml(kf->get_root())->get_feature())->get_feature_array_at(0);
  StringMap m; EntityMapper em(kf, &m); em.GetEntityFields(p);
  static const char* all[] = {"id", "name", "address", "Snippet", "description", "d", "d/displayName", "e", "S/f", "S/f/displayName", "targetId", "e/displayName"};
  string t, w; for (int i = 0; i < 12; i++) { t += string("-$[") + all[i] + "]"; w += want.count(all[i]) ? "-" + want[all[i]] : string("-$[") + all[i] + "]"; }
  KV_ASSERT(m.size() == want.size(), "exactly the present entities");
  KV_ASSERT(CreateExpandedEntities(t, m) == w, "each reference gives its field");
}
KV_HARNESS(schemas) {
  unsigned dn = kv_pick(4), sel = kv_pick(16), known = kv_pick(4); string d = tx(), v0 = tx(), v1 = tx();
  string k = "<kml><Document>"; static const char* sid[] = {"s", "t"}; static const char* snm[] = {"S", "T"};
  for (int s = 0; s < 2; s++) { k += string("<Schema id='") + sid[s] + "' name='" + snm[s] + "'>"; for (int i = 0; i < 2; i++) { k += string("<SimpleField type='int' name='") + (char)('f' + i + (s ? 10 : 0)) + "'>"; if (i == 0 && (dn >> s & 1)) k += "<displayName>" + d + "</displayName>"; k += "</SimpleField>"; } k += "</Schema>"; }
  k += "<Placemark><ExtendedData>"; std::vector<std::pair<string, string> > want; StringMap wm;
  for (int j = 0; j < 2; j++) {
    unsigned s = sel >> (2 * j) & 3;  // 0,1: that schema; 2: unknown schema; 3: no schemaUrl
    k += string("<SchemaData") + (s < 2 ? string(" schemaUrl='#") + sid[s] + "'" : s == 2 ? " schemaUrl='#none'" : "") + ">";
    bool kn = known >> j & 1; string nm = kn ? string(1, 'f' + (s == 1 ? 10 : 0)) : "u"; string v = j ? v1 : v0;
    k += "<SimpleData name='" + nm + "'>" + v + "</SimpleData></SchemaData>";
    if (s < 2) { if (kn) want.push_back(std::make_pair(string(snm[s]) + ":" + ((dn >> s & 1) ? d : nm), v)); else want.push_back(std::make_pair(nm, v)); wm[string(snm[s]) + "/" + nm] = v; if (dn >> s & 1) wm[string(snm[s]) + "/" + string(1, 'f' + (s ? 10 : 0)) + "/displayName"] = d; }
    else { want.push_back(std::make_pair(nm, v)); wm["/" + nm] = v; }
  }
  k += "</ExtendedData></Placemark></Document></kml>";
  KmlFilePtr kf = KmlFile::CreateFromParse(k, NULL); KV_ASSERT(kf, "accepted");
  FeaturePtr p = AsDocument(AsKml(kf->get_root())->get_feature())->get_feature_array_at(0);
  StringMap m; StringPairVector alt; EntityMapper em(kf, &m, &alt); em.GetEntityFields(p);
  KV_ASSERT(alt.size() == want.size(), "one label and value per datum");
  for (size_t i = 0; i < want.size(); i++) KV_ASSERT(alt[i].first == want[i].first && alt[i].second == want[i].second, "label and value");
  KV_ASSERT(m == wm, "entities of the schema data");
}
KV_HARNESS(balloon) {
  unsigned f = kv_pick(16), st = kv_pick(4); string n = tx(), d = tx(), v = tx(), b = kv_alpha(1, "xyz$[");
  string bs = "<BalloonStyle><text>" + b + "$[name]|$[q]" + b + "$[zz]</text></BalloonStyle>";
  string k = string("<kml><Document><Style id='s'>") + (st & 1 ? bs : string("<BalloonStyle><color>ff000000</color></BalloonStyle>")) + "</Style><Placemark>";
  if (f & 1) k += "<name>" + n + "</name>"; if (f & 2) k += "<description>" + d + "$[q]</description>"; if (st != 0) k += "<styleUrl>#s</styleUrl>"; if (st & 2) k += "<Style>" + bs + "</Style>";
  if (f & 4) k += string("<ExtendedData><Data name='q'>") + (f & 8 ? "<displayName>Q</displayName>" : "") + "<value>" + v + "</value></Data></ExtendedData>";
  k += "</Placemark></Document></kml>";
  KmlFilePtr kf = KmlFile::CreateFromParse(k, NULL); KV_ASSERT(kf, "accepted");
  FeaturePtr p = AsDocument(AsKml(kf->get_root())->get_feature())->get_feature_array_at(0);
  string got = CreateBalloonText(kf, p), want, q = f & 4 ? v : "$[q]";
  if (st) want = b + (f & 1 ? n : "$[name]") + "|" + q + b + "$[zz]";
  else { if (f & 1) want += "<h3>" + n + "</h3><br/><br/>"; if (f & 2) want += d + q; if (f & 4) want += string("\n<table border=\"1\">\n<tr><td>") + (f & 8 ? "Q" : "q") + "</td><td>" + v + "</tr>\n</table>\n"; }
  KV_ASSERT(got == want, "balloon text");
}
KV_HARNESS(scale) {
  unsigned k = kv_pick(4); string t = kv_alpha(1, "xyz");
  if (k < 2) { unsigned n = kv_size(300); string s, w; StringMap m; for (unsigned i = 0; i < n; i++) { string e = k ? "e" + num(i) : string("e"); m[e] = t + (k ? num(i) : ""); s += "-$[" + e + "]"; w += "-" + t + (k ? num(i) : ""); } KV_ASSERT(CreateExpandedEntities(s + ".", m) == w + ".", "every reference"); }
  if (k == 2) { StringMap m; string key = kv_long(1025, "K"), v = kv_long(4097, t); m[key] = v; KV_ASSERT(CreateExpandedEntities("a$[" + key + "]b$[" + key, m) == "a" + v + "b$[" + key, "whole keys and values"); }
  if (k == 3) { unsigned n = kv_size(129); string x = "<kml><Placemark id='p'><ExtendedData>", s, w; for (unsigned i = 0; i < n; i++) { x += "<Data name='d" + num(i) + "'><value>" + t + num(i) + "</value></Data>"; s += "$[d" + num(i) + "]"; w += t + num(i); } KmlFilePtr f = KmlFile::CreateFromParse(x + "</ExtendedData></Placemark></kml>", NULL); KV_ASSERT(f, "parsed"); StringMap m; EntityMapper em(f, &m); em.GetEntityFields(AsFeature(f->GetObjectById("p"))); KV_ASSERT(CreateExpandedEntities(s, m) == w, "every value"); }
}
KV_HARNESS(again) {
  string k = "<kml><Document><Schema id='s' name='S'><SimpleField name='f'><displayName>dn</displayName></SimpleField></Schema>"; for (int i = 0; i < 2; i++) { unsigned f = kv_pick(16); string t = tx(); k += "<Placemark>"; if (f & 1) k += "<name>" + t + num(i) + "</name>"; if (f & 2) k += "<description>$[name]$[d]$[S/f]</description>"; if (f & 4) k += "<Style><BalloonStyle><text>$[name]$[d]$[S/f]$[S/f/displayName]</text></BalloonStyle></Style>"; if (f & 8) k += "<ExtendedData><Data name='d'><value>" + t + "</value></Data><SchemaData schemaUrl='#s'><SimpleData name='f'>" + t + num(i) + "</SimpleData></SchemaData></ExtendedData>"; k += "</Placemark>"; } k += "</Document></kml>";
  KmlFilePtr kf = KmlFile::CreateFromParse(k, NULL); KV_ASSERT(kf, "accepted"); DocumentPtr d = AsDocument(AsKml(kf->get_root())->get_feature()); string before = SerializeRaw(d); unsigned o = kv_pick(8); for (int i = 0; i < 3; i++) { int j = o >> i & 1; KmlFilePtr g = KmlFile::CreateFromParse(k, NULL); KV_ASSERT(CreateBalloonText(kf, d->get_feature_array_at(j)) == CreateBalloonText(g, AsDocument(AsKml(g->get_root())->get_feature())->get_feature_array_at(j)), "each balloon is that of its feature alone"); } KV_ASSERT(SerializeRaw(d) == before, "and leaves it as it is");
}
