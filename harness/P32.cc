// P32: old-style schema features are converted without losing data.
// @h fields q=60 t=300 | three features under an old-style schema of three declared fields: every subset and order of up to 3 children (fields, repeated fields, an undeclared field, name, Point) per feature, distinct texts
// @h text q=30 t=120 | a field text of 0..3 symbolic XML-legal characters (given escaped, or as CDATA), markup inside a field, and an empty field
// @h names q=60 t=200 | symbolic schema name (3 characters) and symbolic field name (2 characters), used by a feature whose name/field differ by symbolic characters
// @h place q=40 t=120 | converted features at document, folder and nested folder level, before and after ordinary placemarks with and without extended data, in a file with one or two old-style schemas and a new-style one; plain, namespace-aware and file-level parses
// @h convert q=40 t=150 | ConvertOldSchema: every text of 0..5 bytes over "<>/ab ", and tagged texts with symbolic tag, content and closing tag; known and unknown schema names
// @h observer q=40 t=150 | SchemaParserObserver + OldSchemaParserObserver on documents whose unknown elements carry symbolic names: map contents and converted placemarks
// @h scale q=40 t=100 | schemas of 1..129 fields, and documents of 1..300 features of them, symbolic text: every field of every feature
// @outside fields whose texts exceed 3 symbolic characters; more than 3 fields; old-style elements with attributes on fields
#include "kvu.h"
#include "xt.h"
#include "kml/engine.h"
#include "kml/dom/parser.h"
#include "kml/engine/parse_old_schema.h"
#include "kml/engine/old_schema_parser_observer.h"
#include "kml/engine/schema_parser_observer.h"
using namespace kmldom; using namespace kmlengine;
using std::string; using std::vector;
typedef vector<std::pair<string, string> > Fields;
static const char* SCH = "<Schema name='Sch' parent='Placemark'><SimpleField type='string' name='fa'/><SimpleField type='string' name='fb'/><SimpleField type='int' name='fc'/></Schema>";
static void expect(const FeaturePtr& f, const Fields& want, const char* url) {
  PlacemarkPtr p = AsPlacemark(f); KV_ASSERT(p, "the element is read as a placemark");
  KV_ASSERT(p->has_extendeddata(), "it has extended data"); ExtendedDataPtr x = p->get_extendeddata();
  KV_ASSERT(x->get_schemadata_array_size() == 1 && x->get_data_array_size() == 0, "one set of schema data");
  SchemaDataPtr d = x->get_schemadata_array_at(0);
  KV_ASSERT(d->has_schemaurl() && d->get_schemaurl() == url, "it refers to the schema");
  KV_ASSERT(d->get_simpledata_array_size() == want.size(), "one entry per declared field present");
  for (size_t i = 0; i < want.size(); i++) { SimpleDataPtr s = d->get_simpledata_array_at(i); KV_ASSERT(s->get_name() == want[i].first, "entries keep the order and names"); KV_ASSERT(s->get_text() == want[i].second, "entries keep the text"); }
}
KV_HARNESS(fields) {
  string s = string("<Document>") + SCH; vector<Fields> w; vector<int> nm, pt, un; unsigned nf = 3; int k = 0;
  for (unsigned i = 0; i < nf; i++) {
    Fields f; int hasname = 0, haspt = 0, unk = 0; s += "<Sch>"; unsigned n = i == 0 ? kv_pick(kv_tier() ? 5 : 4) : i == 1 ? kv_pick(3) : 1;
    for (unsigned j = 0; j < n; j++) {
      string t = "t" + num(k++);
      switch (i == 2 ? 2 : kv_pick(6)) {
        case 0: s += "<fa>" + t + "</fa>"; f.push_back(std::make_pair("fa", t)); break;
        case 1: s += "<fb>" + t + "</fb>"; f.push_back(std::make_pair("fb", t)); break;
        case 2: s += "<fc>" + t + "</fc>"; f.push_back(std::make_pair("fc", t)); break;
        case 3: s += "<fx>" + t + "</fx>"; unk++; break;
        case 4: s += "<name>" + t + "</name>"; hasname = k; break;
        default: s += "<Point><coordinates>1,2</coordinates></Point>"; haspt = 1; break;
      }
    }
    s += "</Sch>"; if (i == 0) s += "<Placemark><fa>stray</fa></Placemark>"; w.push_back(f); nm.push_back(hasname); pt.push_back(haspt); un.push_back(unk);
  }
  s += "</Document>"; string e; DocumentPtr d = AsDocument(Parse(s, &e)); KV_ASSERT(d, "parsed"); kv_obs(SerializeRaw(d));
  KV_ASSERT(d->get_feature_array_size() == nf + 1, "every feature is there, in order");
  for (unsigned i = 0; i < nf; i++) {
    FeaturePtr f = d->get_feature_array_at(i ? i + 1 : 0); expect(f, w[i], "Sch_id");
    KV_ASSERT(f->has_name() == (nm[i] != 0), "ordinary children are read"); if (nm[i]) KV_ASSERT(f->get_name() == "t" + num(nm[i] - 1), "ordinary children are read");
    KV_ASSERT(AsPlacemark(f)->has_geometry() == (pt[i] != 0), "geometry is read"); KV_ASSERT(f->get_unknown_elements_array_size() == (size_t)un[i], "undeclared fields stay unknown content");
  }
  PlacemarkPtr o = AsPlacemark(d->get_feature_array_at(1)); KV_ASSERT(o && !o->has_extendeddata() && o->get_unknown_elements_array_size() == 1, "other features are unaffected");
  KV_ASSERT(d->get_schema_array_size() == 1 && d->get_schema_array_at(0)->get_id() == "Sch_id", "the schema is kept with the id the data refers to");
}
KV_HARNESS(text) {
  unsigned k = kv_pick(4); string t = k < 3 ? kv_text(kv_pick(4)) : "m"; string in, want = t;
  if (k == 0) in = "<fa>" + xesc(t) + "</fa>"; else if (k == 1) { bool bad = t.size() == 3 && t[0] == ']' && t[1] == ']' && t[2] == '>'; KV_ASSUME(!bad); in = "<fa><![CDATA[" + t + "]]></fa>"; }
  else if (k == 2) in = "<fa>" + xesc(t) + "<!--c-->z</fa>", want = t + "z"; else in = "<fa>a<b>m</b>c</fa>", want = "a<b>m</b>c";
  DocumentPtr d = AsDocument(Parse(string("<Document>") + SCH + "<Sch>" + in + "<fb/></Sch></Document>", NULL)); KV_ASSERT(d, "parsed");
  Fields f; f.push_back(std::make_pair("fa", want)); f.push_back(std::make_pair("fb", "")); KV_ASSERT(d->get_feature_array_size() == 1, "one feature"); expect(d->get_feature_array_at(0), f, "Sch_id");
  string r = SerializeRaw(d); DocumentPtr d2 = AsDocument(Parse("<kml>" + r + "</kml>", NULL) ? AsKml(Parse("<kml>" + r + "</kml>", NULL))->get_feature() : NULL); KV_ASSERT(d2 && d2->get_feature_array_size() == 1, "the conversion can be written and read again"); expect(d2->get_feature_array_at(0), f, "Sch_id");
}
KV_HARNESS(names) {
  string n = "Q" + kv_name(2), u = kv_pick(2) ? n : "Q" + kv_name(2), f = "q" + kv_name(1), g = kv_pick(2) ? f : "q" + kv_name(1);
  DocumentPtr d = AsDocument(Parse("<Document><Schema name='" + n + "' parent='Placemark'><SimpleField type='string' name='" + f + "'/></Schema><" + u + "><" + g + ">v</" + g + "></" + u + "></Document>", NULL)); KV_ASSERT(d, "parsed");
  if (u == n) { KV_ASSERT(d->get_feature_array_size() == 1, "read as a feature"); Fields w; if (f == g) w.push_back(std::make_pair(g, "v")); expect(d->get_feature_array_at(0), w, (n + "_id").c_str()); KV_ASSERT(d->get_feature_array_at(0)->get_unknown_elements_array_size() == (f == g ? 0u : 1u), "undeclared field"); }
  else { KV_ASSERT(d->get_feature_array_size() == 0 && d->get_unknown_elements_array_size() == 1, "an element of another name is unknown"); KV_ASSERT(d->get_unknown_elements_array_at(0) == "<" + u + "><" + g + ">v</" + g + "></" + u + ">\n", "and kept"); }
}
KV_HARNESS(place) {
  unsigned at = kv_pick(3), ns = kv_pick(4), ent = kv_pick(3); bool before = kv_pick(2), ext = kv_pick(2);
  const char* other = "<Schema name='Old' parent='Placemark'><SimpleField type='int' name='fz'/></Schema>"; const char* nw = "<Schema name='New' id='n'><SimpleField type='int' name='fa'/></Schema>";
  string pl = string("<Placemark><name>p</name>") + (ext ? "<ExtendedData><Data name='x'><value>1</value></Data></ExtendedData>" : "") + "</Placemark>";
  string use = "<Sch><fa>1</fa><fz>s</fz><fb>2</fb></Sch><Old><fz>3</fz></Old>", two = before ? pl + use + use : use + use + pl;
  string body = at == 0 ? two : at == 1 ? "<Folder>" + two + "</Folder>" : "<Folder><Folder>" + two + "</Folder></Folder>";
  string s = "<kml><Document>" + string(ns & 1 ? other : "") + SCH + (ns & 2 ? nw : "") + body + "</Document></kml>";
  ElementPtr r; KmlFilePtr file; if (ent == 0) r = Parse(s, NULL); else if (ent == 1) r = ParseNS(s, NULL); else { file = KmlFile::CreateFromParse(s, NULL); KV_ASSERT(file, "file parse"); r = file->get_root(); }
  KV_ASSERT(AsKml(r), "parsed"); ContainerPtr c = AsContainer(AsKml(r)->get_feature()); for (unsigned i = 0; i < at; i++) c = AsContainer(c->get_feature_array_at(0));
  KV_ASSERT(c && c->get_feature_array_size() == 3, "three features"); KV_ASSERT(c->get_unknown_elements_array_size() == 2, "elements of a superseded schema are unknown");
  Fields w; w.push_back(std::make_pair("fa", "1")); w.push_back(std::make_pair("fb", "2"));
  for (unsigned i = 0; i < 2; i++) { FeaturePtr f = c->get_feature_array_at(before ? i + 1 : i); expect(f, w, "Sch_id"); KV_ASSERT(f->get_unknown_elements_array_size() == 1, "a field of a superseded schema is unknown"); }
  KV_ASSERT(SerializeRaw(c->get_feature_array_at(before ? 0 : 2)) == pl || ext, "the ordinary placemark is unaffected");
  PlacemarkPtr o = AsPlacemark(c->get_feature_array_at(before ? 0 : 2)); KV_ASSERT(o->has_extendeddata() == ext, "no data leaks"); if (ext) KV_ASSERT(o->get_extendeddata()->get_data_array_size() == 1 && o->get_extendeddata()->get_schemadata_array_size() == 0, "no data leaks");
  DocumentPtr d = AsDocument(AsKml(r)->get_feature()); KV_ASSERT(d->get_schema_array_size() == 1u + (ns & 1) + (ns >> 1), "all schemas are kept"); if (ns & 2) KV_ASSERT(d->get_schema_array_at(d->get_schema_array_size() - 1)->get_id() == "n", "a new-style schema keeps its id");
}
static bool conv(const string& x, const vector<string>& names, string* out) {  // independent definition
  if (x.empty() || x[0] != '<') return false; size_t g = 1; while (g < x.size() && x[g] != '>') g++; if (g == x.size()) return false;
  string t(x, 1, g - 1), c = "</" + t + ">"; bool known = false; for (size_t i = 0; i < names.size(); i++) known |= names[i] == t; if (!known) return false;
  for (size_t i = 0; i + c.size() <= x.size(); i++) { bool eq = true; for (size_t j = 0; j < c.size() && eq; j++) eq = x[i + j] == c[j]; if (eq) { *out = "<Placemark>" + x.substr(g + 1, i - g - 1) + "</Placemark>"; return true; } }
  return false;
}
KV_HARNESS(convert) {
  SchemaNameMap m; vector<string> n; n.push_back("ab"); n.push_back("b"); for (size_t i = 0; i < n.size(); i++) { m[n[i]] = KmlFactory::GetFactory()->CreateSchema(); }
  string s; unsigned k = kv_pick(8); if (k < 6) s = kv_alpha(k, "<>/ab "); else s = "<" + kv_alpha(k == 6 ? 1 : 2, "ab>") + ">" + kv_alpha(1, "<x/") + "</" + kv_alpha(k == 6 ? 1 : 2, "ab/") + ">";
  string o = "keep", w = "keep"; bool r = ConvertOldSchema(s, m, &o), e = conv(s, n, &w); KV_ASSERT(r == e, "exactly elements named by a schema are converted"); KV_ASSERT(o == w, "content is kept"); KV_ASSERT(!ConvertOldSchema(s, m, NULL), "no output");
}
KV_HARNESS(observer) {
  string n = "q" + kv_name(1), u = "q" + kv_name(1), v = kv_alpha(1, "xyz"), n3 = "q" + kv_name(1); bool fold = kv_pick(2);
  SchemaNameMap m; Parser p; SchemaParserObserver a(&m); OldSchemaParserObserver b(m); p.AddObserver(&a); p.AddObserver(&b);
  string in = "<" + u + "><name>" + v + "</name></" + u + ">", s = "<kml><Document><Schema name='" + n + "'/><Schema name='zz'/><Schema/><Schema name='" + n3 + "'/>" + (fold ? "<Folder>" + in + "</Folder>" : in) + "</Document></kml>";
  KmlPtr k = AsKml(p.Parse(s, NULL)); KV_ASSERT(k, "parsed"); DocumentPtr d = AsDocument(k->get_feature());
  bool dup = n == n3;
  KV_ASSERT(m.size() == (dup ? 2u : 3u) && m.count(n) == 1 && m.count(n3) == 1 && m.count("zz") == 1 && m["zz"] == d->get_schema_array_at(1), "named schemas of the document are mapped"); KV_ASSERT(m[n] == d->get_schema_array_at(dup ? 3 : 0) && m[n3] == d->get_schema_array_at(3), "the last one of a name");
  ContainerPtr c = fold ? AsContainer(d->get_feature_array_at(0)) : ContainerPtr(d); bool want = u == n || u == n3 || u == "zz";
  KV_ASSERT(c->get_feature_array_size() == (want ? 1u : 0u), "converted exactly when a schema has that name"); if (want) KV_ASSERT(AsPlacemark(c->get_feature_array_at(0)) && c->get_feature_array_at(0)->get_name() == v, "with its content");
}
KV_HARNESS(scale) {
  bool wide = kv_pick(2); unsigned m = wide ? kv_size(129) : 2, n = wide ? 1 : kv_size(300); string t = kv_text(1), s = "<Document><Schema name='Sch' parent='Placemark'>"; for (unsigned j = 0; j < m; j++) s += "<SimpleField type='string' name='f" + num(j) + "'/>"; s += "</Schema>"; vector<Fields> w; for (unsigned i = 0; i < n; i++) { Fields f; s += "<Sch><name>" + num(i) + "</name>"; for (unsigned j = 0; j < m; j++) if (wide || (i + j) % 3) { s += "<f" + num(j) + ">" + xesc(t) + num(i * 1000 + j) + "</f" + num(j) + ">"; f.push_back(std::make_pair("f" + num(j), t + num(i * 1000 + j))); } s += "</Sch>"; w.push_back(f); }
  DocumentPtr d = AsDocument(Parse(s + "</Document>", NULL)); KV_ASSERT(d && d->get_feature_array_size() == n, "every feature"); for (unsigned i = 0; i < n; i++) { expect(d->get_feature_array_at(i), w[i], "Sch_id"); KV_ASSERT(d->get_feature_array_at(i)->get_name() == num(i), "in order"); }
}
