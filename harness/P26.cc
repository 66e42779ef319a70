// P26: XML schema files and type queries.
// @h hierarchy q=60 t=250 | three complex types each with a symbolic base out of the three, a missing one, another namespace or none (cycles included), three elements of symbolic types: hierarchies, derivation and the elements of each type
// @h nesting q=60 t=300 | trees of 4 (thorough 5) tags out of schema, element, complexType, simpleType, extension, restriction, enumeration, sequence, nested in every way, with or without name: exactly the declared elements and types
// @h children q=30 t=100 | complex types of up to 3 child elements, each named, a reference to a declared or to a missing element or to another namespace, in sequence, choice or all
// @h element q=30 t=100 | element attributes name, ref, type, abstract, default, substitutionGroup in every combination with symbolic values
// @h simple q=30 t=100 | simple types with 0..3 enumeration values of symbolic characters and every restriction base
// @h groups q=40 t=150 | 3 (thorough 4) elements each abstract or not, of a complex, simple, primitive, missing or no type: the groups of the element vector
// @h primitive q=20 t=100 | type names of 0..5 symbolic letters and all names of built-in types
// @h schema q=30 t=100 | target namespaces and prefixes of symbolic characters, declared or not, and qualified names of 0..4 symbolic characters
// @h alias q=20 t=60 | alias text of up to 3 lines of symbolic tokens
// @h bad q=20 t=60 | schemas cut off at any place; queries of files without schema
// @h scale q=40 t=100 | schemas of 1..300 elements and types, a type of as many children, a simple type of as many values, an inheritance chain of 1..129: all found, in order
// @outside prefixed schema tags (xs:element), which this parser does not take for schema tags; attributes and groups of schemas
#include "kvu.h"
#include "kml/xsd/xsd_file.h"
#include "kml/xsd/xsd_util.h"
#include "kml/xsd/xst_parser.h"
#include "kml/xsd/xsd_primitive_type.h"
using namespace kmlxsd; using std::string;
typedef boost::scoped_ptr<XsdFile> FilePtr;
static string S(const string& body) { return "<schema xmlns=\"http://www.w3.org/2001/XMLSchema\" xmlns:k=\"t\" xmlns:o=\"u\" targetNamespace=\"t\">" + body + "</schema>"; }
static XsdFile* parse(const string& s) { string e; XsdFile* f = XsdFile::CreateFromParse(s, &e); KV_ASSERT(f, "parsed"); return f; }
static XsdComplexTypePtr ct(const XsdFile& f, const string& n) { return XsdComplexType::AsComplexType(f.FindType(n)); }
static bool has(const XsdElementVector& v, const string& n) { for (size_t i = 0; i < v.size(); i++) if (v[i]->get_name() == n) return true; return false; }
KV_HARNESS(hierarchy) {
  // base of type i: 0..2 one of the types, 3 missing, 4 other namespace, 5 none
  int base[3], et[3]; string b; static const char* N = "abcx"; for (int i = 0; i < 3; i++) { string n(1, N[i]); unsigned k = kv_pick(3); if (k == 0) { string c = kv_alpha(1, "abcx"); base[i] = c[0] == 'a' ? 0 : c[0] == 'b' ? 1 : c[0] == 'c' ? 2 : 3; b += "<complexType name=\"" + n + "\"><complexContent><extension base=\"k:" + c + "\"/></complexContent></complexType>"; } else if (k == 1) { base[i] = 4; b += "<complexType name=\"" + n + "\"><complexContent><extension base=\"o:a\"/></complexContent></complexType>"; } else { base[i] = 5; b += "<complexType name=\"" + n + "\"/>"; } }
  for (int i = 0; i < 3; i++) { string c = i ? string(1, N[i]) : kv_alpha(1, "abcx"); et[i] = c[0] == 'a' ? 0 : c[0] == 'b' ? 1 : c[0] == 'c' ? 2 : 3; b += string("<element name=\"e") + N[i] + "\" type=\"k:" + c + "\"/>"; }
  FilePtr f(parse(S(b)));
  for (int i = 0; i < 3; i++) {
    XsdComplexTypePtr t = ct(*f, string(1, N[i])); KV_ASSERT(t && t->get_name() == string(1, N[i]), "every type is found by name"); KV_ASSERT(t->has_extension_base() == (base[i] < 5), "its base is as declared"); XsdComplexTypePtr p = f->GetBaseType(t); KV_ASSERT(base[i] < 3 ? p && p->get_name() == string(1, N[base[i]]) : !p, "the base type");
    // walk
    std::vector<int> w; bool seen[3] = {false, false, false}, ok = true; int c = i; for (;;) { if (base[c] == 5) break; if (base[c] > 2) { ok = false; break; } if (seen[c]) { ok = false; break; } seen[c] = true; c = base[c]; w.push_back(c); }
    std::vector<XsdComplexTypePtr> h; bool got = f->GetTypeHierarchy(t, &h); KV_ASSERT(got == ok, "a hierarchy which ends is walked to its end"); KV_ASSERT(f->GetTypeHierarchy(t, NULL) == ok, "the output is optional"); if (ok) { KV_ASSERT(h.size() == w.size(), "exactly the ancestors"); for (size_t j = 0; j < w.size(); j++) KV_ASSERT(h[j] == ct(*f, string(1, N[w[j]])), "in order"); }
    bool anc[3] = {false, false, false}; anc[i] = true; for (size_t j = 0; j < w.size(); j++) anc[w[j]] = true; for (int j = 0; j < 3; j++) KV_ASSERT(f->SearchTypeHierarchy(t, ct(*f, string(1, N[j]))) == anc[j], "derived from exactly its ancestors and itself");
  }
  for (int j = 0; j < 3; j++) { XsdElementVector v, u; f->GetElementsOfTypeByName(string(1, N[j]), &v); f->GetElementsOfType(ct(*f, string(1, N[j])), &u); KV_ASSERT(u.size() == v.size(), "same by name"); size_t n = 0; for (int i = 0; i < 3; i++) { bool in = false; if (et[i] < 3) { int c = et[i]; for (int s = 0; s < 4; s++) { if (c == j) in = true; if (base[c] > 2) break; c = base[c]; } } n += in; KV_ASSERT(has(v, string("e") + N[i]) == in, "exactly the elements whose type is derived from it"); } KV_ASSERT(v.size() == n, "each once"); }
  XsdElementVector none; f->GetElementsOfTypeByName("x", &none); f->GetElementsOfTypeByName("a", NULL); KV_ASSERT(none.empty(), "no elements of no type");
}
// nesting: an independent reading of the tree
struct Decl { std::vector<string> elems; struct T { bool complex; string name, base; std::vector<string> kids, enums; }; std::vector<T> types; };
static string tree(unsigned n, const std::vector<int>& parent, const std::vector<unsigned>& tag, const std::vector<bool>& named, unsigned i) {
  static const char* G[] = {"schema", "element", "complexType", "simpleType", "extension", "restriction", "enumeration", "sequence"}; string nm(1, 'a' + i), s = string("<") + G[tag[i]]; if (tag[i] == 0) s += " xmlns:k=\"t\" targetNamespace=\"t\""; if (named[i]) s += tag[i] < 4 ? " name=\"" + nm + "\"" : tag[i] < 6 ? " base=\"" + nm + "\"" : " value=\"" + nm + "\""; s += ">"; for (unsigned j = i + 1; j < n; j++) if (parent[j] == (int)i) s += tree(n, parent, tag, named, j); return s + "</" + G[tag[i]] + ">";
}
KV_HARNESS(nesting) {
  unsigned n = 2 + kv_pick(kv_tier() ? 4 : 3); std::vector<int> parent(n, -1); std::vector<unsigned> tag(n); std::vector<bool> named(n); 
  for (unsigned i = 0; i < n; i++) { if (i) parent[i] = n < 4 ? (int)kv_pick(i) : i == 1 ? 0 : (int)(i - 1 - kv_pick(2)); tag[i] = i == 0 && n > 2 ? kv_pick(2) * 2 : n > 4 && i > 2 ? 1 + kv_pick(3) : kv_pick(8); named[i] = tag[i] == 7 ? false : i < 2 && n > 3 ? kv_bool() : n < 4 ? kv_bool() : true; }
  // depth-first numbering makes i increasing in document order only if parents are consecutive: emit recursively and read in the same order
  Decl d; std::vector<unsigned> ord; { std::vector<unsigned> st(1, 0); while (!st.empty()) { unsigned i = st.back(); st.pop_back(); ord.push_back(i); for (unsigned j = n; j-- > i + 1;) if (parent[j] == (int)i) st.push_back(j); } }
  for (size_t q = 0; q < ord.size(); q++) { unsigned i = ord[q]; string nm(1, 'a' + i); int outer = -1, depth = 0; for (int p = parent[i]; p >= 0; p = parent[p]) if (tag[p] == 2 || tag[p] == 3) { outer = p; depth++; }
    if (tag[i] == 1 && named[i] && parent[i] >= 0 && tag[parent[i]] == 0) d.elems.push_back(nm);
    if ((tag[i] == 2 || tag[i] == 3) && depth == 0 && named[i]) { Decl::T t; t.complex = tag[i] == 2; t.name = nm; d.types.push_back(t); }
    if (depth == 1 && named[outer] && named[i]) { Decl::T* t = NULL; for (size_t k = 0; k < d.types.size(); k++) if (d.types[k].name == string(1, 'a' + outer)) t = &d.types[k]; if (tag[i] == 1 && t->complex && tag[parent[i]] != 0) t->kids.push_back(nm); if (tag[i] == 4 && t->complex) t->base = nm; if (tag[i] == 5 && !t->complex) t->base = nm; if (tag[i] == 6 && !t->complex) t->enums.push_back(nm); } }
  FilePtr f(parse(tree(n, parent, tag, named, 0))); XsdElementVector es; f->GetAllElements(&es); KV_ASSERT(es.size() == d.elems.size(), "exactly the global elements"); for (size_t i = 0; i < d.elems.size(); i++) { XsdElementPtr e = f->FindElement(d.elems[i]); KV_ASSERT(e && e->get_name() == d.elems[i], "found by name"); }
  XsdTypeVector ts; f->GetAllTypes(&ts); KV_ASSERT(ts.size() == d.types.size(), "exactly the named types"); for (size_t i = 0; i < d.types.size(); i++) { const Decl::T& t = d.types[i]; XsdTypePtr x = f->FindType(t.name); KV_ASSERT(x && x->get_name() == t.name && x->is_complex() == t.complex && x->get_base() == t.base, "found by name, with its base"); if (t.complex) { XsdComplexTypePtr c = XsdComplexType::AsComplexType(x); KV_ASSERT(c && c->get_sequence_size() == t.kids.size(), "exactly its children"); for (size_t k = 0; k < t.kids.size(); k++) KV_ASSERT(c->get_sequence_at(k)->get_name() == t.kids[k], "in order"); } else { XsdSimpleTypePtr c = XsdSimpleType::AsSimpleType(x); KV_ASSERT(c && c->get_enumeration_size() == t.enums.size(), "exactly its values"); for (size_t k = 0; k < t.enums.size(); k++) KV_ASSERT(c->get_enumeration_at(k) == t.enums[k], "in order"); } }
  KV_ASSERT(!f->FindElement("z") && !f->FindType("z"), "nothing else"); if (tag[0] == 0) KV_ASSERT(f->get_target_namespace() == "t", "namespace");
}
KV_HARNESS(children) {
  static const char* G[] = {"sequence", "choice", "all"}; string g = G[kv_pick(3)], b = "<element name=\"p\" type=\"k:T\"/><element name=\"r\" type=\"string\"/><element name=\"rr\" type=\"k:T\"/><complexType name=\"T\">"; bool ext = kv_pick(2); if (ext) b += "<complexContent><extension base=\"k:U\">"; b += "<" + g + ">"; unsigned n = kv_pick(4); std::vector<string> w; for (unsigned i = 0; i < n; i++) { unsigned k = kv_pick(4); string c = kv_name(1); KV_ASSUME(c[0] != 'r'); if (k == 0) { b += "<element name=\"" + c + "\" type=\"int\"/>"; w.push_back(c); } if (k == 1) { b += "<element ref=\"k:r\"/>"; w.push_back("r"); } if (k == 2) { b += "<element ref=\"k:m" + c + "\"/>"; w.push_back("*"); } if (k == 3) { b += "<element ref=\"o:r\"/>"; w.push_back("*"); } } b += "</" + g + ">"; if (ext) b += "</extension></complexContent>"; b += "</complexType>";
  FilePtr f(parse(S(b))); XsdElementVector v, u; f->GetChildElements("p", &v); f->FindChildElements(ct(*f, "T"), &u); KV_ASSERT(v.size() == n && u.size() == n, "exactly the declared children"); for (unsigned i = 0; i < n; i++) { KV_ASSERT(u[i] == v[i] && (w[i] == "*") == !v[i], "unresolved references are empty"); if (v[i]) KV_ASSERT(v[i]->get_name() == w[i] && !v[i]->is_ref(), "in order, references resolved"); if (w[i] == "r") KV_ASSERT(v[i] == f->FindElement("r"), "to the global element"); }
  XsdElementVector none; f->GetChildElements("r", &none); f->GetChildElements("q", &none); f->FindChildElements(NULL, &none); KV_ASSERT(none.empty(), "others have none"); KV_ASSERT(f->ResolveRef("k:r") == f->FindElement("r") && !f->ResolveRef("r") && !f->ResolveRef("k:") && !f->ResolveRef("o:r") && !f->ResolveRef(""), "references");
}
KV_HARNESS(element) {
  unsigned m = kv_pick(64); string n = kv_name(2), t = kv_name(1), d = kv_alpha(1, " xy&"), g = kv_name(1); static const char* AB[] = {"true", "false", "1", "0"}; unsigned ab = m & 8 ? kv_pick(4) : 0; string b = "<element"; if (m & 1) b += " name=\"" + n + "\""; if (m & 2) b += " ref=\"k:" + n + "\""; if (m & 4) b += " type=\"k:" + t + "\""; if (m & 8) b += string(" abstract=\"") + AB[ab] + "\""; if (m & 16) b += " default=\"" + xesc(d) + "\""; if (m & 32) b += " substitutionGroup=\"" + g + "\""; FilePtr f(parse(S(b + "/>"))); XsdElementVector v; f->GetAllElements(&v); KV_ASSERT(v.size() == (m & 3 ? 1u : 0u), "an element exactly when it has a name or a reference"); if (!(m & 3)) return;
  XsdElementPtr e = v[0]; bool ref = !(m & 1); KV_ASSERT(e->is_ref() == ref && e->get_name() == (ref ? "k:" + n : n), "its name"); if (ref) return; KV_ASSERT(e->get_type() == (m & 4 ? "k:" + t : ""), "its type"); KV_ASSERT(e->is_abstract() == (m & 8 && ab % 2 == 0), "abstract"); KV_ASSERT(e->get_default() == (m & 16 ? d : ""), "default"); KV_ASSERT(e->get_substitution_group() == (m & 32 ? g : ""), "substitution group"); KV_ASSERT(!e->is_primitive() && e->get_type_id() == XsdPrimitiveType::XSD_INVALID, "not primitive"); KV_ASSERT(f->FindElement(n) == e && !f->FindElementType(e), "found; its type is not declared");
}
KV_HARNESS(simple) {
  static const char* B[] = {"string", "int", "k:T", ""}; string b = B[kv_pick(4)], s = "<simpleType name=\"E\">"; if (!b.empty()) s += "<restriction base=\"" + b + "\">"; unsigned n = kv_pick(4); std::vector<string> w; for (unsigned i = 0; i < n; i++) { string t = kv_text(1, 'q'); KV_ASSUME((t[0] != '\n') & (t[0] != '\t')); if (i) KV_ASSUME((unsigned)((t[0] | 32) - 'a') < 26u); w.push_back(t); s += "<enumeration value=\"" + xesc(t) + "\"/>"; } if (!b.empty()) s += "</restriction>"; s += "</simpleType><element name=\"e\" type=\"k:E\"/>"; FilePtr f(parse(S(s))); XsdElementPtr e = f->FindElement("e"); XsdTypePtr t = f->FindElementType(e); KV_ASSERT(t && t == f->FindType("E") && !t->is_complex() && t->get_base() == b, "the type of the element"); XsdSimpleTypePtr x = XsdSimpleType::AsSimpleType(t); KV_ASSERT(x && x->get_enumeration_size() == n, "exactly its values"); for (unsigned i = 0; i < n; i++) KV_ASSERT(x->get_enumeration_at(i) == w[i], "in order"); KV_ASSERT(x->IsEnumeration() == (b == "string" && n > 0), "an enumeration"); KV_ASSERT(!XsdComplexType::AsComplexType(t) && !e->is_primitive(), "neither complex nor primitive");
}
KV_HARNESS(groups) {
  unsigned n = kv_tier() ? 4 : 3; static const char* TT[2][6] = {{"k:C", "k:S", "double", "k:M", "", "o:C"}, {"k:_C", "k:_S.x", "double", "k:_M", "", "o:_C"}}; bool us = kv_pick(2); const char* const* T = TT[us]; string b = us ? "<complexType name=\"_C\"/><simpleType name=\"_S.x\"/>" : "<complexType name=\"C\"/><simpleType name=\"S\"/>"; std::vector<string> g[3]; for (unsigned i = 0; i < n; i++) { string nm = (us ? "_e-" : "e") + num(n - i); unsigned k = kv_pick(6); bool ab = kv_pick(2); b += "<element name=\"" + nm + "\"" + (*T[k] ? string(" type=\"") + T[k] + "\"" : "") + (ab ? " abstract=\"true\"" : "") + (i == 1 && us ? " default=\"7\"" : "") + "/>"; if (ab) g[0].insert(g[0].begin(), nm); else if (k == 0) g[1].insert(g[1].begin(), nm); else if (k < 3) g[2].insert(g[2].begin(), nm); }
  FilePtr f(parse(S(b))); XsdElementVector v; size_t c = 99, s = 99; f->GenerateElementIdVector(&v, &c, &s); f->GenerateElementIdVector(NULL, &c, &s); KV_ASSERT(c == g[0].size() && s == c + g[1].size() && v.size() == s + g[2].size(), "each element in the group it belongs to"); size_t p = 0; for (int k = 0; k < 3; k++) for (size_t i = 0; i < g[k].size(); i++) KV_ASSERT(v[p++]->get_name() == g[k][i], "in alphabetical order"); XsdElementVector a[3]; f->GetAbstractElements(&a[0]); f->GetComplexElements(&a[1]); f->GetSimpleElements(&a[2]); for (int k = 0; k < 3; k++) { KV_ASSERT(a[k].size() == g[k].size(), "the same groups alone"); } XsdElementVector w; f->GenerateElementIdVector(&w, NULL, NULL); KV_ASSERT(w.size() == v.size(), "offsets are optional");
}
static const char* PN[] = {"string", "boolean", "decimal", "float", "double", "duration", "dateTime", "time", "date", "gYearMonth", "gYear", "gMonthDay", "gDay", "gMonth", "hexBinary", "base64Binary", "anyURI", "QName", "NOTATION", "integer", "long", "int"};
KV_HARNESS(primitive) {
  unsigned k = kv_pick(2); if (k) { unsigned i = kv_pick(22); XsdPrimitiveType::TypeId t = XsdPrimitiveType::GetTypeId(PN[i]); KV_ASSERT(t == (int)i + 1, "every built-in type is known"); KV_ASSERT(XsdPrimitiveType::GetTypeName(t) == PN[i], "by its name"); XsdTypePtr p = XsdPrimitiveType::Create(PN[i]); KV_ASSERT(p && p->get_name() == PN[i] && !p->is_complex() && p->get_xsd_type_id() == XsdType::XSD_TYPE_PRIMITIVE, "a type"); FilePtr f(parse(S(string("<element name=\"e\" type=\"") + PN[i] + "\"/>"))); XsdElementPtr e = f->FindElement("e"); KV_ASSERT(e->is_primitive() && e->get_type_id() == t && f->FindElementType(e) && f->FindElementType(e)->get_name() == PN[i], "of an element"); KV_ASSERT(XsdPrimitiveType::GetTypeName(XsdPrimitiveType::XSD_INVALID).empty(), "nothing has no name"); return; }
  string s = kv_alpha(kv_pick(6), "intlogdae"); int w = 0; for (int i = 0; i < 22; i++) if (s == PN[i]) w = i + 1; KV_ASSERT(XsdPrimitiveType::GetTypeId(s) == w, "exactly the built-in names"); XsdTypePtr p = XsdPrimitiveType::Create(s); KV_ASSERT((p.get() != 0) == (w > 0), "no other type");
}
KV_HARNESS(schema) {
  unsigned k = kv_pick(5); string p = kv_name(1), q = kv_name(1), t = kv_alpha(1, "tuv"); KV_ASSUME(p[0] != q[0]); string s = "<schema"; if (k < 4) s += " targetNamespace=\"" + t + "\""; bool ok = false; string want; if (k == 0) { s += " xmlns:" + p + "=\"t\" xmlns:" + q + "=\"u\""; ok = t[0] != 'v'; want = t[0] == 't' ? p : q; } if (k == 1) s += " xmlns=\"t\""; if (k == 2) { s += " xmlns=\"u\" xmlns:" + p + "=\"" + t + "\""; ok = true; want = p; } if (k == 4) s += " xmlns:" + p + "=\"t\""; s += "><element name=\"e\" type=\"" + p + ":T\"/><complexType name=\"T\"/></schema>"; FilePtr f(parse(s)); KV_ASSERT(f->get_target_namespace() == (ok ? t : ""), "the target namespace"); KV_ASSERT(f->get_target_namespace_prefix() == (ok ? want : ""), "its prefix"); KV_ASSERT((f->FindElementType(f->FindElement("e")).get() != 0) == (ok && want == p), "types of the target namespace"); 
  if (ok) { XsdSchemaPtr c = CreateXsdSchema(want, t); string n = kv_alpha(kv_pick(5), ":ab"), l = "old"; n = want + n; bool is = n.size() > 2 && n[1] == ':'; KV_ASSERT(c->SplitNsName(n, &l) == is && l == (is ? n.substr(2) : "old"), "qualified names are split at the prefix"); KV_ASSERT(c->SplitNsName(n, NULL) == is && !c->SplitNsName(":x", NULL) && !c->SplitNsName("", NULL), "the output is optional"); }
}
KV_HARNESS(alias) {
  unsigned n = 1 + kv_pick(3); string s; std::vector<std::pair<string, string> > w; FilePtr f(parse(S(""))); for (unsigned i = 0; i < n; i++) { unsigned k = kv_pick(4); string a = kv_name(1), b = kv_name(1); if (k == 0) { s += "alias " + a + " " + b; w.push_back(std::make_pair(a, b)); } if (k == 1) s += "alias " + a; if (k == 2) s += "alia " + a + " " + b; if (k == 3) s += "alias " + a + " " + b + " c"; if (i + 1 < n || kv_pick(2)) s += "\n"; } XstParser p(f.get()); p.ParseXst(s); string q = kv_name(1), v; for (size_t i = 0; i < w.size(); i++) if (w[i].first == q) v = w[i].second; KV_ASSERT(f->get_alias(q) == v, "the last alias of the name"); p.ParseXst(""); 
}
KV_HARNESS(bad) {
  string s = S("<element name=\"e\"><complexType><sequence><element ref=\"k:e\"/></sequence></complexType></element><complexType name=\"T\"><simpleType><restriction base=\"string\"/></simpleType></complexType>"); string t = s.substr(0, kv_pick16(s.size())), e = ""; KV_ASSERT(!XsdFile::CreateFromParse(t, &e), "an incomplete schema is an error"); KV_ASSERT(!e.empty(), "with a message");
  XsdFile f; KV_ASSERT(f.get_target_namespace().empty() && f.get_target_namespace_prefix().empty(), "no schema, no namespace"); XsdComplexTypePtr c = CreateXsdComplexType("C"); c->set_extension_base("k:C"); KV_ASSERT(!f.GetBaseType(c) && !f.GetTypeHierarchy(c, NULL) && !f.SearchTypeHierarchy(c, c) && !f.ResolveRef("k:e") && !f.FindElementType(NULL), "no answers"); f.set_schema(CreateXsdSchema("k", "t")); KV_ASSERT(!f.GetBaseType(NULL) && !f.GetTypeHierarchy(NULL, NULL) && !f.SearchTypeHierarchy(c, NULL), "nothing has no base"); KV_ASSERT(f.SearchTypeHierarchy(c, c), "a type is of its own type");
}
KV_HARNESS(scale) {
  unsigned k = kv_pick(4), n = kv_size(k == 3 ? 129 : 300); string b, x = kv_name(1); if (k == 0) for (unsigned i = 0; i < n; i++) b += "<element name=\"" + x + num(i) + "\" type=\"k:" + x + num(i) + "T\"/><complexType name=\"" + x + num(i) + "T\"/>"; if (k == 1) { b = "<complexType name=\"T\"><sequence>"; for (unsigned i = 0; i < n; i++) b += "<element name=\"" + x + num(i) + "\"/>"; b += "</sequence></complexType>"; } if (k == 2) { b = "<simpleType name=\"T\"><restriction base=\"string\">"; for (unsigned i = 0; i < n; i++) b += "<enumeration value=\"" + x + num(i) + "\"/>"; b += "</restriction></simpleType>"; } if (k == 3) for (unsigned i = 0; i < n; i++) b += "<complexType name=\"t" + num(i) + "\">" + (i ? "<complexContent><extension base=\"k:t" + num(i - 1) + "\"/></complexContent>" : string()) + "</complexType>";
  FilePtr f(parse(S(b)));
  if (k == 0) { XsdElementVector es; XsdTypeVector ts; f->GetAllElements(&es); f->GetAllTypes(&ts); KV_ASSERT(es.size() == n && ts.size() == n, "all"); for (unsigned i = 0; i < n; i++) KV_ASSERT(f->FindElement(x + num(i)) && ct(*f, x + num(i) + "T"), "each by name"); }
  if (k == 1) { XsdComplexTypePtr t = ct(*f, "T"); KV_ASSERT(t && t->get_sequence_size() == n, "all children"); for (unsigned i = 0; i < n; i++) KV_ASSERT(t->get_sequence_at(i)->get_name() == x + num(i), "in order"); }
  if (k == 2) { XsdSimpleTypePtr t = XsdSimpleType::AsSimpleType(f->FindType("T")); KV_ASSERT(t && t->get_enumeration_size() == n, "all values"); for (unsigned i = 0; i < n; i++) KV_ASSERT(t->get_enumeration_at(i) == x + num(i), "in order"); }
  if (k == 3) { std::vector<XsdComplexTypePtr> h; KV_ASSERT(f->GetTypeHierarchy(ct(*f, "t" + num(n - 1)), &h) && h.size() == n - 1, "the whole chain"); KV_ASSERT(f->SearchTypeHierarchy(ct(*f, "t" + num(n - 1)), ct(*f, "t0")), "derived from the first"); }
}
