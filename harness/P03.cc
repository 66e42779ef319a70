// P03: text survives write + read.
// @h fields q=40 t=200 | 17 string fields x every string of 3 (thorough 4) XML-legal ASCII characters, raw form
// @h pretty q=30 t=150 | name, Snippet, SimpleData, value: every string of 3 (thorough 4) XML-legal ASCII characters, pretty form
// @h cdata q=40 t=300 | fragments "<![CDATA[", "]]>", "]]", "]", "&amp;", "&", "<", quotes in two positions around one symbolic character (thorough: three positions, two symbolic characters)
// @h empty q=5 t=5 | empty strings in every listed field
// @h attrs q=40 t=200 | id, targetId and unknown attributes: every value of 3 (thorough 4) XML-legal ASCII characters
// @h utf8 q=20 t=60 | every 2-byte and 3-byte UTF-8 encoded character between markup characters
// @h scale q=60 t=150 | name, description, id, Data value and Snippet of 1..70000 characters with a symbolic character at the start, middle or end, raw and pretty
// @outside texts longer than the bound; carriage returns (XML normalises them); characters XML cannot represent; a link href that literally starts with a CDATA opener (documented work-around strips it)
#include "kvu.h"
using namespace kmldom;
static KmlFactory* F() { return KmlFactory::GetFactory(); }
static const int NF = 17;
static ElementPtr make(unsigned k, const std::string& s) {
  switch (k) {
    case 0: { PlacemarkPtr p = F()->CreatePlacemark(); p->set_name(s); return p; }
    case 1: { FolderPtr p = F()->CreateFolder(); p->set_description(s); return p; }
    case 2: { DocumentPtr p = F()->CreateDocument(); p->set_address(s); return p; }
    case 3: { SnippetPtr p = F()->CreateSnippet(); p->set_text(s); return p; }
    case 4: { DataPtr p = F()->CreateData(); p->set_value(s); return p; }
    case 5: { SimpleDataPtr p = F()->CreateSimpleData(); p->set_text(s); return p; }
    case 6: { LinkPtr p = F()->CreateLink(); p->set_href(s); return p; }
    case 7: { PlacemarkPtr p = F()->CreatePlacemark(); p->set_styleurl(s); return p; }
    case 8: { BalloonStylePtr p = F()->CreateBalloonStyle(); p->set_text(s); return p; }
    case 9: { DataPtr p = F()->CreateData(); p->set_displayname(s); return p; }
    case 10: { AtomAuthorPtr p = F()->CreateAtomAuthor(); p->set_name(s); return p; }
    case 11: { NetworkLinkControlPtr p = F()->CreateNetworkLinkControl(); p->set_message(s); return p; }
    case 12: { TimeStampPtr p = F()->CreateTimeStamp(); p->set_when(s); return p; }
    case 13: { LinkSnippetPtr p = F()->CreateLinkSnippet(); p->set_text(s); return p; }
    case 14: { XalCountryPtr p = F()->CreateXalCountry(); p->set_countrynamecode(s); return p; }
    case 15: { GxSimpleArrayDataPtr p = F()->CreateGxSimpleArrayData(); p->add_gx_value(s); return p; }
    default: { PlacemarkPtr p = F()->CreatePlacemark(); p->set_phonenumber(s); return p; }
  }
}
static bool same(unsigned k, const ElementPtr& e, const std::string& s) {
  switch (k) {
    case 0: return AsPlacemark(e)->has_name() && AsPlacemark(e)->get_name() == s;
    case 1: return AsFolder(e)->has_description() && AsFolder(e)->get_description() == s;
    case 2: return AsDocument(e)->has_address() && AsDocument(e)->get_address() == s;
    case 3: return AsSnippet(e)->has_text() && AsSnippet(e)->get_text() == s;
    case 4: return AsData(e)->has_value() && AsData(e)->get_value() == s;
    case 5: return AsSimpleData(e)->has_text() && AsSimpleData(e)->get_text() == s;
    case 6: return AsLink(e)->has_href() && AsLink(e)->get_href() == s;
    case 7: return AsPlacemark(e)->has_styleurl() && AsPlacemark(e)->get_styleurl() == s;
    case 8: return AsBalloonStyle(e)->has_text() && AsBalloonStyle(e)->get_text() == s;
    case 9: return AsData(e)->has_displayname() && AsData(e)->get_displayname() == s;
    case 10: return AsAtomAuthor(e)->has_name() && AsAtomAuthor(e)->get_name() == s;
    case 11: return AsNetworkLinkControl(e)->has_message() && AsNetworkLinkControl(e)->get_message() == s;
    case 12: return AsTimeStamp(e)->has_when() && AsTimeStamp(e)->get_when() == s;
    case 13: return AsLinkSnippet(e)->has_text() && AsLinkSnippet(e)->get_text() == s;
    case 14: return AsXalCountry(e)->has_countrynamecode() && AsXalCountry(e)->get_countrynamecode() == s;
    case 15: return AsGxSimpleArrayData(e)->get_gx_value_array_size() == 1 && AsGxSimpleArrayData(e)->get_gx_value_array_at(0) == s;
    default: return AsPlacemark(e)->has_phonenumber() && AsPlacemark(e)->get_phonenumber() == s;
  }
}
static void rt(unsigned k, const std::string& s, bool pretty) {
  ElementPtr e = make(k, s);
  std::string x = pretty ? SerializePretty(e) : SerializeRaw(e);
  kv_obs(x);
  std::string err;
  ElementPtr r = Parse(x, &err);
  KV_ASSERT(r, "the written document is well-formed");
  KV_ASSERT(r->Type() == e->Type(), "root type");
  KV_ASSERT(same(k, r, s), "the text read back is the text written");
}
KV_HARNESS(fields) { unsigned k = kv_pick(NF); rt(k, kv_text(kv_tier() ? 4 : 3), false); }
KV_HARNESS(pretty) { unsigned k = kv_pick(4); rt(k == 0 ? 0 : k == 1 ? 3 : k == 2 ? 5 : 4, kv_text(kv_tier() ? 4 : 3), true); }
KV_HARNESS(empty) { unsigned k = kv_pick(NF); rt(k, "", false); }
KV_HARNESS(cdata) {
  static const char* fr[] = {"", "<![CDATA[", "]]>", "]]", "&amp;", "&", "<", "\"'", "]"};
  unsigned k = kv_pick(3), a = kv_pick(9), b = kv_pick(9);
  std::string s = std::string(fr[a]) + kv_text(1) + fr[b];
  if (kv_tier()) s += kv_text(1) + fr[kv_pick(9)];
  rt(k == 0 ? 0 : k == 1 ? 3 : 1, s, false);
}
KV_HARNESS(attrs) {
  unsigned k = kv_pick(6); std::string v = kv_text(kv_tier() ? 4 : 3), x;
  ElementPtr e;
  if (k == 0) { PlacemarkPtr p = F()->CreatePlacemark(); p->set_id(v); e = p; }
  else if (k == 1) { StylePtr p = F()->CreateStyle(); p->set_targetid(v); e = p; }
  else if (k == 2) { DataPtr p = F()->CreateData(); p->set_name(v); e = p; }
  else if (k == 3) { SimpleDataPtr p = F()->CreateSimpleData(); p->set_name(v); e = p; }
  else if (k == 4) { AtomLinkPtr p = F()->CreateAtomLink(); p->set_href(v); e = p; }
  else { SchemaPtr p = F()->CreateSchema(); p->set_name(v); e = p; }
  x = SerializeRaw(e); kv_obs(x);
  ElementPtr r = Parse(x, 0);
  KV_ASSERT(r, "the written document is well-formed");
  bool ok = k == 0 ? AsPlacemark(r)->get_id() == v : k == 1 ? AsStyle(r)->get_targetid() == v : k == 2 ? AsData(r)->get_name() == v : k == 3 ? AsSimpleData(r)->get_name() == v : k == 4 ? AsAtomLink(r)->get_href() == v : AsSchema(r)->get_name() == v;
  KV_ASSERT(ok, "the attribute read back is the attribute written");
}
KV_HARNESS(utf8) {
  unsigned char b[3]; kv_sym(b, 3, 0); unsigned k = kv_pick(3); std::string s;
  if (kv_pick(2)) { KV_ASSUME((b[0] >= 0xc2) & (b[0] <= 0xdf) & (b[1] >= 0x80) & (b[1] <= 0xbf)); s = std::string((char*)b, 2); }
  else { KV_ASSUME((b[0] >= 0xe1) & (b[0] <= 0xec) & (b[1] >= 0x80) & (b[1] <= 0xbf) & (b[2] >= 0x80) & (b[2] <= 0xbf)); s = std::string((char*)b, 3); }
  static const char* fr[] = {"", "<", "&"};
  rt(kv_pick(2) ? 0 : 3, std::string(fr[k]) + s + fr[k], false);
}
KV_HARNESS(scale) {
  unsigned k = kv_pick(5); bool pretty = kv_pick(2); std::string t = kv_long(k ? 4097 : 70000, kv_text(1)); PlacemarkPtr p = F()->CreatePlacemark(); if (k == 0) p->set_name(t); if (k == 1) p->set_description(t); if (k == 2) p->set_id(t); if (k == 3) { DataPtr d = F()->CreateData(); d->set_value(t); ExtendedDataPtr e = F()->CreateExtendedData(); e->add_data(d); p->set_extendeddata(e); } if (k == 4) { SnippetPtr s = F()->CreateSnippet(); s->set_text(t); p->set_snippet(s); }
  PlacemarkPtr q = AsPlacemark(Parse(pretty ? SerializePretty(p) : SerializeRaw(p), NULL)); KV_ASSERT(q, "parses"); std::string g; if (k == 0) g = q->get_name(); if (k == 1) g = q->get_description(); if (k == 2) g = q->get_id(); if (k == 3) { ExtendedDataPtr e = AsExtendedData(q->get_extendeddata()); KV_ASSERT(e && e->get_data_array_size() == 1, "the data"); g = e->get_data_array_at(0)->get_value(); } if (k == 4) { KV_ASSERT(q->has_snippet(), "the snippet"); g = q->get_snippet()->get_text(); }
  KV_ASSERT(g == t, "the same text, whatever its length");
}
