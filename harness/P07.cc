// P07: coordinates text.
// @h tuples q=40 t=240 | 1..2 tuples (thorough 1..3) of 2 or 3 decimal numbers (5 number shapes, all digits symbolic), symbolic white space around commas, between tuples and at both ends
// @h document q=30 t=120 | two tuples in a LineString, LinearRing or Point document: symbolic digits, dimensions and white space
// @h grammar q=90 t=300 | every text of 6 (thorough 7) characters over { 1 . - , space newline tab x }
// @h bytes q=20 t=120 | every byte string of length 0..3 (thorough 0..4)
// @h longtok q=10 t=30 | tokens of 1000..5000 characters at each position, with one symbolic character in the middle
// @h nodata q=15 t=60 | every text of 1..5 white-space or non-numeric characters
// @h write q=90 t=240 | lists of 0..2 (thorough 0..3) tuples of symbolic decimals with 1..7 digits, built by each add function, raw and pretty
// @h gx q=30 t=200 | gx:coord / gx:angles of 0..3 numbers, symbolic digits and white space; written and read back
// @h many q=60 t=150 | 1..2049 tuples of two or three numbers, with a symbolic digit in the first, middle or last, one to a line or all on one, read and written
// @outside numbers with more than 15 significant digits or exponents (read by the C++ library, not by libkml); lists longer than 3 tuples
#include "kvu.h"
#include "kml/base/string_util.h"
using namespace kmldom;
using kmlbase::Vec3;
struct Tup { double v[3]; int dims; };
static bool same(const Vec3& a, const Tup& t) {
  return (a.get_longitude() == t.v[0]) & (a.get_latitude() == t.v[1]) & (t.dims == 3 ? a.has_altitude() && a.get_altitude() == t.v[2] : !a.has_altitude() && a.get_altitude() == 0);
}
static std::string ws(unsigned n) { return n ? kv_alpha(n, " \n\t") : std::string(); }
static DecT number() {
  switch (kv_pick(5)) {
    case 0: return kv_dect(1, 0, false);
    case 1: return kv_dect(2, 1, true);
    case 2: return kv_dect(0, 2, false);
    case 3: return kv_dect(3, 2, false);
    default: return kv_dect(0, 1, true);
  }
}
static void check_list(const CoordinatesPtr& c, const std::vector<Tup>& t) {
  KV_ASSERT(c->get_coordinates_array_size() == t.size(), "one tuple per tuple of the text");
  for (size_t i = 0; i < t.size(); i++) KV_ASSERT(same(c->get_coordinates_array_at(i), t[i]), "tuple values are the decimal values of the text");
}
KV_HARNESS(tuples) {
  unsigned n = 1 + kv_pick(kv_tier() ? 3 : 2), style = kv_pick(5);
  std::vector<Tup> want; unsigned mode = kv_pick(3), between = mode ? 2 : 1, end = mode ? 1 : 0;
  std::string s = ws(mode == 1);
  for (unsigned i = 0; i < n; i++) {
    Tup t; t.dims = 2 + kv_pick(2); t.v[2] = 0;
    if (i) s += ws(between);
    for (int k = 0; k < t.dims; k++) {
      DecT d = k == 0 && i == 0 ? number() : k == 1 ? kv_dect(2, 1, true) : kv_dect(1, 1, false);
      if (k) s += ws(style & 1) + "," + ws(style & 2 ? 1 : style == 4 ? 2 : 0);
      s += d.t; t.v[k] = d.v;
    }
    want.push_back(t);
  }
  s += ws(end);
  CoordinatesPtr c = KmlFactory::GetFactory()->CreateCoordinates();
  c->Parse(s);
  check_list(c, want);
  // and tuple by tuple
  const char* p = s.c_str(); char* next = 0; size_t i = 0;
  Vec3 v(7, 7, 7);
  while (Coordinates::ParseVec3(p, &next, &v)) {
    KV_ASSERT(next > p && next <= s.c_str() + s.size(), "advances within the text");
    KV_ASSERT(i < want.size() && same(v, want[i]), "ParseVec3 value"); i++; p = next;
  }
  KV_ASSERT(i == want.size(), "ParseVec3 finds every tuple");
}
KV_HARNESS(document) {
  std::vector<Tup> want; std::string s = ws(kv_pick(2));
  for (unsigned i = 0; i < 2; i++) {
    Tup t; t.dims = 2 + kv_pick(2); t.v[2] = 0; if (i) s += ws(1);
    for (int k = 0; k < t.dims; k++) { DecT d = kv_dect(k == 0 ? 2 : 1, 1, k == 1); s += std::string(k ? "," : "") + (k == 2 ? ws(1) : "") + d.t; t.v[k] = d.v; }
    want.push_back(t);
  }
  s += ws(kv_pick(2));
  static const char* el[] = {"LineString", "LinearRing", "Point"};
  unsigned k = kv_pick(3);
  ElementPtr e = Parse(std::string("<") + el[k] + "><coordinates>" + s + "</coordinates></" + el[k] + ">", 0);
  KV_ASSERT(e, "parses");
  CoordinatesPtr c; if (k == 2) c = AsPoint(e)->get_coordinates(); else c = k ? AsLinearRing(e)->get_coordinates() : AsLineString(e)->get_coordinates();
  KV_ASSERT(c, "coordinates");
  check_list(c, want);
}
static bool isws(char c) { return c == ' ' || c == '\n' || c == '\t'; }
// recogniser for: ws* tuple (ws+ tuple)* ws* ; tuple = num (ws* , ws* num){1,2} ; num = -? (1+ (.1*)? | .1+)
struct G {
  const std::string& s; size_t i; std::vector<Tup> out;
  G(const std::string& x) : s(x), i(0) {}
  void sk() { while (i < s.size() && isws(s[i])) i++; }
  bool num(double* v) {
    long long m = 0; int k = 0, nd = 0; bool neg = false;
    if (i < s.size() && s[i] == '-') { neg = true; i++; }
    while (i < s.size() && s[i] == '1') { m = m * 10 + 1; nd++; i++; }
    if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && s[i] == '1') { m = m * 10 + 1; nd++; k++; i++; } }
    *v = kv_dec(neg ? -m : m, k);
    return nd > 0;
  }
  bool tup() {
    Tup t; t.v[2] = 0; t.dims = 1; if (!num(&t.v[0])) return false;
    while (t.dims < 3) { size_t b = i; sk(); if (i < s.size() && s[i] == ',') { i++; sk(); if (!num(&t.v[t.dims])) return false; t.dims++; } else { i = b; break; } }
    if (t.dims < 2) return false;
    out.push_back(t); return true;
  }
  bool all() { sk(); for (;;) { if (!tup()) return false; size_t b = i; sk(); if (i == s.size()) return true; if (b == i) return false; } }
};
KV_HARNESS(grammar) {
  std::string s = kv_alpha(kv_tier() ? 7 : 6, "1.-, \n\tx");
  CoordinatesPtr c = KmlFactory::GetFactory()->CreateCoordinates();
  c->Parse(s);
  size_t runs = 0; for (size_t i = 0; i < s.size(); i++) runs += s[i] == '1' && (i == 0 || s[i - 1] != '1');
  KV_ASSERT(c->get_coordinates_array_size() <= runs, "no invented tuples");
  for (size_t i = 0; i < c->get_coordinates_array_size(); i++) { Vec3 v = c->get_coordinates_array_at(i); kv_obs_dbl(v.get_longitude()); kv_obs_dbl(v.get_latitude()); kv_obs_dbl(v.get_altitude()); }
  G g(s);
  if (g.all()) check_list(c, g.out);
}
KV_HARNESS(bytes) {
  std::string s = kv_string(kv_pick(kv_tier() ? 5 : 4), '1');
  CoordinatesPtr c = KmlFactory::GetFactory()->CreateCoordinates();
  c->Parse(s);
  KV_ASSERT(c->get_coordinates_array_size() <= s.size(), "no invented tuples");
  kv_obs_int(c->get_coordinates_array_size());
  char* next = 0; Vec3 v;
  if (Coordinates::ParseVec3(s.c_str(), &next, &v)) KV_ASSERT(next > s.c_str() && next <= s.c_str() + s.size(), "next within the text");
}
KV_HARNESS(longtok) {
  static const size_t len[] = {1000, 1023, 1024, 1025, 1100, 2047, 2048, 5000};
  size_t n = len[kv_pick(8)]; unsigned pos = kv_pick(3);
  std::string big(n, '0'); big[0] = '2'; big[1] = '.'; big[n / 2] = kv_alpha(1, "0x*")[0];
  std::string s = std::string(pos == 0 ? big : "1") + "," + (pos == 1 ? big : "1") + "," + (pos == 2 ? big : "1") + " 3,4";
  CoordinatesPtr c = KmlFactory::GetFactory()->CreateCoordinates();
  c->Parse(s);
  KV_ASSERT(c->get_coordinates_array_size() == 2, "both tuples");
  Vec3 a = c->get_coordinates_array_at(0), b = c->get_coordinates_array_at(1);
  KV_ASSERT(a.get_longitude() == (pos == 0 ? 2 : 1) && a.get_latitude() == (pos == 1 ? 2 : 1) && a.get_altitude() == (pos == 2 ? 2 : 1), "value of a long token");
  KV_ASSERT(b.get_longitude() == 3 && b.get_latitude() == 4 && !b.has_altitude(), "the next tuple is unaffected");
}
KV_HARNESS(nodata) {
  std::string s = kv_alpha(1 + kv_pick(5), " \n\tx.-,");
  LineStringPtr ls = AsLineString(Parse("<LineString><coordinates>" + s + "</coordinates></LineString>", 0));
  KV_ASSERT(ls && ls->get_coordinates() && ls->get_coordinates()->get_coordinates_array_size() == 0, "no numbers, no tuples");
}
KV_HARNESS(write) {
  unsigned n = kv_pick(kv_tier() ? 4 : 3); std::vector<Tup> want; unsigned big = kv_pick(3 * n + 1);
  KmlFactory* f = KmlFactory::GetFactory();
  CoordinatesPtr c = f->CreateCoordinates();
  for (unsigned i = 0; i < n; i++) {
    Tup t; unsigned how = kv_pick(3); t.dims = how == 0 ? 2 : 3;
    t.v[0] = big == 3 * i ? kv_dect(3, 4, true).v : 10.25; t.v[1] = big == 3 * i + 1 ? kv_dect(1, 6, false).v : kv_dect(1, 0, false).v; t.v[2] = t.dims == 2 ? 0 : big == 3 * i + 2 ? kv_dect(2, 2, true).v : kv_dect(1, 0, true).v;
    if (how == 0) c->add_latlng(t.v[1], t.v[0]); else if (how == 1) c->add_latlngalt(t.v[1], t.v[0], t.v[2]); else c->add_vec3(Vec3(t.v[0], t.v[1], t.v[2]));
    want.push_back(t);
  }
  check_list(c, want);
  LineStringPtr ls = f->CreateLineString(); ls->set_coordinates(c);
  std::string x = kv_pick(2) ? SerializePretty(ls) : SerializeRaw(ls);
  check_list(c, want);
  LineStringPtr back = AsLineString(Parse(x, 0));
  KV_ASSERT(back && back->get_coordinates(), "reads back");
  for (unsigned i = 0; i < n; i++) if (want[i].dims == 2) { want[i].dims = 3; want[i].v[2] = 0; }  // an absent altitude is written as 0
  check_list(back->get_coordinates(), want);
  c->Clear(); KV_ASSERT(c->get_coordinates_array_size() == 0, "Clear empties the list");
}
KV_HARNESS(gx) {
  unsigned n = kv_pick(4), mode = kv_pick(3), lead = mode == 1, gap = mode ? 2 : 1, end = mode ? 1 : 0; bool ang = kv_pick(2);
  std::string s = ws(lead); Tup t; t.v[0] = t.v[1] = t.v[2] = 0; t.dims = n == 3 ? 3 : 2;
  unsigned which = kv_pick(4);  // which numbers are symbolic: one of them (then also written back), or all
  for (unsigned i = 0; i < n; i++) { DecT d; if (which == 3 || i == which) d = i == 1 ? kv_dect(2, 1, true) : kv_dect(1, 2, false); else { d.t = i == 1 ? "-20.5" : "1.25"; d.v = i == 1 ? -20.5 : 1.25; } if (i) s += ws(gap); s += d.t; t.v[i] = d.v; }
  s += ws(end);
  std::string el = ang ? "gx:angles" : "gx:coord";
  GxTrackPtr tr = AsGxTrack(Parse("<gx:Track><" + el + ">" + s + "</" + el + "><" + el + ">4 5 6</" + el + "></gx:Track>", 0));
  KV_ASSERT(tr, "parses");
  for (int round = 0; round < (which == 3 ? 1 : 2); round++) {
    size_t m = ang ? tr->get_gx_angles_array_size() : tr->get_gx_coord_array_size();
    KV_ASSERT(m == 2 && (ang ? tr->get_gx_coord_array_size() : tr->get_gx_angles_array_size()) == 0, "one entry per element");
    KV_ASSERT(same(ang ? tr->get_gx_angles_array_at(0) : tr->get_gx_coord_array_at(0), t), "values");
    Tup u = {{4, 5, 6}, 3};
    KV_ASSERT(same(ang ? tr->get_gx_angles_array_at(1) : tr->get_gx_coord_array_at(1), u), "second entry");
    if (!round && which != 3) { tr = AsGxTrack(Parse(SerializeRaw(tr), 0)); KV_ASSERT(tr, "reads back"); t.dims = 3; }
  }
}
KV_HARNESS(many) {
  unsigned n = kv_size(2049), w = kv_pick(3), at = w == 0 ? 0 : w == 1 ? n / 2 : n - 1, sep = kv_pick(2); DecT d = kv_dect(2, 0, false); std::string x = "<coordinates>"; std::vector<Tup> t; for (unsigned i = 0; i < n; i++) { Tup u; u.v[0] = i == at ? d.v : i; u.v[1] = 1; u.v[2] = i & 1 ? 7 : 0; u.dims = i & 1 ? 3 : 2; t.push_back(u); x += (i == at ? d.t : num(i)) + ",1" + (i & 1 ? ",7" : "") + (sep ? "\n" : " "); }
  CoordinatesPtr c = AsCoordinates(Parse(x + "</coordinates>", NULL)); KV_ASSERT(c, "parses"); check_list(c, t); CoordinatesPtr r = AsCoordinates(Parse(SerializeRaw(c), NULL)); KV_ASSERT(r && r->get_coordinates_array_size() == n, "all written"); for (unsigned i = 0; i < n; i++) KV_ASSERT(r->get_coordinates_array_at(i) == c->get_coordinates_array_at(i), "in order");
}
