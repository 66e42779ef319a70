// P08: numbers, booleans, enumerations <-> text.
// @cxx -frtti
// @h read_double q=25 t=120 | optional white space, optional '-', 0..4 integer and 0..4 fraction digits (all symbolic), optional white space; FromString and StringToDouble
// @h read_exp q=20 t=60 | one symbolic digit, '.', one symbolic digit, e/E, optional sign, one symbolic exponent digit
// @h write_double q=40 t=200 | every decimal with 9 integer and 6 fraction digits, either sign; ToString then FromString
// @h read_int q=25 t=120 | optional white space, optional sign, 1..6 (thorough 1..9) symbolic digits, one arbitrary trailing byte or none
// @h bool_text q=20 t=90 | every byte string of length 0..6
// @h doc_bool q=20 t=60 | visibility, open, extrude and tessellate text of 1..5 characters
// @h doc_number q=30 t=120 | symbolic numbers with white space in 8 double and 4 int fields of a document, and back
// @h enums q=30 t=120 | every enumerated field x every legal value with one symbolic character anywhere, and one added or removed
// @h enum_short q=20 t=90 | every enumerated field with every text of 0..3 characters
// @h history q=25 t=90 | a conversion after another conversion of symbolic text, for each type
// @h locale q=15 t=60 | symbolic decimals while the process locale uses a decimal comma
// @h rewrite q=30 t=90 | any of 16 numbers (zero, small, large, 15 digits, exponents) written, any other of them and an integer and a boolean written and read, then the first written again: the same text, which reads as the same number
// @outside more than 15 significant digits; NaN and infinities; exponent forms other than d.dE[+-]d
#include "kvu.h"
#include "xt.h"
#include <locale>
#include "kml/base/string_util.h"
using namespace kmldom;
using kmlbase::FromString; using kmlbase::ToString; using kmlbase::StringToDouble;
static std::string ws(unsigned n) { return n ? kv_alpha(n, " \n\t") : std::string(); }
KV_HARNESS(read_double) {
  unsigned ni = kv_pick(5), nf = kv_pick(5); KV_ASSUME(ni + nf > 0); bool neg = kv_pick(2);
  DecT d = kv_dect(ni, nf, neg); unsigned lead = kv_pick(2), tail = kv_pick(2);
  double v = 77; FromString(ws(lead) + d.t + ws(tail), &v);
  KV_ASSERT(v == d.v, "FromString reads the decimal value");
  double w = 77; KV_ASSERT(StringToDouble(d.t + ws(tail), &w) && w == d.v, "StringToDouble reads the decimal value");
  w = 77; KV_ASSERT(StringToDouble(d.t.c_str(), &w) && w == d.v, "StringToDouble reads the decimal value of a C string");
}
KV_HARNESS(read_exp) {
  std::string a = kv_alpha(1, "0123456789"), b = kv_alpha(1, "0123456789"), e = kv_alpha(1, "0123456789"); unsigned sg = kv_pick(3);
  std::string s = a + "." + b + (kv_pick(2) ? "e" : "E") + (sg == 0 ? "" : sg == 1 ? "+" : "-") + e;
  double v = 77, w = 78; FromString(s, &v); KV_ASSERT(StringToDouble(s, &w), "numeric");
  int m = (a[0] - '0') * 10 + (b[0] - '0'), x = e[0] - '0'; double p = 1; for (int i = 0; i < 12; i++) if (i < (sg == 2 ? x + 1 : x - 1)) p *= 10;
  double want = sg == 2 ? m / p : x == 0 ? m / 10.0 : m * p;
  KV_ASSERT(v == want && w == want, "exponent form");
}
KV_HARNESS(write_double) {
  DecT d = kv_dect(9, 6, kv_pick(2)); std::string s = ToString(d.v); double v = 77; FromString(s, &v);
  KV_ASSERT(v == d.v, "writing and reading back gives the same number");
  KV_ASSERT(s.size() >= 1 && s.size() <= 21, "length");
  double w = 77; KV_ASSERT(StringToDouble(s, &w) && w == d.v, "written text is numeric");
}
KV_HARNESS(read_int) {
  unsigned n = 1 + kv_pick(kv_tier() ? 9 : 6), sg = kv_pick(3); std::string d = kv_alpha(n, "0123456789"); long m = 0; for (unsigned i = 0; i < n; i++) m = m * 10 + ((int)(unsigned char)d[i] - '0');
  std::string tail; if (kv_pick(2)) { tail = kv_string(1, ' '); KV_ASSUME((unsigned)((unsigned char)tail[0] - '0') >= 10u); }
  int v = 77; FromString(ws(kv_pick(2)) + (sg == 1 ? "-" : sg == 2 ? "+" : "") + d + tail, &v);
  KV_ASSERT(v == (sg == 1 ? -m : m), "exact int");
}
static bool tr(const std::string& s) {
  size_t i = 0; while (i < s.size() && ((s[i] == ' ') | ((unsigned char)(s[i] - 9) < 5))) i++;
  return (i < s.size() && s[i] == '1') || (i + 4 <= s.size() && s[i] == 't' && s[i + 1] == 'r' && s[i + 2] == 'u' && s[i + 3] == 'e');
}
KV_HARNESS(bool_text) {
  std::string s = kv_string(kv_pick(7), 't'); bool v = kv_pick(2); FromString(s, &v);
  KV_ASSERT(v == tr(s), "true exactly when the text begins with 1 or true after white space");
}
KV_HARNESS(doc_bool) {
  std::string s = kv_text(1 + kv_pick(5), 't'); for (size_t i = 0; i < s.size(); i++) KV_ASSUME((s[i] != '<') & (s[i] != '&') & (s[i] != '>'));
  unsigned k = kv_pick(2);
  if (k == 0) { PlacemarkPtr p = AsPlacemark(Parse("<Placemark><open>" + s + "</open><visibility>" + s + "</visibility></Placemark>", 0)); KV_ASSERT(p && p->has_open() && p->has_visibility() && p->get_open() == tr(s) && p->get_visibility() == tr(s), "bool fields"); 
    KV_ASSERT(SerializeRaw(p) == std::string("<Placemark><visibility>") + (tr(s) ? "1" : "0") + "</visibility><open>" + (tr(s) ? "1" : "0") + "</open></Placemark>", "written as 0 or 1"); }
  else { LineStringPtr l = AsLineString(Parse("<LineString><extrude>" + s + "</extrude><tessellate>0</tessellate></LineString>", 0)); KV_ASSERT(l && l->has_extrude() && l->get_extrude() == tr(s) && l->has_tessellate() && !l->get_tessellate(), "bool fields"); }
}
KV_HARNESS(doc_number) {
  unsigned k = kv_pick(12);
  if (k < 8) {
    static const char* path[] = {"LookAt/longitude", "Camera/tilt", "LatLonBox/north", "Region/Lod/minFadeExtent", "LineStyle/width", "Icon/refreshInterval", "PhotoOverlay/rotation", "IconStyle/heading"};
    std::string p = path[k], open, close; size_t b = 0; for (;;) { size_t e = p.find('/', b); std::string n = p.substr(b, e == std::string::npos ? e : e - b); open += "<" + n + ">"; close = "</" + n + ">" + close; if (e == std::string::npos) break; b = e + 1; }
    DecT d = kv_dect(2, 3, kv_pick(2));
    ElementPtr e = Parse(open + ws(kv_pick(2)) + d.t + ws(kv_pick(2)) + close, 0); KV_ASSERT(e, "parses");
    double v = 77;
    switch (k) { case 0: v = AsLookAt(e)->get_longitude(); break; case 1: v = AsCamera(e)->get_tilt(); break; case 2: v = AsLatLonBox(e)->get_north(); break; case 3: v = AsRegion(e)->get_lod()->get_minfadeextent(); break;
      case 4: v = AsLineStyle(e)->get_width(); break; case 5: v = AsIcon(e)->get_refreshinterval(); break; case 6: v = AsPhotoOverlay(e)->get_rotation(); break; case 7: v = AsIconStyle(e)->get_heading(); }
    KV_ASSERT(v == d.v, "the number in the document is the number in the object");
    std::string out = SerializeRaw(e); size_t q = open.size(); double w = 77; FromString(out.substr(q, out.size() - q - close.size()), &w);
    KV_ASSERT(out.compare(0, q, open) == 0 && w == d.v, "and in the written document");
  } else {
    bool neg = kv_pick(2); std::string s = kv_alpha(kv_tier() ? 4 : 3, "0123456789"); long m = 0; for (size_t i = 0; i < s.size(); i++) m = m * 10 + ((int)(unsigned char)s[i] - '0'); if (neg) m = -m;
    static const char* el[] = {"GroundOverlay", "ImagePyramid", "ImagePyramid", "ImagePyramid"}; static const char* fd[] = {"drawOrder", "tileSize", "maxWidth", "maxHeight"};
    std::string pre = std::string("<") + el[k - 8] + "><" + fd[k - 8] + ">";
    ElementPtr e = Parse(pre + ws(kv_pick(2)) + (neg ? "-" : "") + s + ws(kv_pick(2)) + "</" + fd[k - 8] + "></" + el[k - 8] + ">", 0); KV_ASSERT(e, "parses");
    long v = k == 8 ? AsGroundOverlay(e)->get_draworder() : k == 9 ? AsImagePyramid(e)->get_tilesize() : k == 10 ? AsImagePyramid(e)->get_maxwidth() : AsImagePyramid(e)->get_maxheight();
    KV_ASSERT(v == m, "int field");
    std::string out = SerializeRaw(e); int w = 77777; FromString(out.substr(pre.size(), 8), &w); KV_ASSERT(out.compare(0, pre.size(), pre) == 0 && w == m, "int written");
  }
}
struct EF { const char *open, *close; const char* v[9]; };
static const EF kE[] = {
  {"<Point><altitudeMode>", "</altitudeMode></Point>", {"clampToGround", "relativeToGround", "absolute", 0}},
  {"<LineStyle><colorMode>", "</colorMode></LineStyle>", {"normal", "random", 0}},
  {"<BalloonStyle><displayMode>", "</displayMode></BalloonStyle>", {"default", "hide", 0}},
  {"<ImagePyramid><gridOrigin>", "</gridOrigin></ImagePyramid>", {"lowerLeft", "upperLeft", 0}},
  {"<ListStyle><listItemType>", "</listItemType></ListStyle>", {"check", "radioFolder", "checkOffOnly", "checkHideChildren", 0}},
  {"<Link><refreshMode>", "</refreshMode></Link>", {"onChange", "onInterval", "onExpire", 0}},
  {"<PhotoOverlay><shape>", "</shape></PhotoOverlay>", {"rectangle", "cylinder", "sphere", 0}},
  {"<Pair><key>", "</key></Pair>", {"normal", "highlight", 0}},
  {"<Link><viewRefreshMode>", "</viewRefreshMode></Link>", {"never", "onRequest", "onStop", "onRegion", 0}},
  {"<Point><gx:altitudeMode>", "</gx:altitudeMode></Point>", {"clampToSeaFloor", "relativeToSeaFloor", 0}},
  {"<gx:FlyTo><gx:flyToMode>", "</gx:flyToMode></gx:FlyTo>", {"bounce", "smooth", 0}},
  {"<gx:TourControl><gx:playMode>", "</gx:playMode></gx:TourControl>", {"pause", 0}},
};
static const unsigned NE = sizeof kE / sizeof kE[0];
static int getenumf(unsigned k, const ElementPtr& e, bool* has) {
  switch (k) {
    case 0: *has = AsPoint(e)->has_altitudemode(); return AsPoint(e)->get_altitudemode();
    case 1: *has = AsLineStyle(e)->has_colormode(); return AsLineStyle(e)->get_colormode();
    case 2: *has = AsBalloonStyle(e)->has_displaymode(); return AsBalloonStyle(e)->get_displaymode();
    case 3: *has = AsImagePyramid(e)->has_gridorigin(); return AsImagePyramid(e)->get_gridorigin();
    case 4: *has = AsListStyle(e)->has_listitemtype(); return AsListStyle(e)->get_listitemtype();
    case 5: *has = AsLink(e)->has_refreshmode(); return AsLink(e)->get_refreshmode();
    case 6: *has = AsPhotoOverlay(e)->has_shape(); return AsPhotoOverlay(e)->get_shape();
    case 7: *has = AsPair(e)->has_key(); return AsPair(e)->get_key();
    case 8: *has = AsLink(e)->has_viewrefreshmode(); return AsLink(e)->get_viewrefreshmode();
    case 9: *has = AsPoint(e)->has_gx_altitudemode(); return AsPoint(e)->get_gx_altitudemode();
    case 10: *has = AsGxFlyTo(e)->has_gx_flytomode(); return AsGxFlyTo(e)->get_gx_flytomode();
    default: *has = AsGxTourControl(e)->has_gx_playmode(); return AsGxTourControl(e)->get_gx_playmode();
  }
}
static void check_enum(unsigned k, const std::string& s) {
  ElementPtr e = Parse(kE[k].open + s + kE[k].close, 0); KV_ASSERT(e, "parses");
  int want = -1; for (int i = 0; kE[k].v[i]; i++) if (s == kE[k].v[i]) want = i;
  bool has = false; int got = getenumf(k, e, &has);
  KV_ASSERT(has == (want >= 0), "set exactly for a value of the schema");
  std::string out = SerializeRaw(e);
  if (want >= 0) { KV_ASSERT(got == want, "the value's number"); KV_ASSERT(out == kE[k].open + s + kE[k].close, "written back as the same value"); }
  else { std::string o = kE[k].open; KV_ASSERT(out == o.substr(0, o.find('>')) + "/>", "an unknown value is not written"); KV_ASSERT(got == 0, "default value"); }
}
KV_HARNESS(enums) {
  unsigned k = kv_pick(NE), n = 0; while (kE[k].v[n]) n++;
  std::string s = kE[k].v[kv_pick(n)]; unsigned how = kv_pick(4);
  if (how == 0) { unsigned p = kv_pick(s.size()); s[p] = kv_name(1)[0]; }
  else if (how == 1) s += kv_alpha(1, " xS");
  else if (how == 2) s = s.substr(0, s.size() - 1);
  else s = kv_alpha(1, " \nxS") + s;
  check_enum(k, s);
}
KV_HARNESS(enum_short) { unsigned k = kv_pick(NE); check_enum(k, kv_name(kv_pick(4))); }
KV_HARNESS(history) {
  unsigned k = kv_pick(3); std::string junk = kv_text(kv_pick(3), '1');
  if (k == 0) { double v = 5; FromString(junk, &v); DecT d = kv_dect(1, 2, kv_pick(2)); FromString(d.t, &v); KV_ASSERT(v == d.v, "double after anything"); }
  else if (k == 1) { int v = 5; FromString(junk, &v); std::string s = kv_alpha(2, "0123456789"); FromString(s, &v); KV_ASSERT(v == (s[0] - '0') * 10 + (s[1] - '0'), "int after anything"); }
  else { bool v = kv_pick(2); FromString(junk, &v); std::string s = kv_text(1, '1'); FromString(s, &v); KV_ASSERT(v == (s == "1"), "bool after anything"); }
}
struct Comma : std::numpunct<char> { char do_decimal_point() const { return ','; } };
KV_HARNESS(locale) {
  std::locale::global(std::locale(std::locale::classic(), new Comma));
  DecT d = kv_dect(2, 2, kv_pick(2));
  double v = 77; FromString(d.t, &v); KV_ASSERT(v == d.v, "reading does not depend on the locale");
  double w = 77; KV_ASSERT(StringToDouble(d.t, &w) && w == d.v, "nor does StringToDouble");
  std::string s = ToString(d.v); KV_ASSERT(s.find(',') == std::string::npos, "nor does writing");
  int i = 77; FromString("1234", &i); KV_ASSERT(i == 1234 && ToString(1234) == "1234", "nor do ints");
  double u = 77; FromString(s, &u); KV_ASSERT(u == d.v, "round trip under the locale");
}
KV_HARNESS(rewrite) {
  static const double D[] = {0.0, 1.0, -1.0, 0.1, -0.5, 0.000001, 123.456, -123.456789012345, 1e9, 1e9 + 0.5, 2147483648.0, 123456789012345.0, 1e15, 1e16, 1e20, -1e-20}; double a = D[kv_pick(16)], b = D[kv_pick(16)], v = 0, w = 0; unsigned k = kv_pick(4);
  std::string t = kmlbase::ToString(a), u = kmlbase::ToString(b); int n = 0; bool z = false; if (k == 1) { KV_ASSERT(kmlbase::ToString(-2147483647 - 1) == "-2147483648", "an integer"); FromString("12", &n); KV_ASSERT(n == 12, "an integer"); } if (k == 2) { KV_ASSERT(kmlbase::ToString(true) == "1", "a boolean"); FromString("true", &z); KV_ASSERT(z, "a boolean"); } if (k == 3) { FromString("x", &v); FromString("-9.5e3", &v); }
  FromString(t, &v); KV_ASSERT(v == a, "reads as the number"); FromString(u, &w); KV_ASSERT(w == b, "reads as the number"); KV_ASSERT(kmlbase::ToString(a) == t && kmlbase::ToString(b) == u, "the same text again");
}
