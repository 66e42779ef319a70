// P09: colours.  8-hex-digit AABBGGRR text <-> 32-bit value, component accessors, ARGB view, ordering, <color> in a document.
// @h numeric q=20 t=60 | every 32-bit colour value: text forms, components, ARGB view and both reconstructions
// @h setters q=20 t=60 | every 32-bit starting colour x every 8-bit component value x each component setter
// @h text8 q=30 t=120 | every 8-byte string (all byte values) followed by one arbitrary byte
// @h textshort q=25 t=120 | every byte string of length 0..3 (thorough 0..5), including leading white space and '#'
// @h prefix q=25 t=120 | two arbitrary bytes (white space, '#', digits, anything) followed by "1234567"/"12345678" and one arbitrary byte
// @h dom q=30 t=120 | <color> in LineStyle/PolyStyle/IconStyle/LabelStyle/GroundOverlay and bgColor/textColor: 8 hex digits, all symbolic
// @h order q=20 t=60 | every pair of 32-bit colours
// @outside colour text longer than 11 bytes
#include "kv.h"
#include "kml/base/color32.h"
#include "kml/dom.h"
using kmlbase::Color32;
using namespace kmldom;
static const char* kHex = "0123456789abcdef";
static std::string hex8(uint32_t v) { std::string s(8, '0'); for (int i = 0; i < 8; i++) s[i] = kHex[(v >> (28 - 4 * i)) & 15]; return s; }
// branch-light digit value: 0 for a non-digit, as the format's documentation says
static uint32_t dig(unsigned char c) { uint32_t d = (uint32_t)c - '0', l = ((uint32_t)c | 32u) - 'a'; return (d < 10u) * d + (l < 6u) * (l + 10u); }
static bool sp(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static uint32_t want(const std::string& s) {
  size_t i = 0;
  while (i < s.size() && sp(s[i])) i++;
  if (i < s.size() && s[i] == '#') i++;
  uint32_t v = 0;
  for (size_t k = 0; k < 8 && i < s.size(); k++, i++) v = v * 16 + dig(s[i]);
  return v;
}
KV_HARNESS(numeric) {
  uint32_t v = kv_u32();
  Color32 c(v);
  KV_ASSERT(c.get_color_abgr() == v, "value kept");
  KV_ASSERT(c.get_alpha() == (v >> 24), "alpha"); KV_ASSERT(c.get_blue() == ((v >> 16) & 255), "blue");
  KV_ASSERT(c.get_green() == ((v >> 8) & 255), "green"); KV_ASSERT(c.get_red() == (v & 255), "red");
  std::string s = c.to_string_abgr();
  KV_ASSERT(s.size() == 8, "eight digits");
  uint32_t back = 0; bool lower = true;
  for (int i = 0; i < 8; i++) { back = back * 16 + dig(s[i]); unsigned char ch = s[i]; lower &= ((unsigned)(ch - '0') < 10u) | ((unsigned)(ch - 'a') < 6u); }
  KV_ASSERT(back == v && lower, "text is the value in lower-case hexadecimal");
  KV_ASSERT(Color32(s).get_color_abgr() == v, "text reads back to the same colour");
  uint32_t argb = (v & 0xff00ff00u) | ((v >> 16) & 255) | ((v & 255) << 16);
  KV_ASSERT(c.get_color_argb() == argb, "ARGB view");
  uint32_t o = kv_u32(); Color32 d(o); d.set_color_argb(argb); KV_ASSERT(d == c && d.get_color_abgr() == v, "set from ARGB");
  Color32 e(argb); KV_ASSERT(c.to_string_argb() == e.to_string_abgr(), "ARGB text");
  Color32 f((unsigned char)(v >> 24), (unsigned char)(v >> 16), (unsigned char)(v >> 8), (unsigned char)v);
  KV_ASSERT(f == c, "four components");
  Color32 g(o); g.set_color_abgr((unsigned char)(v >> 24), (unsigned char)(v >> 16), (unsigned char)(v >> 8), (unsigned char)v);
  KV_ASSERT(g == c, "set four components");
  Color32 h((int32_t)v); KV_ASSERT(h == c, "signed construction");
  Color32 i(o); i = (int32_t)v; KV_ASSERT(i == c, "signed assignment");
  Color32 j(o); j = v; KV_ASSERT(j == c, "assignment");
}
KV_HARNESS(setters) {
  uint32_t v = kv_u32(); uint8_t b = kv_u8(); unsigned k = kv_pick(4);
  Color32 c(v);
  if (k == 0) c.set_red(b); else if (k == 1) c.set_green(b); else if (k == 2) c.set_blue(b); else c.set_alpha(b);
  uint32_t w = (v & ~(0xffu << (8 * k))) | ((uint32_t)b << (8 * k));
  KV_ASSERT(c.get_color_abgr() == w, "a component setter changes that component only");
}
KV_HARNESS(text8) {
  std::string s = kv_string(9, '0');
  KV_ASSUME(!sp(s[0]) && s[0] != '#');
  Color32 c(s);
  KV_ASSERT(c.get_color_abgr() == want(s), "first eight characters, most significant first");
  kv_obs_int(c.get_color_abgr());
}
KV_HARNESS(textshort) {
  std::string s = kv_string(kv_pick(kv_tier() ? 6 : 4), '0');
  Color32 c(s);
  KV_ASSERT(c.get_color_abgr() == want(s), "short text is filled from the front with zeros");
  kv_obs_int(c.get_color_abgr());
}
KV_HARNESS(prefix) {
  std::string s = kv_string(2, ' ') + (kv_pick(2) ? "1a3B5c7" : "1a3B5c7D") + kv_string(1, '0');
  Color32 c(s);
  KV_ASSERT(c.get_color_abgr() == want(s), "leading white space and one '#' are skipped, then eight characters count");
  kv_obs_int(c.get_color_abgr());
}
KV_HARNESS(order) {
  uint32_t a = kv_u32(), b = kv_u32(); Color32 x(a), y(b);
  KV_ASSERT((x == y) == (a == b), "=="); KV_ASSERT((x != y) == (a != b), "!="); KV_ASSERT((x < y) == (a < b), "<"); KV_ASSERT((x > y) == (a > b), ">");
  x = y; KV_ASSERT(x.get_color_abgr() == b, "=");
}
static Color32 pick_color(const ElementPtr& e) {
  if (GroundOverlayPtr g = AsGroundOverlay(e)) return g->get_color();
  if (BalloonStylePtr b = AsBalloonStyle(e)) return b->has_bgcolor() ? b->get_bgcolor() : b->get_textcolor();
  if (ColorStylePtr c = AsColorStyle(e)) return c->get_color();
  KV_ASSERT(false, "element type"); return Color32();
}
KV_HARNESS(dom) {
  char b[8]; kv_sym(b, 8, '0');
  uint32_t v = 0; bool ok = true;
  for (int i = 0; i < 8; i++) { unsigned char ch = b[i]; ok &= ((unsigned)(ch - '0') < 10u) | ((unsigned)((ch | 32) - 'a') < 6u); v = v * 16 + dig(ch); }
  KV_ASSUME(ok);
  static const char* el[] = {"LineStyle", "PolyStyle", "IconStyle", "LabelStyle", "GroundOverlay", "BalloonStyle", "BalloonStyle"};
  static const char* fd[] = {"color", "color", "color", "color", "color", "bgColor", "textColor"};
  unsigned k = kv_pick(7);
  std::string pre = std::string("<") + el[k] + "><" + fd[k] + ">", post = std::string("</") + fd[k] + "></" + el[k] + ">";
  ElementPtr e = Parse(pre + std::string(b, 8) + post, 0);
  KV_ASSERT(e, "parses");
  Color32 c = pick_color(e);
  KV_ASSERT(c.get_color_abgr() == v, "the colour in the document is the colour in the object");
  std::string out = SerializeRaw(e);
  KV_ASSERT(out.size() == pre.size() + 8 + post.size() && out.compare(0, pre.size(), pre) == 0, "serialised shape");
  uint32_t w = 0; for (int i = 0; i < 8; i++) w = w * 16 + dig(out[pre.size() + i]);
  KV_ASSERT(w == v, "the colour in the serialised document is the colour in the object");
}
