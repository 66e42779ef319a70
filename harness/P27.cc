// P27: string and path helpers against their definitions.
// @h split q=25 t=150 | every input of length 0..5 (thorough 0..7) over {a b |} and every separator of length 0..3 over {a |}
// @h splitbytes q=15 t=60 | every byte string of length 0..4 split on one arbitrary byte
// @h ends q=20 t=100 | every pair of byte strings of length 0..3
// @h caseeq q=20 t=100 | every pair of byte strings of length 0..3
// @h skipws q=10 t=40 | every byte string of length 0..5
// @h decimal q=15 t=60 | every byte string of length 0..4
// @h hex q=10 t=30 | every 32-bit value
// @h paths q=30 t=150 | directory and file texts of length 0..3 over { a . / \ }
// @h split_path q=20 t=90 | every path of length 0..5 over { a . / \ }
// @h tostr q=30 t=150 timeout=30000 | every bool, every int of up to four digits (thorough 16 bits), every string of length 0..3
// @h scale q=40 t=100 | 1..2049 fields split by a separator of 1..9 characters, texts of 1..70000 characters: every helper, with a symbolic character at the start, middle or end
// @outside longer strings; locales other than the classic one
#include "kvu.h"
#include "kml/base/string_util.h"
#include "kml/base/file.h"
using namespace kmlbase;
using std::string;
static bool oeq(const string& a, size_t i, const string& b) { if (a.size() - i < b.size()) return false; bool r = true; for (size_t k = 0; k < b.size(); k++) r &= a[i + k] == b[k]; return r; }
static void check_split(const string& in, const string& sep) {
  std::vector<string> got, want;
  got.push_back("keep");
  SplitStringUsing(in, sep, &got);
  string cur;
  for (size_t i = 0; i < in.size();) { if (!sep.empty() && oeq(in, i, sep)) { want.push_back(cur); cur.clear(); i += sep.size(); } else cur += in[i++]; }
  want.push_back(cur);
  KV_ASSERT(got.size() == want.size() + 1 && got[0] == "keep", "the parts are appended to the output, one per separator plus one");
  string joined;
  for (size_t i = 0; i < want.size(); i++) { KV_ASSERT(got[i + 1] == want[i], "part"); joined += (i ? sep : string()) + got[i + 1]; }
  KV_ASSERT(joined == in, "joining the parts restores the input");
}
KV_HARNESS(split) { unsigned n = kv_pick(kv_tier() ? 8 : 6), m = kv_pick(4); string in = kv_alpha(n, "ab|"), sep = kv_alpha(m, "|a"); check_split(in, sep); }
KV_HARNESS(splitbytes) { unsigned n = kv_pick(5); string in = kv_string(n), sep = kv_string(1, '|'); check_split(in, sep); }
KV_HARNESS(ends) {
  string a = kv_string(kv_pick(4)), b = kv_string(kv_pick(4));
  bool want = !a.empty() && !b.empty() && b.size() <= a.size() && oeq(a, a.size() - b.size(), b);
  KV_ASSERT(StringEndsWith(a, b) == want, "suffix test");
}
static unsigned low(unsigned char c) { return c + 32u * ((unsigned)(c - 'A') < 26u); }
KV_HARNESS(caseeq) {
  string a = kv_string(kv_pick(4)), b = kv_string(kv_pick(4));
  bool want = a.size() == b.size(); if (want) for (size_t i = 0; i < a.size(); i++) want &= low(a[i]) == low(b[i]);
  KV_ASSERT(StringCaseEqual(a, b) == want, "case-insensitive equality");
}
KV_HARNESS(skipws) {
  string a = kv_string(kv_pick(6), ' '); size_t i = 0;
  while (i < a.size() && ((a[i] == ' ') | ((unsigned char)(a[i] - 9) < 5))) i++;
  KV_ASSERT(SkipLeadingWhitespaceString(a) == i, "offset of the first non-space");
  KV_ASSERT(SkipLeadingWhitespace(a.data(), a.data() + a.size()) == i, "same on a range");
}
KV_HARNESS(decimal) {
  string a = kv_string(kv_pick(5), '1'); size_t i = 0;
  if (i < a.size() && a[i] == '-') i++;
  if (i < a.size() && a[i] == '.') i++;
  bool want = i < a.size() && (unsigned)((unsigned char)a[i] - '0') < 10u;
  KV_ASSERT(IsDecimalDoubleString(a) == want, "recognised exactly when it starts with [-][.]digit");
  KV_ASSERT(StringToDouble(a, NULL) == want, "StringToDouble agrees without an output");
  double d = 5; bool r = StringToDouble(a, &d);
  KV_ASSERT(r == want, "StringToDouble agrees"); if (!r) KV_ASSERT(d == 5, "rejected text leaves the output alone");
}
KV_HARNESS(hex) {
  uint32_t v = kv_u32(); char o[3] = {'x', 'x', 'x'}; b2a_hex(v, o);
  const char* H = "0123456789abcdef"; KV_ASSERT(o[0] == H[(v >> 4) & 15] && o[1] == H[v & 15] && o[2] == 'x', "two hexadecimal digits of the low byte");
}
static bool sepc(char c) { return c == '/' || c == '\\'; }
KV_HARNESS(paths) {
  string d = kv_alpha(kv_pick(4), "a./\\"), f = kv_alpha(kv_pick(4), "a./\\");
  string j = File::JoinPaths(d, f);
  string want = d.empty() ? f : f.empty() ? d : d[d.size() - 1] == '/' ? d + f : d + "/" + f;
  KV_ASSERT(j == want, "joined with exactly one separator");
  bool plain = !f.empty(); for (size_t i = 0; i < f.size(); i++) plain = plain && !sepc(f[i]);
  if (plain && !d.empty() && !sepc(d[d.size() - 1])) { string b, n; File::SplitFilePath(j, &b, &n); KV_ASSERT(b == d && n == f, "splitting undoes joining"); }
}
KV_HARNESS(split_path) {
  string p = kv_alpha(kv_pick(6), "a./\\"), b, n; size_t last = string::npos;
  for (size_t i = 0; i < p.size(); i++) if (sepc(p[i])) last = i;
  File::SplitFilePath(p, &b, &n);
  if (last == string::npos) KV_ASSERT(b == "." && n == p, "no directory");
  else { KV_ASSERT(n == p.substr(last + 1), "name after the last separator"); KV_ASSERT(b == p.substr(0, last ? last : 1), "directory before it"); }
  string b2, n2; File::SplitFilePath(p, &b2, NULL); File::SplitFilePath(p, NULL, &n2); KV_ASSERT(b2 == b && n2 == n, "either output alone");
}
KV_HARNESS(tostr) {
  switch (kv_pick(3)) {
    case 0: { bool b = kv_bool(); KV_ASSERT(ToString(b) == (b ? "1" : "0"), "bool"); bool c = !b; FromString(ToString(b), &c); KV_ASSERT(b == c, "bool back"); break; }
    case 1: { int v = (int)(int16_t)kv_u16(), w = 7; if (!kv_tier()) KV_ASSUME((v < 10000) & (v > -10000)); string s = ToString(v); FromString(s, &w); KV_ASSERT(v == w, "int back"); break; }
    default: { string s = kv_string(kv_pick(4)), t = "x"; FromString(s, &t); KV_ASSERT(t == s && ToString(s) == s, "string"); for (size_t i = 0; i < s.size(); i++) KV_ASSUME(s[i] != 0); KV_ASSERT(ToString(s.c_str()) == s, "C string"); }
  }
}
KV_HARNESS(scale) {
  if (kv_pick(2)) { unsigned n = kv_size(2049); string sep(kv_size(9), '|'), s, t = kv_name(1); for (unsigned i = 0; i < n; i++) s += (i ? sep : "") + t + num(i); std::vector<string> v; SplitStringUsing(s, sep, &v); KV_ASSERT(v.size() == n, "every field"); for (unsigned i = 0; i < n; i++) KV_ASSERT(v[i] == t + num(i), "in order"); return; }
  string c = kv_string(1, 'q'), s = kv_long(70000, c), u = s, out; u[u.size() - 1] ^= 32; KV_ASSERT(StringEndsWith("x" + s, s) && !StringEndsWith(s, "x" + s) && StringEndsWith(s, s), "ends"); u = s; for (size_t i = 0; i < u.size(); i++) if (u[i] >= 'a' && u[i] <= 'w') u[i] -= 32; KV_ASSERT(StringCaseEqual(s, u) && !StringCaseEqual(s, u + "x"), "case"); u[u.size() / 2] = '#'; if (s[s.size() / 2] != '#') KV_ASSERT(!StringCaseEqual(s, u), "a difference anywhere"); KV_ASSERT(SkipLeadingWhitespaceString(string(s.size(), ' ') + "x") == s.size(), "white space"); FromString(s, &out); KV_ASSERT(out == s && ToString(s) == s, "text");
}
