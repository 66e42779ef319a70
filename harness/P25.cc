// P25: date-time text.
// @h time q=60 t=250 | years 1965..1975 and 1996..2004 (thorough 1899..2105), every month, each other field in turn symbolic within its range (days up to the length of the month), the rest at their least or greatest values: exact seconds and texts
// @h cycle q=60 t=200 | any year of the 400-year cycles 1600..2399 in steps of 7 (thorough every year), first and last day of each month
// @h wide q=30 t=100 | years 1000..9999 in steps of 531 (thorough 59) each field in turn symbolic
// @h corrupt q=60 t=200 | every one of the 20 characters replaced by any symbolic byte, every character removed, any symbolic character added at any place
// @h shortt q=30 t=100 | arbitrary byte strings of length 0..4 and every prefix of a date-time followed by up to 1 arbitrary byte
// @outside years before 1000; days beyond the end of a month of fewer than 31 days; second 60 and 61; omitted leading zeros and white space before a number, which strptime admits
// @assume strptime, strftime and timegm behave as modelled (each violation is replayed with the real ones)
#include "kvu.h"
#include "kml/base/date_time.h"
#include "boost/scoped_ptr.hpp"
using kmlbase::DateTime; using std::string; typedef boost::scoped_ptr<DateTime> P;
static long days(long y, unsigned m, unsigned d) { y -= m <= 2; long era = y / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static unsigned mlen(long y, unsigned m) { return m == 2 ? (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) ? 29 : 28) : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31; }
static string two(unsigned v) { string s(2, '0'); s[0] += v / 10; s[1] += v % 10; return s; }
static string four(unsigned v) { return two(v / 100) + two(v % 100); }
// symbolic two digits within lo..hi
static string sym2(int lo, int hi, int* v) { string s = kv_string(2, '1'); bool ok = ((unsigned)(s[0] - '0') < 10u) & ((unsigned)(s[1] - '0') < 10u); KV_ASSUME(ok); *v = (s[0] - '0') * 10 + (s[1] - '0'); KV_ASSUME((*v >= lo) & (*v <= hi)); return s; }
static void agree(const string& s, long want) {
  P d(DateTime::Create(s)); KV_ASSERT(d.get(), "accepted"); KV_ASSERT(d->GetTimeT() == (time_t)want, "the exact seconds since the epoch"); KV_ASSERT(DateTime::ToTimeT(s) == (time_t)want, "the same at once"); KV_ASSERT(d->GetXsdDateTime() == s, "the same date-time text"); KV_ASSERT(d->GetXsdDate() == s.substr(0, 10), "its date"); KV_ASSERT(d->GetXsdTime() == s.substr(11, 8), "its time");
}
// the field is symbolic if it is the chosen one, otherwise its least or greatest value
static string fld(bool sym, bool top, int lo, int hi, int* v) { if (sym) return sym2(lo, hi, v); *v = top ? hi : lo; return two(*v); }
KV_HARNESS(time) {
  unsigned k = kv_pick(kv_tier() ? 207 : 20); long y = kv_tier() ? 1899 + k : k < 11 ? 1965 + k : 1996 + k - 11; unsigned m = 1 + kv_pick(12), f = kv_pick(4); bool top = (k + m) & 1; int d, h, n, s; string ds = fld(f == 0, top, 1, mlen(y, m), &d), hs = fld(f == 1, top, 0, 23, &h), ns = fld(f == 2, top, 0, 59, &n), ss = fld(f == 3, top, 0, 59, &s); agree(four(y) + "-" + two(m) + "-" + ds + "T" + hs + ":" + ns + ":" + ss + "Z", ((days(y, m, 1) + d - 1) * 24 + h) * 3600 + n * 60 + s);
}
KV_HARNESS(cycle) {
  unsigned i = kv_pick16(kv_tier() ? 800 : 115); long y = 1600 + (kv_tier() ? i : i * 7); unsigned m = 1 + kv_pick(12), d = kv_pick(2) ? mlen(y, m) : 1; int s; string ss = sym2(0, 59, &s); agree(four(y) + "-" + two(m) + "-" + two(d) + "T00:59:" + ss + "Z", days(y, m, d) * 86400 + 59 * 60 + s);
}
KV_HARNESS(wide) {
  unsigned i = kv_pick(kv_tier() ? 153 : 17), f = kv_pick(4); bool top = i & 1; long y = 1000 + (kv_tier() ? 59 * i : 531 * i); int h, n, s, m; string ms = fld(f == 0, top, 1, 12, &m), hs = fld(f == 1, top, 0, 23, &h), ns = fld(f == 2, top, 0, 59, &n), ss = fld(f == 3, top, 0, 59, &s); agree(four(y) + "-" + ms + "-28T" + hs + ":" + ns + ":" + ss + "Z", days(y, m, 28) * 86400 + h * 3600 + n * 60 + s);
}
static const char kT[] = "2008-10-13T19:25:42Z";
static bool sep(unsigned i) { return i == 4 || i == 7 || i == 10 || i == 13 || i == 16 || i == 19; }
KV_HARNESS(corrupt) {
  unsigned k = kv_pick(3), i = kv_pick(k == 2 ? 21 : 20); string s = kT, c = kv_string(1, 'x'); unsigned char b = c[0]; 
  if (k == 0) { s[i] = c[0]; P d(DateTime::Create(s)); bool digit = (unsigned)(b - '0') < 10u; if (sep(i)) KV_ASSERT((d.get() != 0) == (c[0] == kT[i]), "separators are as written"); else { KV_ASSUME(b != ' ' && (unsigned)(b - 9) >= 5u); unsigned f = i < 4 ? 0 : i < 7 ? 1 : i < 10 ? 2 : i < 13 ? 3 : i < 16 ? 4 : 5; static const unsigned at[] = {0, 5, 8, 11, 14, 17}, lo[] = {0, 1, 1, 0, 0, 0}, hi[] = {99, 12, 31, 23, 59, 59}; if (!digit) KV_ASSERT(!d.get(), "digits are digits"); else { unsigned v = (s[at[f]] - '0') * 10 + s[at[f] + 1] - '0'; bool ok = f == 0 || (v >= lo[f] && v <= hi[f]); if (f == 5 && (v == 60 || v == 61)) return; KV_ASSERT((d.get() != 0) == ok, "in range"); if (f && !ok) KV_ASSERT(DateTime::ToTimeT(s) == 0, "rejected text has no time"); } } return; }
  if (k == 1) { s.erase(i, 1); P d(DateTime::Create(s)); if (sep(i) || i < 0) KV_ASSERT(!d.get(), "no separator may be missing"); return; }
  // added: between digits of one number a further digit, or anything after the end, or any other character
  s.insert(i, c); P d(DateTime::Create(s)); if (i == 20) { KV_ASSERT(!d.get(), "nothing may follow"); return; } bool space = (b == ' ') | ((unsigned)(b - 9) < 5u), digit = (unsigned)(b - '0') < 10u; if (space || digit) return; KV_ASSERT(!d.get(), "nothing else may be in between");
}
KV_HARNESS(shortt) {
  bool k = kv_pick(2); string s; if (k) { unsigned n = kv_pick(20); s = string(kT, n) + kv_string(kv_pick(2), '0'); if (s.size() > n && s[n] == 'Z' && n > 17) return; } else s = kv_string(kv_pick(5), '1'); P d(DateTime::Create(s)); KV_ASSERT(!d.get(), "an incomplete date-time is rejected"); KV_ASSERT(DateTime::ToTimeT(s) == 0, "and has no time");
}
