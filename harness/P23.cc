// P23: CSV lines, CSV tables -> placemarks.
// @h fields q=40 t=240 | every line of length 0..6 (thorough 0..7) over { a " , space x }
// @h fieldbytes q=25 t=120 | every line of length 0..3 (thorough 0..4) of arbitrary non-NUL bytes
// @h rawbytes q=15 t=60 | every byte string of length 0..4 (NULs included): memory safety and termination
// @h delims q=25 t=90 | every line of length 0..5 over { a " | space tab } split on '|', tab and space
// @h quoted q=20 t=90 | quoted fields whose content is 0..4 symbolic bytes, quotes doubled, among plain neighbours
// @h lines q=30 t=120 | every text of length 0..6 over { a , CR LF }
// @h table q=40 t=200 | headers with latitude and longitude at every pair of 4 positions, other two columns chosen from 7 kinds (one without a name); one row with symbolic values
// @h rows q=25 t=120 | three rows each good, blank coordinate, non-numeric, short, long or comment; handler that stops at a chosen row
// @h header q=25 t=90 | header cells equal to a known name up to one symbolic character or letter case; missing latitude/longitude
// @h csvfile q=20 t=60 | '|'-separated lines of 3..7 symbolic one-character columns through CsvFile::ParseCsvLine
// @h scale q=60 t=150 | tables of 1..300 rows or 3..101 columns, fields of 1..70000 characters plain or quoted, with a symbolic character: every field of every line
// @outside lines longer than 7 bytes over the full alphabet; NUL bytes inside fields (text after a NUL in a field is not specified)
#include "kvu.h"
#include "kml/base/csv_splitter.h"
#include "kml/convenience/csv_parser.h"
#include "kml/convenience/csv_file.h"
#include "kml/convenience/feature_list.h"
#include "kml/convenience/convenience.h"
using namespace kmldom; using namespace kmlbase; using namespace kmlconvenience;
using std::string;
static bool sp(char c, char d) { return ((c == ' ') | ((unsigned char)(c - 9) < 5)) & (c != d); }
static std::vector<string> want_fields(const string& s, char d) {
  std::vector<string> out; size_t i = 0;
  if (s.empty()) return out;
  for (;;) {
    while (i < s.size() && sp(s[i], d)) i++;
    string f;
    if (i < s.size() && s[i] == '"' && d == ',') {
      i++;
      while (i < s.size()) { if (s[i] == '"') { if (i + 1 < s.size() && s[i + 1] == '"') { f += '"'; i += 2; continue; } i++; break; } f += s[i++]; }
      while (i < s.size() && s[i] != d) i++;
    } else {
      while (i < s.size() && s[i] != d) f += s[i++];
      size_t e = f.size(); while (e > 0 && sp(f[e - 1], d)) e--; f.resize(e);
    }
    out.push_back(f);
    if (i >= s.size()) return out;
    i++;
    if (i >= s.size()) { out.push_back(""); return out; }
  }
}
static void check(const string& s, char d) {
  std::vector<string> got, w = want_fields(s, d);
  SplitQuotedUsingFromString(s, d, &got);
  KV_ASSERT(got.size() == w.size(), "number of fields");
  for (size_t i = 0; i < w.size(); i++) KV_ASSERT(got[i] == w[i], "field");
}
KV_HARNESS(fields) { check(kv_alpha(kv_pick(kv_tier() ? 8 : 7), "a\", x"), ','); }
KV_HARNESS(fieldbytes) { string s = kv_string(kv_pick(kv_tier() ? 5 : 4), ','); bool ok = true; for (size_t i = 0; i < s.size(); i++) ok &= s[i] != 0; KV_ASSUME(ok); check(s, ','); }
KV_HARNESS(rawbytes) { string s = kv_string(kv_pick(5), '"'); std::vector<string> got; SplitQuotedUsing(s.data(), s.size(), ',', &got); KV_ASSERT(got.size() <= s.size() + 1, "no invented fields"); for (size_t i = 0; i < got.size(); i++) kv_obs(got[i]); }
KV_HARNESS(delims) { string s = kv_alpha(kv_pick(6), "a\"| \t"); unsigned k = kv_pick(3); check(s, k == 0 ? '|' : k == 1 ? '\t' : ' '); }
KV_HARNESS(quoted) {
  string c = kv_string(kv_pick(5), 'q'); bool ok = true; for (size_t i = 0; i < c.size(); i++) ok &= (c[i] != 0) & (c[i] != '\n') & (c[i] != '\r'); KV_ASSUME(ok);
  string q = "\""; for (size_t i = 0; i < c.size(); i++) { q += c[i]; if (c[i] == '"') q += '"'; } q += "\"";
  unsigned pos = kv_pick(3); string s = pos == 0 ? q + ",b,c" : pos == 1 ? "a, " + q + " ,c" : "a,b," + q;
  std::vector<string> got; SplitQuotedUsingFromString(s, ',', &got);
  KV_ASSERT(got.size() == 3, "three fields");
  KV_ASSERT(got[pos] == c, "the quoted field's content"); for (unsigned i = 0; i < 3; i++) if (i != pos) KV_ASSERT(got[i] == string(1, 'a' + i), "neighbours");
}
KV_HARNESS(lines) {
  string s = kv_alpha(kv_pick(7), "a,\r\n");
  std::vector<string> w; string cur; size_t i = 0;
  for (;;) { cur.clear(); while (i < s.size() && s[i] != '\r' && s[i] != '\n') cur += s[i++]; w.push_back(cur); while (i < s.size() && (s[i] == '\r' || s[i] == '\n')) i++; if (i >= s.size()) break; }
  CsvSplitter c(s); std::vector<string> cols; size_t n = 0;
  for (;; n++) {
    cols.clear(); if (!c.SplitCurrentLine(&cols)) break;
    KV_ASSERT(n < w.size(), "no invented line");
    std::vector<string> f = want_fields(w[n], ','); KV_ASSERT(cols == f, "fields of the line");
  }
  KV_ASSERT(n == w.size(), "every line is returned");
}
struct H : CsvParserHandler {
  std::vector<int> line, status; std::vector<PlacemarkPtr> pm; int stop; H() : stop(-1) {}
  bool HandleLine(int l, CsvParserStatus s, PlacemarkPtr p) { line.push_back(l); status.push_back(s); pm.push_back(p); return stop < 0 || (int)line.size() - 1 != stop; }
};
KV_HARNESS(table) {
  unsigned la = kv_pick(4), lo = kv_pick(4); KV_ASSUME(la != lo);
  static const char* nm[] = {"name", "description", "feature-id", "style-id", "foo", "Bar x", ""};
  int kind[4]; string head, row; DecT lat = kv_dect(1, 1, true), lon = kv_dect(2, 1, false); string val[4]; int first = -1;
  for (unsigned i = 0; i < 4; i++) {
    if (i == la) { kind[i] = 10; head += "Latitude"; val[i] = lat.t; }
    else if (i == lo) { kind[i] = 11; head += "longitude"; val[i] = lon.t; }
    else { unsigned k = kv_pick(7); KV_ASSUME((int)k != first); first = k; kind[i] = k; head += nm[k]; val[i] = kv_alpha(kv_pick(2), "bz<"); }
    row += val[i]; if (i < 3) { head += ","; row += ","; }
  }
  H h; CsvSplitter c(head + "\n" + row + "\n");
  KV_ASSERT(CsvParser::ParseCsv(&c, &h), "parses");
  KV_ASSERT(h.line.size() == 1 && h.line[0] == 2 && h.status[0] == CSV_PARSER_STATUS_OK && h.pm[0], "one placemark for the row");
  PlacemarkPtr p = h.pm[0];
  PointPtr pt = AsPoint(p->get_geometry()); KV_ASSERT(pt && pt->get_coordinates() && pt->get_coordinates()->get_coordinates_array_size() == 1, "point");
  Vec3 v = pt->get_coordinates()->get_coordinates_array_at(0); KV_ASSERT(v.get_latitude() == lat.v && v.get_longitude() == lon.v && !v.has_altitude(), "coordinates");
  string want[7]; bool has[7] = {0, 0, 0, 0, 0, 0, 0}; for (int i = 0; i < 4; i++) if (kind[i] < 7) { want[kind[i]] = val[i]; has[kind[i]] = true; }
  KV_ASSERT(p->has_name() == has[0] && (!has[0] || p->get_name() == want[0]), "name");
  KV_ASSERT(p->has_description() == has[1] && (!has[1] || p->get_description() == want[1]), "description");
  bool fid = has[2] && !want[2].empty(), sid = has[3] && !want[3].empty();
  KV_ASSERT(p->has_id() == fid && (!fid || p->get_id() == "feature-" + want[2]), "id");
  KV_ASSERT(p->has_styleurl() == sid && (!sid || p->get_styleurl() == "style.kml#style-" + want[3]), "style");
  size_t nd = 0; for (int i = 0; i < 4; i++) if (kind[i] >= 4 && kind[i] < 7) {
    KV_ASSERT(p->has_extendeddata() && p->get_extendeddata()->get_data_array_size() > nd, "data entry");
    DataPtr d = p->get_extendeddata()->get_data_array_at(nd++); KV_ASSERT(d->get_name() == nm[kind[i]] && d->get_value() == val[i], "data name and value, in column order");
  }
  KV_ASSERT((p->has_extendeddata() ? p->get_extendeddata()->get_data_array_size() : 0) == nd, "no other data");
}
KV_HARNESS(rows) {
  static const char* row[] = {"1,2,n", ",2,n", "1,,n", "x,2,n", "1,y,n", "1,2", "1,2,n,z", "#1,2,n", "#"};
  static const int st[] = {CSV_PARSER_STATUS_OK, CSV_PARSER_STATUS_BAD_LAT_LON, CSV_PARSER_STATUS_BAD_LAT_LON, CSV_PARSER_STATUS_BAD_LAT_LON, CSV_PARSER_STATUS_BAD_LAT_LON, CSV_PARSER_STATUS_INVALID_DATA, CSV_PARSER_STATUS_INVALID_DATA, CSV_PARSER_STATUS_COMMENT, CSV_PARSER_STATUS_COMMENT};
  unsigned k[3]; string s = "latitude,longitude,name"; for (int i = 0; i < 3; i++) { k[i] = kv_pick(9); s += string("\n") + row[k[i]]; }
  H h; h.stop = (int)kv_pick(4) - 1; CsvSplitter c(s); bool r = CsvParser::ParseCsv(&c, &h);
  size_t n = h.stop < 0 ? 3 : h.stop + 1; KV_ASSERT(r == (h.stop < 0), "result tells whether the handler stopped");
  KV_ASSERT(h.line.size() == n, "every row up to the stop is reported");
  for (size_t i = 0; i < n; i++) { KV_ASSERT(h.line[i] == (int)i + 2 && h.status[i] == st[k[i]], "row number and status"); if (k[i] == 0) { PointPtr pt = AsPoint(h.pm[i]->get_geometry()); KV_ASSERT(pt && pt->get_coordinates()->get_coordinates_array_at(0) == Vec3(2, 1) && h.pm[i]->get_name() == "n", "good row"); } }
}
KV_HARNESS(header) {
  static const char* nm[] = {"latitude", "longitude", "name"}; unsigned k = kv_pick(3); string cell = nm[k]; unsigned p = kv_pick(cell.size()); char c = kv_name(1)[0]; string orig = cell; cell[p] = c;
  bool known = (orig[p] | 32) == (c | 32);
  string s; for (unsigned i = 0; i < 3; i++) s += string(i ? "," : "") + (i == k ? cell : string(nm[i]));
  H h; CsvSplitter cs(s + "\n5,6,seven\n"); bool r = CsvParser::ParseCsv(&cs, &h);
  if (k < 2 && !known) { KV_ASSERT(!r && h.status.size() == 1 && h.line[0] == 1 && h.status[0] == CSV_PARSER_STATUS_NO_LAT_LON, "a header without coordinates is an error"); return; }
  KV_ASSERT(r && h.status.size() == 1 && h.status[0] == CSV_PARSER_STATUS_OK, "row is read");
  PlacemarkPtr pm = h.pm[0]; PointPtr pt = AsPoint(pm->get_geometry()); KV_ASSERT(pt && pt->get_coordinates()->get_coordinates_array_at(0) == Vec3(6, 5), "coordinates");
  if (known) KV_ASSERT(pm->get_name() == "seven" && !pm->has_extendeddata(), "column names match in any letter case");
  else KV_ASSERT(!pm->has_name() && pm->has_extendeddata() && pm->get_extendeddata()->get_data_array_at(0)->get_name() == cell && pm->get_extendeddata()->get_data_array_at(0)->get_value() == "seven", "any other column is data");
}
KV_HARNESS(csvfile) {
  unsigned n = 3 + kv_pick(5); string col[7], s; for (unsigned i = 0; i < n; i++) { if (i == 1) col[i] = kv_dect(1, 1, true).t; else if (i == 2) col[i] = kv_dect(1, 0, false).t; else { col[i] = kv_string(1, 'q'); KV_ASSUME(col[i][0] != '|'); } s += (i ? "|" : "") + col[i]; }
  FeatureList fl; CsvFile f(&fl); f.ParseCsvLine(s);
  if (n < 5) { KV_ASSERT(fl.Size() == 0, "a short line adds nothing"); return; }
  KV_ASSERT(fl.Size() == 1, "one feature");
  FolderPtr o = KmlFactory::GetFactory()->CreateFolder(); fl.Save(o); PlacemarkPtr p = AsPlacemark(o->get_feature_array_at(0)); KV_ASSERT(p, "placemark");
  double la = 0, lo = 0; StringToDouble(col[1], &la); StringToDouble(col[2], &lo);
  Vec3 v = AsPoint(p->get_geometry())->get_coordinates()->get_coordinates_array_at(0); KV_ASSERT(v.get_latitude() == la && v.get_longitude() == lo, "coordinates");
  KV_ASSERT(p->get_name() == col[3] && p->get_description() == col[4], "name and description"); KV_ASSERT(p->has_styleurl() == (n > 5) && (n <= 5 || p->get_styleurl() == col[5]), "style");
  string sc; KV_ASSERT(GetExtendedDataValue(p, "kml.FeatureScore", &sc) && sc == col[0], "score");
}
KV_HARNESS(scale) {
  unsigned k = kv_pick(3); string t = kv_alpha(1, "qz<");
  if (k == 0) { bool q = kv_pick(2); string f = kv_long(70000, t); std::vector<string> got; string s = "a," + string(q ? "\"" : "") + f + (q ? ",\"" : "") + ",b"; SplitQuotedUsingFromString(s, ',', &got); KV_ASSERT(got.size() == 3 && got[0] == "a" && got[1] == f + (q ? "," : "") && got[2] == "b", "whole fields"); return; }
  unsigned n = k == 1 ? kv_size(300) : 1, m = k == 2 ? kv_size(99) : 1; string s = "latitude,longitude"; for (unsigned j = 0; j < m; j++) s += ",c" + num(j); for (unsigned i = 0; i < n; i++) { s += "\n" + num(i % 80) + ",2"; for (unsigned j = 0; j < m; j++) s += "," + t + num(i * 100 + j); } H h; CsvSplitter c(s); KV_ASSERT(CsvParser::ParseCsv(&c, &h) && h.line.size() == n, "every row");
  for (unsigned i = 0; i < n; i++) { KV_ASSERT(h.line[i] == (int)i + 2 && h.status[i] == CSV_PARSER_STATUS_OK && h.pm[i], "its line"); PointPtr g = AsPoint(h.pm[i]->get_geometry()); KV_ASSERT(g && g->get_coordinates()->get_coordinates_array_at(0).get_latitude() == i % 80, "its place"); ExtendedDataPtr e = AsExtendedData(h.pm[i]->get_extendeddata()); KV_ASSERT(e && e->get_data_array_size() == m, "its data"); for (unsigned j = 0; j < m; j++) KV_ASSERT(e->get_data_array_at(j)->get_name() == "c" + num(j) && e->get_data_array_at(j)->get_value() == t + num(i * 100 + j), "in order"); }
}
