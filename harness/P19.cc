// P19: KMZ archives are read exactly and safely.
// @h stored q=40 t=200 | 1..3 stored entries; one name with 1..2 symbolic bytes (any but NUL), contents with up to 3 symbolic bytes, looked up under every listed name and an arbitrary name of length 0..3
// @h layout q=30 t=120 | two entries, stored or deflated, extra fields, entry and archive comments (one of two symbolic bytes), data descriptors, local order either way
// @h deflated q=20 t=60 | deflated entries of 1..40000 bytes of four kinds, before or after a stored entry
// @h corrupt q=90 t=500 | an archive of a deflated and a stored entry: any byte replaced by any value, opened, listed and every entry read (size limit 64)
// @h fields q=30 t=200 | two structure fields (counts, sizes, offsets, name and extra lengths) set to any of 12 boundary values each
// @h cut q=20 t=60 | every prefix and every suffix of that archive, and every one- or two-byte tail after the signature
// @h ident q=15 t=40 | every byte string of length 0..6: looks like an archive exactly if it starts with the four signature bytes
// @h longname q=20 t=60 | entry names of 250..260 and 1015..1030 bytes, with a symbolic byte, before and after another entry
// @h limit q=15 t=60 | contents of 1..9 bytes, one of them symbolic, against every limit 0..12
// @h write q=40 t=200 | every name of length 0..5 (thorough 0..6) over '.', '/', '\\' and 'a', written, then the archive read back
// @h readback q=20 t=60 | 1..4 files with names and contents from lists, added in any rotation, duplicates included, read back
// @h addlist q=20 t=60 | pairs of references (plain, dotted, escaping, absolute, missing, with fragment) resolved against a directory
// @h fromkml q=20 t=60 | KML text files (good, malformed, missing) with links, made into an archive
// @h links q=30 t=90 | documents with two references of seven kinds, one with a symbolic byte: exactly the missing files are reported
// @h many q=60 t=150 | archives of 1..300 entries, stored or compressed, the KML first, last or in the middle: listed in order and read exactly
// @h again q=40 t=120 | sequences of 4 (thorough 5) operations on one open archive: reading any of three entries, a missing one, an entry above the limit, the KML, or listing
// @outside archives over 41 kB, more than 4 entries, zip64, encryption, split archives, more than two corrupted fields; names over 255 bytes are only required to be harmless; empty entries (documented as unreadable); inflate and deflate themselves (zlib, run natively)
#include "zip.h"
#include <fstream>
#include <unistd.h>
#include <stdlib.h>
#include <sys/stat.h>
#include "boost/scoped_ptr.hpp"
#include "kml/base/zip_file.h"
#include "kml/base/file.h"
#include "kml/engine/kmz_file.h"
#include "kml/engine/kml_file.h"
#include "kml/convenience/kmz_check_links.h"
using namespace kmlbase; using namespace kmlengine; using std::string; using std::vector;
static const string* find(const vector<ZE>& v, const string& n) { for (size_t i = 0; i < v.size(); i++) if (v[i].name == n) return &v[i].data; return NULL; }
static bool kmlext(const string& s) { return s.size() >= 4 && s.compare(s.size() - 4, 4, ".kml") == 0; }
// the archive holds exactly v
static void holds(const string& bytes, const vector<ZE>& v, const string& other) {
  KV_ASSERT(KmzFile::IsKmz(bytes), "recognised"); KmzFilePtr k = KmzFile::OpenFromString(bytes); KV_ASSERT(k, "a well-formed archive opens");
  vector<string> l; KV_ASSERT(k->List(&l) && l.size() == v.size(), "every entry is listed"); bool names = true; for (size_t i = 0; i < v.size(); i++) names &= l[i] == v[i].name; KV_ASSERT(names, "the names are listed in order");
  for (size_t i = 0; i < v.size(); i++) { string out; KV_ASSERT(k->ReadFile(v[i].name.c_str(), &out), "an entry is found"); KV_ASSERT(out == *find(v, v[i].name), "an entry is returned byte for byte"); KV_ASSERT(k->ReadFile(v[i].name.c_str(), NULL), "existence alone"); }
  { string out; const string* w = find(v, other); bool ok = k->ReadFile(other.c_str(), &out); KV_ASSERT(ok == (w != NULL), "a name is found exactly if it is in the archive"); if (w) KV_ASSERT(out == *w, "its content"); }
  size_t d = 0; while (d < v.size() && !kmlext(v[d].name)) d++;
  string out, path; bool ok = k->ReadKmlAndGetPath(&out, &path); KV_ASSERT(ok == (d < v.size()), "there is a default KML exactly if a name ends in .kml"); if (ok) KV_ASSERT(path == v[d].name && out == *find(v, v[d].name), "the default KML is the first .kml");
  string o2; KV_ASSERT(k->ReadKml(&o2) == ok && o2 == out, "ReadKml agrees"); KV_ASSERT(!k->ReadKml(NULL), "nowhere to put it");
  string raw; KV_ASSERT(k->SaveToString(&raw) && raw == bytes, "the bytes are kept");
}
static string nonul(unsigned n) { string s = kv_string(n, 'n'); bool ok = true; for (unsigned i = 0; i < n; i++) ok &= s[i] != 0; KV_ASSUME(ok); return s; }
KV_HARNESS(stored) {
  unsigned n = 1 + kv_pick(3), sx = kv_pick(4); static const char* suf[] = {"", ".kml", "kml", "/x.kml"};
  vector<ZE> v; string s = nonul(sx ? 1 : 1 + kv_pick(2)); ZE a(s + suf[sx], kv_string(1 + kv_pick(3), 'c')); unsigned at = kv_pick(n); static const char* nm[] = {"doc.kml", "b"};
  for (unsigned i = 0; i < n; i++) { if (i == at) v.push_back(a); else v.push_back(ZE(nm[(i + n) % 2], i ? "second" : "first!")); }
  bool dup = false; for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < i; j++) dup |= v[i].name == v[j].name;
  (void)dup;  // the first of two equal names counts
  holds(zipbytes(v), v, nonul(kv_pick(sx == 0 ? 4 : 2)));
}
KV_HARNESS(layout) {
  vector<ZE> v; ZE a("a.png", "c\r\n", false), b("d/doc.kml", "<kml/>", true); unsigned m = kv_pick(4); if (m & 1) { a.deflated = true; a.data = "pixels pixels pixels"; } if (m & 2) b.deflated = false;
  unsigned x = kv_pick(8); if (x & 1) { a.lextra = "EX\004\000abcd"; a.lextra = string("EX\004\000abcd", 8); } if (x & 2) { a.extra = string("UT\001\000z", 5); a.comment = "note"; } if (x & 4) { a.descr = true; b.descr = true; }
  unsigned o = kv_pick(2); if (o) { v.push_back(b); v.push_back(a); } else { v.push_back(a); v.push_back(b); }
  string c; unsigned cl = kv_pick(4); if (cl == 1) c = "PK"; if (cl == 2) c = string(1030, 'c'); if (cl == 3) c = kv_string(2, 'x'); holds(zipbytes(v, c, kv_pick(2)), v, "doc.kml");
}
static string blob(unsigned kind, unsigned n) { string s; unsigned r = 12345; for (unsigned i = 0; i < n; i++) { r = r * 1103515245u + 12345u; s += kind == 0 ? 'a' : kind == 1 ? (char)(r >> 16) : kind == 2 ? (char)i : (char)0; } return s; }
KV_HARNESS(deflated) {
  static const unsigned sz[] = {1, 2, 100, 16383, 16384, 16385, 32768, 40000}; string d = blob(kv_pick(4), sz[kv_pick(8)]); vector<ZE> v; unsigned o = kv_pick(2); ZE a("p.bin", d, kv_pick(2)), b("doc.kml", "<kml/>", true); if (o) { v.push_back(b); v.push_back(a); } else { v.push_back(a); v.push_back(b); } holds(zipbytes(v), v, "p");
}
static string base() { vector<ZE> v; v.push_back(ZE("a.kml", "<kml/>", true)); v.push_back(ZE("bc", "data")); v[1].comment = "c"; v[1].lextra = string("XX\000\000", 4); return zipbytes(v); }
static void harmless(const string& z) {
  KmzFilePtr k = KmzFile::OpenFromString(z); KV_ASSERT((k != NULL) == KmzFile::IsKmz(z), "opened or refused"); if (!k) return; k->set_max_uncompressed_file_size(64);
  vector<string> l; KV_ASSERT(k->List(&l), "listing"); KV_ASSERT(l.size() <= z.size() / 46, "no entry without a directory record");
  for (size_t i = 0; i < l.size(); i++) { string out = "old"; bool ok = k->ReadFile(l[i].c_str(), &out); KV_ASSERT(ok ? !out.empty() && out.size() <= 64 : out == "old", "an entry is read within the limit, or nothing is"); }
  string out, name; bool ok = k->ReadKmlAndGetPath(&out, &name); if (ok) { bool in = false; for (size_t i = 0; i < l.size(); i++) in |= l[i] == name; KV_ASSERT(in && kmlext(name) && out.size() <= 64, "the default KML is one of the entries"); }
  string q; bool has = false; for (size_t i = 0; i < l.size(); i++) has |= l[i] == "zz"; KV_ASSERT(has || !k->ReadFile("zz", &q), "no entry under another name");
  string raw; KV_ASSERT(k->SaveToString(&raw) && raw == z, "the bytes are kept");
}
KV_HARNESS(corrupt) { string z = base(); unsigned p = kv_pick16(z.size()); string c = kv_string(1, z[p]); z[p] = c[0]; harmless(z); }
KV_HARNESS(fields) {
  string z = base(); size_t e = z.rfind("PK\005\006"), c = z.find("PK\001\002"), c2 = z.find("PK\001\002", c + 1), l2 = z.find("PK\003\004", 4);
  struct F { size_t at; int n; } f[] = {{e + 8, 2}, {e + 10, 2}, {e + 12, 4}, {e + 16, 4}, {e + 20, 2}, {c + 20, 4}, {c + 24, 4}, {c + 28, 2}, {c + 30, 2}, {c + 32, 2}, {c + 42, 4}, {c2 + 20, 4}, {c2 + 24, 4}, {c2 + 28, 2}, {c2 + 42, 4}, {l2 + 18, 4}, {l2 + 22, 4}, {l2 + 26, 2}, {l2 + 28, 2}, {c2 + 10, 2}, {l2 + 8, 2}};
  unsigned long val[] = {0, 1, 2, 45, 46, 63, 64, z.size(), 0x7fff, 0xffff, 0x7fffffff, 0xffffffff};
  unsigned nf = sizeof f / sizeof *f, i = kv_pick(nf), j = kv_tier() ? kv_pick(nf) : (i + 1) % nf, a = kv_pick(12), b = kv_pick(12); z.replace(f[i].at, f[i].n, le(val[a], f[i].n)); z.replace(f[j].at, f[j].n, le(val[b], f[j].n)); harmless(z);
}
KV_HARNESS(cut) { string z = base(); unsigned m = kv_pick(3); if (m == 0) harmless(z.substr(0, kv_pick16(z.size() + 1))); else if (m == 1) harmless(z.substr(kv_pick16(z.size() + 1))); else harmless("PK\003\004" + kv_string(kv_pick(3), 'P')); }
KV_HARNESS(ident) { string s = kv_string(kv_pick(7), 'P'); bool want = s.size() >= 4 && s[0] == 'P' && s[1] == 'K' && s[2] == 3 && s[3] == 4; KV_ASSERT(KmzFile::IsKmz(s) == want && ZipFile::IsZipData(s) == want, "recognised by its signature"); boost::scoped_ptr<ZipFile> z(ZipFile::OpenFromString(s)); KV_ASSERT((z.get() != NULL) == want, "only archives are opened"); }
KV_HARNESS(longname) {
  unsigned p = kv_pick(27); unsigned n = p < 11 ? 250 + p : 1015 + p - 11; string nm(n, 'n'); nm[n / 2] = nonul(1)[0]; vector<ZE> v; unsigned o = kv_pick(2); ZE a(nm, "long"), b("b", "short"); if (o) { v.push_back(b); v.push_back(a); } else { v.push_back(a); v.push_back(b); }
  string z = zipbytes(v); if (n <= 255) { holds(z, v, "c"); return; }
  KmzFilePtr k = KmzFile::OpenFromString(z); KV_ASSERT(k, "opens"); vector<string> l; KV_ASSERT(k->List(&l) && l.size() == 2, "both are listed"); KV_ASSERT(l[o ? 0 : 1] == "b", "the other name"); const string& ln = l[o ? 1 : 0]; KV_ASSERT(ln.size() <= n && nm.compare(0, ln.size(), ln) == 0, "a long name is at most cut short");
  string out; KV_ASSERT(k->ReadFile("b", &out) && out == "short", "the other entry is unaffected"); out = "old"; if (k->ReadFile(nm.c_str(), &out)) KV_ASSERT(out == "long", "its content"); else KV_ASSERT(out == "old", "nothing");
}
KV_HARNESS(limit) { unsigned n = 1 + kv_pick(9), m = kv_pick(13); vector<ZE> v; v.push_back(ZE("x.kml", blob(0, n - 1) + kv_string(1, 'd'), false)); v.push_back(ZE("y", blob(2, n), true)); KmzFilePtr k = KmzFile::OpenFromString(zipbytes(v)); KV_ASSERT(k, "opens"); k->set_max_uncompressed_file_size(m); KV_ASSERT(k->get_max_uncompressed_file_size() == m, "the limit is kept");
  for (int i = 0; i < 2; i++) { string out; KV_ASSERT(k->ReadFile(v[i].name.c_str(), &out) == (n <= m), "an entry is read exactly if it is within the limit"); KV_ASSERT(out == (n <= m ? v[i].data : ""), "content"); } string out; KV_ASSERT(k->ReadKml(&out) == (n <= m), "the default KML too"); }
// scratch directory, removed with its known files at the end
struct Scratch { string d; vector<string> files; Scratch() { char t[] = "/tmp/kvP19XXXXXX"; d = mkdtemp(t); } string at(const string& f) { files.push_back(d + "/" + f); return d + "/" + f; } ~Scratch() { for (size_t i = files.size(); i--;) { if (unlink(files[i].c_str())) rmdir(files[i].c_str()); } rmdir(d.c_str()); } };
static void put(const string& f, const string& s) { FILE* o = fopen(f.c_str(), "wb"); fwrite(s.data(), 1, s.size(), o); fclose(o); }
static string slurp(const string& f) { string s; FILE* i = fopen(f.c_str(), "rb"); if (!i) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, i)) > 0) s.append(b, n); fclose(i); return s; }
static bool escapes(const string& p) { if (!p.empty() && (p[0] == '/' || p[0] == '\\')) return true; int depth = 0; size_t b = 0; for (;;) { size_t e = b; while (e < p.size() && p[e] != '/' && p[e] != '\\') e++; string s = p.substr(b, e - b); if (s == "..") { if (--depth < 0) return true; } else if (!s.empty() && s != ".") depth++; if (e == p.size()) return false; b = e + 1; } }
KV_HARNESS(write) {
  string n = kv_alpha(kv_pick(kv_tier() ? 7 : 6), "a./\\"); bool bad = escapes(n); kv_obs_int(bad); Scratch s; string f = s.at("o.kmz"); bool added;
  { KmzFilePtr k = KmzFile::Create(f.c_str()); KV_ASSERT(k, "created"); added = k->AddFile("content", n); KV_ASSERT(!bad || !added, "a name which escapes the archive is never accepted"); if (n[0] == 'a' && !bad) KV_ASSERT(added, "a plain relative name is accepted"); KV_ASSERT(k->AddFile("last", "z"), "the archive stays usable"); }
  vector<ZE> v; if (added) v.push_back(ZE(n, "content")); v.push_back(ZE("z", "last")); holds(slurp(f), v, "y");
}
KV_HARNESS(readback) {
  static const char* nm[] = {"doc.kml", "images/a.png", "b c.kml", "x"}; Scratch s; string f = s.at("o.kmz"); unsigned n = 1 + kv_pick(4), rot = kv_pick(4), kd = kv_pick(4), dup = kv_pick(2); static const unsigned sz[] = {1, 70, 20000, 3}; vector<ZE> v;
  { KmzFilePtr k = KmzFile::Create(f.c_str()); KV_ASSERT(k, "created"); for (unsigned i = 0; i < n; i++) { ZE e(nm[(i + rot) % 4], blob((i + kd) % 4, sz[(i + kd) % 4])); v.push_back(e); KV_ASSERT(k->AddFile(e.data, e.name), "added"); } if (dup) { k->AddFile("other", v[0].name); } }
  string z = slurp(f); if (!dup) { holds(z, v, "q"); boost::scoped_ptr<KmzFile> k(KmzFile::OpenFromFile(f.c_str())); string o; KV_ASSERT(k.get() && k->ReadFile(v[n - 1].name.c_str(), &o) && o == v[n - 1].data, "through the file too"); }
  else { KmzFilePtr k = KmzFile::OpenFromString(z); KV_ASSERT(k, "opens"); for (unsigned i = 0; i < n; i++) { string o; KV_ASSERT(k->ReadFile(v[i].name.c_str(), &o) && o == v[i].data, "a duplicate changes nothing"); } }
  boost::scoped_ptr<KmzFile> ro(KmzFile::OpenFromFile(f.c_str())); KV_ASSERT(ro.get() && !ro->AddFile("d", "new"), "an archive opened for reading takes no files");
}
struct Dir { Scratch s; string in; Dir() { in = s.at("base"); mkdir(in.c_str(), 0700); put(s.at("base/f"), "F"); string d = s.at("base/d"); mkdir(d.c_str(), 0700); put(s.at("base/d/g"), "GG"); put(s.at("secret"), "S"); } };
// reference -> archive name, content; NULL name: an error
struct R { const char* ref; const char* name; const char* data; };
static const R refs[] = {{"f", "f", "F"}, {"d/g", "d/g", "GG"}, {"./f", "f", "F"}, {"d/../f", "f", "F"}, {"f#frag", "f", "F"}, {"../secret", NULL, NULL}, {"d/../../secret", NULL, NULL}, {"missing", NULL, NULL}};
KV_HARNESS(addlist) {
  Dir D; const R &a = refs[kv_pick(8)], &b = refs[kv_pick(8)]; string f = D.s.at("o.kmz"); vector<ZE> v; size_t bad = 0; StringVector l; l.push_back(a.ref); l.push_back(b.ref);
  const R* r[] = {&a, &b}; for (int i = 0; i < 2; i++) { if (!r[i]->name) { bool again = i && !strcmp(a.ref, b.ref) && !strcmp(a.ref, "missing"); if (!again) bad++; } else if (!find(v, r[i]->name)) v.push_back(ZE(r[i]->name, r[i]->data)); }
  { KmzFilePtr k = KmzFile::Create(f.c_str()); KV_ASSERT(k, "created"); KV_ASSERT(k->AddFileList(D.in, l) == bad, "the references which could not be added are counted"); KV_ASSERT(k->AddFile("e", "end"), "usable"); } v.push_back(ZE("end", "e")); holds(slurp(f), v, "secret");
}
KV_HARNESS(fromkml) {
  Dir D; unsigned m = kv_pick(4); const R& a = refs[kv_pick(8)]; string kml = string("<kml><NetworkLink><Link><href>") + a.ref + "</href></Link></NetworkLink></kml>", f = D.s.at("o.kmz"); if (m == 1) kml = "<kml><Placemark></kml>"; if (m == 2) kml = ""; string path = D.s.at("base/in.kml"); if (m != 3) put(path, kml);
  bool ok = KmzFile::CreateFromKmlFilepath(path, f); KV_ASSERT(m == 0 ? ok : !ok, "an archive is made exactly from well-formed KML"); if (m) return;
  KmzFilePtr k = KmzFile::OpenFromString(slurp(f)); KV_ASSERT(k, "opens"); vector<string> l; KV_ASSERT(k->List(&l) && l.size() == (a.name ? 2u : 1u) && l[0] == "doc.kml", "the document and the file it refers to"); string t; KV_ASSERT(k->ReadKml(&t), "default KML"); KV_ASSERT(kmldom::SerializeRaw(kmldom::Parse(t, NULL)) == kmldom::SerializeRaw(kmldom::Parse(kml, NULL)), "the document is the one given"); if (a.name) { string o; KV_ASSERT(l[1] == a.name && k->ReadFile(a.name, &o) && o == a.data, "the file is the one referred to"); }
}
KV_HARNESS(links) {
  static const char* lk[] = {"a.png", "b.png", "http://h/x.png", "#frag", "a.png#frag", "b.png#frag", "http://h/"}; string s = kv_name(1); unsigned i = kv_pick(8), j = kv_pick(7); string h1 = i == 7 ? s + ".png" : lk[i], h2 = lk[j];
  string kml = "<kml><Document><GroundOverlay><Icon><href>" + h1 + "</href></Icon></GroundOverlay><Placemark><styleUrl>#s</styleUrl></Placemark><NetworkLink><Link><href>" + h2 + "</href></Link></NetworkLink></Document></kml>"; vector<ZE> v; v.push_back(ZE("doc.kml", kml)); v.push_back(ZE("a.png", "p"));
  KmzFilePtr k = KmzFile::OpenFromString(zipbytes(v)); KV_ASSERT(k, "opens"); vector<string> want, got; bool m1 = i == 1 || i == 5 || (i == 7 && s != "a"), m2 = j == 1 || j == 5; if (m1) want.push_back(h1); if (m2) want.push_back(h2);
  bool ok = kmlconvenience::KmzCheckLinks(*k, &got); KV_ASSERT(ok == want.empty() && got == want, "exactly the references to files not in the archive are reported, in order"); KV_ASSERT(kmlconvenience::KmzCheckLinks(*k, NULL) == ok, "with or without a list");
}
KV_HARNESS(many) {
  unsigned n = kv_size(300), w = kv_pick(3), at = w == 0 ? 0 : w == 1 ? n / 2 : n - 1; bool df = kv_pick(2); string s(1, "x\0\377<"[kv_pick(4)]); vector<ZE> v; for (unsigned i = 0; i < n; i++) v.push_back(ZE(i == at ? "k.kml" : "e" + num(i), i == at ? "<kml>" + s : "data" + num(i), df && i != at)); boost::scoped_ptr<ZipFile> z(ZipFile::OpenFromString(zipbytes(v))); KV_ASSERT(z, "opened"); vector<string> toc; KV_ASSERT(z->GetToc(&toc) && toc.size() == n, "every entry is listed"); for (unsigned i = 0; i < n; i++) { KV_ASSERT(toc[i] == v[i].name && z->IsInToc(toc[i]), "in order"); string d; KV_ASSERT(z->GetEntry(toc[i], &d) && d == v[i].data, "read exactly"); }
  string k; KmzFilePtr kz = KmzFile::OpenFromString(zipbytes(v)); string name; KV_ASSERT(kz && kz->ReadKmlAndGetPath(&k, &name) && k == "<kml>" + s && name == "k.kml", "the KML");
}
KV_HARNESS(again) {
  vector<ZE> v; v.push_back(ZE("x/a.png", "0123456789", false)); v.push_back(ZE("doc.kml", "<kml/>", true)); v.push_back(ZE("b", "data", kv_pick(2))); KmzFilePtr k = KmzFile::OpenFromString(zipbytes(v)); KV_ASSERT(k, "opens"); k->set_max_uncompressed_file_size(9); unsigned n = kv_tier() ? 5 : 4;
  for (unsigned i = 0; i < n; i++) { unsigned o = kv_pick(7); string out = "old", name; vector<string> l; if (o == 0) KV_ASSERT(!k->ReadFile("x/a.png", &out) && out == "old", "above the limit"); if (o == 1) KV_ASSERT(k->ReadFile("doc.kml", &out) && out == "<kml/>", "read"); if (o == 2) KV_ASSERT(k->ReadFile("b", &out) && out == "data", "read"); if (o == 3) KV_ASSERT(!k->ReadFile("zz", &out) && out == "old", "missing"); if (o == 4) { k->set_max_uncompressed_file_size(10); KV_ASSERT(k->ReadFile("x/a.png", &out) && out == "0123456789", "within the limit"); k->set_max_uncompressed_file_size(9); } if (o == 5) KV_ASSERT(k->ReadKmlAndGetPath(&out, &name) && name == "doc.kml" && out == "<kml/>", "the KML"); if (o == 6) KV_ASSERT(k->List(&l) && l.size() == 3 && l[0] == "x/a.png" && l[2] == "b", "listed"); }
}
