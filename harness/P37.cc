// P37: files are written and read byte for byte, and failures are reported.
// @h roundtrip q=90 t=200 | contents of 0..3 symbolic bytes over { NUL, CR, LF, 0x1a, a, 0xff } after a run of 0, 1, 1022..1026, 2047..2050, 4094..4098, 8190..8194 or 70000 bytes, written over nothing or over a longer or shorter file
// @h missing q=30 t=60 | reading, deleting and testing a path that is a file, an empty file, a directory, absent, below a file, empty or a dangling link: output kept on failure
// @h full q=40 t=40 | writing 0..2 or 100000 bytes to a full device, to a directory, to an absent directory, to a file without a name
// @h temp q=20 t=60 | 1..4 temporary files created, written, shared, deleted or released in any of several orders: distinct names, present while held, readable by the owner only, gone afterwards
// @outside file systems that lose data after a successful close; concurrent writers; names with NUL bytes
#include "kvu.h"
#include "kml/base/file.h"
#include "kml/base/tempfile.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace kmlbase; using std::string; using std::vector;
struct Scratch { string d; vector<string> files; Scratch() { char t[] = "/tmp/kvP37XXXXXX"; d = mkdtemp(t); } string at(const string& f) { files.push_back(d + "/" + f); return d + "/" + f; } ~Scratch() { for (size_t i = files.size(); i--;) if (unlink(files[i].c_str())) rmdir(files[i].c_str()); rmdir(d.c_str()); } };
static string slurp(const string& f) { string s; FILE* i = fopen(f.c_str(), "rb"); if (!i) return "?"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, i)) > 0) s.append(b, n); fclose(i); return s; }
static void put(const string& f, const string& s) { FILE* o = fopen(f.c_str(), "wb"); if (!o) return; fwrite(s.data(), 1, s.size(), o); fclose(o); }
static string sym(unsigned n) { static const char A[] = {0, '\r', '\n', 0x1a, 'a', (char)0xff}; string s; for (unsigned i = 0; i < n; i++) s += A[kv_pick(6)]; return s; }
KV_HARNESS(roundtrip) {
  static const unsigned N[] = {0, 1, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 2050, 4094, 4095, 4096, 4097, 4098, 8190, 8191, 8192, 8193, 8194, 70000}; unsigned n = N[kv_pick(22)], old = kv_pick(3); string data; for (unsigned i = 0; i < n; i++) data += (char)(i * 7 + i / 256); data += sym(kv_pick(n > 1 ? 2 : 4));
  Scratch s; string f = s.at("f"); if (old) put(f, string(old == 1 ? 3 : 80000, 'z')); KV_ASSERT(File::WriteStringToFile(data, f), "written"); KV_ASSERT(slurp(f) == data, "exactly these bytes"); KV_ASSERT(File::Exists(f), "exists"); string r = "old"; KV_ASSERT(File::ReadFileToString(f, &r), "read"); KV_ASSERT(r == data, "exactly these bytes come back"); KV_ASSERT(File::ReadFileToString(f, &r) && r == data, "as often as it is read"); KV_ASSERT(File::Delete(f) && !File::Exists(f) && !File::Delete(f), "deleted once");
}
KV_HARNESS(missing) {
  unsigned k = kv_pick(7); Scratch s; string f = s.at("f"), p = f; if (k == 0) put(f, "x"); if (k == 1) put(f, ""); if (k == 2) mkdir(f.c_str(), 0700); if (k == 4) { put(f, "x"); p = f + "/g"; } if (k == 5) p = ""; if (k == 6 && symlink("nowhere", f.c_str())) return;
  string o = kv_alpha(1, "ab"), keep = o; bool r = File::ReadFileToString(p, &o); KV_ASSERT(r == (k < 2), "exactly what is a readable file is read"); KV_ASSERT(o == (k == 0 ? string("x") : k == 1 ? string() : keep), "the output is unmodified on failure"); KV_ASSERT(!File::ReadFileToString(p, NULL), "nowhere to read to");
  KV_ASSERT(File::Exists(p) == (k < 2), "exactly regular files exist"); bool d = File::Delete(p); KV_ASSERT(d == (k < 2 || k == 6), "deleted or not"); struct stat t; if (d) KV_ASSERT(lstat(p.c_str(), &t) != 0, "gone"); if (k == 2) KV_ASSERT(stat(p.c_str(), &t) == 0, "a directory stays");
}
KV_HARNESS(full) {
  unsigned k = kv_pick(5), n = kv_pick(4); string data = n == 3 ? string(100000, 'd') : sym(n); Scratch s; string p; if (k == 0) p = "/dev/full"; if (k == 1) p = s.d; if (k == 2) p = s.d + "/no/f"; if (k == 3) p = ""; if (k == 4) { p = s.at("f"); put(p, "x"); p += "/g"; }
  bool r = File::WriteStringToFile(data, p); if (k == 0) KV_ASSERT(r == data.empty(), "data which could not be written is reported"); else KV_ASSERT(!r, "a file which could not be opened is reported"); if (k == 4) KV_ASSERT(slurp(s.files[0]) == "x", "nothing else is written");
}
KV_HARNESS(temp) {
  unsigned n = 1 + kv_pick(4), how = kv_pick(4); vector<TempFilePtr> t; vector<string> names; mode_t m0 = umask(022); umask(m0);
  for (unsigned i = 0; i < n; i++) { TempFilePtr p(TempFile::CreateTempFile()); KV_ASSERT(p, "created"); t.push_back(p); names.push_back(p->name()); struct stat st; KV_ASSERT(stat(p->name().c_str(), &st) == 0 && S_ISREG(st.st_mode) && st.st_size == 0, "an empty file"); KV_ASSERT((st.st_mode & 077) == 0, "for the owner only"); for (unsigned j = 0; j < i; j++) KV_ASSERT(names[j] != names[i], "of a name of its own"); }
  mode_t m1 = umask(022); umask(m1); KV_ASSERT(m0 == m1, "the process's file mode mask is as before"); string data = sym(1); for (unsigned i = 0; i < n; i++) KV_ASSERT(File::WriteStringToFile(data + char('a' + i), names[i]), "writable"); for (unsigned i = 0; i < n; i++) { string r; KV_ASSERT(File::ReadFileToString(names[i], &r) && r == data + char('a' + i), "each with its own content"); }
  if (how == 1) KV_ASSERT(File::Delete(names[0]), "deleted by hand"); TempFilePtr copy; if (how == 2) copy = t[n - 1]; if (how == 3) { TempFilePtr x = t[0]; t[0] = t[n - 1]; t[n - 1] = x; std::swap(names[0], names[n - 1]); }
  for (unsigned i = 0; i < n; i++) { t[i] = NULL; bool held = copy && i == n - 1; KV_ASSERT(File::Exists(names[i]) == held, "gone with its last holder"); for (unsigned j = i + 1; j < n; j++) KV_ASSERT(File::Exists(names[j]), "the others stay"); } copy = NULL; KV_ASSERT(!File::Exists(names[n - 1]), "gone");
}
