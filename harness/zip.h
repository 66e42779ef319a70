// Builds zip archives byte by byte (APPNOTE layout), independently of minizip.
#ifndef KV_ZIP_H
#define KV_ZIP_H
#include "kvu.h"
#include <zlib.h>
#include <string.h>
struct ZE { std::string name, data; bool deflated, descr; std::string extra, lextra, comment; ZE(const std::string& n, const std::string& d, bool df = false) : name(n), data(d), deflated(df), descr(false) {} };
static inline std::string le(unsigned long v, int n) { std::string s; for (int i = 0; i < n; i++) s += (char)((v >> (8 * i)) & 255); return s; }
static inline std::string rawdeflate(const std::string& d) {
  z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, 6, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY);
  std::vector<char> o(d.size() + 1000); z.next_in = (Bytef*)d.data(); z.avail_in = d.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size(); deflate(&z, Z_FINISH); std::string r(&o[0], z.total_out); deflateEnd(&z); return r;
}
// central directory in the order of v; local entries in the order of v, or reversed
static inline std::string zipbytes(const std::vector<ZE>& v, const std::string& comment = "", bool rev = false) {
  std::string out, cd; std::vector<unsigned long> off(v.size()), crc(v.size()); std::vector<std::string> body(v.size());
  for (size_t k = 0; k < v.size(); k++) {
    size_t i = rev ? v.size() - 1 - k : k; const ZE& e = v[i]; off[i] = out.size(); crc[i] = crc32(0, (const Bytef*)e.data.data(), e.data.size()); body[i] = e.deflated ? rawdeflate(e.data) : e.data;
    out += "PK\003\004" + le(20, 2) + le(e.descr ? 8 : 0, 2) + le(e.deflated ? 8 : 0, 2) + le(0x21, 2) + le(0x21, 2) + (e.descr ? le(0, 4) + le(0, 4) + le(0, 4) : le(crc[i], 4) + le(body[i].size(), 4) + le(e.data.size(), 4)) + le(e.name.size(), 2) + le(e.lextra.size(), 2) + e.name + e.lextra + body[i];
    if (e.descr) out += "PK\007\010" + le(crc[i], 4) + le(body[i].size(), 4) + le(e.data.size(), 4);
  }
  for (size_t i = 0; i < v.size(); i++) {
    const ZE& e = v[i];
    cd += "PK\001\002" + le(20, 2) + le(20, 2) + le(e.descr ? 8 : 0, 2) + le(e.deflated ? 8 : 0, 2) + le(0x21, 2) + le(0x21, 2) + le(crc[i], 4) + le(body[i].size(), 4) + le(e.data.size(), 4) + le(e.name.size(), 2) + le(e.extra.size(), 2) + le(e.comment.size(), 2) + le(0, 2) + le(0, 2) + le(0, 4) + le(off[i], 4) + e.name + e.extra + e.comment;
  }
  std::string eocd = "PK\005\006" + le(0, 2) + le(0, 2) + le(v.size(), 2) + le(v.size(), 2) + le(cd.size(), 4) + le(out.size(), 4) + le(comment.size(), 2) + comment;
  return out + cd + eocd;
}
#endif
