// Model of zlib's checksum: the CRC-32 register written without tables or branches, so that the checksum of
// symbolic bytes stays one expression.  inflate/deflate are not modelled (they run natively on enumerated bytes).
#include <stddef.h>
extern "C" unsigned long __m_crc32(unsigned long crc, const unsigned char* p, unsigned n) {
  if (!p) return 0;
  unsigned c = ~(unsigned)crc;
  for (unsigned i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0xedb88320u & (0u - (c & 1))); }
  return (unsigned)~c;
}
