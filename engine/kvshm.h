// Shared-memory protocol between the explorer, the symbolic child processes and the native replay server.
#ifndef KVSHM_H
#define KVSHM_H
#include <stdint.h>
#define KV_MAXIN 256
#define KV_MAXDEC 60000
#define KV_MAXNODE 3000000
#define KV_MAXCOV 32768
enum { ST_NONE = 0, ST_OK, ST_ASSUME, ST_ASSERT, ST_CRASH, ST_TIMEOUT, ST_FULL, ST_SANITIZER };
enum { D_BR = 0, D_CONC = 1, D_ASSERT = 2, D_ASSUME = 3 };
struct KvNode { uint8_t op; uint8_t width; uint8_t fp; uint8_t pad; uint16_t var; uint16_t ctree; uint32_t a, b, c; uint64_t val; uint64_t imm; };
struct KvDec { uint32_t node; uint32_t site; uint8_t kind; uint8_t taken; uint16_t pad; uint64_t val; };
struct KvShm {
  uint32_t nin; uint8_t in[KV_MAXIN];
  uint32_t used;            // input bytes consumed by the run
  uint32_t status; int32_t sig; char msg[512]; uint64_t obs; uint32_t nobs;
  uint32_t reached;         // number of assertions evaluated
  uint32_t ndec, nnodes; uint32_t natconc; uint32_t lost;
  char harness[64]; uint32_t timeout_ms; uint32_t tier;
  uint32_t nprev; uint8_t prev[KV_MAXIN]; // native only: the input run before this one in the same process when it failed
  uint8_t cov[KV_MAXCOV];
  KvDec dec[KV_MAXDEC];
  KvNode nodes[KV_MAXNODE];
};
struct KvHead { // same leading layout as KvShm: what the native server touches
};
#endif
