// kvrt: run time of the symbolic child processes (expression DAG, shadow memory, path decisions).
// Not instrumented.  The explorer (kvexp.cpp) reads the decisions from shared memory.
#include <locale>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <math.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>
#include "kvops.h"
#include "kvshm.h"
#include <initializer_list>

typedef uint32_t u32; typedef uint64_t u64; typedef uint8_t u8; typedef int64_t i64;
static u8 cov_dummy[KV_MAXCOV];
extern "C" {
u32 __kv_argsh[64]; void* __kv_argptr[64]; void* __kv_callee; u32 __kv_retsh[8]; void* __kv_retfn; u8* __kv_cov = cov_dummy;
extern void* const __kv_fntab[];
}
KvShm* kv_shm = 0;
static bool active = false;   // true while a harness runs symbolically

// ------------------------------------------------------------------ nodes
static KvNode* N = 0; static u32 nn = 1;
static u32* HT = 0; static const u32 HSZ = 1u << 22;
static u8* decided = 0;  // per node: 1 = known true, 2 = known false on this path
static void die(int st, const char* msg) { kv_shm->status = st; snprintf(kv_shm->msg, sizeof kv_shm->msg, "%s", msg); kv_shm->nnodes = nn; _exit(0); }
static inline u64 msk(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w)) >> (64 - w)); }
static inline double b2d(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static inline u64 d2b(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static inline float b2f(u64 b) { float d; u32 x = (u32)b; memcpy(&d, &x, 4); return d; }
static inline u64 f2b(float d) { u32 b; memcpy(&b, &d, 4); return b; }
static double fpval(u32 n) { return N[n].width == 32 ? b2f(N[n].val) : b2d(N[n].val); }
static u64 fpbits(double d, unsigned w) { return w == 32 ? f2b((float)d) : d2b(d); }
static const double P10[] = {1e0,1e1,1e2,1e3,1e4,1e5,1e6,1e7,1e8,1e9,1e10,1e11,1e12,1e13,1e14,1e15,1e16,1e17,1e18,1e19,1e20,1e21,1e22};
static double decval(i64 m, int k) { return k >= 0 ? (double)m / P10[k] : (double)m * P10[-k]; }

// concrete evaluation of one operator
static u64 ev(u8 op, u8 w, u8 fp, u64 imm, const KvNode* A, const KvNode* B, const KvNode* Cn, u64 a, u64 b, u64 c) {
  u64 m = msk(w);
  switch (op) {
    case OP_ADD: return (a + b) & m; case OP_SUB: return (a - b) & m; case OP_MUL: return (a * b) & m;
    case OP_UDIV: return b ? (a / b) & m : m; case OP_UREM: return b ? (a % b) & m : a;
    case OP_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (-(u64)x) & m; return (u64)(x / y) & m; }
    case OP_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case OP_AND: return a & b; case OP_OR: return a | b; case OP_XOR: return a ^ b;
    case OP_SHL: return b >= w ? 0 : (a << b) & m; case OP_LSHR: return b >= w ? 0 : (a >> b) & m;
    case OP_ASHR: return b >= w ? (sx(a, w) < 0 ? m : 0) : (u64)(sx(a, w) >> b) & m;
    case OP_ZEXT: return a; case OP_SEXT: return (u64)sx(a, A->width) & m;
    case OP_EXTRACT: return (a >> imm) & m; case OP_CONCAT: return ((a << B->width) | b) & m;
    case OP_EQ: return a == b; case OP_ULT: return a < b; case OP_ULE: return a <= b;
    case OP_SLT: return sx(a, A->width) < sx(b, A->width); case OP_SLE: return sx(a, A->width) <= sx(b, A->width);
    case OP_NOT: return !a; case OP_ITE: case OP_FITE: return a ? b : c;
  }
  // floating point
  auto F = [&](const KvNode* n, u64 v) -> double { return n->width == 32 ? b2f(v) : b2d(v); };
  switch (op) {
    case OP_FADD: return w == 32 ? f2b(b2f(a) + b2f(b)) : d2b(b2d(a) + b2d(b));
    case OP_FSUB: return w == 32 ? f2b(b2f(a) - b2f(b)) : d2b(b2d(a) - b2d(b));
    case OP_FMUL: return w == 32 ? f2b(b2f(a) * b2f(b)) : d2b(b2d(a) * b2d(b));
    case OP_FDIV: return w == 32 ? f2b(b2f(a) / b2f(b)) : d2b(b2d(a) / b2d(b));
    case OP_FNEG: return a ^ (1ull << (w - 1)); case OP_FABS: return a & (m >> 1);
    case OP_FSQRT: return fpbits(sqrt(F(A, a)), w);
    case OP_FROUND: { double d = F(A, a); switch (imm) { case FU_FLOOR: d = floor(d); break; case FU_CEIL: d = ceil(d); break; case FU_TRUNC: d = trunc(d); break; default: d = rint(d); } return fpbits(d, w); }
    case OP_SITOFP: return w == 32 ? f2b((float)sx(a, A->width)) : d2b((double)sx(a, A->width));
    case OP_UITOFP: return w == 32 ? f2b((float)a) : d2b((double)a);
    case OP_FPTOSI: { double d = F(A, a); if (!(d > -9.3e18 && d < 9.3e18)) return 0; return (u64)(i64)d & m; }
    case OP_FPTOUI: { double d = F(A, a); if (!(d > -1 && d < 1.85e19)) return 0; return (u64)d & m; }
    case OP_FPCAST: return fpbits(F(A, a), w);
    case OP_BVTOF: case OP_FTOBV: return a;
    case OP_FEQ: return F(A, a) == F(B, b); case OP_FLT: return F(A, a) < F(B, b); case OP_FLE: return F(A, a) <= F(B, b);
    case OP_FUNO: { double x = F(A, a), y = F(B, b); return x != x || y != y; }
    case OP_FDEC: return d2b(decval((i64)a, (int)(i64)imm));
  }
  return 0;
}
static u32 mkdy(u32 m, int s, __int128 lo, __int128 hi);
struct Dy; static u32 dyite(u32 c, u32 a, u32 b);
static u32 kf(unsigned w, u64 bits);
#define VNONE 0xFFFF
#define VMANY 0xFFFE
static u32 mkraw(u8 op, u8 w, u8 fp, u32 a, u32 b, u32 c, u64 imm) {
  u64 h = op * 0x9E3779B97F4A7C15ull; h = (h ^ w ^ ((u64)fp << 7)) * 0xff51afd7ed558ccdull; h = (h ^ a) * 0xc4ceb9fe1a85ec53ull; h = (h ^ (h >> 31) ^ b) * 0x9E3779B97F4A7C15ull; h = (h ^ c) * 0xff51afd7ed558ccdull; h = (h ^ (h >> 29) ^ imm) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 32;
  u32 i = (u32)h & (HSZ - 1);
  while (HT[i]) { KvNode& n = N[HT[i]]; if (n.op == op && n.width == w && n.fp == fp && n.a == a && n.b == b && n.c == c && n.imm == imm) return HT[i]; i = (i + 1) & (HSZ - 1); }
  if (nn >= KV_MAXNODE - 8) die(ST_FULL, "expression arena full");
  u32 id = nn++; HT[i] = id;
  KvNode& n = N[id]; n.op = op; n.width = w; n.fp = fp; n.a = a; n.b = b; n.c = c; n.imm = imm; n.ctree = 0;
  if (op == OP_CONST || op == OP_FCONST) { n.val = imm; n.var = VNONE; n.ctree = 1; }
  else if (op == OP_VAR) { n.val = kv_shm->in[imm]; n.var = (uint16_t)imm; }
  else {
    n.val = ev(op, w, fp, imm, &N[a], &N[b], &N[c], N[a].val, N[b].val, N[c].val);
    uint16_t v = N[a].var;
    if (b) { uint16_t x = N[b].var; if (v == VNONE) v = x; else if (x != VNONE && x != v) v = VMANY; }
    if (c) { uint16_t x = N[c].var; if (v == VNONE) v = x; else if (x != VNONE && x != v) v = VMANY; }
    n.var = v;
    if (op == OP_ITE && N[b].ctree && N[c].ctree) { unsigned t = N[b].ctree + N[c].ctree; n.ctree = t > 64 ? 0 : t; }
  }
  return id;
}
static u32 kc(unsigned w, u64 v) { return mkraw(OP_CONST, w, 0, 0, 0, 0, v & msk(w)); }
static inline bool isk(u32 n) { return N[n].op == OP_CONST || N[n].op == OP_FCONST; }
static u32 mkext(u32 x, unsigned lo, unsigned w);
static u32 mkzext(u32 x, unsigned w);
static u32 mksext(u32 x, unsigned w);
static u32 mkite(u32 c, u32 a, u32 b);
static u32 mknot(u32 x);
static u32 mkbin(u8 op, u32 a, u32 b);
static u32 mkconcat(u32 h, u32 l);
static u32 mkcmp(u8 op, u32 a, u32 b);
// apply f to the constant leaves of an ITE tree
template <class Fn> static u32 mapleaf(u32 n, Fn f) { if (isk(n)) return f(n); return mkite(N[n].a, mapleaf(N[n].b, f), mapleaf(N[n].c, f)); }

static u32 mknot(u32 x) {
  if (isk(x)) return kc(1, !N[x].val);
  if (N[x].op == OP_NOT) return N[x].a;
  if (N[x].op == OP_ULT) return mkcmp(OP_ULE, N[x].b, N[x].a);
  if (N[x].op == OP_ULE && !isk(N[x].b)) return mkcmp(OP_ULT, N[x].b, N[x].a);
  if (N[x].op == OP_SLT) return mkcmp(OP_SLE, N[x].b, N[x].a);
  if (N[x].op == OP_SLE) return mkcmp(OP_SLT, N[x].b, N[x].a);
  return mkraw(OP_NOT, 1, 0, x, 0, 0, 0);
}
static u32 mkext(u32 x, unsigned lo, unsigned w) {
  unsigned xw = N[x].width;
  if (lo == 0 && w == xw) return x;
  if (isk(x)) return kc(w, N[x].val >> lo);
  switch (N[x].op) {
    case OP_EXTRACT: return mkext(N[x].a, lo + N[x].imm, w);
    case OP_ZEXT: { unsigned iw = N[N[x].a].width; if (lo >= iw) return kc(w, 0); if (lo + w <= iw) return mkext(N[x].a, lo, w); return mkzext(mkext(N[x].a, lo, iw - lo), w); }
    case OP_SEXT: { unsigned iw = N[N[x].a].width; if (lo + w <= iw) return mkext(N[x].a, lo, w); if (lo == 0) return mksext(N[x].a, w); break; }
    case OP_CONCAT: { unsigned bw = N[N[x].b].width; if (lo >= bw) return mkext(N[x].a, lo - bw, w); if (lo + w <= bw) return mkext(N[x].b, lo, w);
      u32 l = mkext(N[x].b, lo, bw - lo), h = mkext(N[x].a, 0, lo + w - bw); return mkconcat(h, l); }
    case OP_AND: case OP_OR: case OP_XOR: return mkbin(N[x].op, mkext(N[x].a, lo, w), mkext(N[x].b, lo, w));
    case OP_ADD: case OP_SUB: case OP_MUL: if (lo == 0) return mkbin(N[x].op, mkext(N[x].a, 0, w), mkext(N[x].b, 0, w)); break;
    case OP_SHL: if (lo == 0 && isk(N[x].b) && N[N[x].b].val < w) return mkbin(OP_SHL, mkext(N[x].a, 0, w), kc(w, N[N[x].b].val)); break;
    case OP_LSHR: if (isk(N[x].b)) { unsigned s = N[N[x].b].val; if (s + lo + w <= xw) return mkext(N[x].a, lo + s, w); } break;
    case OP_ITE: if (N[x].ctree) return mapleaf(x, [&](u32 l) { return mkext(l, lo, w); });
      if (isk(N[x].b) || isk(N[x].c)) return mkite(N[x].a, mkext(N[x].b, lo, w), mkext(N[x].c, lo, w)); break;
  }
  return mkraw(OP_EXTRACT, w, 0, x, 0, 0, lo);
}
static u32 mkzext(u32 x, unsigned w) {
  if (N[x].width == w) return x;
  if (isk(x)) return kc(w, N[x].val);
  if (N[x].op == OP_ZEXT) return mkzext(N[x].a, w);
  if (N[x].ctree) return mapleaf(x, [&](u32 l) { return mkzext(l, w); });
  return mkraw(OP_ZEXT, w, 0, x, 0, 0, 0);
}
static u32 mksext(u32 x, unsigned w) {
  if (N[x].width == w) return x;
  if (isk(x)) return kc(w, (u64)sx(N[x].val, N[x].width));
  if (N[x].op == OP_ZEXT) return mkzext(N[x].a, w);
  if (N[x].op == OP_SEXT) return mksext(N[x].a, w);
  if (N[x].ctree) return mapleaf(x, [&](u32 l) { return mksext(l, w); });
  return mkraw(OP_SEXT, w, 0, x, 0, 0, 0);
}
static u32 mkconcat(u32 h, u32 l) {
  unsigned w = N[h].width + N[l].width;
  if (isk(h) && isk(l)) return kc(w, (N[h].val << N[l].width) | N[l].val);
  if (isk(h) && N[h].val == 0) return mkzext(l, w);
  if (N[h].op == OP_EXTRACT && N[l].op == OP_EXTRACT && N[h].a == N[l].a && N[h].imm == N[l].imm + N[l].width) return mkext(N[h].a, N[l].imm, w);
  if (N[h].op == OP_EXTRACT && N[h].a == l && N[h].imm == N[l].width) return mkext(l, 0, w);
  if (isk(l) && N[h].op == OP_CONCAT && isk(N[h].b)) { unsigned lw = N[l].width; return mkconcat(N[h].a, kc(lw + N[N[h].b].width, (N[N[h].b].val << lw) | N[l].val)); }
  return mkraw(OP_CONCAT, w, 0, h, l, 0, 0);
}
static u32 mkite(u32 c, u32 a, u32 b) {
  if (a == b) return a;
  if (isk(c)) return N[c].val ? a : b;
  if (decided[c] == 1) return a;
  if (decided[c] == 2) return b;
  if (N[c].op == OP_NOT) return mkite(N[c].a, b, a);
  if (N[a].width == 1 && !N[a].fp) {
    if (isk(a) && isk(b)) return N[a].val ? c : mknot(c);
    if (isk(a)) return N[a].val ? mkbin(OP_OR, c, b) : mkbin(OP_AND, mknot(c), b);
    if (isk(b)) return N[b].val ? mkbin(OP_OR, mknot(c), a) : mkbin(OP_AND, c, a);
  }
  if (N[b].op == OP_ITE && !N[a].fp && N[b].b == a) return mkite(mkbin(OP_OR, c, N[b].a), a, N[b].c);
  if (N[b].op == OP_ITE && !N[a].fp && N[b].c == a) return mkite(mkbin(OP_AND, mknot(c), N[b].a), N[b].b, a);
  if (N[a].fp && N[a].width == 64) { u32 r = dyite(c, a, b); if (r) return r; }
  return mkraw(N[a].fp ? OP_FITE : OP_ITE, N[a].width, N[a].fp, c, a, b, 0);
}
static u32 mkbin(u8 op, u32 a, u32 b) {
  unsigned w = N[a].width; u64 m = msk(w);
  if (isk(a) && isk(b)) return kc(w, ev(op, w, 0, 0, &N[a], &N[b], 0, N[a].val, N[b].val, 0));
  bool comm = op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR;
  if (comm && isk(a)) { u32 t = a; a = b; b = t; }
  if (comm && !isk(b) && a > b) { u32 t = a; a = b; b = t; }
  if (op == OP_SUB && isk(b)) return mkbin(OP_ADD, a, kc(w, -N[b].val));
  if (op == OP_SUB && a == b) return kc(w, 0);
  if ((op == OP_AND || op == OP_OR) && a == b) return a;
  if (op == OP_XOR && a == b) return kc(w, 0);
  if (isk(b)) {
    u64 k = N[b].val;
    if (N[a].ctree > 1) return mapleaf(a, [&](u32 l) { return mkbin(op, l, b); });
    switch (op) {
      case OP_ADD: if (!k) return a; if (N[a].op == OP_ADD && isk(N[a].b)) return mkbin(OP_ADD, N[a].a, kc(w, k + N[N[a].b].val)); break;
      case OP_MUL: if (k == 1) return a; if (!k) return b; break;
      case OP_AND: if (!k) return b; if (k == m) return a;
        if (N[a].op == OP_ZEXT) { unsigned iw = N[N[a].a].width; return mkzext(mkbin(OP_AND, N[a].a, kc(iw, k)), w); }
        { unsigned t = 0; while (t < w && ((k >> t) & 1)) t++; if (t > 0 && t < w && (k >> t) == 0) return mkzext(mkext(a, 0, t), w); }
        break;
      case OP_OR: if (!k) return a; if (k == m) return b; break;
      case OP_XOR: if (!k) return a; if (w == 1) return mknot(a); break;
      case OP_SHL: if (!k) return a; if (k >= w) return kc(w, 0); return mkconcat(mkext(a, 0, w - k), kc(k, 0));
      case OP_LSHR: if (!k) return a; if (k >= w) return kc(w, 0); return mkzext(mkext(a, k, w - k), w);
      case OP_ASHR: if (!k) return a; if (N[a].op == OP_ZEXT) return mkbin(OP_LSHR, a, b); break;
      case OP_UDIV: if (k == 1) return a; break;
      case OP_SDIV: if (k == 1) return a; if (N[a].op == OP_ZEXT && sx(k, w) > 0) return mkbin(OP_UDIV, a, b); break;
      case OP_SREM: if (N[a].op == OP_ZEXT && sx(k, w) > 0) return mkbin(OP_UREM, a, b); break;
    }
    // narrow unsigned division of zero-extended values
    if ((op == OP_UDIV || op == OP_UREM) && N[a].op == OP_ZEXT && k <= msk(N[N[a].a].width) && k) { u32 i = N[a].a; return mkzext(mkbin(op, i, kc(N[i].width, k)), w); }
  }
  if (isk(a) && N[a].val == 0 && (op == OP_SHL || op == OP_LSHR || op == OP_ASHR)) return a;
  if (w == 1) {
    if (op == OP_AND && (N[a].op == OP_NOT && N[a].a == b || N[b].op == OP_NOT && N[b].a == a)) return kc(1, 0);
    if (op == OP_OR && (N[a].op == OP_NOT && N[a].a == b || N[b].op == OP_NOT && N[b].a == a)) return kc(1, 1);
    // range merging: x<=k1 | x<=k2
    if (op == OP_OR && N[a].op == OP_ULE && N[b].op == OP_ULE && N[a].a == N[b].a && isk(N[a].b) && isk(N[b].b)) return N[N[a].b].val >= N[N[b].b].val ? a : b;
    if (op == OP_AND && N[a].op == OP_ULE && N[b].op == OP_ULE && N[a].a == N[b].a && isk(N[a].b) && isk(N[b].b)) return N[N[a].b].val <= N[N[b].b].val ? a : b;
    if (decided[a]) { bool v = decided[a] == 1; if (op == OP_AND) return v ? b : kc(1, 0); if (op == OP_OR) return v ? kc(1, 1) : b; }
    if (decided[b]) { bool v = decided[b] == 1; if (op == OP_AND) return v ? a : kc(1, 0); if (op == OP_OR) return v ? kc(1, 1) : a; }
  }
  return mkraw(op, w, 0, a, b, 0, 0);
}
static u32 mkcmp(u8 op, u32 a, u32 b) {
  unsigned w = N[a].width;
  if (isk(a) && isk(b)) return kc(1, ev(op, 1, 0, 0, &N[a], &N[b], 0, N[a].val, N[b].val, 0));
  if (a == b) return kc(1, op == OP_EQ || op == OP_ULE || op == OP_SLE);
  if (op == OP_EQ && isk(a)) { u32 t = a; a = b; b = t; }
  if (op == OP_EQ && !isk(b) && a > b) { u32 t = a; a = b; b = t; }
  if (isk(b) && N[a].ctree > 1) return mapleaf(a, [&](u32 l) { return mkcmp(op, l, b); });
  if (isk(a) && N[b].ctree > 1) return mapleaf(b, [&](u32 l) { return mkcmp(op, a, l); });
  if (isk(b)) {
    u64 k = N[b].val;
    if (op == OP_EQ) {
      if (w == 1) return k ? a : mknot(a);
      if (N[a].op == OP_ZEXT) { unsigned iw = N[N[a].a].width; if (k > msk(iw)) return kc(1, 0); return mkcmp(OP_EQ, N[a].a, kc(iw, k)); }
      if (N[a].op == OP_SEXT) { unsigned iw = N[N[a].a].width; if ((u64)(sx(k, iw)) << 0 != (u64)sx(k, w)) return kc(1, 0); return mkcmp(OP_EQ, N[a].a, kc(iw, k)); }
      if (N[a].op == OP_ADD && isk(N[a].b)) return mkcmp(OP_EQ, N[a].a, kc(w, k - N[N[a].b].val));
      if (N[a].op == OP_XOR && isk(N[a].b)) return mkcmp(OP_EQ, N[a].a, kc(w, k ^ N[N[a].b].val));
      if (N[a].op == OP_SUB && k == 0) return mkcmp(OP_EQ, N[a].a, N[a].b);
      if (N[a].op == OP_CONCAT) { unsigned lw = N[N[a].b].width; return mkbin(OP_AND, mkcmp(OP_EQ, N[a].a, kc(w - lw, k >> lw)), mkcmp(OP_EQ, N[a].b, kc(lw, k))); }
      if (N[a].op == OP_ITE && (isk(N[a].b) || isk(N[a].c))) return mkite(N[a].a, mkcmp(OP_EQ, N[a].b, b), mkcmp(OP_EQ, N[a].c, b));
    } else if (N[a].op == OP_ZEXT) {
      unsigned iw = N[N[a].a].width; u64 im = msk(iw);
      if (op == OP_SLT || op == OP_SLE) { if (sx(k, w) < 0) return kc(1, 0); op = op == OP_SLT ? OP_ULT : OP_ULE; }
      if (op == OP_ULT && k > im) return kc(1, 1);
      if (op == OP_ULE && k >= im) return kc(1, 1);
      return mkcmp(op, N[a].a, kc(iw, k));
    } else if (N[a].op == OP_SEXT && (op == OP_SLT || op == OP_SLE)) {
      unsigned iw = N[N[a].a].width; i64 s = sx(k, w), hi = (i64)(msk(iw) >> 1), lo = -hi - 1;
      if (s > hi) return kc(1, 1); if (s < lo) return kc(1, 0);
      return mkcmp(op, N[a].a, kc(iw, (u64)s));
    } else if (op == OP_ULT && k == 0) return kc(1, 0);
    else if (op == OP_ULT && k == 1) return mkcmp(OP_EQ, a, kc(w, 0));
    else if (op == OP_ULT) return mkcmp(OP_ULE, a, kc(w, k - 1));
    else if (op == OP_ULE && k == msk(w)) return kc(1, 1);
    else if ((op == OP_SLT || op == OP_SLE) && N[a].op == OP_ITE && (isk(N[a].b) || isk(N[a].c))) return mkite(N[a].a, mkcmp(op, N[a].b, b), mkcmp(op, N[a].c, b));
    else if (op == OP_SLT && N[a].op == OP_SUB && k == 0 && N[N[a].a].op == OP_ZEXT && N[N[a].b].op == OP_ZEXT) return mkcmp(OP_ULT, N[a].a, N[a].b);
  } else if (isk(a)) {
    u64 k = N[a].val;
    if (N[b].op == OP_ZEXT && op != OP_EQ) {
      unsigned iw = N[N[b].a].width; u64 im = msk(iw);
      if (op == OP_SLT || op == OP_SLE) { if (sx(k, w) < 0) return kc(1, 1); op = op == OP_SLT ? OP_ULT : OP_ULE; }
      if (op == OP_ULT && k >= im) return kc(1, 0);
      if (op == OP_ULE && k > im) return kc(1, 0);
      return mkcmp(op, kc(iw, k), N[b].a);
    }
    if (N[b].op == OP_SEXT && (op == OP_SLT || op == OP_SLE)) {
      unsigned iw = N[N[b].a].width; i64 s = sx(k, w), hi = (i64)(msk(iw) >> 1), lo = -hi - 1;
      if (s > hi) return kc(1, 0); if (s < lo) return kc(1, 1);
      return mkcmp(op, kc(iw, (u64)s), N[b].a);
    }
    if (op == OP_ULT) { if (k == msk(w)) return kc(1, 0); return mknot(mkcmp(OP_ULE, b, a)) ; }
    if (op == OP_ULE && k == 0) return kc(1, 1);
    if (op == OP_ULE) return mknot(mkcmp(OP_ULE, b, kc(w, k - 1)));
    if ((op == OP_SLT || op == OP_SLE) && N[b].op == OP_ITE && (isk(N[b].b) || isk(N[b].c))) return mkite(N[b].a, mkcmp(op, a, N[b].b), mkcmp(op, a, N[b].c));
    if (op == OP_SLT && N[b].op == OP_SUB && k == 0 && N[N[b].a].op == OP_ZEXT && N[N[b].b].op == OP_ZEXT) return mkcmp(OP_ULT, N[b].b, N[b].a);
  }
  if ((N[a].op == OP_ZEXT && N[b].op == OP_ZEXT || N[a].op == OP_SEXT && N[b].op == OP_SEXT && op == OP_EQ) && N[N[a].a].width == N[N[b].a].width) {
    if (op == OP_SLT) op = OP_ULT; if (op == OP_SLE) op = OP_ULE;
    return mkcmp(op, N[a].a, N[b].a);
  }
  return mkraw(op, 1, 0, a, b, 0, 0);
}
// signed range of an integer node (sound over-approximation)
static void rng(u32 n, i64* lo, i64* hi, int dep = 0) {
  unsigned w = N[n].width; i64 L = w >= 64 ? INT64_MIN : -(1ll << (w - 1)), H = w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1; *lo = L; *hi = H; if (dep > 24) return;
  typedef __int128 q; i64 a, b, c, d; auto put = [&](q x, q y) { if (x >= L && y <= H) { *lo = (i64)x; *hi = (i64)y; } };
  switch (N[n].op) {
    case OP_CONST: *lo = *hi = sx(N[n].val, w); break;
    case OP_ZEXT: { unsigned v = N[N[n].a].width; rng(N[n].a, &a, &b, dep + 1); if (a >= 0) { *lo = a; *hi = b; } else if (v < 63) { *lo = 0; *hi = (1ll << v) - 1; } break; }
    case OP_SEXT: rng(N[n].a, lo, hi, dep + 1); break;
    case OP_CONCAT: { unsigned v = N[N[n].b].width; rng(N[n].a, &a, &b, dep + 1); if (v < 62) put((q)a * ((q)1 << v), (q)b * ((q)1 << v) + ((q)1 << v) - 1); break; }
    case OP_ADD: rng(N[n].a, &a, &b, dep + 1); rng(N[n].b, &c, &d, dep + 1); put((q)a + c, (q)b + d); break;
    case OP_SUB: rng(N[n].a, &a, &b, dep + 1); rng(N[n].b, &c, &d, dep + 1); put((q)a - d, (q)b - c); break;
    case OP_MUL: { rng(N[n].a, &a, &b, dep + 1); rng(N[n].b, &c, &d, dep + 1); q p[4] = {(q)a * c, (q)a * d, (q)b * c, (q)b * d}, x = p[0], y = p[0]; for (int i = 1; i < 4; i++) { if (p[i] < x) x = p[i]; if (p[i] > y) y = p[i]; } put(x, y); break; }
    case OP_SHL: if (N[N[n].b].op == OP_CONST && N[N[n].b].val < 62) { rng(N[n].a, &a, &b, dep + 1); q f = (q)1 << N[N[n].b].val; put((q)a * f, (q)b * f); } break;
    case OP_ITE: rng(N[n].b, &a, &b, dep + 1); rng(N[n].c, &c, &d, dep + 1); *lo = a < c ? a : c; *hi = b > d ? b : d; break;
    case OP_AND: for (u32 o : {N[n].a, N[n].b}) if (N[o].op == OP_CONST && sx(N[o].val, w) >= 0) { *lo = 0; *hi = sx(N[o].val, w); } break;
  }
}
// exact binary fractions m / 2^s with |m| * 5^s < 10^15 are kept as decimals (m * 5^s) / 10^s: no rounding happens, so their sums and comparisons are integer arithmetic
struct Dy { u32 node, m; int s; i64 lo, hi; }; static Dy dyt[4096]; static u32 ndyt = 0;
static const i64 P5[] = {1, 5, 25, 125, 625, 3125, 15625, 78125, 390625, 1953125, 9765625, 48828125, 244140625}; static const int MAXS = 12; static const i64 DLIM = 1000000000000000ll;
static bool asdy(u32 n, Dy* d) {
  if (N[n].width != 64 || !N[n].fp) return false;
  if (N[n].op == OP_FCONST) { double v = b2d(N[n].val); if (!(fabs(v) < 1e12) || (v == 0 && signbit(v))) return false; int s = 0; while (s <= MAXS && v != floor(v)) { v *= 2; s++; } if (s > MAXS || fabs(v) >= 1e15) return false; d->node = n; d->m = kc(64, (u64)(i64)v); d->s = s; d->lo = d->hi = (i64)v; return true; }
  if (N[n].op == OP_FDEC && (i64)N[n].imm == 0) { d->node = n; d->m = N[n].a; d->s = 0; rng(N[n].a, &d->lo, &d->hi); if (d->lo <= -DLIM) d->lo = -DLIM; if (d->hi >= DLIM) d->hi = DLIM; return true; }
  if (N[n].op == OP_FDEC) for (u32 i = 0; i < ndyt; i++) if (dyt[i].node == n) { *d = dyt[i]; return true; }
  return false;
}
static bool dyscale(Dy* d, int s) { while (d->s < s) { if (d->lo <= -DLIM || d->hi >= DLIM) return false; int k = s - d->s; __int128 f = (__int128)1 << k; if (d->lo * f <= -DLIM || d->hi * f >= DLIM) return false; d->m = mkbin(OP_MUL, d->m, kc(64, (u64)1 << k)); d->lo *= (i64)f; d->hi *= (i64)f; d->s = s; } return true; }
static u32 mkdy(u32 m, int s, __int128 lo, __int128 hi) {  // 0: does not fit
  if (s > MAXS || s < 0 || ndyt >= 4096 || lo * P5[s] <= -DLIM || hi * P5[s] >= DLIM) return 0;
  if (isk(m)) return kf(64, d2b((double)(i64)N[m].val / (double)(1ll << s)));
  u32 r = mkraw(OP_FDEC, 64, 1, mkbin(OP_MUL, m, kc(64, (u64)P5[s])), 0, 0, (u64)s); if (s) { Dy t; for (u32 i = 0; i < ndyt; i++) if (dyt[i].node == r) return r; t.node = r; t.m = m; t.s = s; t.lo = (i64)lo; t.hi = (i64)hi; dyt[ndyt++] = t; } return r;
}
static u32 mkf(u8 op, unsigned w, u32 a, u32 b) {
  Dy x, y; if (w == 64 && asdy(a, &x) && asdy(b, &y)) { u32 r = 0;
    if (op == OP_FADD || op == OP_FSUB) { int s = x.s > y.s ? x.s : y.s; if (dyscale(&x, s) && dyscale(&y, s)) r = op == OP_FADD ? mkdy(mkbin(OP_ADD, x.m, y.m), s, (__int128)x.lo + y.lo, (__int128)x.hi + y.hi) : mkdy(mkbin(OP_SUB, x.m, y.m), s, (__int128)x.lo - y.hi, (__int128)x.hi - y.lo); }
    else if (op == OP_FMUL && (isk(a) || isk(b))) { if (isk(a)) { Dy t = x; x = y; y = t; } i64 c = y.lo; if (c > 0) r = mkdy(c == 1 ? x.m : mkbin(OP_MUL, x.m, kc(64, (u64)c)), x.s + y.s, (__int128)x.lo * c, (__int128)x.hi * c); }
    else if (op == OP_FDIV && isk(b) && y.s == 0 && y.lo > 0 && (y.lo & (y.lo - 1)) == 0) r = mkdy(x.m, x.s + __builtin_ctzll(y.lo), x.lo, x.hi);
    if (r) return r; }
  return mkraw(op, w, 1, a, b, 0, 0);
}
static u32 kf(unsigned w, u64 bits) { return mkraw(OP_FCONST, w, 1, 0, 0, 0, bits); }
static u32 dyite(u32 c, u32 a, u32 b) {
  Dy x, y; if (asdy(a, &x) && asdy(b, &y)) { int s = x.s > y.s ? x.s : y.s; if (dyscale(&x, s) && dyscale(&y, s)) return mkdy(mkite(c, x.m, y.m), s, x.lo < y.lo ? x.lo : y.lo, x.hi > y.hi ? x.hi : y.hi); }
  u32 m[2]; int k[2]; i64 lo[2], hi[2]; u32 n[2] = {a, b};
  for (int i = 0; i < 2; i++) {
    if (N[n[i]].op == OP_FDEC) { m[i] = N[n[i]].a; k[i] = (int)(i64)N[n[i]].imm; rng(m[i], &lo[i], &hi[i]); if (lo[i] < -DLIM) lo[i] = -DLIM; if (hi[i] > DLIM) hi[i] = DLIM; }
    else if (N[n[i]].op == OP_FCONST) { double v = b2d(N[n[i]].val); bool ok = false; if (v == v && fabs(v) < 1e9 && !(v == 0 && signbit(v))) for (int e = 0; e <= 6 && !ok; e++) { i64 t = (i64)llround(v * P10[e]); if (decval(t, e) == v) { ok = true; k[i] = e; lo[i] = hi[i] = t; m[i] = kc(64, (u64)t); } } if (!ok) return 0; }
    else return 0;
  }
  int K = k[0] > k[1] ? k[0] : k[1];
  for (int i = 0; i < 2; i++) if (k[i] < K) { if (K - k[i] > 15) return 0; i64 f = (i64)P10[K - k[i]]; if ((__int128)lo[i] * f <= -(__int128)DLIM || (__int128)hi[i] * f >= (__int128)DLIM) return 0; m[i] = mkbin(OP_MUL, m[i], kc(64, (u64)f)); }
  return mkraw(OP_FDEC, 64, 1, mkite(c, m[0], m[1]), 0, 0, (u64)(i64)K);
}
static u32 mkftobv(u32 x) {
  if (isk(x)) return kc(N[x].width, N[x].val);
  if (N[x].op == OP_BVTOF) return N[x].a;
  return mkraw(OP_FTOBV, N[x].width, 0, x, 0, 0, 0);
}
static u32 mkbvtof(u32 x) {
  if (isk(x)) return kf(N[x].width, N[x].val);
  if (N[x].op == OP_FTOBV) return N[x].a;
  return mkraw(OP_BVTOF, N[x].width, 1, x, 0, 0, 0);
}
static inline u32 out(u32 n) { return isk(n) ? 0 : n; }
static inline u32 in(u32 sh, u64 v, unsigned w) { return sh ? sh : kc(w, v); }

// ------------------------------------------------------------------ decisions
static void decide(u32 node, bool taken, u8 kind, u32 site, u64 val) {
  const bool held = taken;  // an assumption that held needs no alternative
  // normalise NOT
  if (kind != D_CONC) { while (N[node].op == OP_NOT) { node = N[node].a; taken = !taken; } }
  if (isk(node)) return;
  if (kind != D_CONC && decided[node]) return;
  if (kind == D_CONC) { // is this exact value already forced?
    if (N[node].width == 1) { kind = D_BR; taken = val & 1; if (decided[node]) return; }
    else { u32 eq = mkcmp(OP_EQ, node, kc(N[node].width, val)); if (isk(eq) || decided[eq] == 1) return; decided[eq] = 1; }
  }
  if (kind != D_CONC) {
    decided[node] = taken ? 1 : 2;
    // split conjunctions that hold / disjunctions that do not: their parts are known too
    u32 st[32]; int sp = 0; u32 x = node; bool t = taken; st[sp++] = x;
    while (sp) { x = st[--sp]; bool v = decided[x] == 1; if ((N[x].op == OP_AND && v) || (N[x].op == OP_OR && !v)) for (u32 y : {N[x].a, N[x].b}) { bool vv = v; while (N[y].op == OP_NOT) { y = N[y].a; vv = !vv; } if (!isk(y) && !decided[y]) { decided[y] = vv ? 1 : 2; if (sp < 30) st[sp++] = y; } } (void)t; }
  }
  u32 i = kv_shm->ndec;
  if (i >= KV_MAXDEC - 1) die(ST_FULL, "too many decisions on one path");
  KvDec& d = kv_shm->dec[i]; d.node = node; d.site = site; d.kind = kind; d.taken = taken; d.val = val; d.pad = kind == D_ASSUME && held;
  kv_shm->ndec = i + 1; kv_shm->nnodes = nn;
}
extern "C" {
void __kv_br(u32 c, bool t, u32 site) { if (c) { if ((N[c].val & 1) != t) { kv_shm->lost++; return; } decide(c, t, D_BR, site, 0); } }
void __kv_conc(u32 s, u64 v, u32 site) { if (s) { if (N[s].fp) { u32 b = mkftobv(s); decide(b, true, D_CONC, site, N[s].val); } else decide(s, true, D_CONC, site, N[s].val); } }
void __kv_sw(u32 s, u64 v, u32 w, u32 n, u32 site, const u64* tab) {
  if (!s) return;
  // which successor is taken?  group the cases by successor and branch group by group
  u64 dst = 0; for (u32 i = 0; i < n; i++) if (tab[2 * i] == v) dst = tab[2 * i + 1];
  u64 maxs = 0; for (u32 i = 0; i < n; i++) if (tab[2 * i + 1] > maxs) maxs = tab[2 * i + 1];
  for (u64 g = 1; g <= maxs; g++) {
    u32 cond = kc(1, 0); bool any = false;
    for (u32 i = 0; i < n; i++) if (tab[2 * i + 1] == g) { cond = mkbin(OP_OR, cond, mkcmp(OP_EQ, s, kc(w, tab[2 * i]))); any = true; }
    if (any) { decide(cond, dst == g, D_BR, site, 0); if (dst == g) return; }
  }
}
// ------------------------------------------------------------------ expression entry points
u32 __kv_bin(u32 op, u32 w, u32 a, u32 b, u64 ca, u64 cb) {
  if (!(a | b)) return 0;
  u32 x = in(a, ca, w), y = in(b, cb, w);
  if ((op == OP_UDIV || op == OP_SDIV || op == OP_UREM || op == OP_SREM) && b) decide(mkcmp(OP_EQ, y, kc(w, 0)), cb == 0, D_BR, 0, 0);
  return out(mkbin(op, x, y));
}
u32 __kv_cmp(u32 p, u32 w, u32 a, u32 b, u64 ca, u64 cb) {
  if (!(a | b)) return 0;
  u32 x = in(a, ca, w), y = in(b, cb, w);
  switch (p) {  // llvm::CmpInst predicates
    case 32: return out(mkcmp(OP_EQ, x, y)); case 33: return out(mknot(mkcmp(OP_EQ, x, y)));
    case 34: return out(mkcmp(OP_ULT, y, x)); case 35: return out(mkcmp(OP_ULE, y, x));
    case 36: return out(mkcmp(OP_ULT, x, y)); case 37: return out(mkcmp(OP_ULE, x, y));
    case 38: return out(mkcmp(OP_SLT, y, x)); case 39: return out(mkcmp(OP_SLE, y, x));
    case 40: return out(mkcmp(OP_SLT, x, y)); case 41: return out(mkcmp(OP_SLE, x, y));
  }
  return 0;
}
u32 __kv_cast(u32 op, u32 fw, u32 tw, u32 a) {
  if (!a) return 0;
  switch (op) {
    case CA_ZEXT: return out(mkzext(a, tw)); case CA_SEXT: return out(mksext(a, tw)); case CA_TRUNC: return out(mkext(a, 0, tw)); case CA_NOP: return a;
    case CA_SITOFP: if (tw == 64 && N[a].width <= 48) return mkraw(OP_FDEC, 64, 1, mksext(a, 64), 0, 0, 0); return mkraw(OP_SITOFP, tw, 1, a, 0, 0, 0);
    case CA_UITOFP: if (tw == 64 && N[a].width <= 48) return mkraw(OP_FDEC, 64, 1, mkzext(a, 64), 0, 0, 0); return mkraw(OP_UITOFP, tw, 1, a, 0, 0, 0);
    case CA_FPTOSI: { Dy x; if (asdy(a, &x)) return out(mkext(x.s ? mkbin(OP_SDIV, x.m, kc(64, 1ull << x.s)) : x.m, 0, tw)); } if (N[a].op == OP_FDEC) { int k = (int)(i64)N[a].imm; u32 m = N[a].a; if (k > 0) m = mkbin(OP_SDIV, m, kc(64, (u64)P10[k])); else if (k < 0) m = mkbin(OP_MUL, m, kc(64, (u64)P10[-k])); return out(mkext(m, 0, tw)); }
      return mkraw(OP_FPTOSI, tw, 0, a, 0, 0, 0);
    case CA_FPTOUI: return mkraw(OP_FPTOUI, tw, 0, a, 0, 0, 0);
    case CA_FPEXT: case CA_FPTRUNC: return mkraw(OP_FPCAST, tw, 1, a, 0, 0, 0);
    case CA_FTOBV: return out(mkftobv(a)); case CA_BVTOF: return out(mkbvtof(a));
  }
  return 0;
}
static u32 fin(u32 sh, double v, u32 k) { return sh ? sh : kf(k == 2 ? 32 : 64, fpbits(v, k == 2 ? 32 : 64)); }
u32 __kv_fbin(u32 op, u32 k, u32 a, u32 b, double x, double y) {
  if (!(a | b)) return 0;
  u32 p = fin(a, x, k), q = fin(b, y, k); u32 w = k == 2 ? 32 : 64;
  u8 o = 0;
  switch (op) { case 14: o = OP_FADD; break; case 16: o = OP_FSUB; break; case 18: o = OP_FMUL; break; case 21: o = OP_FDIV; break; default: __kv_conc(a, 0, 0); __kv_conc(b, 0, 0); return 0; }
  return mkf(o, w, p, q);
}
static bool nonan(u32 n) { if (N[n].op == OP_FCONST) { double d = fpval(n); return d == d; } if (N[n].op == OP_FNEG || N[n].op == OP_FABS) return nonan(N[n].a); return N[n].op == OP_FDEC || N[n].op == OP_SITOFP || N[n].op == OP_UITOFP; }
// FDEC against constants and other FDECs becomes integer comparison (rounding is monotone and injective for <= 15 digits)
static bool intdec(double d, int k, i64* m) { double x = k >= 0 ? d * P10[k] : d / P10[-k]; if (!(fabs(x) < 1e15)) return false; i64 r = (i64)llround(x); if (decval(r, k) == d) { *m = r; return true; } return false; }
struct DecD { u32 node; int n, neg; u32 sh[20]; char c[20]; }; static DecD decd[2048]; static u32 ndecd = 0;
static DecD* finddec(u32 node) { for (u32 i = 0; i < ndecd; i++) if (decd[i].node == node) return &decd[i]; return 0; }
// equality of two decimals whose digit bytes are known: digit by digit (all bytes are digits on this path)
static u32 deceq(DecD* a, int ka, DecD* b, int kb) {
  if (a->neg != b->neg) return kc(1, 0);
  int hi = a->n - ka > b->n - kb ? a->n - ka : b->n - kb, lo = ka > kb ? ka : kb; u32 r = kc(1, 1);
  for (int pos = -hi; pos < lo; pos++) {  // pos = digit weight 10^-(pos+1)
    int i = a->n - ka + pos, j = b->n - kb + pos;
    u32 x = i >= 0 && i < a->n ? (a->sh[i] ? a->sh[i] : kc(8, (u8)a->c[i])) : kc(8, '0'), y = j >= 0 && j < b->n ? (b->sh[j] ? b->sh[j] : kc(8, (u8)b->c[j])) : kc(8, '0');
    r = mkbin(OP_AND, r, mkcmp(OP_EQ, x, y));
  }
  return r;
}
static u32 fcmp2(u8 op, u32 p, u32 q) {  // op: FEQ FLT FLE
  if (isk(p) && isk(q)) return kc(1, ev(op, 1, 0, 0, &N[p], &N[q], 0, N[p].val, N[q].val, 0));
  if (N[p].width == 64) {
    Dy x, y; if (asdy(p, &x) && asdy(q, &y) && !isk(p) && !isk(q)) { int s = x.s > y.s ? x.s : y.s; if (dyscale(&x, s) && dyscale(&y, s)) return mkcmp(op == OP_FEQ ? OP_EQ : op == OP_FLT ? OP_SLT : OP_SLE, x.m, y.m); }
    if (N[p].op == OP_FDEC && N[q].op == OP_FDEC) {
      int k1 = (int)(i64)N[p].imm, k2 = (int)(i64)N[q].imm; u32 m1 = N[p].a, m2 = N[q].a; int k = k1 > k2 ? k1 : k2;
      if (op == OP_FEQ) { if (p == q) return kc(1, 1); DecD *x = finddec(p), *y = finddec(q); if (x && y) return deceq(x, k1, y, k2); }
      i64 l1, h1, l2, h2; rng(m1, &l1, &h1); rng(m2, &l2, &h2); auto fits = [](i64 lo, i64 hi, int e) { return e <= 15 && (__int128)lo * (i64)P10[e] > -(__int128)DLIM && (__int128)hi * (i64)P10[e] < (__int128)DLIM; };
      if ((k - k1 <= 3 && k - k2 <= 3) || (fits(l1, h1, k - k1) && fits(l2, h2, k - k2))) {
        if (k > k1) m1 = mkbin(OP_MUL, m1, kc(64, (u64)P10[k - k1])); if (k > k2) m2 = mkbin(OP_MUL, m2, kc(64, (u64)P10[k - k2]));
        return mkcmp(op == OP_FEQ ? OP_EQ : op == OP_FLT ? OP_SLT : OP_SLE, m1, m2);
      }
    }
    if (N[p].op == OP_FDEC && isk(q) || N[q].op == OP_FDEC && isk(p)) {
      bool sw = isk(p); u32 d = sw ? q : p; double c = fpval(sw ? p : q); int k = (int)(i64)N[d].imm; u32 m = N[d].a;
      if (c != c) return kc(1, 0);
      // smallest T with dec(T) >= c  (lo), smallest U with dec(U) > c (hi)
      const i64 LIM = 1000000000000000ll;
      auto thr = [&](bool strict) { i64 lo = -LIM - 1, hi = LIM + 1; while (hi - lo > 1) { i64 mid = lo + (hi - lo) / 2; double v = decval(mid, k); if (strict ? v > c : v >= c) hi = mid; else lo = mid; } return hi; };
      i64 T = thr(false), U = thr(true);
      u32 kT = kc(64, (u64)T), kU = kc(64, (u64)U);
      if (op == OP_FEQ) { if (T == U) return kc(1, 0); return mkcmp(OP_EQ, m, kT); }
      if (!sw) return op == OP_FLT ? mkcmp(OP_SLT, m, kT) : mkcmp(OP_SLT, m, kU);
      return op == OP_FLT ? mkcmp(OP_SLE, kU, m) : mkcmp(OP_SLE, kT, m);
    }
  }
  return mkraw(op, 1, 0, p, q, 0, 0);
}
u32 __kv_fcmp(u32 pr, u32 k, u32 a, u32 b, double x, double y) {
  if (!(a | b)) return 0;
  u32 p = fin(a, x, k), q = fin(b, y, k);
  u32 uno = (nonan(p) && nonan(q)) ? kc(1, 0) : p == q ? mkraw(OP_FUNO, 1, 0, p, p, 0, 0) : mkraw(OP_FUNO, 1, 0, p, q, 0, 0);
  u32 r = kc(1, 0);
  if (pr == 7) return out(mknot(uno));
  if (pr == 8) return out(uno);
  if (pr == 0) return 0; if (pr == 15) return 0;
  unsigned q3 = pr & 7;  // 1 eq 2 gt 3 ge 4 lt 5 le 6 ne
  switch (q3) {
    case 1: r = fcmp2(OP_FEQ, p, q); break; case 2: r = fcmp2(OP_FLT, q, p); break; case 3: r = fcmp2(OP_FLE, q, p); break;
    case 4: r = fcmp2(OP_FLT, p, q); break; case 5: r = fcmp2(OP_FLE, p, q); break;
    case 6: r = mkbin(OP_AND, mknot(fcmp2(OP_FEQ, p, q)), mknot(uno)); break;
  }
  if (pr & 8) r = mkbin(OP_OR, r, uno);
  return out(r);
}
u32 __kv_fun(u32 op, u32 k, u32 a) {
  if (!a) return 0;
  u32 w = k == 2 ? 32 : 64;
  switch (op) { case FU_NEG: return mkraw(OP_FNEG, w, 1, a, 0, 0, 0); case FU_ABS: return mkraw(OP_FABS, w, 1, a, 0, 0, 0); case FU_SQRT: return mkraw(OP_FSQRT, w, 1, a, 0, 0, 0); default: return mkraw(OP_FROUND, w, 1, a, 0, 0, op); }
}
u32 __kv_sel(u32 c, bool cv, u32 a, u32 b, u64 va, u64 vb, u32 wk) {
  if (!c) return cv ? a : b;
  u32 w = wk & 0xff, k = wk >> 8;
  u32 x = a ? a : k ? kf(w, va) : kc(w, va), y = b ? b : k ? kf(w, vb) : kc(w, vb);
  return out(mkite(c, x, y));
}
u32 __kv_intr(u32 id, u32 w, u32 a, u32 b, u32 c, u64 x, u64 y, u64 z) {
  __kv_retsh[1] = 0;
  if (!(a | b | c)) return 0;
  u32 p = in(a, x, w), q = id == IN_BSWAP ? 0 : in(b, y, w);
  switch (id) {
    case IN_UADDO: { u32 s = mkbin(OP_ADD, p, q); __kv_retsh[1] = out(mkcmp(OP_ULT, s, p)); return out(s); }
    case IN_USUBO: { u32 s = mkbin(OP_SUB, p, q); __kv_retsh[1] = out(mkcmp(OP_ULT, p, q)); return out(s); }
    case IN_UADDS: { u32 s = mkbin(OP_ADD, p, q); return out(mkite(mkcmp(OP_ULT, s, p), kc(w, ~0ull), s)); }
    case IN_USUBS: { u32 s = mkbin(OP_SUB, p, q); return out(mkite(mkcmp(OP_ULT, p, q), kc(w, 0), s)); }
    case IN_SADDO: case IN_SSUBO: if (w < 64) { u32 s = mkbin(id == IN_SADDO ? OP_ADD : OP_SUB, p, q); u32 l = mkbin(id == IN_SADDO ? OP_ADD : OP_SUB, mksext(p, w + 1), mksext(q, w + 1)); __kv_retsh[1] = out(mknot(mkcmp(OP_EQ, l, mksext(s, w + 1)))); return out(s); } break;
    case IN_UMULO: case IN_SMULO: if (w <= 32) { bool u = id == IN_UMULO; u32 l = mkbin(OP_MUL, u ? mkzext(p, 2 * w) : mksext(p, 2 * w), u ? mkzext(q, 2 * w) : mksext(q, 2 * w)); u32 s = mkext(l, 0, w); __kv_retsh[1] = out(mknot(mkcmp(OP_EQ, l, u ? mkzext(s, 2 * w) : mksext(s, 2 * w)))); return out(s); }
      if (!b && y) { // 64-bit multiply by a constant
        if (id == IN_UMULO) { u32 s = mkbin(OP_MUL, p, q); __kv_retsh[1] = out(mkcmp(OP_ULT, kc(w, ~0ull / y), p)); return out(s); } }
      break;
    case IN_BSWAP: { u32 r = mkext(p, 0, 8); for (u32 i = 8; i < w; i += 8) r = mkconcat(r, mkext(p, i, 8)); return out(r); }
    case IN_FSHL: case IN_FSHR: if (!c) { u32 s = z % w; u32 hi = p, lo = q; if (s == 0) return out(id == IN_FSHL ? p : q); u32 sh = id == IN_FSHL ? s : w - s;
        return out(mkconcat(mkext(hi, 0, w - sh), mkext(lo, w - sh, sh))); } break;
  }
  __kv_conc(a, x, 0); __kv_conc(b, y, 0); __kv_conc(c, z, 0);
  return 0;
}
u32 __kv_gep(u32 bs, const void* base, u32 is, u64 idx, u64 scale, u64 off) {
  if (!(bs | is)) return 0;
  u32 r = in(bs, (u64)base, 64);
  if (is) r = mkbin(OP_ADD, r, mkbin(OP_MUL, is, kc(64, scale))); else r = mkbin(OP_ADD, r, kc(64, idx * scale));
  r = mkbin(OP_ADD, r, kc(64, off));
  return out(r);
}
}
// ------------------------------------------------------------------ shadow memory
struct Page { u64 key; u32* sh; };
static Page* PT = 0; static const u32 PTN = 1u << 16; static u64 lastk = ~0ull; static u32* lastp = 0;
static u8 filt[1 << 16];  // page filter: page (hashed) may hold symbolic bytes
static inline u32 ph(u64 k) { return (u32)((k * 0x9E3779B97F4A7C15ull) >> 48); }
static u32* page(u64 k, bool create) {
  if (k == lastk) return lastp;
  u32 i = ph(k);
  if (!filt[i] && !create) return 0;
  while (PT[i].sh) { if (PT[i].key == k) { lastk = k; lastp = PT[i].sh; return lastp; } i = (i + 1) & (PTN - 1); }
  if (!create) return 0;
  filt[ph(k)] = 1;
  PT[i].key = k; PT[i].sh = (u32*)mmap(0, 4096 * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  lastk = k; lastp = PT[i].sh; return lastp;
}
static inline u32 getb(u64 a) { u32* p = page(a >> 12, false); return p ? p[a & 4095] : 0; }
static inline void setb(u64 a, u32 s) { u32* p = page(a >> 12, s != 0); if (p) p[a & 4095] = s; }
static bool anysym(u64 a, u64 n) {  // quick page-level test
  for (u64 k = a >> 12; k <= (a + n - 1) >> 12; k++) if (filt[ph(k)]) return true;
  return false;
}
extern "C" {
void __kv_clear(void* p, u64 n) {
  if (!active || !n || !anysym((u64)p, n)) return;
  u64 a = (u64)p;
  while (n) { u32* g = page(a >> 12, false); u64 o = a & 4095, c = 4096 - o < n ? 4096 - o : n; if (g) memset(g + o, 0, c * 4); a += c; n -= c; }
}
u32 __kv_load(const void* p, u32 sz, u64 val, u32 kw) {
  if (!active) return 0;
  u64 a = (u64)p;
  if (!filt[ph(a >> 12)] && !filt[ph((a + sz - 1) >> 12)]) return 0;
  u32 s[8]; bool any = false;
  for (u32 i = 0; i < sz; i++) { s[i] = getb(a + i); if (s[i]) { if (N[s[i]].val != ((val >> (8 * i)) & 0xff)) { setb(a + i, 0); s[i] = 0; kv_shm->lost++; } else any = true; } }
  if (!any) return 0;
  u32 k = kw & 0xff, w = kw >> 8;
  u32 r = in(s[sz - 1], (val >> (8 * (sz - 1))) & 0xff, 8);
  for (int i = sz - 2; i >= 0; i--) r = mkconcat(r, in(s[i], (val >> (8 * i)) & 0xff, 8));
  if (k) return out(mkbvtof(r));
  if (w != sz * 8) r = mkext(r, 0, w);
  return out(r);
}
void __kv_store(void* p, u32 sz, u32 sh, u32 k, u32 w, u32) {
  if (!active) return;
  u64 a = (u64)p;
  if (!sh) { if (!filt[ph(a >> 12)] && !filt[ph((a + sz - 1) >> 12)]) return; for (u32 i = 0; i < sz; i++) setb(a + i, 0); return; }
  u32 v = k ? mkftobv(sh) : sh;
  if (N[v].width < sz * 8) v = mkzext(v, sz * 8);
  for (u32 i = 0; i < sz; i++) setb(a + i, out(mkext(v, 8 * i, 8)));
}
void __kv_memcpy(void* d, const void* s, u64 n) {
  if (!active || !n || d == s) return;
  if (!anysym((u64)s, n)) { __kv_clear(d, n); return; }
  u64 x = (u64)d, y = (u64)s;
  const u8* sp = (const u8*)s;
  if (x < y || x >= y + n) for (u64 i = 0; i < n; i++) { u32 t = getb(y + i); if (t && N[t].val != sp[i]) t = 0; setb(x + i, t); }
  else for (u64 i = n; i-- > 0;) { u32 t = getb(y + i); if (t && N[t].val != sp[i]) t = 0; setb(x + i, t); }
}
void __kv_byval(void* d, const void* s, u64 n) { if (s) __kv_memcpy(d, s, n); else __kv_clear(d, n); }
void __kv_memset(void* d, u32 sh, u64 n) {
  if (!active || !n) return;
  if (!sh) { __kv_clear(d, n); return; }
  u32 b = N[sh].width > 8 ? mkext(sh, 0, 8) : sh;
  for (u64 i = 0; i < n; i++) setb((u64)d + i, out(b));
}
int __kv_memcmpv(const void* x, const void* y, u64 n) {
  const u8 *a = (const u8*)x, *b = (const u8*)y;
  __kv_retsh[0] = 0;
  int r = 0; for (u64 i = 0; i < n; i++) if (a[i] != b[i]) { r = (int)a[i] - (int)b[i]; break; }
  if (!active || !n || (!anysym((u64)a, n) && !anysym((u64)b, n))) return r;
  bool any = false;
  // stop at the first byte that is concretely different with both sides concrete
  u64 m = n; for (u64 i = 0; i < n; i++) { u32 p = getb((u64)a + i), q = getb((u64)b + i); if (p && N[p].val != a[i]) { setb((u64)a + i, 0); p = 0; } if (q && N[q].val != b[i]) { setb((u64)b + i, 0); q = 0; } if (p | q) any = true; else if (a[i] != b[i]) { m = i + 1; break; } }
  if (!any) return r;
  u32 e = kc(32, 0);
  for (u64 i = m; i-- > 0;) {
    u32 p = in(getb((u64)a + i), a[i], 8), q = in(getb((u64)b + i), b[i], 8);
    u32 d = mkbin(OP_SUB, mkzext(p, 32), mkzext(q, 32));
    e = mkite(mkcmp(OP_EQ, p, q), e, d);
  }
  __kv_retsh[0] = out(e);
  return r;
}
void __kv_conc_mem(void* p, u64 n, u32 site) {
  if (!active || !n || !anysym((u64)p, n)) return;
  for (u64 i = 0; i < n; i++) { u32 s = getb((u64)p + i); if (!s) continue; if (N[s].val != ((u8*)p)[i]) { setb((u64)p + i, 0); continue; } decide(s, true, D_CONC, site, N[s].val); setb((u64)p + i, 0); }
}
// a zlib stream: its fields and its pending input are concretised, its output becomes concrete
void __kv_zstream(void* p, u32 site) {
  if (!active || !p) return;
  __kv_conc_mem(p, 112, site);
  struct Z { u8* in; u32 nin; u64 tin; u8* out; u32 nout; } z; memcpy(&z, p, sizeof z);
  if (z.in && z.nin) __kv_conc_mem(z.in, z.nin, site);
  if (z.out && z.nout) __kv_clear(z.out, z.nout);
}
// a native function receives p: concretise the symbolic bytes it could read
void __kv_natptr(void* p, u32 site, u32 cond) {
  if (!active || !cond || !p) return;
  u64 a = (u64)p;
  if (!anysym(a, 512)) return;
  u64 n = 512;
  // follow contiguous memory: scan a window, extend while symbolic bytes keep appearing
  u64 last = 0;
  for (u64 i = 0; i < n && i < last + 512; i++) { u32 s = getb(a + i); if (s) { last = i; n = i + 512;
      u8 cur; struct iovec l = {&cur, 1}, r = {(void*)(a + i), 1}; if (process_vm_readv(getpid(), &l, 1, &r, 1, 0) != 1) { setb(a + i, 0); continue; }
      if (N[s].val != cur) { setb(a + i, 0); continue; }
      kv_shm->natconc++; decide(s, true, D_CONC, site, N[s].val); } }
}
static int cmpp(const void* a, const void* b) { u64 x = *(u64*)a, y = *(u64*)b; return x < y ? -1 : x > y; }
static u64* fnt = 0; static size_t nfn = 0;
static bool isinstr(void* f) {
  if (!fnt) { size_t n = 0; while (__kv_fntab[n]) n++; fnt = (u64*)malloc(8 * (n + 1)); memcpy(fnt, __kv_fntab, 8 * n); nfn = n; qsort(fnt, n, 8, cmpp); }
  u64 k = (u64)f; return bsearch(&k, fnt, nfn, 8, cmpp) != 0;
}
u32 __kv_indirect(void* f, u32 slots, u32 site) {
  if (!active) return 0;
  if (isinstr(f)) return 0;
  for (u32 i = 0; i < slots; i++) if (__kv_argsh[i]) { kv_shm->natconc++; __kv_conc(__kv_argsh[i], 0, site); }
  return 1;
}
// evaluate node with variable set to x
static u32* stampv; static u64* evv; static u32 stampc = 0;
static u32 pivot;
static u64 evalsub(u32 n, u64 x) {
  if (n == pivot) return x;
  if (isk(n)) return N[n].val;
  if (N[n].op == OP_VAR) return N[n].val;
  if (stampv[n] == stampc) return evv[n];
  const KvNode& d = N[n];
  u64 a = d.a ? evalsub(d.a, x) : 0, b = d.b ? evalsub(d.b, x) : 0, c = d.c ? evalsub(d.c, x) : 0;
  u64 r = ev(d.op, d.width, d.fp, d.imm, &N[d.a], &N[d.b], &N[d.c], a, b, c);
  stampv[n] = stampc; evv[n] = r; return r;
}
u32 __kv_ldaddr(const void* p, u32 as, u32 sz, u32 kw, u32 site) {
  u64 val = 0; memcpy(&val, p, sz);
  if (!as || !active) return __kv_load(p, sz, val, kw);
  uint16_t v = N[as].var;
  u32 k = kw & 0xff, w = kw >> 8;
  pivot = 0;
  if (v != VNONE && v != VMANY) pivot = mkraw(OP_VAR, 8, 0, 0, 0, 0, v);
  else { // address = constant + scale * (narrow expression)
    u32 x = as;
    for (int i = 0; i < 12; i++) {
      if (N[x].width <= 8) { pivot = x; break; }
      u8 o = N[x].op;
      if ((o == OP_ADD || o == OP_MUL) && isk(N[x].b)) x = N[x].a; else if (o == OP_ZEXT || o == OP_SEXT) x = N[x].a; else if (o == OP_CONCAT && isk(N[x].b)) x = N[x].a; else break;
    }
  }
  if (pivot && !k) {
    if (!stampv) { stampv = (u32*)mmap(0, KV_MAXNODE * 4ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); evv = (u64*)mmap(0, KV_MAXNODE * 8ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    u64 ad[256]; u64 lo = ~0ull, hi = 0; bool symb = false;
    int top = (int)msk(N[pivot].width), pw = N[pivot].width;
    for (int x = 0; x <= top; x++) { stampc++; ad[x] = evalsub(as, x); if (ad[x] < lo) lo = ad[x]; if (ad[x] > hi) hi = ad[x]; }
    Dl_info di; bool global = dladdr((void*)ad[0], &di) != 0;  // tables in loaded images only: heap and stack addresses are enumerated
    if (hi - lo <= 8192 && (global || top < 16)) {
      static u8 buf[8192 + 16]; struct iovec l = {buf, hi - lo + sz}, r = {(void*)lo, hi - lo + sz};
      bool ok = process_vm_readv(getpid(), &l, 1, &r, 1, 0) == (ssize_t)(hi - lo + sz);
      if (ok && anysym(lo, hi - lo + sz)) for (u64 i = lo; i < hi + sz; i++) if (getb(i)) symb = true;
      if (ok && !symb) {
        u32 var = pivot;
        u32 e = 0; u64 prev = 0;
        for (int x = top; x >= 0; x--) {
          u64 t = 0; memcpy(&t, buf + (ad[x] - lo), sz); t &= msk(w);
          if (x == top) { e = kc(w, t); prev = t; continue; }
          if (t != prev) { e = mkraw(OP_ITE, w, 0, mkraw(OP_ULE, 1, 0, var, kc(pw, x), 0, 0), kc(w, t), e, 0); prev = t; }
        }
        return out(e);
      }
    }
  }
  decide(as, true, D_CONC, site, N[as].val);
  return __kv_load(p, sz, val, kw);
}
// ------------------------------------------------------------------ harness API
static u32 ninput = 0;
void __kv_sym_(void* p, size_t n, int dflt) {
  u8* b = (u8*)p;
  for (size_t i = 0; i < n; i++) {
    u32 ix = ninput++;
    if (ix >= KV_MAXIN) die(ST_FULL, "too many input bytes");
    if (ix >= kv_shm->nin) { kv_shm->in[ix] = (u8)dflt; kv_shm->nin = ix + 1; }
    b[i] = kv_shm->in[ix];
    if (active) setb((u64)(b + i), mkraw(OP_VAR, 8, 0, 0, 0, 0, ix));
  }
  kv_shm->used = ninput;
}
void __kv_assert_(bool c, const char* msg) {
  u32 s = __kv_argsh[0]; __kv_argsh[0] = 0;
  kv_shm->reached++;
  if (active && s && (N[s].val & 1) == c) decide(s, c, D_ASSERT, 0, 0);
  if (!c) { kv_shm->nnodes = nn; die(ST_ASSERT, msg); }
}
void __kv_assume_(bool c) {
  u32 s = __kv_argsh[0]; __kv_argsh[0] = 0;
  if (active && s && (N[s].val & 1) == c) decide(s, c, D_ASSUME, 0, 0);
  if (!c) die(ST_ASSUME, "");
}
void __kv_obs_(const void* p, size_t n) {
  const u8* b = (const u8*)p; u64 h = kv_shm->obs;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; }
  h ^= n + 1; h *= 0x100000001b3ull; kv_shm->obs = h; kv_shm->nobs++;
}
int __kv_tier_() { return kv_shm->tier; }
void __kv_conc_(void* p, size_t n) { __kv_conc_mem(p, n, 0); }
double __kv_mkdec(i64 m, int k, double conc, const char* digs, int n) {
  u32 s = __kv_argsh[0]; __kv_argsh[0] = 0; __kv_retsh[0] = 0;
  if (s && k >= -22 && k <= 22 && decval(m, k) == conc && !(m == 0 && signbit(conc))) {
    u32 r = mkraw(OP_FDEC, 64, 1, s, 0, 0, (u64)(i64)k); __kv_retsh[0] = r;
    bool have = false; for (u32 i = 0; i < ndecd; i++) if (decd[i].node == r) have = true;
    if (!have && digs && n <= 20 && ndecd < 2048) { DecD& d = decd[ndecd++]; d.node = r; d.n = n; d.neg = m < 0; for (int i = 0; i < n; i++) { d.sh[i] = getb((u64)(digs + i)); d.c[i] = digs[i]; } }
  } else if (s) decide(s, true, D_CONC, 0, N[s].val);
  return conc;
}
int __kv_decdig(double v, char* out, int* neg) {
  u32 s = __kv_argsh[0]; __kv_argsh[0] = 0; if (!s) return -1;
  for (u32 i = 0; i < ndecd; i++) if (decd[i].node == s) { *neg = decd[i].neg; for (int j = 0; j < decd[i].n; j++) { out[j] = decd[i].c[j]; setb((u64)(out + j), decd[i].sh[j]); } return decd[i].n; }
  return -1;
}
// native helpers for values that left the decimal domain: their symbolic inputs are enumerated
double __kv_strtod(const char* b, int* st) {
  for (u32 i = 0; b[i]; i++) { u32 s = getb((u64)(b + i)); if (s) { decide(s, true, D_CONC, 0, N[s].val); setb((u64)(b + i), 0); } }
  char* e; double d = strtod(b, &e); *st = 0; if (e == b || *e) { *st = 1; return 0; } if (d > 1.7976931348623157e308) { *st = 1; d = 1.7976931348623157e308; } if (d < -1.7976931348623157e308) { *st = 1; d = -1.7976931348623157e308; } return d;
}
int __kv_fmtd(char* out, int prec, double v) {
  u32 s = __kv_argsh[2]; __kv_argsh[2] = 0; if (s) __kv_conc(s, 0, 0);
  char b[64]; int n = snprintf(b, 64, "%.*g", prec, v); if (n > 60) n = 60; memcpy(out, b, n); __kv_clear(out, n); return n;
}
int __kv_issym(double d) {  // 0 concrete, 1 decimal (FDEC), 2 other symbolic
  u32 s = __kv_argsh[0]; __kv_argsh[0] = 0;
  if (!s) return 0;
  return N[s].op == OP_FDEC ? 1 : 2;
}
i64 __kv_decm(double d) { u32 s = __kv_argsh[0]; __kv_argsh[0] = 0; __kv_retsh[0] = 0; if (!s || N[s].op != OP_FDEC) return 0; __kv_retsh[0] = out(N[s].a); return (i64)N[N[s].a].val; }
int __kv_deck(double d) { u32 s = __kv_argsh[0]; __kv_argsh[0] = 0; if (!s || N[s].op != OP_FDEC) return 0; return (int)(i64)N[s].imm; }
int __kv_dpoint(void* ios) { bool a = active; active = false; std::locale l = ((std::ios_base*)ios)->getloc(); int r = '.'; if (!(l == std::locale::classic())) r = std::use_facet<std::numpunct<char> >(l).decimal_point(); active = a; __kv_retsh[0] = 0; return r; }
void* __kv_malloc(size_t n) { void* p = malloc(n); if (p && active) __kv_clear(p, malloc_usable_size(p)); return p; }
void* __kv_calloc(size_t a, size_t b) { void* p = calloc(a, b); if (p && active) __kv_clear(p, malloc_usable_size(p)); return p; }
void* __kv_realloc(void* o, size_t n) { size_t os = o ? malloc_usable_size(o) : 0; void* p = realloc(o, n); if (p && active && p != o) { size_t c = os < n ? os : n; __kv_memcpy(p, o, c); } return p; }
void __kv_free(void* p) { if (p && active) __kv_clear(p, malloc_usable_size(p)); free(p); }
}
// ------------------------------------------------------------------ child process
static void onsig(int s) { if (!kv_shm) _exit(1); kv_shm->nnodes = nn; kv_shm->sig = s; kv_shm->status = (s == SIGALRM || s == SIGPROF) ? ST_TIMEOUT : ST_CRASH; snprintf(kv_shm->msg, sizeof kv_shm->msg, "%s", s == SIGPROF ? "no termination within the time limit" : s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "abort (uncaught exception?)" : "fatal signal"); _exit(0); }
extern "C" void __kv_run_harness_(const char* name);
void kvrt_init(KvShm* s) {  // once, before the fork server loop
  kv_shm = s; N = s->nodes;
  HT = (u32*)mmap(0, HSZ * 4ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  decided = (u8*)mmap(0, KV_MAXNODE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  PT = (Page*)mmap(0, PTN * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
void kvrt_child() {  // runs one path, never returns
  static char altstk[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF, SIGALRM}) sigaction(s, &sa, 0);
  int fd = open("/dev/null", O_RDWR); dup2(fd, 1); dup2(fd, 2);
  kv_shm->status = ST_NONE; kv_shm->ndec = 0; kv_shm->nnodes = 1; kv_shm->obs = 0xcbf29ce484222325ull; kv_shm->nobs = 0; kv_shm->used = 0; kv_shm->reached = 0; kv_shm->natconc = 0; kv_shm->lost = 0; kv_shm->msg[0] = 0; kv_shm->sig = 0;
  __kv_cov = kv_shm->cov;
  struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = kv_shm->timeout_ms / 1000; tv.it_value.tv_usec = (kv_shm->timeout_ms % 1000) * 1000; setitimer(ITIMER_PROF, &tv, 0);
  nn = 1; active = true; ninput = 0;
  __kv_callee = 0;
  __kv_run_harness_(kv_shm->harness);
  active = false; kv_shm->nnodes = nn; kv_shm->status = ST_OK;
  _exit(0);
}
