// kvexp: explorer.  Runs paths in forked children (kvrt.cpp), negates every decision with an SMT query
// (z3), until the tree of feasible paths is exhausted or the budget is spent.  Every path witness is
// also replayed in a native, AddressSanitizer-built twin of the harness that uses the real libraries.
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <z3.h>
#include <algorithm>
#include <bitset>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include "kvops.h"
#include "kvshm.h"
typedef uint32_t u32; typedef uint64_t u64; typedef uint8_t u8; typedef int64_t i64;
extern KvShm* kv_shm;
void kvrt_init(KvShm*); void kvrt_child();

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Item { u32 bound, n; u64 hash; u8 in[KV_MAXIN]; };
struct Viol { u32 n; u8 in[KV_MAXIN]; u32 np; u8 prev[KV_MAXIN]; u32 nst; u32 sst; char nmsg[512]; char smsg[512]; };
#define QCAP 400000
#define MAXSITE 600000
struct Glob {
  pthread_mutex_t mu; volatile u32 qn, active, stop; volatile u32 deadworkers;
  u64 paths, ok, assumefail, queries, sat, unsat, unknown, cachehit, native, spurious, diverged, obsmis, capped, full, timeouts, reached, natconc, lost, qdrop, symcrash, dead;
  double solver; u32 maxdec, maxin; u64 okreached;
  u32 nviol; Viol viol[16]; u32 nspur; Viol spur[8]; u32 nmis; Viol mis[8];
  u8 cov[KV_MAXCOV]; u8 site[MAXSITE]; u8 natsite[MAXSITE]; u32 forks[MAXSITE];
  Item q[QCAP];
};
static Glob* G;
static struct { const char *harness, *native, *out, *sites; int workers; double time; int tier; u32 tmo, ntmo, qtmo; int stopviol; int seed; } O;
static void lock() { pthread_mutex_lock(&G->mu); } static void unlock() { pthread_mutex_unlock(&G->mu); }

// ---------------------------------------------------------------- servers
struct Server { pid_t pid; int to, from; KvShm* shm; };
static KvShm* newshm(int* fd) { int f = syscall(SYS_memfd_create, "kv", 0); if (f < 0 || ftruncate(f, sizeof(KvShm))) { perror("memfd"); exit(3); } void* p = mmap(0, sizeof(KvShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, f, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } if (fd) *fd = f; return (KvShm*)p; }
static Server symServer() {
  Server s; s.shm = newshm(0); snprintf(s.shm->harness, 64, "%s", O.harness); s.shm->timeout_ms = O.tmo; s.shm->tier = O.tier;
  int a[2], b[2]; if (pipe(a) || pipe(b)) exit(3);
  s.pid = fork();
  if (s.pid == 0) {
    close(a[1]); close(b[0]); kvrt_init(s.shm); char c;
    while (read(a[0], &c, 1) == 1) { pid_t p = fork(); if (p == 0) kvrt_child(); int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (write(b[1], "x", 1) != 1) break; }
    _exit(0);
  }
  close(a[0]); close(b[1]); s.to = a[1]; s.from = b[0]; return s;
}
static Server natServer() {
  Server s; int fd; s.shm = newshm(&fd); snprintf(s.shm->harness, 64, "%s", O.harness); s.shm->timeout_ms = O.ntmo; s.shm->tier = O.tier;
  int a[2], b[2]; if (pipe(a) || pipe(b)) exit(3);
  s.pid = fork();
  if (s.pid == 0) {
    close(a[1]); close(b[0]); char f[16], i[16], o[16]; snprintf(f, 16, "%d", fd); snprintf(i, 16, "%d", a[0]); snprintf(o, 16, "%d", b[1]);
    execl(O.native, O.native, "--server", f, i, o, (char*)0); _exit(9);
  }
  close(a[0]); close(b[1]); close(fd); s.to = a[1]; s.from = b[0]; return s;
}
static bool go(Server& s) { s.shm->status = ST_NONE; if (write(s.to, "g", 1) != 1) return false; char c; ssize_t r; while ((r = read(s.from, &c, 1)) < 0 && errno == EINTR) {} return r == 1; }

// ---------------------------------------------------------------- z3
typedef std::bitset<KV_MAXIN> Mask;
static Z3_context Z; static Z3_solver SB, SF; static Z3_sort bvs[65], FP64, FP32; static Z3_ast RNE, RTZ;
static std::vector<Z3_ast> vars;
static void z3init() {
  Z3_global_param_set("memory_max_size", "3500");
  Z3_config c = Z3_mk_config(); Z = Z3_mk_context(c); Z3_del_config(c);
  Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error %s\n", Z3_get_error_msg(c, e)); });
  for (int i = 1; i <= 64; i++) bvs[i] = Z3_mk_bv_sort(Z, i);
  FP64 = Z3_mk_fpa_sort_64(Z); FP32 = Z3_mk_fpa_sort_32(Z); RNE = Z3_mk_fpa_rne(Z); RTZ = Z3_mk_fpa_rtz(Z);
  SB = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, SB);
  SF = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_FPBV")); Z3_solver_inc_ref(Z, SF);
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), O.qtmo);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "random_seed"), O.seed);
  Z3_solver_set_params(Z, SB, p); Z3_solver_set_params(Z, SF, p);
  vars.clear(); for (int i = 0; i < KV_MAXIN; i++) { char b[16]; snprintf(b, 16, "b%d", i); vars.push_back(Z3_mk_const(Z, Z3_mk_string_symbol(Z, b), bvs[8])); }
}
static Z3_ast numeral(u64 v, unsigned w) { return Z3_mk_unsigned_int64(Z, v, bvs[w]); }
static Z3_ast b2bv(Z3_ast b) { return b; }
struct Conv {  // nodes of one run -> z3 (booleans for width-1 nodes)
  KvShm* s; std::vector<Z3_ast> ast; std::vector<Mask> mask; std::vector<u8> fp; std::vector<u8> need;
  Z3_ast asbv(u32 n) { KvNode& d = s->nodes[n]; if (d.width == 1 && !d.fp) return Z3_mk_ite(Z, ast[n], numeral(1, 1), numeral(0, 1)); return ast[n]; }
  Z3_ast fpc(u64 v, unsigned w) { return Z3_mk_fpa_to_fp_bv(Z, numeral(v, w), w == 64 ? FP64 : FP32); }
  // comparisons of doubles given by their bits are bit-vector formulas
  bool bitsof(u32 n, Z3_ast* o) { KvNode& d = s->nodes[n]; if (d.width != 64 || !d.fp) return false; if (d.op == OP_FCONST) { *o = numeral(d.imm, 64); return true; } if (d.op == OP_BVTOF) { *o = ast[d.a]; return true; } Z3_ast x, y; if (d.op == OP_FITE && bitsof(d.b, &x) && bitsof(d.c, &y)) { *o = Z3_mk_ite(Z, ast[d.a], x, y); return true; } return false; }
  Z3_ast isnan(Z3_ast x) { return Z3_mk_bvugt(Z, Z3_mk_bvshl(Z, x, numeral(1, 64)), numeral(0xFFE0000000000000ull, 64)); }
  Z3_ast key(Z3_ast x) { return Z3_mk_ite(Z, Z3_mk_bvslt(Z, x, numeral(0, 64)), Z3_mk_bvneg(Z, Z3_mk_bvand(Z, x, numeral(0x7FFFFFFFFFFFFFFFull, 64))), x); }  // monotone; both zeros are 0
  Z3_ast bitcmp(u8 op, Z3_ast x, Z3_ast y) { Z3_ast n[2] = {isnan(x), isnan(y)}; Z3_ast u = Z3_mk_or(Z, 2, n); if (op == OP_FUNO) return u; Z3_ast a = key(x), b = key(y); Z3_ast r[2] = {Z3_mk_not(Z, u), op == OP_FEQ ? Z3_mk_eq(Z, a, b) : op == OP_FLT ? Z3_mk_bvslt(Z, a, b) : Z3_mk_bvsle(Z, a, b)}; return Z3_mk_and(Z, 2, r); }
  Z3_ast mk(u32 i) {
    KvNode& d = s->nodes[i]; KvNode* N = s->nodes; unsigned w = d.width;
    u32 a = d.a, b = d.b, c = d.c;
    bool bool1 = w == 1 && !d.fp;
    Z3_ast x, y; 
    switch (d.op) {
      case OP_CONST: return bool1 ? (d.imm ? Z3_mk_true(Z) : Z3_mk_false(Z)) : numeral(d.imm, w);
      case OP_FCONST: return fpc(d.imm, w);
      case OP_VAR: return vars[d.imm];
      case OP_AND: if (bool1) { Z3_ast t[2] = {ast[a], ast[b]}; return Z3_mk_and(Z, 2, t); } return Z3_mk_bvand(Z, ast[a], ast[b]);
      case OP_OR: if (bool1) { Z3_ast t[2] = {ast[a], ast[b]}; return Z3_mk_or(Z, 2, t); } return Z3_mk_bvor(Z, ast[a], ast[b]);
      case OP_XOR: if (bool1) return Z3_mk_xor(Z, ast[a], ast[b]); return Z3_mk_bvxor(Z, ast[a], ast[b]);
      case OP_NOT: return Z3_mk_not(Z, ast[a]);
      case OP_ITE: case OP_FITE: return Z3_mk_ite(Z, ast[a], ast[b], ast[c]);
      case OP_EQ: return Z3_mk_eq(Z, ast[a], ast[b]);
      case OP_ZEXT: return Z3_mk_zero_ext(Z, w - N[a].width, asbv(a));
      case OP_SEXT: return Z3_mk_sign_ext(Z, w - N[a].width, asbv(a));
      case OP_EXTRACT: x = Z3_mk_extract(Z, d.imm + w - 1, d.imm, asbv(a)); if (w == 1) return Z3_mk_eq(Z, x, numeral(1, 1)); return x;
      case OP_CONCAT: return Z3_mk_concat(Z, asbv(a), asbv(b));
      case OP_FADD: return Z3_mk_fpa_add(Z, RNE, ast[a], ast[b]); case OP_FSUB: return Z3_mk_fpa_sub(Z, RNE, ast[a], ast[b]);
      case OP_FMUL: return Z3_mk_fpa_mul(Z, RNE, ast[a], ast[b]); case OP_FDIV: return Z3_mk_fpa_div(Z, RNE, ast[a], ast[b]);
      case OP_FNEG: return Z3_mk_fpa_neg(Z, ast[a]); case OP_FABS: return Z3_mk_fpa_abs(Z, ast[a]); case OP_FSQRT: return Z3_mk_fpa_sqrt(Z, RNE, ast[a]);
      case OP_FROUND: return Z3_mk_fpa_round_to_integral(Z, d.imm == FU_FLOOR ? Z3_mk_fpa_rtn(Z) : d.imm == FU_CEIL ? Z3_mk_fpa_rtp(Z) : d.imm == FU_TRUNC ? RTZ : RNE, ast[a]);
      case OP_SITOFP: return Z3_mk_fpa_to_fp_signed(Z, RNE, asbv(a), w == 64 ? FP64 : FP32);
      case OP_UITOFP: return Z3_mk_fpa_to_fp_unsigned(Z, RNE, asbv(a), w == 64 ? FP64 : FP32);
      case OP_FPTOSI: return Z3_mk_fpa_to_sbv(Z, RTZ, ast[a], w); case OP_FPTOUI: return Z3_mk_fpa_to_ubv(Z, RTZ, ast[a], w);
      case OP_FPCAST: return Z3_mk_fpa_to_fp_float(Z, RNE, ast[a], w == 64 ? FP64 : FP32);
      case OP_BVTOF: return Z3_mk_fpa_to_fp_bv(Z, ast[a], w == 64 ? FP64 : FP32);
      case OP_FTOBV: return Z3_mk_fpa_to_ieee_bv(Z, ast[a]);
      case OP_FEQ: case OP_FLT: case OP_FLE: case OP_FUNO: { Z3_ast p, q; if (bitsof(a, &p) && bitsof(b, &q)) return bitcmp(d.op, p, q); } break; }
    switch (d.op) {
      case OP_FEQ: return Z3_mk_fpa_eq(Z, ast[a], ast[b]); case OP_FLT: return Z3_mk_fpa_lt(Z, ast[a], ast[b]); case OP_FLE: return Z3_mk_fpa_leq(Z, ast[a], ast[b]);
      case OP_FUNO: { Z3_ast t[2] = {Z3_mk_fpa_is_nan(Z, ast[a]), Z3_mk_fpa_is_nan(Z, ast[b])}; return Z3_mk_or(Z, 2, t); }
      case OP_FDEC: { i64 k = (i64)d.imm; Z3_ast m = Z3_mk_fpa_to_fp_signed(Z, RNE, ast[a], FP64); if (k == 0) return m; double p = 1; for (i64 j = 0; j < (k < 0 ? -k : k); j++) p *= 10; u64 pb; memcpy(&pb, &p, 8); return k > 0 ? Z3_mk_fpa_div(Z, RNE, m, fpc(pb, 64)) : Z3_mk_fpa_mul(Z, RNE, m, fpc(pb, 64)); }
    }
    x = asbv(a); y = asbv(b);
    Z3_ast r = 0;
    switch (d.op) {
      case OP_ADD: r = Z3_mk_bvadd(Z, x, y); break; case OP_SUB: r = Z3_mk_bvsub(Z, x, y); break; case OP_MUL: r = Z3_mk_bvmul(Z, x, y); break;
      case OP_UDIV: r = Z3_mk_bvudiv(Z, x, y); break; case OP_SDIV: r = Z3_mk_bvsdiv(Z, x, y); break; case OP_UREM: r = Z3_mk_bvurem(Z, x, y); break; case OP_SREM: r = Z3_mk_bvsrem(Z, x, y); break;
      case OP_SHL: r = Z3_mk_bvshl(Z, x, y); break; case OP_LSHR: r = Z3_mk_bvlshr(Z, x, y); break; case OP_ASHR: r = Z3_mk_bvashr(Z, x, y); break;
      case OP_ULT: return Z3_mk_bvult(Z, x, y); case OP_ULE: return Z3_mk_bvule(Z, x, y); case OP_SLT: return Z3_mk_bvslt(Z, x, y); case OP_SLE: return Z3_mk_bvsle(Z, x, y);
    }
    if (w == 1 && r) return Z3_mk_eq(Z, r, numeral(1, 1));
    return r;
  }
  bool hardfp(u32 n) { KvNode& d = s->nodes[n]; if (d.op == OP_BVTOF) return fp[d.a]; if (d.op == OP_FITE) return fp[d.a] || hardfp(d.b) || hardfp(d.c); return false; }
  void build(KvShm* sh) {
    s = sh; u32 n = s->nnodes; need.assign(n, 0); ast.assign(n, nullptr); mask.assign(n, Mask()); fp.assign(n, 0);
    u32 hi = 0;
    for (u32 i = 0; i < s->ndec; i++) { need[s->dec[i].node] = 1; if (s->dec[i].node > hi) hi = s->dec[i].node; }
    for (u32 i = hi + 1; i-- > 1;) if (need[i]) { KvNode& d = s->nodes[i]; if (d.a) need[d.a] = 1; if (d.b) need[d.b] = 1; if (d.c) need[d.c] = 1; }
    for (u32 i = 1; i <= hi; i++) if (need[i]) { KvNode& d = s->nodes[i]; ast[i] = mk(i);
      if (d.op == OP_VAR) mask[i].set(d.imm); else { if (d.a) { mask[i] |= mask[d.a]; fp[i] |= fp[d.a]; } if (d.b) { mask[i] |= mask[d.b]; fp[i] |= fp[d.b]; } if (d.c) { mask[i] |= mask[d.c]; fp[i] |= fp[d.c]; } }
      if (d.fp) fp[i] = 1; if (d.op == OP_FEQ || d.op == OP_FLT || d.op == OP_FLE || d.op == OP_FUNO) { Z3_ast p, q; if (bitsof(d.a, &p) && bitsof(d.b, &q)) { fp[i] = 0; for (u32 o : {d.a, d.b}) if (hardfp(o)) fp[i] = 1; } } }
  }
};
typedef std::vector<std::pair<u32, u8>> Asg;
struct QR { int res; std::vector<Asg> asg; bool capped; };
struct VH { size_t operator()(const std::vector<u32>& v) const { u64 h = v.size(); for (u32 x : v) { h ^= x; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<u32>, QR, VH> cache;
static u64 cQ, cS, cU, cX, cH; static double cT;
static Asg getmodel(Z3_solver S, const std::vector<u32>& vs, Z3_ast node, u64* nv) {
  Asg r; Z3_model m = Z3_solver_get_model(Z, S); Z3_model_inc_ref(Z, m);
  for (u32 v : vs) { Z3_ast o; uint64_t x = 0; if (Z3_model_eval(Z, m, vars[v], true, &o)) Z3_get_numeral_uint64(Z, o, &x); r.push_back({v, (u8)x}); }
  if (node) { Z3_ast o; uint64_t x = 0; if (Z3_model_eval(Z, m, node, true, &o)) Z3_get_numeral_uint64(Z, o, &x); *nv = x; }
  Z3_model_dec_ref(Z, m); return r;
}
static QR& solve(std::vector<Z3_ast>& cs, Z3_ast neg, Z3_ast enumNode, unsigned enumW, u64 cur, const std::vector<u32>& vs, bool isfp) {
  std::vector<u32> key; for (auto c : cs) key.push_back(Z3_get_ast_id(Z, c)); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  if (neg) { key.push_back(0xFFFFFFFF); key.push_back(Z3_get_ast_id(Z, neg)); } else { key.push_back(0xFFFFFFFE); key.push_back(Z3_get_ast_id(Z, enumNode)); key.push_back((u32)cur); key.push_back((u32)(cur >> 32)); }
  auto it = cache.find(key); if (it != cache.end()) { cH++; return it->second; }
  QR q; q.res = 0; q.capped = false;
  double t0 = now();
  Z3_solver S = isfp ? SF : SB;
  Z3_solver_push(Z, S);
  for (auto c : cs) Z3_solver_assert(Z, S, c);
  if (neg) {
    Z3_solver_assert(Z, S, neg); Z3_lbool r = Z3_solver_check(Z, S); cQ++;
    if (r == Z3_L_TRUE) { cS++; q.res = 1; q.asg.push_back(getmodel(S, vs, 0, 0)); } else if (r == Z3_L_FALSE) { cU++; q.res = 0; } else { cX++; q.res = 2; }
  } else {
    Z3_solver_assert(Z, S, Z3_mk_not(Z, Z3_mk_eq(Z, enumNode, numeral(cur, enumW))));
    for (int n = 0;; n++) {
      if (n >= 300) { q.capped = true; break; }
      Z3_lbool r = Z3_solver_check(Z, S); cQ++;
      if (r == Z3_L_FALSE) { cU++; break; } if (r != Z3_L_TRUE) { cX++; q.res = 2; break; }
      cS++; u64 v = 0; q.asg.push_back(getmodel(S, vs, enumNode, &v));
      Z3_solver_assert(Z, S, Z3_mk_not(Z, Z3_mk_eq(Z, enumNode, numeral(v, enumW))));
    }
    if (q.res != 2) q.res = q.asg.empty() ? 0 : 1;
  }
  Z3_solver_pop(Z, S, 1);
  cT += now() - t0;
  return cache[key] = q;
}
static u64 hstep(u64 h, const KvDec& d, bool taken, u64 val) { h ^= (u64)d.site * 8 + d.kind * 2 + taken; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 31; (void)val; return h; }
static void push(const Item& it) { lock(); if (G->qn < QCAP) { G->q[G->qn] = it; G->qn++; } else G->qdrop++; unlock(); }
static void addv(Viol* arr, u32& n, u32 cap, const u8* in, u32 nin, u32 nst, const char* nm, u32 sst, const char* sm, const KvShm* ns = 0) {
  lock();
  if (n < cap) { Viol& v = arr[n]; v.n = nin; memcpy(v.in, in, KV_MAXIN); v.np = ns ? ns->nprev : 0; if (v.np) memcpy(v.prev, ns->prev, KV_MAXIN); v.nst = nst; v.sst = sst; snprintf(v.nmsg, 512, "%s", nm); snprintf(v.smsg, 512, "%s", sm); n++; }
  unlock();
}
static bool bad(u32 st) { return st == ST_ASSERT || st == ST_CRASH || st == ST_TIMEOUT || st == ST_SANITIZER || st == ST_NONE; }
static void process(Server& sy, Server& na, Item& it, unsigned* rs) {
  KvShm* s = sy.shm; memset(s->in, 0, KV_MAXIN); memcpy(s->in, it.in, KV_MAXIN); s->nin = it.n;
  if (!go(sy)) { lock(); G->dead++; unlock(); fprintf(stderr, "symbolic server died\n"); _exit(4); }
  u32 st = s->status; u32 nin = s->nin;
  bool nbad = false; u32 nst = ST_OK;
  if (O.native && st != ST_ASSUME) {
    KvShm* n = na.shm; memcpy(n->in, s->in, KV_MAXIN); n->nin = nin;
    if (!go(na)) { fprintf(stderr, "native server died\n"); _exit(5); }
    nst = n->status; nbad = bad(nst);
    if (nbad) { // confirm
      memcpy(n->in, s->in, KV_MAXIN); n->nin = nin; if (nst == ST_TIMEOUT) n->timeout_ms = O.ntmo * 4; go(na); n->timeout_ms = O.ntmo; nst = n->status; nbad = bad(nst);
    }
    if (nbad) { addv(G->viol, G->nviol, 16, s->in, nin, nst, n->msg, st, s->msg, n); if (O.stopviol && G->nviol >= (u32)O.stopviol) G->stop = 1; }
    else if (bad(st)) { addv(G->spur, G->nspur, 8, s->in, nin, nst, n->msg, st, s->msg); lock(); G->spurious++; unlock(); }
    else if (nst != st && st != ST_FULL || (st == ST_OK && (n->obs != s->obs || n->nobs != s->nobs))) { addv(G->mis, G->nmis, 8, s->in, nin, nst, n->msg, st, s->msg); lock(); G->obsmis++; unlock(); }
  } else if (!O.native && bad(st)) { addv(G->viol, G->nviol, 16, s->in, nin, nst, "", st, s->msg); if (O.stopviol && G->nviol >= (u32)O.stopviol) G->stop = 1; }
  u32 nd = s->ndec;
  lock();
  G->paths++; if (O.native && st != ST_ASSUME) G->native++;
  if (st == ST_OK) { G->ok++; if (s->reached) G->okreached++; G->reached += s->reached; } if (st == ST_ASSUME) G->assumefail++; if (st == ST_FULL) G->full++; if (st == ST_TIMEOUT) G->timeouts++;
  if (bad(st)) G->symcrash++;
  G->natconc += s->natconc; G->lost += s->lost; if (nd > G->maxdec) G->maxdec = nd; if (nin > G->maxin) G->maxin = nin;
  unlock();
  // divergence check
  u64 h = 1; u32 bnd = it.bound;
  bool div = nd < bnd; if (!div) { for (u32 i = 0; i < bnd; i++) h = hstep(h, s->dec[i], s->dec[i].taken, s->dec[i].val); if (bnd && h != it.hash) div = true; }
  if (div) { lock(); G->diverged++; unlock(); if (nd < bnd) return; }
  static Conv cv; cv.build(s);
  // union-find over input bytes for slicing
  std::vector<u32> uf(KV_MAXIN); for (u32 i = 0; i < KV_MAXIN; i++) uf[i] = i;
  auto find = [&](u32 x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; };
  struct Con { Z3_ast a; u32 v; bool fp; u32 id; }; std::vector<Con> cons; std::set<u32> seen;
  h = 1; Mask pinned;  // input bytes with one possible value left on this path
  for (u32 i = 0; i < nd; i++) {
    KvDec& d = s->dec[i]; if (d.site < MAXSITE) { G->site[d.site] = 1; if (d.kind == D_CONC) G->natsite[d.site] = 1; }
    KvNode& nd_ = s->nodes[d.node];
    Z3_ast node = cv.ast[d.node]; Mask& m = cv.mask[d.node];
    Z3_ast taken; bool isb = nd_.width == 1;
    if (d.kind == D_CONC) taken = Z3_mk_eq(Z, node, numeral(d.val, nd_.width)); else taken = d.taken ? node : Z3_mk_not(Z, node);
    std::vector<u32> vs0; for (u32 v = 0; v < nin; v++) if (m[v]) vs0.push_back(v);
    bool free_ = false; for (u32 v : vs0) if (!pinned[v]) free_ = true;
    if (i >= bnd && free_ && !(d.kind == D_ASSUME && d.pad) && !G->stop) {
      std::set<u32> roots; for (u32 v : vs0) roots.insert(find(v));
      std::vector<Z3_ast> cs; bool isfp = cv.fp[d.node];
      for (auto& c : cons) if (roots.count(find(c.v))) { cs.push_back(c.a); if (c.fp) isfp = true; }
      std::vector<u32> vs; for (u32 v = 0; v < nin; v++) if (roots.count(find(v))) vs.push_back(v);
      QR& q = d.kind == D_CONC ? solve(cs, 0, node, nd_.width, d.val, vs, isfp) : solve(cs, Z3_mk_not(Z, taken), 0, 0, 0, vs, isfp);
      if (q.capped) { lock(); G->capped++; unlock(); }
      if (q.asg.size() && d.site < MAXSITE) __sync_fetch_and_add(&G->forks[d.site], (u32)q.asg.size());
      for (auto& a : q.asg) {
        Item n; n.bound = i + 1; n.n = nin; memcpy(n.in, s->in, KV_MAXIN); for (auto& p : a) n.in[p.first] = p.second;
        n.hash = hstep(h, d, d.kind == D_CONC ? d.taken : !d.taken, 0);
        push(n);
      }
    }
    (void)isb;
    u32 id = Z3_get_ast_id(Z, taken);
    if (vs0.size() && seen.insert(id).second) { for (u32 v : vs0) uf[find(v)] = find(vs0[0]); cons.push_back({taken, vs0[0], (bool)cv.fp[d.node], id});
      if (d.kind == D_CONC && vs0.size() == 1 && !pinned[vs0[0]] && !G->stop) {  // does this value leave the byte one value?
        u32 v = vs0[0], r = find(v); bool alone = true; for (u32 u = 0; u < nin; u++) if (u != v && find(u) == r) alone = false;
        if (alone) { std::vector<Z3_ast> cs; bool isfp = false; for (auto& c : cons) if (find(c.v) == r) { cs.push_back(c.a); isfp |= c.fp; } if (nd_.op == OP_VAR) pinned.set(v); else if (!isfp) { QR& q = solve(cs, Z3_mk_not(Z, Z3_mk_eq(Z, vars[v], numeral(s->in[v], 8))), 0, 0, 0, vs0, false); if (q.res == 0) pinned.set(v); } } } }
    h = hstep(h, d, d.taken, d.val);
  }
  lock(); G->queries += cQ; G->sat += cS; G->unsat += cU; G->unknown += cX; G->cachehit += cH; G->solver += cT; unlock(); cQ = cS = cU = cX = cH = 0; cT = 0;
}
static void worker(int w, double tend) {
  Server sy = symServer(); Server na; memset(&na, 0, sizeof na); if (O.native) na = natServer();
  z3init(); unsigned rs = 12345 + w + O.seed * 77; u64 cnt = 0;
  bool act = false;
  for (;;) {
    Item it; bool have = false;
    lock();
    if (act) { G->active--; act = false; }
    if (G->stop || now() > tend) { if (now() > tend && (G->qn || G->active)) G->stop |= 2; unlock(); break; }
    if (G->qn) { u32 i = G->qn - 1; if (w % 4 == 1) i = rand_r(&rs) % G->qn; it = G->q[i]; G->q[i] = G->q[G->qn - 1]; G->qn--; G->active++; act = have = true; }
    else if (!G->active) { unlock(); break; }
    unlock();
    if (!have) { usleep(300); continue; }
    process(sy, na, it, &rs);
    if (++cnt % 500 == 0 && Z3_get_estimated_alloc_size() > 1500ull << 20) { cache.clear(); Z3_del_context(Z); z3init(); }
  }
  lock(); for (int i = 0; i < KV_MAXCOV; i++) G->cov[i] |= sy.shm->cov[i]; unlock();
  close(sy.to); kill(sy.pid, SIGKILL); if (O.native) { close(na.to); kill(na.pid, SIGKILL); }
  _exit(0);
}
static void jstr(FILE* f, const char* s) { fputc('"', f); for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }
static void jviol(FILE* f, const char* nm, Viol* v, u32 n) {
  fprintf(f, ", \"%s\": [", nm);
  for (u32 i = 0; i < n; i++) { fprintf(f, "%s{\"input\": \"", i ? ", " : ""); for (u32 j = 0; j < v[i].n; j++) fprintf(f, "%02x", v[i].in[j]); if (v[i].np) { fprintf(f, "\", \"before\": \""); for (u32 j = 0; j < v[i].np; j++) fprintf(f, "%02x", v[i].prev[j]); } fprintf(f, "\", \"native_status\": %u, \"native_msg\": ", v[i].nst); jstr(f, v[i].nmsg); fprintf(f, ", \"sym_status\": %u, \"sym_msg\": ", v[i].sst); jstr(f, v[i].smsg); fprintf(f, "}"); }
  fprintf(f, "]");
}
int main(int argc, char** argv) {
  O.workers = 8; O.time = 60; O.tmo = 4000; O.ntmo = 4000; O.qtmo = 10000; O.stopviol = 1; O.out = "/dev/stdout";
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i]; const char* v = argv[i + 1];
    if (a == "--harness") O.harness = v; else if (a == "--native") O.native = v; else if (a == "--out") O.out = v; else if (a == "--sites") O.sites = v;
    else if (a == "--workers") O.workers = atoi(v); else if (a == "--time") O.time = atof(v); else if (a == "--tier") O.tier = atoi(v); else if (a == "--timeout-ms") O.tmo = O.ntmo = atoi(v); else if (a == "--query-ms") O.qtmo = atoi(v); else if (a == "--stop") O.stopviol = atoi(v); else if (a == "--seed") O.seed = atoi(v);
  }
  signal(SIGPIPE, SIG_IGN);
  struct rlimit rl = {256u << 20, RLIM_INFINITY}; if (getenv("KV_STK") == 0) { getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (256u << 20)) { rl.rlim_cur = 256u << 20; if (rl.rlim_max == RLIM_INFINITY || rl.rlim_max >= rl.rlim_cur) setrlimit(RLIMIT_STACK, &rl); setenv("KV_STK", "1", 1); execv("/proc/self/exe", argv); } }
  G = (Glob*)mmap(0, sizeof(Glob), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&G->mu, &ma);
  memset(&G->q[0], 0, sizeof(Item)); G->qn = 1;
  double t0 = now(), tend = t0 + O.time;
  std::vector<pid_t> ws; for (int w = 0; w < O.workers; w++) { pid_t p = fork(); if (p == 0) worker(w, tend); ws.push_back(p); }
  u32 dead = 0;
  for (size_t left = ws.size(); left;) {
    int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break; bool mine = false; for (pid_t q : ws) if (q == p) mine = true; if (!mine) continue; left--;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { dead++; G->stop |= 4; }
    if (now() > tend + 60) { for (pid_t q : ws) kill(q, SIGKILL); break; }
  }
  bool complete = !(G->stop & 6) && !G->qn && !G->unknown && !G->capped && !G->full && !G->diverged && !G->qdrop && !dead && !(G->stop & 1) && !G->timeouts;
  FILE* f = fopen(O.out, "w"); if (!f) { perror("out"); return 3; }
  fprintf(f, "{\"harness\": \"%s\", \"complete\": %s, \"wall_s\": %.2f, \"paths\": %llu, \"paths_ok\": %llu, \"paths_ok_with_assertions\": %llu, \"assume_rejected\": %llu, \"assertions_evaluated\": %llu", O.harness, complete ? "true" : "false", now() - t0, (unsigned long long)G->paths, (unsigned long long)G->ok, (unsigned long long)G->okreached, (unsigned long long)G->assumefail, (unsigned long long)G->reached);
  fprintf(f, ", \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"query_cache_hits\": %llu, \"solver_s\": %.2f, \"native_replays\": %llu, \"spurious\": %llu, \"model_mismatch\": %llu, \"diverged\": %llu, \"enum_capped\": %llu, \"arena_full\": %llu, \"timeouts\": %llu, \"stale_shadow\": %llu, \"queue_left\": %u, \"queue_dropped\": %llu, \"dead_workers\": %u, \"max_decisions\": %u, \"max_input_bytes\": %u, \"budget_exhausted\": %s", (unsigned long long)G->queries, (unsigned long long)G->sat, (unsigned long long)G->unsat, (unsigned long long)G->unknown, (unsigned long long)G->cachehit, G->solver, (unsigned long long)G->native, (unsigned long long)G->spurious, (unsigned long long)G->obsmis, (unsigned long long)G->diverged, (unsigned long long)G->capped, (unsigned long long)G->full, (unsigned long long)G->timeouts, (unsigned long long)G->lost, G->qn, (unsigned long long)G->qdrop, dead, G->maxdec, G->maxin, (G->stop & 2) ? "true" : "false");
  jviol(f, "violations", G->viol, G->nviol); jviol(f, "spurious_list", G->spur, G->nspur); jviol(f, "mismatch_list", G->mis, G->nmis);
  if (O.sites) { // functions executed / with symbolic decisions / concretising sites
    FILE* s = fopen(O.sites, "r"); std::vector<std::string> fn, st; char line[4096]; size_t n = 0;
    if (s) { if (fgets(line, sizeof line, s)) n = atoi(line); while (fgets(line, sizeof line, s)) { size_t l = strlen(line); if (l && line[l - 1] == '\n') line[l - 1] = 0; if (fn.size() < n) fn.push_back(line); else st.push_back(line); } fclose(s); }
    u32 ex = 0; fprintf(f, ", \"functions_executed\": ["); bool first = true; for (size_t i = 0; i < fn.size() && i < KV_MAXCOV; i++) if (G->cov[i]) { fprintf(f, "%s", first ? "" : ", "); jstr(f, fn[i].c_str()); first = false; ex++; } fprintf(f, "]");
    std::map<std::string, int> br; std::map<std::string, int> cc; for (size_t i = 0; i < st.size() && i + 1 < MAXSITE; i++) { size_t c = st[i].find(':'); if (G->site[i + 1]) br[st[i].substr(0, c)]++; if (G->natsite[i + 1]) cc[st[i]]++; }
    if (getenv("KV_FORKS")) { std::vector<std::pair<u32, std::string> > v; for (size_t i = 0; i + 1 < MAXSITE; i++) if (G->forks[i]) v.push_back({G->forks[i], (i && i - 1 < st.size() ? st[i - 1] : "?") + " #" + std::to_string(i)}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%8u %s\n", v[i].first, v[i].second.c_str()); }
    fprintf(f, ", \"functions_branching_symbolically\": {"); first = true; for (auto& b : br) { fprintf(f, "%s", first ? "" : ", "); jstr(f, b.first.c_str()); fprintf(f, ": %d", b.second); first = false; } fprintf(f, "}, \"concretised_at\": ["); first = true; for (auto& b : cc) { fprintf(f, "%s", first ? "" : ", "); jstr(f, b.first.c_str()); first = false; } fprintf(f, "]");
  }
  fprintf(f, "}\n"); fclose(f);
  return 0;
}
