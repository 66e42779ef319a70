// kvnative: run time of the native twin (AddressSanitizer, real libraries).  Modes:
//   --server SHMFD INFD OUTFD   replay server for the explorer
//   --replay HARNESS HEX [TIER [HEX2]] run one input in the foreground; exit 0 = property held, 1 = violated
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include "kvshm.h"
extern "C" void __kv_run_harness_(const char* name);
static KvShm* S = 0; static bool fg = false; static uint32_t ninput = 0; static int again = 0; static const char* where() { return again ? "after other calls: " : ""; }
static void fin(int st, const char* m) {
  S->status = st; snprintf(S->msg, sizeof S->msg, "%s%s", where(), m);
  if (fg) { fprintf(stderr, "%s: %s%s\n", st == ST_ASSERT ? "ASSERTION FAILED" : st == ST_ASSUME ? "input outside the harness's assumptions" : "FAILED", where(), m); _exit(st == ST_ASSUME ? 2 : 1); }
  _exit(0);
}
extern "C" {
void __kv_sym_(void* p, size_t n, int dflt) {
  uint8_t* b = (uint8_t*)p;
  for (size_t i = 0; i < n; i++) { uint32_t ix = ninput++; if (ix >= KV_MAXIN) fin(ST_FULL, "too many input bytes"); if (ix >= S->nin) { S->in[ix] = (uint8_t)dflt; S->nin = ix + 1; } b[i] = S->in[ix]; }
  S->used = ninput;
}
void __kv_assert_(bool c, const char* m) { S->reached++; if (!c) fin(ST_ASSERT, m); }
void __kv_conc_(void*, size_t) {}
double __kv_mkdec(long long, int, double conc, const char*, int) { return conc; }
void __kv_assume_(bool c) { if (!c) fin(ST_ASSUME, ""); }
void __kv_obs_(const void* p, size_t n) {
  const uint8_t* b = (const uint8_t*)p; uint64_t h = S->obs;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; }
  h ^= n + 1; h *= 0x100000001b3ull; S->obs = h; S->nobs++;
  if (fg) { fprintf(stderr, "obs: "); for (size_t i = 0; i < n; i++) fprintf(stderr, b[i] >= 32 && b[i] < 127 ? "%c" : "\\x%02x", b[i]); fprintf(stderr, "\n"); }
}
int __kv_tier_() { return S->tier; }
void __asan_set_error_report_callback(void (*)(const char*));
const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:handle_abort=0:symbolize=0:detect_odr_violation=0:malloc_context_size=0:fast_unwind_on_malloc=1:quarantine_size_mb=16:max_allocation_size_mb=2000"; }
}
static void onasan(const char* r) {
  if (fg) return;
  const char* e = strstr(r, "ERROR: "); if (!e) e = r; const char* nl = strchr(e, '\n'); size_t n = nl ? nl - e : strlen(e); if (n > 300) n = 300;
  S->status = ST_SANITIZER; snprintf(S->msg, sizeof S->msg, "%s%.*s", where(), (int)n, e); _exit(0);
}
static void onsig(int s) { S->sig = s; fin((s == SIGPROF) ? ST_TIMEOUT : ST_CRASH, s == SIGPROF ? "no termination within the time limit" : s == SIGABRT ? "abort (uncaught exception or failed library assertion)" : s == SIGSEGV ? "SIGSEGV" : "fatal signal"); }
static uint32_t nprev = 0; static uint8_t prev[KV_MAXIN]; static bool hist = true;
static void start() {
  S->obs = 0xcbf29ce484222325ull; S->nobs = 0; S->reached = 0; S->used = 0; S->msg[0] = 0; S->sig = 0; S->status = ST_NONE; ninput = 0;
  struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = S->timeout_ms / 1000; tv.it_value.tv_usec = (S->timeout_ms % 1000) * 1000; setitimer(ITIMER_PROF, &tv, 0);
}
static void setin(const uint8_t* p, uint32_t n) { memset(S->in, 0, KV_MAXIN); memcpy(S->in, p, n); S->nin = n; }
// The input in a fresh process; then, in the same process, another explored input (prev) and the input again: what the
// code does must not depend on what it did before. (In the first 1024 runs of a worker, then in every sixth.)
static void run1() {
  static char altstk[131072]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK;
  int sg[] = {SIGABRT, SIGPROF, SIGFPE, SIGILL, SIGBUS}; for (int s : sg) sigaction(s, &sa, 0);
  __asan_set_error_report_callback(onasan);
  S->nprev = 0; start(); __kv_run_harness_(S->harness);
  static uint8_t cur[KV_MAXIN]; uint32_t ncur = S->nin, used = S->used, nobs = S->nobs, reached = S->reached; uint64_t obs = S->obs; memcpy(cur, S->in, KV_MAXIN);
  if (hist && !getenv("KV_ONCE")) {
    if (!nprev) { memcpy(prev, cur, KV_MAXIN); nprev = ncur; }
    memcpy(S->prev, prev, KV_MAXIN); S->nprev = nprev;
    again = 1; setin(prev, nprev); start(); __kv_run_harness_(S->harness);
    again = 2; setin(cur, ncur); start(); __kv_run_harness_(S->harness);
    if (S->obs != obs || S->nobs != nobs) fin(ST_ASSERT, "the same call gives another result");
  }
  S->nin = ncur; S->used = used; S->obs = obs; S->nobs = nobs; S->reached = reached;
}
int main(int argc, char** argv) {
  if (argc >= 5 && !strcmp(argv[1], "--server")) {
    int fd = atoi(argv[2]), in = atoi(argv[3]), out = atoi(argv[4]);
    S = (KvShm*)mmap(0, sizeof(KvShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, fd, 0); if (S == MAP_FAILED) return 9;
    int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1); dup2(dn, 2);
    char c; static uint8_t ring[16][KV_MAXIN]; static uint32_t rn[16]; unsigned rc = 0, seen = 0;
    while (read(in, &c, 1) == 1) {
      if (rc) { unsigned k = (seen * 7 + seen / 16) % rc; memcpy(prev, ring[k], KV_MAXIN); nprev = rn[k]; }
      hist = seen < 1024 || seen % 6 == 0;
      pid_t p = fork();
      if (p == 0) { run1(); S->status = ST_OK; _exit(0); }
      int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
      if (S->status == ST_OK) { unsigned k = rc < 16 ? rc++ : (seen / 3 * 5) % 16; memcpy(ring[k], S->in, KV_MAXIN); rn[k] = S->nin; seen++; }
      if (write(out, "x", 1) != 1) break;
    }
    _exit(0);
  }
  if (argc >= 4 && !strcmp(argv[1], "--replay")) {
    fg = true; S = (KvShm*)mmap(0, sizeof(KvShm), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    snprintf(S->harness, 64, "%s", argv[2]); S->timeout_ms = 20000; S->tier = argc > 4 ? atoi(argv[4]) : 0;
    const char* h = argv[3]; for (; h[0] && h[1] && S->nin < KV_MAXIN; h += 2) { unsigned v; sscanf(h, "%2x", &v); S->in[S->nin++] = v; }
    if (argc > 5) { for (h = argv[5]; h[0] && h[1] && nprev < KV_MAXIN; h += 2) { unsigned v; sscanf(h, "%2x", &v); prev[nprev++] = v; } }
    run1(); fprintf(stderr, "held\n"); return 0;
  }
  fprintf(stderr, "usage: --replay HARNESS HEX [TIER [HEX2]]\n"); return 3;
}
