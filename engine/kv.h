// Harness API: the same harness source is compiled (a) instrumented, for symbolic exploration, and
// (b) natively with AddressSanitizer against the real libraries, for replay.
#ifndef KV_H
#define KV_H
#include <stddef.h>
#include <stdint.h>
#include <string>
extern "C" {
void __kv_assert_(bool c, const char* msg);
void __kv_assume_(bool c);
void __kv_sym_(void* p, size_t n, int dflt);
void __kv_obs_(const void* p, size_t n);
int __kv_tier_();
void __kv_conc_(void* p, size_t n);
double __kv_mkdec(long long m, int k, double conc, const char* digs, int n);
}
#define KV_STR2(x) #x
#define KV_STR(x) KV_STR2(x)
#define KV_ASSERT(c, msg) __kv_assert_((bool)(c), msg " [" __FILE__ ":" KV_STR(__LINE__) "]")
#define KV_ASSUME(c) __kv_assume_((bool)(c))
static inline void kv_sym(void* p, size_t n, int dflt = 'a') { __kv_sym_(p, n, dflt); }
static inline uint8_t kv_u8() { uint8_t v; kv_sym(&v, 1, 0); return v; }
static inline uint16_t kv_u16() { uint16_t v; kv_sym(&v, 2, 0); return v; }
static inline uint32_t kv_u32() { uint32_t v; kv_sym(&v, 4, 0); return v; }
static inline bool kv_bool() { uint8_t v; kv_sym(&v, 1, 0); KV_ASSUME(v < 2); return v != 0; }
// symbolic choice in [0,n)
static inline unsigned kv_choice(unsigned n) { uint8_t v; kv_sym(&v, 1, 0); KV_ASSUME(v < n); return v; }
// choice resolved to a concrete value on each path (solver enumerates all feasible values)
static inline unsigned kv_pick(unsigned n) { uint8_t v; kv_sym(&v, 1, 0); KV_ASSUME(v < n); __kv_conc_(&v, 1); return v; }
// same for up to 65536 alternatives
static inline unsigned kv_pick16(unsigned n) { uint8_t v[2]; kv_sym(v, 2, 0); KV_ASSUME((unsigned)(v[0] * 256 + v[1]) < n); __kv_conc_(v, 2); return v[0] * 256 + v[1]; }
static inline void kv_obs(const std::string& s) { __kv_obs_(s.data(), s.size()); }
static inline void kv_obs_int(long long v) { __kv_obs_(&v, sizeof v); }
static inline void kv_obs_dbl(double v) { __kv_obs_(&v, sizeof v); }
static inline int kv_tier() { return __kv_tier_(); }  // 0 quick, 1 thorough
// symbolic string of exactly n bytes
static inline std::string kv_string(size_t n, int dflt = 'a') { char b[64]; kv_sym(b, n, dflt); return std::string(b, n); }
// the double nearest to m / 10^k (|m| < 10^15)
static inline double kv_dec(long long m, int k) { double p = 1; for (int i = 0; i < k; i++) p *= 10; return __kv_mkdec(m, k, (double)m / p, 0, 0); }
// registration
typedef void (*kv_fn)();
struct KvReg { const char* name; kv_fn fn; KvReg* next; static KvReg*& head() { static KvReg* h = 0; return h; } KvReg(const char* n, kv_fn f) : name(n), fn(f), next(head()) { head() = this; } };
#define KV_HARNESS(NAME) static void kvh_##NAME(); static KvReg kvr_##NAME(#NAME, kvh_##NAME); static void kvh_##NAME()
extern "C" void __kv_run_harness_(const char* name);
#endif
