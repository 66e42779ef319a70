// P02: setting, querying and clearing a field affects exactly that field.
// @h fresh q=30 t=60 | every element type: every field of a new object absent and at its default
// @h ops q=160 t=600 | every element type x every ordered pair of its simple fields: sequences of 4 operations (thorough 6; set to a symbolic value, or clear) on the pair, all fields checked after each
// @h value q=120 t=500 | every element type x every simple field set to a symbolic value (3 symbolic characters, every 32-bit integer, decimals with 3 digits, every enumeration value, every 32-bit colour) then overwritten and cleared
// @h wide q=60 t=150 | every element type x every simple field set to its default, 0, negative and extreme numbers (24 decimals, 21 integers), 8 colours, texts of 0..70001 characters, then to another of these and cleared
// @outside values beyond those; sequences over more than two fields (fields share no state pairwise)
#include "schema.h"
using namespace sch;
static Val sym(const Ent& e) {
  Val v; switch (e.k) {
    case 's': case 't': v.s = kv_string(3); break; case 'd': v.d = kv_dec((int16_t)kv_u16(), 2); break; case 'i': v.i = (int32_t)kv_u32(); break; case 'b': v.i = kv_choice(2); break;
    case 'e': { unsigned n = 0; while (e.en[n]) n++; v.i = kv_choice(n); break; } case 'c': v.i = kv_u32(); break; }
  return v;
}
static std::vector<size_t> simp(const Cls& c) { std::vector<size_t> r; for (size_t i = 0; i < c.n; i++) if (c.e[i].simple()) r.push_back(i); return r; }
KV_HARNESS(fresh) {
  Cls c = cls(kv_pick(NDEFS)); ElementPtr o = make(c.t); KV_ASSERT(o && o->Type() == c.t, "created");
  for (size_t i = 0; i < c.n; i++) { KV_ASSERT(!c.e[i].has(o.get()), "a new object has no field set"); if (c.e[i].simple()) KV_ASSERT(same(c.e[i], c.e[i].get(o.get()), c.e[i].def), "an unset field reads its default"); }
}
KV_HARNESS(value) {
  Cls c = cls(kv_pick(NDEFS)); std::vector<size_t> s = simp(c); KV_ASSUME(!s.empty()); const Ent& e = c.e[s[kv_pick(s.size())]]; ElementPtr o = make(c.t), p = make(c.t);
  Val v = sym(e), w = sym(e); e.set(o.get(), v); KV_ASSERT(e.has(o.get()) && same(e, e.get(o.get()), v), "reads back what was set"); KV_ASSERT(!e.has(p.get()) && same(e, e.get(p.get()), e.def), "another object is not affected");
  e.set(o.get(), w); KV_ASSERT(e.has(o.get()) && same(e, e.get(o.get()), w), "reads back what was last set");
  e.clear(o.get()); KV_ASSERT(!e.has(o.get()) && same(e, e.get(o.get()), e.def), "cleared to the default"); e.set(o.get(), v); KV_ASSERT(e.has(o.get()) && same(e, e.get(o.get()), v), "can be set again");
}
KV_HARNESS(ops) {
  Cls c = cls(kv_pick(NDEFS)); std::vector<size_t> s = simp(c); KV_ASSUME(s.size() > 1); size_t a = kv_pick(s.size()), b = kv_pick(s.size()); KV_ASSUME(a != b);
  ElementPtr o = make(c.t); std::vector<bool> has(c.n, false); std::vector<Val> val(c.n); for (size_t i = 0; i < c.n; i++) val[i] = c.e[i].def;
  for (unsigned k = 0; k < (kv_tier() ? 6u : 4u); k++) {
    size_t f = k == 0 ? s[a] : k == 1 ? s[b] : s[kv_pick(2) ? a : b]; unsigned op = k == 0 ? 0 : kv_pick(2); const Ent& e = c.e[f];
    if (op == 1) { e.clear(o.get()); has[f] = false; val[f] = e.def; } else { Val v = sym(e); e.set(o.get(), v); has[f] = true; val[f] = v; }
    for (size_t i = 0; i < c.n; i++) { KV_ASSERT(c.e[i].has(o.get()) == has[i], "presence of every field"); if (c.e[i].simple()) KV_ASSERT(same(c.e[i], c.e[i].get(o.get()), val[i]), "value of every field"); }
  }
}
KV_HARNESS(wide) {
  Cls c = cls(kv_pick(NDEFS)); std::vector<size_t> s = simp(c); KV_ASSUME(!s.empty()); const Ent& e = c.e[s[kv_pick(s.size())]]; ElementPtr o = make(c.t); string t; bool d = kv_pick(2); Val v = d ? e.def : wide(e, &t), z; z.s = "z"; z.d = 7.5; z.i = e.k == 'b' || e.k == 'e' ? 0 : 7;
  for (int k = 0; k < 2; k++) { e.set(o.get(), v); KV_ASSERT(e.has(o.get()) && same(e, e.get(o.get()), v), "reads back what was set"); for (size_t i = 0; i < c.n; i++) if (&c.e[i] != &e) KV_ASSERT(!c.e[i].has(o.get()), "nothing else is set"); if (k == 0) { e.set(o.get(), z); KV_ASSERT(e.has(o.get()) && same(e, e.get(o.get()), z), "overwritten"); } }
  e.clear(o.get()); KV_ASSERT(!e.has(o.get()) && same(e, e.get(o.get()), e.def), "cleared to the default");
}
