// P10: at most one parent per element; child links stay consistent.
// @h single q=90 t=400 | every element type x single child slot x every sequence of 4 operations (set one of two fresh children, set a child of another parent, set NULL, clear, add through AddElement)
// @h array q=90 t=400 | every element type x child array slot x every sequence of 3 operations (add fresh, add again, add a child of another parent, add NULL, AddElement), with mixed child types
// @h remove q=90 t=400 | Folder and Document holding 0-3 features with symbolic ids: two removals by symbolic index or symbolic id, interleaved with an addition; Document schemas and style selectors by symbolic index
// @h life q=40 t=100 | every element type x child slot: a child held by the client outlives its cleared, replaced or destroyed parent with its own content intact; reference counts return to the client's
// @h many q=40 t=100 | a container, a geometry collection and an update of 1..300 members: removal at 16 positions within and beyond: the member there or nothing, the rest in order
// @assume an element is not made a child of itself or of its own descendant; GetParent is asked only while the parent lives
#include "schema.h"
#include "xt.h"
using namespace sch;
static bool slot(char k, Cls* c, const Ent** e) { *c = cls(kv_pick(NDEFS)); std::vector<size_t> s; for (size_t i = 0; i < c->n; i++) if (k ? c->e[i].k == k : !c->e[i].simple()) s.push_back(i); if (s.empty()) return false; *e = &c->e[s[kv_pick(s.size())]]; return true; }
static unsigned ntypes(const Ent& e) { unsigned n = 0; while (e.types[n] >= 0) n++; return n; }
KV_HARNESS(single) {
  Cls c; const Ent* e; KV_ASSUME(slot('1', &c, &e)); unsigned nt = ntypes(*e); unsigned t0 = kv_pick(nt > 2 ? 2 : nt); ElementPtr o = make(c.t), p2 = make(c.t), a = make(e->types[t0]), b = make(e->types[nt - 1]), f = make(e->types[0]); e->cset(p2.get(), f); KV_ASSERT(f->GetParent() == p2, "attached"); ElementPtr cur; bool pa = false, pb = false;
  for (int s = 0; s < (kv_tier() ? 4 : 3); s++) {
    switch (kv_pick(6)) { case 0: e->cset(o.get(), a); if (!pa) { cur = a; pa = true; } break; case 1: e->cset(o.get(), b); if (!pb) { cur = b; pb = true; } break; case 2: e->cset(o.get(), f); break; case 3: e->cset(o.get(), NULL); cur = NULL; break; case 4: e->clear(o.get()); cur = NULL; break; default: o->AddElement(a); if (!pa) { cur = a; pa = true; } }
    KV_ASSERT(e->has(o.get()) == (bool)cur && e->cget(o.get(), 0) == cur, "the child last accepted"); if (cur) KV_ASSERT(cur->GetParent() == o, "reports its parent"); if (!pa) KV_ASSERT(!a->GetParent(), "no parent before"); if (!pb) KV_ASSERT(!b->GetParent(), "no parent before"); KV_ASSERT(f->GetParent() == p2 && e->cget(p2.get(), 0) == f, "other parents keep their children");
    KV_ASSERT(o->get_misplaced_elements_array_size() == 0, "not taken for misplaced"); for (size_t i = 0; i < c.n; i++) if (&c.e[i] != e) KV_ASSERT(!c.e[i].has(o.get()) || c.e[i].k == 't', "no other slot changes");
  }
}
KV_HARNESS(array) {
  Cls c; const Ent* e; KV_ASSUME(slot('n', &c, &e)); unsigned nt = ntypes(*e); unsigned t0 = nt > 1 ? kv_pick(2) : 0; ElementPtr o = make(c.t), p2 = make(c.t), f = make(e->types[0]); e->cset(p2.get(), f); std::vector<ElementPtr> m, k; for (int i = 0; i < 3; i++) k.push_back(make(e->types[(t0 + i) % nt])); size_t n = 0; std::vector<bool> par(3, false);
  for (int s = 0; s < 3; s++) {
    unsigned op = kv_pick(6); if (op < 2) { ElementPtr x = k[op]; e->cset(o.get(), x); if (!par[op]) { par[op] = true; m.push_back(x); } } else if (op == 2) e->cset(o.get(), f); else if (op == 3) e->cset(o.get(), NULL); else if (op == 4) { o->AddElement(k[2]); if (!par[2]) { par[2] = true; m.push_back(k[2]); } } else o->AddElement(f);
    KV_ASSERT(e->csize(o.get()) == m.size(), "each accepted child once"); for (size_t i = 0; i < m.size(); i++) KV_ASSERT(e->cget(o.get(), i) == m[i] && m[i]->GetParent() == o, "in order"); KV_ASSERT(e->csize(p2.get()) == 1 && e->cget(p2.get(), 0) == f && f->GetParent() == p2, "other parents keep their children");
    KV_ASSERT(o->get_misplaced_elements_array_size() == 0, "not taken for misplaced");
  } (void)n;
  XN x; KV_ASSERT(xread(SerializeRaw(o), &x) && x.kids.size() == m.size(), "serialized once each");
}
KV_HARNESS(remove) {
  bool doc = kv_pick(2); KmlFactory* F = KmlFactory::GetFactory(); ContainerPtr c; DocumentPtr d; if (doc) { d = F->CreateDocument(); c = d; } else c = F->CreateFolder(); unsigned n = kv_pick(4); std::vector<FeaturePtr> m; for (unsigned i = 0; i < n; i++) { FeaturePtr f = i == 1 ? (FeaturePtr)F->CreateFolder() : (FeaturePtr)F->CreatePlacemark(); f->set_name(num(i)); if (i != 2) f->set_id(kv_alpha(1, "ab")); c->add_feature(f); m.push_back(f); }
  if (doc && kv_pick(2)) { SchemaPtr s[2]; StyleSelectorPtr y[2]; for (int i = 0; i < 2; i++) { s[i] = F->CreateSchema(); d->add_schema(s[i]); y[i] = i ? (StyleSelectorPtr)F->CreateStyleMap() : (StyleSelectorPtr)F->CreateStyle(); d->add_styleselector(y[i]); } unsigned i = kv_u8(), j = kv_u8(); SchemaPtr rs = d->DeleteSchemaAt(i); KV_ASSERT(rs == (i < 2 ? s[i & 1] : SchemaPtr()), "returns the one removed"); KV_ASSERT(d->get_schema_array_size() == (i < 2 ? 1u : 2u), "one fewer"); if (i < 2) KV_ASSERT(d->get_schema_array_at(0) == s[1 - i], "the other stays");
    StyleSelectorPtr ry = d->DeleteStyleSelectorAt(j); KV_ASSERT(ry == (j < 2 ? y[j & 1] : StyleSelectorPtr()), "returns the one removed"); KV_ASSERT(d->get_styleselector_array_size() == (j < 2 ? 1u : 2u), "one fewer"); if (j < 2) KV_ASSERT(d->get_styleselector_array_at(0) == y[1 - j], "the other stays"); KV_ASSERT(d->get_feature_array_size() == n, "features stay"); return; }
  for (int s = 0; s < 3; s++) {
    if (s == 1 && kv_pick(2)) { FeaturePtr f = F->CreatePlacemark(); f->set_id("b"); c->add_feature(f); m.push_back(f); }
    FeaturePtr r; size_t at = m.size(); if (kv_pick(2)) { unsigned i = kv_u8(); r = c->DeleteFeatureAt(i); for (size_t k = 0; k < m.size(); k++) if (i == k) at = k; } else { string id = kv_alpha(kv_pick(2), "abc"); r = c->DeleteFeatureById(id); for (size_t k = m.size(); k-- > 0;) if (m[k]->has_id() && m[k]->get_id() == id) at = k; }
    if (at < m.size()) { KV_ASSERT(r == m[at], "returns the feature removed"); KV_ASSERT(r->get_ref_count() == 2, "owned by its holders only"); m.erase(m.begin() + at); } else KV_ASSERT(!r, "nothing to remove");
    KV_ASSERT(c->get_feature_array_size() == m.size(), "the rest stays"); for (size_t k = 0; k < m.size(); k++) KV_ASSERT(c->get_feature_array_at(k) == m[k] && m[k]->GetParent() == c, "in order");
  }
}
KV_HARNESS(many) {
  unsigned k = kv_pick(3); static const unsigned N[] = {1, 2, 15, 16, 17, 99, 255, 256, 257, 300}; unsigned n = N[kv_pick(10)]; KmlFactory* F = KmlFactory::GetFactory(); std::vector<ElementPtr> m; FolderPtr f = F->CreateFolder(); MultiGeometryPtr g = F->CreateMultiGeometry(); UpdatePtr u = F->CreateUpdate();
  for (unsigned i = 0; i < n; i++) if (k == 0) { PlacemarkPtr p = F->CreatePlacemark(); f->add_feature(p); m.push_back(p); } else if (k == 1) { PointPtr p = F->CreatePoint(); g->add_geometry(p); m.push_back(p); } else { ChangePtr p = F->CreateChange(); u->add_updateoperation(p); m.push_back(p); }
  static const unsigned P[] = {0, 1, 14, 15, 16, 98, 99, 200, 254, 255, 256, 257, 299, 300, 301, 65535}; unsigned at = P[kv_pick(16)]; if (k == 0) { FeaturePtr r = f->DeleteFeatureAt(at); KV_ASSERT(r == (at < n ? AsFeature(m[at]) : FeaturePtr()), "the member at that position, or nothing"); if (at < n) m.erase(m.begin() + at); KV_ASSERT(f->get_feature_array_size() == m.size(), "one fewer"); for (size_t i = 0; i < m.size(); i++) KV_ASSERT(f->get_feature_array_at(i) == m[i], "the rest in order"); return; }
  KV_ASSERT((k == 1 ? g->get_geometry_array_size() : u->get_updateoperation_array_size()) == n, "every member"); for (size_t i = 0; i < n; i++) KV_ASSERT((k == 1 ? ElementPtr(g->get_geometry_array_at(i)) : ElementPtr(u->get_updateoperation_array_at(i))) == m[i], "in order");
}
KV_HARNESS(life) {
  Cls c; const Ent* e; KV_ASSUME(slot(0, &c, &e)); unsigned nt = ntypes(*e); ElementPtr k = make(e->types[kv_pick(nt)]), k2 = make(e->types[0]); int d = find(k->Type()); string x; if (d >= 0) { Cls cc = cls(d); for (size_t i = 0; i < cc.n; i++) if (cc.e[i].k == 's') { cc.e[i].set(k.get(), VS(kv_alpha(1, "ab"))); break; } } string s = SerializeRaw(k);
  { ElementPtr o = make(c.t); e->cset(o.get(), k); KV_ASSERT(k->get_ref_count() == 2, "owned once by the parent"); switch (kv_pick(3)) { case 0: break; case 1: e->cset(o.get(), k2); break; case 2: if (e->clear) e->clear(o.get()); } KV_ASSERT(SerializeRaw(k) == s, "content intact"); }
  KV_ASSERT(k->get_ref_count() == 1, "only the client owns it"); KV_ASSERT(SerializeRaw(k) == s, "a held child outlives its parent");
}
