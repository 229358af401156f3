// Wormhole: hash-accelerated ordered index; every public interface (wormhole_*, whsafe_*, whunsafe_*, wh_*).
#include "mapgen.h"
#include <map>
#define static_assert(...) struct Sa_
typedef int au_dummy;
#undef static_assert
#include "lib.h"
#include "kv.h"
#include "wh.h"
using namespace sim;
namespace {
MapUni U; MapVals V; uint64_t live0; void *M; int api; int shape; bool faults, fast;
const kvmap_api *A;
}
extern uint64_t wh_leaf_events;
namespace {
void *refs[16];
uint64_t n_ins, n_del, n_delr; bool conserve;
enum { WH_EASY = 3 };
// ---- keys: order-preserving encodings of ids
int enc(int64_t id, uint8_t *b) {
  Off o; int n = 0;
  if (shape == 0) { for (int i = 7; i >= 0; i--) b[n++] = id >> (8 * i); return n; }
  if (shape == 5) for (int i = 0; i < 140; i++) b[n++] = 'a' + i % 26;
  if (shape == 1 || shape == 5) { if (shape == 1) for (int i = 0; i < 13; i++) b[n++] = "common-prefix"[i]; for (int i = 3; i >= 0; i--) b[n++] = id >> (8 * i); return n; }
  // digits in a small base, trailing zeros dropped: keys are prefixes of one another
  int base = shape == 2 ? 3 : shape == 3 ? 7 : 2, len = shape == 2 ? 13 : shape == 3 ? 8 : 20; int64_t d[24]; int64_t x = id;
  for (int i = len - 1; i >= 0; i--) { d[i] = x % base; x /= base; }
  int e = len; while (e > 0 && d[e - 1] == 0) e--;
  for (int i = 0; i < e; i++) b[n++] = shape == 4 ? (d[i] ? 0xff : 0) : (uint8_t)d[i];
  return n;
}
int64_t maxid() { return shape == 2 ? 1594322 : shape == 3 ? 5764800 : shape == 4 ? 1048575 : 1ll << 30; }
int64_t dec(const uint8_t *b, unsigned n) {
  Off o;
  if (shape == 0) { if (n != 8) return -1; int64_t r = 0; for (unsigned i = 0; i < 8; i++) r = r << 8 | b[i]; return r; }
  if (shape == 1) { if (n != 17 || memcmp(b, "common-prefix", 13)) return -1; int64_t r = 0; for (unsigned i = 13; i < 17; i++) r = r << 8 | b[i]; return r; }
  if (shape == 5) { if (n != 144) return -1; for (int i = 0; i < 140; i++) if (b[i] != 'a' + i % 26) return -1; int64_t r = 0; for (unsigned i = 140; i < 144; i++) r = r << 8 | b[i]; return r; }
  int base = shape == 2 ? 3 : shape == 3 ? 7 : 2, len = shape == 2 ? 13 : shape == 3 ? 8 : 20; if ((int)n > len) return -1;
  int64_t r = 0; for (int i = 0; i < len; i++) r = r * base + (i < (int)n ? (shape == 4 ? (b[i] ? 1 : 0) : b[i]) : 0);
  return r;
}
struct Key { uint8_t b[160]; int n; kref r; SIM_NOINST explicit Key(int64_t id) { n = enc(id, b); Off o; kref_ref_hash32(&r, b, n); } };
unsigned vlen(uint64_t v) { return 8 + ((v & 0xfffff) % 5) * 9; }
struct Buf { alignas(64) uint8_t b[320]; };
SIM_NOINST void fill(uint8_t *b, uint64_t v) { Off o; memcpy(b, &v, 8); memset(b + 8, (int)((v & 0xfffff) * 37 & 0xff), vlen(v) - 8); }
SIM_NOINST uint64_t val_of(int64_t id, const uint8_t *b, unsigned n) {
  Off o; uint64_t v; if (n < 8) sim_fail("bad-value", "a value of %u bytes was returned for key %lld", n, (long long)id);
  memcpy(&v, b, 8);
  if (V.keyof(v & 0xfffff) != id) sim_fail("bad-value", "key %lld returned value %llx, stored under key %lld", (long long)id, (unsigned long long)v, (long long)V.keyof(v & 0xfffff));
  if (n != vlen(v)) sim_fail("bad-value", "key %lld returned a value of %u bytes, stored with %u", (long long)id, n, vlen(v));
  for (unsigned i = 8; i < n; i++) if (b[i] != (uint8_t)((v & 0xfffff) * 37 & 0xff)) sim_fail("bad-value", "key %lld returned a torn value", (long long)id);
  return v;
}
SIM_NOINST uint64_t kv_val(int64_t id, kv *k) {
  Off o; uint8_t b[160]; int n = enc(id, b);
  if ((int)k->klen != n || memcmp(k->kv, b, n)) sim_fail("bad-value", "a pair with another key was returned for key %lld", (long long)id);
  return val_of(id, k->kv + k->klen, k->vlen);
}
// pad bytes depend on the low 20 bits only
SIM_NOINST kv *mk(uint8_t *mem, int64_t id, uint64_t v) { Key k(id); uint8_t b[64]; fill(b, v); Off o; kv *x = (kv *)mem; kv_refill(x, k.b, k.n, b, vlen(v)); return x; }
void *ref() { return refs[sim_tid()]; }
void noop(const Mark &m) { Off o; Ev &e = H.per[m.key][m.i]; e.kind = H_GET; e.res = sim_now(); e.known = false; }

// ---- callbacks
struct Inp { int64_t id; bool found; uint64_t v; uint64_t add; };
void cb_read(kv *k, void *p) { Inp *i = (Inp *)p; i->found = k; if (k) { uint8_t tmp[64]; unsigned n = k->vlen; if (n > 64) sim_fail("bad-value", "impossible value length %u", n); memcpy(tmp, k->kv + k->klen, n); Off o; kv_val(i->id, k); i->v = val_of(i->id, tmp, n); } }
void cb_add(kv *k, void *p) { Inp *i = (Inp *)p; i->found = k; if (k) { uint64_t v; memcpy(&v, k->kv + k->klen, 8); { Off o; if (V.keyof(v & 0xfffff) != i->id) sim_fail("bad-value", "in-place update of key %lld was given a pair of key %lld", (long long)i->id, (long long)V.keyof(v & 0xfffff)); } v += i->add; memcpy(k->kv + k->klen, &v, 8); i->v = v; } }
struct Mrg { int64_t id; bool found; uint64_t old; kv *neu; int what; uint64_t add; };   // what: 0 put, 1 insert if absent, 2 add in place
kv *cb_merge(kv *k, void *p) {
  Mrg *m = (Mrg *)p; m->found = k;
  if (k) { uint64_t v; memcpy(&v, k->kv + k->klen, 8); m->old = v; { Off o; kv_val(m->id, k); } }
  if (m->what == 0) return m->neu;
  if (m->what == 1) return k ? nullptr : m->neu;
  if (!k) return nullptr;
  m->old += m->add; memcpy(k->kv + k->klen, &m->old, 8);
  return m->old & 1 ? k : nullptr;   // both mean "updated in place"
}
// ---- operations
uint64_t get(int64_t id, int how) {
  Key k(id);
  if (api == WH_EASY && how % 3 == 0) {
    uint8_t b[64]; uint32_t n = 0; unsigned cap = how % 2 ? 64 : 8;
    bool ok = wh_get((wormref *)ref(), k.b, k.n, b, cap, &n);
    if (!ok) return 0;
    Off o; if (cap == 8) { uint64_t v; memcpy(&v, b, 8); fill(b, v & 0xfffff); memcpy(b, &v, 8); }
    return val_of(id, b, n);
  }
  switch (how % 3) {
  case 0: { Buf out; kv *r = A->get(ref(), &k.r, (kv *)out.b); if (!r) return 0; if (r != (kv *)out.b) sim_fail("bad-value", "get ignored the buffer"); return kv_val(id, r); }
  case 1: { Inp i{id, false, 0, 0}; bool ok = api == WH_EASY ? wh_inpr((wormref *)ref(), k.b, k.n, cb_read, &i) : A->inpr(ref(), &k.r, cb_read, &i); if (ok != i.found) sim_fail("bad-result", "inpr of key %lld returned %d, its callback saw %d", (long long)id, ok, i.found); return ok ? i.v : 0; }
  default: { bool r = api == WH_EASY ? wh_probe((wormref *)ref(), k.b, k.n) : A->probe(ref(), &k.r); return r ? ~0ull : 0; }
  }
}
void do_get(int64_t id, int how) {
  if (how % 3 == 2) { Mark m = hb(id, H_HAS); uint64_t r = get(id, how); he(m, r != 0); }
  else { Mark m = hb(id, H_GET); uint64_t r = get(id, how); he(m, r); }
}
bool put(int64_t id, uint64_t v) {
  Buf kb; kv *x = mk(kb.b, id, v);
  if (api == WH_EASY) return wh_put((wormref *)ref(), x->kv, x->klen, x->kv + x->klen, x->vlen);
  return A->put(ref(), x);
}
void do_put(int64_t id) {
  uint64_t v = V.fresh(id); Mark m = hb(id, H_PUT, v);
  bool ok = put(id, v);
  if (ok) he(m, 0, false); else { if (!faults) sim_fail("bad-result", "put of key %lld failed without a fault", (long long)id); sim_probe("put_failed"); noop(m); }
}
bool merge(int64_t id, Mrg *m) { Key k(id); return api == WH_EASY ? wh_merge((wormref *)ref(), k.b, k.n, cb_merge, m) : A->merge(ref(), &k.r, cb_merge, m); }
// with wh_* the pair returned by a merge callback is handed over (mm "ndf"): it must come from malloc
kv *mk_merge(uint8_t *mem, int64_t id, uint64_t v) { kv *x = mk(mem, id, v); if (api != WH_EASY) return x; int f = sim_fault_alloc_enabled(0); kv *d = kv_dup(x); sim_fault_alloc_enabled(f); return d; }
void do_merge(int64_t id, int what, uint64_t add) {
  uint64_t v = what == 2 ? add : V.fresh(id); Buf kb;
  Mrg g{id, false, 0, what == 2 ? nullptr : mk_merge(kb.b, id, v), what, add};
  Mark m = hb(id, what == 0 ? H_PUTOLD : what == 1 ? H_INS : H_RMW, v);
  bool ok = merge(id, &g);
  if (!ok) { if (!faults) sim_fail("bad-result", "merge of key %lld failed without a fault", (long long)id); sim_probe("merge_failed"); noop(m); return; }
  if (what == 0) he(m, g.found ? g.old : 0);
  else if (what == 1) { he(m, !g.found); Off o; if (!g.found) n_ins++; }
  else he(m, g.found ? g.old : 0);
  if (api == WH_EASY && what == 1 && g.found) free(g.neu);
}
void do_inpw(int64_t id, uint64_t add) {
  Key k(id); Inp i{id, false, 0, add}; Mark m = hb(id, H_RMW, add);
  bool ok = api == WH_EASY ? wh_inpw((wormref *)ref(), k.b, k.n, cb_add, &i) : A->inpw(ref(), &k.r, cb_add, &i);
  if (ok != i.found) sim_fail("bad-result", "inpw of key %lld returned %d, its callback saw %d", (long long)id, ok, i.found);
  he(m, ok ? i.v : 0);
}
bool del(int64_t id) { Key k(id); return api == WH_EASY ? wh_del((wormref *)ref(), k.b, k.n) : A->del(ref(), &k.r); }
void do_del(int64_t id) { Mark m = hb(id, H_DEL); bool ok = del(id); he(m, ok); Off o; if (ok) n_del++; }
uint64_t delr(int64_t a, int64_t b) {
  Key x(a), y(b < 0 ? 0 : b);
  if (api == WH_EASY && b >= 0) return wh_delr((wormref *)ref(), x.b, x.n, y.b, y.n);
  return A->delr(ref(), &x.r, b < 0 ? nullptr : &y.r);
}
void do_delr(int64_t a, int64_t b) {   // [a, b), b < 0: to the end
  std::vector<Mark> *ms; size_t lo, hi;
  { Off o; ms = new std::vector<Mark>; lo = U.lower(a); hi = b < 0 ? U.ids.size() : U.lower(b); for (size_t i = lo; i < hi; i++) ms->push_back(hb(U.ids[i], H_DEL)); }
  uint64_t n = delr(a, b);
  Off o; n_delr += n; for (auto &m : *ms) he(m, 0, false);
  if (n > ms->size() && conserve) sim_fail("count", "delr reports %llu removed keys, its range has %zu keys at most", (unsigned long long)n, ms->size());
  delete ms;
}
// iterate from id over at most n keys
void iterate(int64_t id, int n, std::vector<std::pair<int64_t, uint64_t>> &got, int style, bool &end, int skip) {
  Key k(id); end = false;
  void *it;
  do { it = api == WH_EASY ? (void *)wh_iter_create((wormref *)ref()) : A->iter_create(ref()); if (!it && !faults) sim_fail("bad-result", "iter_create failed without a fault"); } while (!it);
  if (style & 1) { Key z(0); A->iter_seek(it, &z.r); if ((style & 2) && A->iter_park) A->iter_park(it); }
  A->iter_seek(it, &k.r);
  if (skip) A->iter_skip(it, skip);
  while (n-- > 0) {
    if (!A->iter_valid(it)) { end = true; break; }
    uint8_t kb[160]; unsigned kn = 0; uint8_t vb[64]; unsigned vn = 0;
    switch (style >> 2 & 3) {
    case 0: { Buf o; kv *r = A->iter_next(it, (kv *)o.b); if (!r) sim_fail("scan", "next returned nothing on a valid iterator"); kn = r->klen; vn = r->vlen; if (kn > 160 || vn > 64) sim_fail("scan", "impossible sizes"); Off f; memcpy(kb, r->kv, kn); memcpy(vb, r->kv + kn, vn); break; }
    case 1: { kref r; A->iter_kref(it, &r); kn = r.len; if (kn > 160) sim_fail("scan", "impossible sizes"); memcpy(kb, r.ptr, kn); Buf o; kv *p = A->iter_peek(it, (kv *)o.b); vn = p->vlen; { Off f; memcpy(vb, p->kv + p->klen, vn); } A->iter_skip1(it); break; }
    case 2: { kvref r; A->iter_kvref(it, &r); kn = r.hdr.klen; vn = r.hdr.vlen; if (kn > 160 || vn > 64) sim_fail("scan", "impossible sizes"); memcpy(kb, r.kptr, kn); memcpy(vb, r.vptr, vn); A->iter_skip(it, 1); break; }
    default:
      if (api == WH_EASY) { uint32_t a = 0, b = 0; if (!wh_iter_peek((wormhole_iter *)it, kb, 160, &a, vb, 64, &b)) sim_fail("scan", "peek found nothing on a valid iterator"); kn = a; vn = b; wh_iter_skip1((wormhole_iter *)it); }
      else { struct C { uint8_t *k, *v; unsigned kn, vn; } c{kb, vb, 0, 0}; A->iter_inp(it, [](kv *x, void *p) { C *c = (C *)p; if (!x) return; c->kn = x->klen; c->vn = x->vlen; memcpy(c->k, x->kv, c->kn); memcpy(c->v, x->kv + c->kn, c->vn); }, &c); kn = c.kn; vn = c.vn; A->iter_skip1(it); }
    }
    int64_t g = dec(kb, kn); if (g < 0) sim_fail("scan", "the iterator returned a key that was never stored");
    uint64_t v = val_of(g, vb, vn); Off o; got.push_back({g, v});
    if (got.size() > U.ids.size() + 2) sim_fail("scan", "the iterator returned more keys than exist");
  }
  if (n >= 0 && !end) end = false;
  if (api == WH_EASY) wh_iter_destroy((wormhole_iter *)it); else A->iter_destroy(it);
}
void do_scan(int64_t id, int n, int style) {
  ScanObs *o; { Off f; o = new ScanObs; }
  bool end; o->inv = sim_now();
  iterate(id, n, o->got, style, end, 0);
  o->res = sim_now();
  Off f;
  size_t lo = U.lower(id), hi = end ? U.ids.size() : o->got.empty() ? lo : U.upper(o->got.back().first);
  if (lo >= hi) { if (!o->got.empty()) sim_fail("scan", "scan from %lld returned key %lld", (long long)id, (long long)o->got[0].first); }
  else scan_check(*o, U.ids, lo, hi - 1);
  delete o;
}
void tb(int t) {
  int f = sim_fault_alloc_enabled(0);
  if (api == 2) refs[t] = M;
  else refs[t] = api == WH_EASY ? (void *)wh_ref((wormhole *)M) : A->ref(M);
  if (!refs[t]) sim_fail("bad-result", "registering a reference failed without a fault");
  sim_fault_alloc_enabled(faults ? 1 : f);
}
void te(int t) { sim_fault_alloc_enabled(0); if (api != 2) { if (api == WH_EASY) wh_unref((wormref *)refs[t]); else A->unref(refs[t]); } }
void refresh(const Op &o) {
  if (api != 0) return;
  if (o.c & 1) wormhole_refresh_qstate((wormref *)ref());
  else if (o.c & 2) { A->park(ref()); sim_point(); A->resume(ref()); }
}
enum { NEXT = 20 };
const std::vector<Op> *prep; size_t prep_at, prep_next;
SIM_NOINST void prep_cut(size_t n, int64_t back) { prep_at = n > (size_t)back ? n - back : 0; prep_next = 0; }
SIM_NOINST const Op *next_prep() { Off o; return prep && prep_next < prep->size() ? &(*prep)[prep_next++] : nullptr; }
SIM_NOINST bool prep_skip() { Off o; if (!prep || sim_tid() != 0) return false; return prep_next >= prep_at || (prep_next++, false); }
void tb(int t); void te(int t); void wrapup(); void exec(int, const Op &o);
void create(const Spec &s) {
  { Off o; H.reset(); V.reset(); U.build(s); n_ins = n_del = n_delr = 0; conserve = s.get("conserve"); faults = s.get("faults"); }
  api = s.get("api"); shape = s.get("shape");
  A = api == 0 ? &kvmap_api_wormhole : api == 2 ? &kvmap_api_whunsafe : &kvmap_api_whsafe;
  live0 = sim_live_blocks();
  sim_fault_alloc_enabled(0);
  M = api == WH_EASY ? wh_create() : api == 2 && !s.get("mixed") ? whunsafe_create(nullptr) : wormhole_create(nullptr);
  if (!M) sim_fail("bad-result", "create failed without a fault");
  tb(0); sim_fault_alloc_enabled(0);
  { Quiet q; for (int64_t k : U.load) do_put(k); }
  te(0);
}
void setup(const Spec &s) {
  prep = nullptr; create(s);
  if (s.get("prep")) {
    tb(0); sim_fault_alloc_enabled(0);
    size_t i = 0; uint64_t e = wh_leaf_events; for (; i < s.init.size() && wh_leaf_events == e; i++) exec(0, s.init[i]);
    wrapup(); create(s);
    prep = &s.init; prep_cut(i, 1 + s.get("short"));
  }
  n_ins = U.load.size(); n_del = n_delr = 0;
}
void exec(int t, const Op &o) {
  if (o.kind == NEXT) { const Op *n = next_prep(); if (n) exec(t, *n); return; }
  if (prep_skip()) return;
  switch (o.kind) {
  case GET: do_get(o.a, o.b); break;
  case PUT: do_put(o.a); break;
  case INS: do_merge(o.a, 1, 0); break;
  case UPD: if (o.b & 1) do_inpw(o.a, 1ull << (20 + 8 * (sim_tid() & 3))); else do_merge(o.a, 2, 1ull << (20 + 8 * (sim_tid() & 3))); break;
  case MISC: do_merge(o.a, 0, 0); break;
  case DEL: do_del(o.a); break;
  case SCAN: do_scan(o.a, o.b, o.c >> 2); break;
  case RANGE: do_delr(std::min(o.a, o.b), o.c & 4 ? -1 : std::max(o.a, o.b)); break;
  }
  refresh(o);
}
void wrapup() {
  te(0);
  sim_fault_alloc_enabled(0);
  if (api == WH_EASY) wh_destroy((wormhole *)M); else A->destroy(M);
  if (sim_live_blocks() != live0) { sim_dump_live(); sim_fail("leak", "%lld heap blocks are left after destroy", (long long)(sim_live_blocks() - live0)); }
}
void finish(const Spec &) {
  tb(0); sim_fault_alloc_enabled(0);
  for (int64_t k : U.ids) do_get(k, 0);
  std::vector<std::pair<int64_t, uint64_t>> got; bool end;
  do_scan(0, 1 << 20, 0);
  if (conserve) { iterate(0, 1 << 20, got, 4, end, 0); if (got.size() != n_ins - n_del - n_delr) sim_fail("count", "%llu inserted, %llu removed singly, %llu reported removed by ranges, but %zu are left", (unsigned long long)n_ins, (unsigned long long)n_del, (unsigned long long)n_delr, got.size()); }
  H.check();
  wrapup();
}
void cap(Spec &s, int64_t mx) { auto f = [&](int64_t &x) { if (x > mx) x = mx; if (x < 0) x = 0; }; for (auto *l : {&s.init, &s.fin}) for (auto &o : *l) f(o.a); for (auto &t : s.thr) for (auto &o : t) { f(o.a); if (o.kind == RANGE) f(o.b); } }
// A run of removals (or insertions) is tried on a scratch map to see where it first merges (splits) a leaf; the real map gets
// the ones before that, and the threads go on from there, so that the structure changes while they run.
void storm(Rng &r, Spec &s) {
  int64_t fill = r.range(66, r.chance(0.7) ? 90 : 180), st = r.range(2, 4), b = s.get("base"); s.par["stride"] = st; s.par["fill"] = fill; s.init.clear();
  bool dels = r.chance(0.6); s.par["prep"] = 1; s.par["short"] = r.below(3);
  int64_t at = (int64_t)r.below(fill), n = dels ? 100 : 80; int dir = r.chance(0.5) ? 1 : -1; std::vector<int64_t> ks;
  for (int64_t i = 0; i < n; i++) {
    int64_t j = at + dir * i; if (j < 0 || j >= fill) break;
    if (dels) ks.push_back(b + j * st);
    else for (int64_t k = 1; k < st; k++) ks.push_back(b + j * st + (dir > 0 ? k : st - k));
  }
  for (int64_t k : ks) { Op o; o.kind = dels ? DEL : INS; o.a = k; s.init.push_back(o); }
  int64_t lo = b + (at - 2) * st, w = st * 60;
  for (auto &t : s.thr) {
    for (auto &o : t) { int64_t x = lo + dir * (int64_t)r.below(w); if (r.chance(0.3)) x = r.pick(ks); if (x < 0) x = 0; if (!r.chance(0.2)) o.a = x; }
    int k = (int)r.below(4); for (int i = 0; i < k; i++) { Op o; o.kind = NEXT; o.a = 1; t.insert(t.begin() + r.below(t.size() + 1), o); }
  }
}
void gen_c(Rng &r, Spec &s, int what) {   // 0 points, 1 scans, 2 range deletes, 3 faults
  int a = (int)r.below(3); s.par["api"] = a == 2 ? WH_EASY : a;
  s.par["shape"] = r.below(6);
  MapMix m; m.get = 0.25; m.put = 0.5; m.ins = 0.2; m.upd = 0.25; m.del = 0.5;
  m.fills = {0, 1, 40, 60, 62, 63, 64, 64, 64, 65, 66, 80, 96, 100, 120, 128, 130, 160, 200}; m.maxops = 8; m.scanmax = 16;
  if (what == 1) m.scans = 1;
  if (what == 2) { m.scans = 1; m.put = 0; m.upd = 0; m.ins = 0.6; s.par["conserve"] = 1; }
  gen_map(r, s, m);
  if (what == 2) s.init.clear();
  if (r.chance(0.6)) storm(r, s);
  else if (r.chance(0.6)) {   // a run of removals shrinks leaves enough to merge
    int64_t fill = s.get("fill"), b = s.get("base"), st = s.get("stride"); int64_t n = std::min<int64_t>(fill, (int64_t)r.range(10, 120)), f = r.chance(0.5) ? fill - n : (int64_t)r.below(fill - n + 1);
    int style = (int)r.below(3);
    std::vector<Op> d; for (int64_t i = 0; i < n; i++) { Op o; o.kind = DEL; o.a = b + (f + i) * st; o.c = i % 7 ? 0 : 1; d.push_back(o); }
    if (style == 0) s.init.insert(s.init.end(), d.begin(), d.end());
    else { auto &t = s.thr[r.below(s.thr.size())]; if (d.size() > 14) d.resize(14); t.insert(t.begin() + r.below(t.size() + 1), d.begin(), d.end()); }
  }
  for (auto &t : s.thr) for (auto &o : t) {
    if (o.kind == PUT && r.chance(0.25)) o.kind = MISC;
    if (o.kind == SCAN) { o.b = o.c; o.c = (int64_t)r.below(16) << 2; }
    o.c |= r.below(4);
    if (o.kind == GET || o.kind == UPD) o.b = r.below(6);
    if (what == 2 && (o.kind == SCAN || o.kind == GET) && r.chance(0.6)) { int64_t x = o.a; o.kind = RANGE; o.b = std::max<int64_t>(0, x + (int64_t)r.range(-20, 60)); o.c = (o.c & 3) | (r.chance(0.1) ? 4 : 0); }
  }
  for (auto &o : s.init) o.c = r.below(4);
  s.sched.allocfail = 0;
  if (what == 3) { s.par["faults"] = 1; s.sched.allocfail = r.chance(0.5) ? 0.05 : 0.3; }
  int64_t mx = (s.get("shape") == 2 ? 1594322 : s.get("shape") == 4 ? 1048575 : 5764800); cap(s, mx - 1);
}
void gen1(Rng &r, Spec &s) { gen_c(r, s, 0); }
void gen2(Rng &r, Spec &s) { gen_c(r, s, 1); }
void gen3(Rng &r, Spec &s) { gen_c(r, s, 2); }
void gen6(Rng &r, Spec &s) { gen_c(r, s, 3); }

// ---- one thread against a reference model
std::map<int64_t, uint64_t> *ref_;
SIM_NOINST uint64_t at(int64_t id) { auto i = ref_->find(id); return i == ref_->end() ? 0 : i->second; }
void setup7(const Spec &s) { { Off o; ref_ = new std::map<int64_t, uint64_t>; } setup(s); Off o; for (auto &k : U.load) (*ref_)[k] = 0; uint64_t i = 1; for (auto &k : U.load) (*ref_)[k] = i++; }
void expect(const char *what, int64_t id, uint64_t got, uint64_t want) { if (got != want) sim_fail("model", "%s(%lld) gave %llx, the model says %llx", what, (long long)id, (unsigned long long)got, (unsigned long long)want); }
void exec7(int, const Op &o) {
  Off *off = nullptr; (void)off;
  switch (o.kind) {
  case GET: { uint64_t r = get(o.a, o.b); if (o.b % 3 == 2) expect("probe", o.a, r != 0, at(o.a) != 0); else expect("get", o.a, r, at(o.a)); break; }
  case PUT: { uint64_t v = V.fresh(o.a); bool ok = put(o.a, v); if (!ok && !faults) sim_fail("model", "put failed without a fault"); if (!ok) sim_probe("put_failed"); Off f; if (ok) (*ref_)[o.a] = v; break; }
  case MISC: case INS: {
    int what = o.kind == MISC ? 0 : 1; uint64_t v = V.fresh(o.a); Buf kb; Mrg g{o.a, false, 0, mk_merge(kb.b, o.a, v), what, 0};
    bool ok = merge(o.a, &g); expect("merge saw", o.a, g.found ? g.old : 0, at(o.a));
    if (!ok && !faults) sim_fail("model", "merge failed without a fault"); if (!ok) sim_probe("merge_failed");
    if (api == WH_EASY && what == 1 && g.found) free(g.neu);
    Off f; if (ok && (what == 0 || !at(o.a))) (*ref_)[o.a] = v; break; }
  case UPD: {
    uint64_t w = at(o.a); uint64_t add = 1ull << 20;
    if (o.b & 1) { Key k(o.a); Inp i{o.a, false, 0, add}; bool ok = api == WH_EASY ? wh_inpw((wormref *)ref(), k.b, k.n, cb_add, &i) : A->inpw(ref(), &k.r, cb_add, &i); expect("inpw", o.a, ok, w != 0); expect("inpw saw", o.a, i.found, w != 0); }
    else { Mrg g{o.a, false, 0, nullptr, 2, add}; bool ok = merge(o.a, &g); expect("merge", o.a, ok, 1); expect("merge saw", o.a, g.found, w != 0); }
    Off f; if (w) (*ref_)[o.a] = w + add; break; }
  case DEL: { bool ok = del(o.a); expect("del", o.a, ok, at(o.a) != 0); Off f; ref_->erase(o.a); break; }
  case RANGE: {
    uint64_t n = delr(o.a, o.b), w = 0; { Off f; if (o.b < 0 || o.a < o.b) { auto b = ref_->lower_bound(o.a), e = o.b < 0 ? ref_->end() : ref_->lower_bound(o.b); w = std::distance(b, e); ref_->erase(b, e); } }
    expect("delr", o.a, n, w); break; }
  case SCAN: {
    std::vector<std::pair<int64_t, uint64_t>> *got; { Off f; got = new std::vector<std::pair<int64_t, uint64_t>>; }
    bool end; int skip = o.c >> 6; iterate(o.a, o.b, *got, (o.c >> 2) & 15, end, skip);
    Off f; auto b = ref_->lower_bound(o.a); for (int i = 0; i < skip && b != ref_->end(); i++) ++b;
    for (auto &g : *got) { if (b == ref_->end()) sim_fail("model", "the iterator returned key %lld past the last key", (long long)g.first); if (b->first != g.first || b->second != g.second) sim_fail("model", "the iterator returned key %lld value %llx, the model says key %lld value %llx", (long long)g.first, (unsigned long long)g.second, (long long)b->first, (unsigned long long)b->second); ++b; }
    if ((int)got->size() < o.b && b != ref_->end()) sim_fail("model", "the iterator ended before key %lld", (long long)b->first);
    delete got; break; }
  case CHURN: {
    if (o.b == 1) {   // the same map through another interface
      te(sim_tid()); api = api == 2 ? (int)o.c : 2; A = api == 0 ? &kvmap_api_wormhole : api == 2 ? &kvmap_api_whunsafe : &kvmap_api_whsafe; tb(sim_tid()); break;
    }
    if (o.b == 2) {   // a second map comes and goes, whatever allocations fail
      uint64_t l = sim_live_blocks(); wormhole *m = o.c == 0 ? wormhole_create(nullptr) : o.c == 1 ? whunsafe_create(nullptr) : wh_create();
      if (!m) { if (!faults) sim_fail("model", "create failed without a fault"); sim_probe("create_failed"); }
      else { wormref *r = o.c == 1 ? nullptr : o.c == 0 ? wormhole_ref(m) : wh_ref(m); if (r) wormhole_unref(r); else if (o.c != 1) sim_probe("ref_failed"); wormhole_destroy(m); }
      if (sim_live_blocks() != l) { sim_dump_live(); sim_fail("leak", "a map that %s left %lld heap blocks behind", m ? "was destroyed" : "could not be created", (long long)(sim_live_blocks() - l)); }
      break;
    }
    te(sim_tid()); if (api == WH_EASY) wh_clean((wormhole *)M); else A->clean(M); tb(sim_tid()); Off f; ref_->clear(); break; }
  }
  if (faults && o.kind != SCAN) { Off f; }
}
void fin7(const Spec &) {
  tb(0); sim_fault_alloc_enabled(0);
  std::vector<std::pair<int64_t, uint64_t>> got; bool end; iterate(0, 1 << 20, got, 0, end, 0);
  { Off f; if (got.size() != ref_->size()) sim_fail("model", "%zu keys left, the model has %zu", got.size(), ref_->size()); auto b = ref_->begin(); for (auto &g : got) { if (g != std::pair<int64_t, uint64_t>(*b)) sim_fail("model", "key %lld value %llx left, the model has key %lld value %llx", (long long)g.first, (unsigned long long)g.second, (long long)b->first, (unsigned long long)b->second); ++b; } }
  for (int64_t k : U.ids) expect("get", k, get(k, 0), at(k));
  Off *o = nullptr; (void)o;
  wrapup();
}
void tb7(int t) { tb(t); }
void gen7(Rng &r, Spec &s) {
  s.par["api"] = r.chance(0.5) ? 2 : (int64_t)r.below(4); s.par["shape"] = r.below(6);
  if (r.chance(0.3)) { s.par["mixed"] = 1; s.par["api"] = 2; }
  int fill = (int)r.pick(std::vector<int>{0, 0, 30, 64, 100, 200, 300}); int st = (int)r.range(1, 3);
  s.par["fill"] = fill; s.par["stride"] = st; s.par["base"] = r.below(50); s.par["order"] = r.below(3);
  int64_t top = s.par["base"] + fill * st + 60; if (s.par["shape"] >= 2 && r.chance(0.3)) top *= 50;
  s.thr.resize(1); auto &t = s.thr[0];
  if (r.chance(0.5)) { s.par["faults"] = 1; s.sched.allocfail = r.chance(0.5) ? 0.03 : 0.25; }
  if (r.chance(0.12)) {   // grow, thin out, grow elsewhere: the hash table loses entries and is enlarged afterwards
    int rounds = (int)r.range(2, 5); int64_t at = r.below(top);
    for (int k = 0; k < rounds; k++) {
      int n = (int)r.range(100, 450); int64_t gap = r.chance(0.5) ? (int64_t)r.range(1, 4) : (int64_t)r.range(5, 900), b = at;
      for (int i = 0; i < n; i++, at += gap) { Op o; o.kind = PUT; o.a = at; t.push_back(o); }
      for (int c = (int)r.below(7); c > 0; c--) { Op o; o.kind = RANGE; o.a = b + (int64_t)r.below(at - b); o.b = o.a + (int64_t)r.below((at - b) / (1 + r.below(8)) + 1); t.push_back(o); }
      if (r.chance(0.3)) at = r.below(top) + (r.chance(0.5) ? at : 0);
    }
  }
  int phases = (int)r.range(1, 4);
  for (int p = 0; p < phases; p++) {
    int mode = (int)r.below(5); int n = (int)r.logu(10, 150); int64_t at = r.below(top); int dir = r.chance(0.5) ? 1 : -1;
    for (int i = 0; i < n; i++) {
      Op o; double x = r.below(100) / 100.0; o.a = r.below(top); o.b = r.below(6);
      if (mode == 0) o.kind = x < .5 ? PUT : x < .6 ? INS : x < .7 ? MISC : x < .8 ? UPD : x < .9 ? GET : DEL;
      else if (mode == 1) { o.kind = x < .85 ? DEL : GET; if (r.chance(0.8)) { o.a = at; at += dir; } }
      else if (mode == 2) { o.kind = PUT; if (r.chance(0.9)) { o.a = at; at += dir; } }
      else if (mode == 3) { o.kind = x < .35 ? SCAN : x < .45 ? RANGE : x < .7 ? PUT : x < .9 ? DEL : GET; }
      else o.kind = x < .3 ? PUT : x < .6 ? DEL : x < .7 ? UPD : x < .8 ? INS : x < .9 ? MISC : GET;
      if (o.a < 0) o.a = 0;
      if (o.kind == RANGE) { o.b = r.chance(0.1) ? -1 : r.chance(0.3) ? (int64_t)r.below(top) : std::max<int64_t>(0, o.a + (int64_t)r.range(-10, 40)); }
      if (o.kind == SCAN) { o.b = r.chance(0.3) ? 1000 : (int64_t)r.below(20); o.c = (int64_t)r.below(16) << 2 | (r.chance(0.4) ? (int64_t)r.below(90) << 6 : 0); }
      t.push_back(o);
    }
    if (r.chance(0.05)) { Op o; o.kind = CHURN; o.a = 1; t.push_back(o); }
    if (r.chance(0.1)) { Op o; o.kind = CHURN; o.a = 1; o.b = 2; o.c = r.below(3); t.push_back(o); }
    if (s.get("mixed")) { Op o; o.kind = CHURN; o.a = 1; o.b = 1; o.c = r.below(2); t.push_back(o); }
  }
  int64_t mx = (s.get("shape") == 2 ? 1594322 : s.get("shape") == 4 ? 1048575 : 5764800); for (auto &o : t) { if (o.a >= mx) o.a = mx - 1; if (o.kind == RANGE && o.b >= mx) o.b = mx - 1; }
}
std::string desc(const Op &o) {
  char b[160];
  if (o.kind == SCAN) snprintf(b, sizeof b, "iterate(from %lld, max %lld, style %lld, skip %lld)", (long long)o.a, (long long)o.b, (long long)(o.c >> 2 & 15), (long long)(o.c >> 6));
  else if (o.kind == RANGE) snprintf(b, sizeof b, "delr(%lld, %lld)", (long long)o.a, (long long)o.b);
  else if (o.kind == MISC) snprintf(b, sizeof b, "merge-put(%lld)", (long long)o.a);
  else if (o.kind == INS) snprintf(b, sizeof b, "merge-insert(%lld)", (long long)o.a);
  else if (o.kind == UPD) snprintf(b, sizeof b, "%s(%lld)", o.b & 1 ? "inpw" : "merge-update", (long long)o.a);
  else if (o.kind == CHURN) snprintf(b, sizeof b, o.b == 1 ? "switch interface(%lld)" : o.b == 2 ? "create and destroy another map(%lld)" : "clean()", (long long)o.c);
  else if (o.kind == NEXT) return "next of the preparing operations";
  else return mop_describe(o);
  return b;
}
#define REAL "wormhole/wh.c, kv.c, lib.c (index, kv, qsbr, rwlock, slab: all real)"
#define STUB "malloc, mmap, scheduler, pthread spinlock, clock/sleep; node and table sizes scaled down (WH_SIM_CONFIG)"
Reg r1({"W01", "every history of concurrent put/get/probe/del/merge/inpr/inpw through wormhole_*, whsafe_* and wh_* is linearizable per key, memory-safe and terminates", REAL, STUB, gen1, setup, tb, exec, te, finish, desc});
Reg r2({"W02", "iterators return ascending keys, each with a value it had during the scan, and skip only keys absent at some moment", REAL, STUB, gen2, setup, tb, exec, te, finish, desc});
Reg r3({"W03", "range deletion removes the keys of its range, no others, and reports how many", REAL, STUB, gen3, setup, tb, exec, te, finish, desc});
Reg r6({"W06", "with failing allocations a failed put or merge changes nothing and everything else stays linearizable", REAL, STUB, gen6, setup, tb, exec, te, finish, desc});
Reg r7({"W07", "every public interface agrees with a reference map operation by operation, with and without failing allocations", REAL, STUB, gen7, setup7, tb7, exec7, te, fin7, desc});
}
