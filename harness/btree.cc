// BTreeOLC (both leaf layouts): B+-tree with optimistic lock coupling.
#include "mapgen.h"
#include "BTreeOLC.h"
#define btreeolc btreeolc_pairs
#include "BTreeOLC_child_layout.h"
#undef btreeolc
using namespace sim;
namespace {
#ifndef KB
#define KB 600
#endif
// wide keys make small nodes: the page size is fixed
struct Key {
  uint64_t k; char pad[KB - 8];
  Key() {}
  Key(uint64_t x) : k(x) {}
  Key(const Key &o) : k(o.k) {}
  Key &operator=(const Key &o) { k = o.k; return *this; }
  bool operator<(const Key &o) const { return k < o.k; }
  bool operator>(const Key &o) const { return k > o.k; }
  bool operator==(const Key &o) const { return k == o.k; }
};
struct Val { uint64_t v, n; };
struct Idx { virtual void put(int64_t, uint64_t) = 0; virtual uint64_t get(int64_t) = 0; virtual uint64_t scan(int64_t, int, Val *) = 0; virtual ~Idx() {} };
template <class T, class K> struct I : Idx {
  T t;
  void put(int64_t k, uint64_t v) override { t.insert(K(k), Val{v, ~v}); }
  uint64_t get(int64_t k) override { Val r{0, 0}; if (!t.lookup(K(k), r)) return 0; if (!r.v || r.n != ~r.v) sim_fail("bad-value", "lookup returned a torn value"); return r.v; }
  uint64_t scan(int64_t k, int n, Val *o) override { return t.scan(K(k), n, o); }
};
Idx *T; MapUni U; MapVals V;
void do_put(int64_t id) { uint64_t v = V.fresh(id); Mark m = hb(id, H_PUT, v); T->put(id, v); he(m, 0, false); }
void do_get(int64_t id) { Mark m = hb(id, H_GET); uint64_t v = T->get(id); he(m, v ? V.check(id, v) : 0); }
void do_scan(int64_t k, int n) {
  Val out[100]; ScanObs o; o.inv = sim_now();
  uint64_t c = T->scan(k, n, out);
  o.res = sim_now();
  Off off;
  if (c > (uint64_t)n) sim_fail("scan", "scan returned %llu values, asked for %d", (unsigned long long)c, n);
  for (uint64_t i = 0; i < c; i++) { if (out[i].n != ~out[i].v || V.keyof(out[i].v) < 0) sim_fail("scan", "scan returned a value that was never stored"); o.got.push_back({V.keyof(out[i].v), out[i].v}); }
  // covers the keys from k to the last one returned (one leaf); everything when nothing is returned
  size_t lo = U.lower(k), hi = o.got.empty() ? U.ids.size() : U.upper(o.got.back().first);
  if (lo >= hi) { if (!o.got.empty()) sim_fail("scan", "scan from %lld returned key %lld", (long long)k, (long long)o.got[0].first); return; }
  scan_check(o, U.ids, lo, hi - 1);
}
void setup(const Spec &s) {
  { Off o; H.reset(); V.reset(); U.build(s); }
  int v = s.get("variant");
  if (v == 0) T = new I<btreeolc::BTree<Key, Val>, Key>();
  else if (v == 1) T = new I<btreeolc_pairs::BTree<Key, Val>, Key>();
  else if (v == 2) T = new I<btreeolc::BTree<uint64_t, Val>, uint64_t>();
  else T = new I<btreeolc_pairs::BTree<uint64_t, Val>, uint64_t>();
  for (int64_t k : U.load) do_put(k);
}
void exec(int, const Op &o) { switch (o.kind) { case GET: do_get(o.a); break; case PUT: do_put(o.a); break; case SCAN: do_scan(o.a, o.c); break; } }
void finish(const Spec &s) {
  for (int64_t k : U.ids) do_get(k);
  // walk the whole tree leaf by leaf
  int64_t at = 0; size_t rounds = 0;
  std::vector<int64_t> seen;
  for (;;) {
    Val out[300]; uint64_t c = T->scan(at, 299, out);
    if (!c) break;
    do_scan(at, 50);
    at = V.keyof(out[c - 1].v) + 1;
    if (++rounds > 2000) sim_fail("scan", "walking the tree with scans does not end");
  }
  do_scan(at, 50);
  H.check();
}
void gen(Rng &r, Spec &s, bool scans) {
  int v = (int)r.below(5); if (v > 3) v -= 2; if (v >= 2 && r.chance(0.8)) v -= 2;
  s.par["variant"] = v;
  MapMix m; m.get = 0.35; m.put = 0.65; m.scans = scans;
  if (v < 2) m.fills = {0, 1, 5, 6, 7, 8, 9, 12, 20, 24, 30, 36};
  else { m.fills = {0, 1, 169, 170, 171, 172, 340}; m.ascend = 0.5; }
  gen_map(r, s, m);
}
void gen1(Rng &r, Spec &s) { gen(r, s, false); }
void gen2(Rng &r, Spec &s) { gen(r, s, true); }
#define REAL "BTreeOLC/BTreeOLC.h, BTreeOLC/BTreeOLC_child_layout.h (all real)"
#define STUB "malloc, scheduler, sched_yield/pause"
Reg r1({"T01", "every history of concurrent upserts and lookups on the OLC B+-tree (both leaf layouts) is linearizable per key, memory-safe and terminates", REAL, STUB, gen1, setup, nullptr, exec, nullptr, finish, mop_describe});
Reg r2({"T02", "a scan of the OLC B+-tree returns consecutive keys from the smallest one not below the start, each with a value it had during the call", REAL, STUB, gen2, setup, nullptr, exec, nullptr, finish, mop_describe});
}
