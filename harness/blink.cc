// BLinkTree: B-link tree with a latch per node (std::shared_mutex and the spinning shared latch).
#include "mapgen.h"
#include <iostream>
#include <sstream>
#include "b_link_tree.h"
using namespace sim;
namespace {
struct Val { uint64_t v, n; };
inline std::ostream &operator<<(std::ostream &o, const Val &) { return o; }
typedef ::BTree<uint64_t, Val> Base;
Base *T; MapUni U; MapVals V; uint64_t live0;
typedef std::vector<std::pair<uint64_t, Val>> KV;
void do_ins(int64_t id) { uint64_t v = V.fresh(id); Mark m = hb(id, H_INS, v); bool ok = T->Insert(id, Val{v, ~v}); he(m, ok); }
void do_upd(int64_t id) { uint64_t v = V.fresh(id); Mark m = hb(id, H_UPD, v); bool ok = T->Update(id, Val{v, ~v}); he(m, ok); }
void do_get(int64_t id) {
  Mark m = hb(id, H_GET); Val r{0, 0}; bool ok = T->Search(id, r);
  if (ok && (r.n != ~r.v)) sim_fail("bad-value", "search returned a torn value");
  he(m, ok ? V.check(id, r.v) : 0);
}
void obs(ScanObs &o, const KV &kv) { for (auto &p : kv) { if (p.second.n != ~p.second.v || V.keyof(p.second.v) != (int64_t)p.first) sim_fail("scan", "scan paired key %lld with a value never stored under it", (long long)p.first); o.got.push_back({(int64_t)p.first, p.second.v}); } }
void do_scan(int64_t k, int n) {
  KV kv; ScanObs o; o.inv = sim_now();
  bool ok = T->ScanFixed(k, n, kv);
  o.res = sim_now();
  Off off;
  if ((int)kv.size() > n) sim_fail("scan", "scan returned %zu pairs, asked for %d", kv.size(), n);
  if (!ok && kv.size()) sim_fail("scan", "scan reports nothing found and returned %zu pairs", kv.size());
  if (ok && kv.empty() && n > 0) sim_fail("scan", "scan reports success without results");
  obs(o, kv);
  size_t lo = U.lower(k), hi = (int)kv.size() == n ? U.upper(o.got.back().first) : U.ids.size();
  if (lo >= hi) { if (!o.got.empty()) sim_fail("scan", "scan from %lld returned key %lld", (long long)k, (long long)o.got[0].first); return; }
  scan_check(o, U.ids, lo, hi - 1); snapshot_check(o, U.ids, lo, hi - 1);
}
void do_range(int64_t a, int64_t b) {
  KV kv; ScanObs o; o.inv = sim_now();
  bool ok = T->ScanRange(a, b, kv);
  o.res = sim_now();
  Off off;
  if (!ok && kv.size()) sim_fail("scan", "scan reports nothing found and returned %zu pairs", kv.size());
  obs(o, kv);
  size_t lo = U.lower(a), hi = U.lower(b);
  if (!ok) hi = U.ids.size();   // false: no key at or above the left end
  if (lo >= hi) { if (!o.got.empty()) sim_fail("scan", "range scan %lld..%lld returned key %lld", (long long)a, (long long)b, (long long)o.got[0].first); return; }
  scan_check(o, U.ids, lo, hi - 1); snapshot_check(o, U.ids, lo, hi - 1);
}
void setup(const Spec &s) {
  { Off o; H.reset(); V.reset(); U.build(s); }
  live0 = sim_live_blocks();
  int in = s.get("inner", 4), lf = s.get("leaf", 4); double th = s.get("thr", 75) / 100.0;
  if (s.get("latch") == 0) T = new BLinkTree<uint64_t, Val, StandardSharedMutex>(in, lf, th, .25, th, .25);
  else T = new BLinkTree<uint64_t, Val, RSpinSharedLatch>(in, lf, th, .25, th, .25);
  for (int64_t k : U.load) do_ins(k);
}
void exec(int, const Op &o) { switch (o.kind) { case GET: do_get(o.a); break; case INS: do_ins(o.a); break; case UPD: do_upd(o.a); break; case SCAN: do_scan(o.a, o.c); break; case RANGE: do_range(std::min(o.a, o.b), std::max(o.a, o.b)); break; } }
void finish(const Spec &s) {
  for (int64_t k : U.ids) do_get(k);
  do_scan(0, 1000);
  do_range(0, 1ll << 40);
  KV all, sc; T->ScanLeaf(all); T->ScanFixed(0, 100000, sc);
  { Off off; if (all.size() != sc.size()) sim_fail("scan", "the leaf chain holds %zu pairs, a scan finds %zu", all.size(), sc.size());
    for (size_t i = 0; i < all.size(); i++) if (all[i].first != sc[i].first || all[i].second.v != sc[i].second.v) sim_fail("scan", "the leaf chain and a scan differ"); }
  if (s.seed % 4 == 0) {   // the reported depth is the real one
    Off off; std::ostringstream os; auto *old = std::cout.rdbuf(os.rdbuf()); T->BTreeExhibition(); std::cout.rdbuf(old);
    std::string x = os.str(); int d = 0; for (size_t i = 0; (i = x.find("tree level: ", i)) != std::string::npos; i++) d++;
    if (d != T->GetTreeDepth()) sim_fail("depth", "the tree has %d levels and reports %d", d, T->GetTreeDepth());
  }
  H.check();
  all = KV(); sc = KV();
  delete T;
  if (sim_live_blocks() != live0) sim_fail("leak", "%lld heap blocks are unreachable after the tree was destroyed", (long long)(sim_live_blocks() - live0));
}
void gen(Rng &r, Spec &s, bool scans) {
  s.par["latch"] = r.below(2);
  s.par["inner"] = r.range(4, 8); s.par["leaf"] = r.range(4, 8); s.par["thr"] = r.chance(0.6) ? 75 : 100;
  MapMix m; m.get = 0.3; m.put = 0; m.ins = 0.6; m.upd = 0.15; m.scans = scans ? 3 : 0;
  m.fills = {0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 30, 60}; m.maxops = 10; m.ascend = 0.4;
  gen_map(r, s, m);
  for (auto &t : s.thr) for (auto &o : t) if (o.kind == RSCAN) o.kind = SCAN;
}
void gen1(Rng &r, Spec &s) { gen(r, s, false); }
void gen2(Rng &r, Spec &s) { gen(r, s, true); }
#define REAL "BLinkTree/b_link_tree.h, b_link_node.h, latch.h (all real)"
#define STUB "malloc, scheduler, pthread_rwlock (inside std::shared_mutex), clock/sleep"
Reg r1({"L01", "every history of concurrent insert/update/search on the B-link tree is linearizable per key, memory-safe, deadlock-free and terminates", REAL, STUB, gen1, setup, nullptr, exec, nullptr, finish, mop_describe});
Reg r2({"L02", "B-link tree scans return exactly the keys of the range as one consistent snapshot", REAL, STUB, gen2, setup, nullptr, exec, nullptr, finish, mop_describe});
}
