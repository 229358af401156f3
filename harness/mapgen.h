// Workload generation shared by the ordered-map harnesses: integer key ids whose numeric order is the index order.
#pragma once
#include "hutil.h"
#include <set>
namespace sim {
enum MOp { GET, PUT, INS, UPD, DEL, SCAN, RSCAN, RANGE, CHURN, MISC, MISC2, MISC3 };
inline const char *mop_name(int k) { static const char *n[] = {"get", "put", "insert", "update", "remove", "scan", "rscan", "range", "churn", "misc", "misc2", "misc3"}; return n[k]; }
inline std::string mop_describe(const Op &o) {
  char b[120];
  if (o.kind == SCAN || o.kind == RSCAN) snprintf(b, sizeof b, "%s(from %lld, max %lld)", mop_name(o.kind), (long long)o.a, (long long)o.c);
  else if (o.kind == RANGE) snprintf(b, sizeof b, "range(%lld..%lld, max %lld)", (long long)o.a, (long long)o.b, (long long)o.c);
  else if (o.kind >= CHURN) snprintf(b, sizeof b, "%s(%lld, %lld, %lld)", mop_name(o.kind), (long long)o.a, (long long)o.b, (long long)o.c);
  else snprintf(b, sizeof b, "%s(%lld)", mop_name(o.kind), (long long)o.a);
  return b;
}
struct MapMix {
  double get = 0.35, put = 0.65, ins = 0, upd = 0, del = 0;   // weights of point operations
  std::vector<int> fills;    // interesting numbers of preloaded keys
  int maxstride = 4;
  int maxkey = 1 << 20;
  int maxthreads = 4;
  int maxops = 9;
  int maxhot = 6;
  double ascend = 0.3;      // probability that a thread is an ascending/descending run of insertions
  int scans = 0;            // 0 none, 1 forward from, 2 also reverse, 3 ranges too
  int scanmax = 12;
};
SIM_NOINST inline void gen_map(Rng &r, Spec &s, const MapMix &m) {
  int fill = m.fills[r.below(m.fills.size())];
  if (r.chance(0.3) && fill > 1) fill = (int)r.range(0, fill);
  int stride = r.chance(0.4) ? 2 : (int)r.range(1, m.maxstride);
  s.par["fill"] = fill; s.par["stride"] = stride;
  int64_t base = r.chance(0.5) ? 16 : (int64_t)r.range(1, 300);
  s.par["base"] = base; s.par["order"] = r.below(3);   // ascending, descending, shuffled
  int64_t top = base + (int64_t)fill * stride;
  int nt = (int)r.range(2, m.maxthreads);
  std::vector<int64_t> hot; int nh = (int)r.range(1, m.maxhot);
  int64_t center = r.chance(0.4) ? top : base + (int64_t)r.below(top - base + 1);
  for (int i = 0; i < nh; i++) {
    int64_t k = r.chance(0.7) ? center + (int64_t)r.range(-4, 4) : base + (int64_t)r.below(top - base + 6);
    if (k < 1) k = 1;
    hot.push_back(k);
  }
  s.thr.resize(nt);
  double w[5] = {m.get, m.put, m.ins, m.upd, m.del}; double tot = 0;
  for (auto &x : w) { if (x > 0) x *= 0.3 + r.below(1000) / 500.0; tot += x; }
  int kinds[5] = {GET, PUT, INS, UPD, DEL};
  for (auto &t : s.thr) {
    int n = (int)r.range(1, m.maxops);
    bool run = r.chance(m.ascend); int64_t at = r.pick(hot); int dir = r.chance(0.5) ? 1 : -1;
    for (int i = 0; i < n; i++) {
      Op o; double x = (r.next() >> 11) * (1.0 / 9007199254740992.0) * tot; int k = 0;
      while (k < 4 && x >= w[k]) x -= w[k++];
      o.kind = kinds[k]; o.a = r.pick(hot);
      if (run) { if (r.chance(0.8)) { o.kind = m.ins > 0 ? INS : PUT; } o.a = at; at += dir; if (at < 1) at = 1; }
      t.push_back(o);
    }
  }
  int pre = (int)r.below(nh + 1);
  for (int i = 0; i < pre; i++) s.init.push_back(Op{m.put > 0 ? PUT : INS, r.pick(hot), 0, 0});
  if (m.scans) {
    std::vector<int64_t> keys; for (auto &t : s.thr) for (auto &o : t) keys.push_back(o.a);
    auto any = [&]() -> int64_t { return r.chance(0.5) ? r.pick(keys) + (int64_t)r.range(-1, 1) : base + (int64_t)r.below(top - base + 3) - 1; };
    int ns = (int)r.range(1, 4);
    for (int i = 0; i < ns; i++) {
      auto &t = s.thr[r.below(s.thr.size())]; Op o; o.kind = SCAN;
      if (m.scans >= 2 && r.chance(0.5)) o.kind = RSCAN;
      if (m.scans >= 3 && r.chance(0.4)) o.kind = RANGE;
      o.a = std::max<int64_t>(any(), 0); o.b = std::max<int64_t>(any(), 0); o.c = r.chance(0.4) ? m.scanmax * 4 : (int64_t)r.range(1, m.scanmax);
      t.insert(t.begin() + r.below(t.size() + 1), o);
    }
  }
}
// ids the run may store, sorted; and the preload order
struct MapUni {
  std::vector<int64_t> ids, load;
  SIM_NOINST void build(const Spec &s) {
    std::set<int64_t> u; int64_t fill = s.get("fill"), st = s.get("stride", 1), b = s.get("base", 1);
    load.clear(); ids.clear();
    for (int64_t i = 0; i < fill; i++) load.push_back(b + i * st);
    if (s.get("order") == 1) std::reverse(load.begin(), load.end());
    if (s.get("order") == 2) { Rng r(s.seed ^ 77); for (size_t i = load.size(); i > 1; i--) std::swap(load[i - 1], load[r.below(i)]); }
    u.insert(load.begin(), load.end());
    auto add = [&](const std::vector<Op> &v) { for (auto &o : v) if (o.kind <= DEL || o.kind >= CHURN) u.insert(o.a); };
    add(s.init); add(s.fin); for (auto &t : s.thr) add(t);
    ids.assign(u.begin(), u.end());
  }
  SIM_NOINST size_t lower(int64_t k) const { return std::lower_bound(ids.begin(), ids.end(), k) - ids.begin(); }
  SIM_NOINST size_t upper(int64_t k) const { return std::upper_bound(ids.begin(), ids.end(), k) - ids.begin(); }
};
// values: every stored value is unique and remembers the key it was stored under
struct MapVals {
  std::vector<int64_t> key;
  SIM_NOINST void reset() { key.assign(1, -1); }
  SIM_NOINST uint64_t fresh(int64_t id) { Off o; key.push_back(id); return key.size() - 1; }
  SIM_NOINST int64_t keyof(uint64_t v) const { return v && v < key.size() ? key[v] : -1; }
  SIM_NOINST uint64_t check(int64_t id, uint64_t v) const { Off o; if (keyof(v) != id) sim_fail("bad-value", "lookup of key %lld returned value %llx, stored under key %lld", (long long)id, (unsigned long long)v, (long long)keyof(v)); return v; }
};
}
