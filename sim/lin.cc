#include "lin.h"
#include <algorithm>
#include <cstdio>
#include <cstring>
namespace sim {
History H;
static const char *names[] = {"get", "put", "insert", "update", "remove", "remove_if", "scan", "replace", "has", "rmw", "rmw", "merge"};
const char *hk_name(int k) { return names[k]; }
void History::reset() { Off o; per.clear(); order.clear(); }
size_t History::begin(int64_t key, HK kind, uint64_t val) {
  Off o;
  auto it = per.find(key);
  if (it == per.end()) { it = per.emplace(key, std::vector<Ev>()).first; order.push_back(key); }
  it->second.push_back(Ev{(uint8_t)kind, (uint8_t)sim_tid(), true, sim_now(), ~0ull, val, 0});
  return it->second.size() - 1;
}
void History::end(int64_t key, size_t idx, uint64_t ret, bool known) {
  Off o;
  Ev &e = per[key][idx]; e.res = sim_now(); e.ret = ret; e.known = known;
}
void History::add(int64_t key, HK kind, uint64_t val, uint64_t ret, uint64_t inv, uint64_t res, bool known) {
  Off o;
  auto it = per.find(key);
  if (it == per.end()) { it = per.emplace(key, std::vector<Ev>()).first; order.push_back(key); }
  it->second.push_back(Ev{(uint8_t)kind, (uint8_t)sim_tid(), known, inv, res, val, ret});
}
std::string History::show(int64_t key) const {
  auto it = per.find(key); if (it == per.end()) return "";
  std::vector<Ev> v = it->second;
  std::sort(v.begin(), v.end(), [](const Ev &a, const Ev &b) { return a.inv < b.inv; });
  std::string s; char b[160];
  for (auto &e : v) {
    if (e.res == ~0ull) snprintf(b, sizeof b, "T%d %s(%llx) [%llu,pending]; ", e.tid, names[e.kind], (unsigned long long)e.val, (unsigned long long)e.inv);
    else snprintf(b, sizeof b, "T%d %s(%llx)=%llx [%llu,%llu]; ", e.tid, names[e.kind], (unsigned long long)e.val, (unsigned long long)e.ret, (unsigned long long)e.inv, (unsigned long long)e.res);
    s += b;
  }
  return s;
}
// model: state = value, 0 = absent
static bool step(const Ev &e, uint64_t s, uint64_t &n) {
  n = s;
  bool pend = e.res == ~0ull || !e.known;
  switch (e.kind) {
    case H_GET: case H_SEEN: return pend || e.ret == s;
    case H_HAS: return pend || (e.ret != 0) == (s != 0);
    case H_PUT: n = e.val; return pend || (e.ret != 0) == (s != 0);
    case H_PUTOLD: n = e.val; return pend || e.ret == s;
    case H_INS: if (!s) n = e.val; return pend || (e.ret != 0) == (s == 0);
    case H_UPD: if (s) n = e.val; return pend || (e.ret != 0) == (s != 0);
    case H_DEL: n = 0; return pend || (e.ret != 0) == (s != 0);
    case H_CDEL: { bool m = s && s == e.val; if (m) n = 0; return pend || (e.ret != 0) == m; }
    case H_RMW: if (s) n = s + e.val; return pend || e.ret == (s ? n : 0);
    case H_RMWB: if (s) n = s + e.val; return pend || (e.ret != 0) == (s != 0);
    case H_XUPS: n = s + e.val; return true;
  }
  return false;
}
struct Ck {
  std::vector<Ev> v;
  uint64_t nodes = 0;
  struct K { std::vector<uint64_t> m; uint64_t s; size_t base; bool operator==(const K &o) const { return s == o.s && base == o.base && m == o.m; } };
  struct KH { size_t operator()(const K &k) const { uint64_t h = k.s * 0x9E3779B97F4A7C15ull + k.base; for (auto x : k.m) h = (h ^ x) * 0xff51afd7ed558ccdull + (h >> 29); return h; } };
  std::unordered_set<K, KH> seen;
  // done: bitmap; base: first not-done index (all before are done)
  std::vector<bool> done;
  int rec(size_t base, uint64_t s) {
    if (++nodes > 400000) return -1;
    while (base < v.size() && done[base]) base++;
    // all completed done?
    size_t i = base; bool all = true;
    for (; i < v.size(); i++) if (!done[i] && v[i].res != ~0ull) { all = false; break; }
    if (all) return 1;
    uint64_t minres = ~0ull;
    for (i = base; i < v.size(); i++) if (!done[i]) { if (v[i].inv > minres) break; if (v[i].res < minres) minres = v[i].res; }
    size_t lim = i;
    // memo
    K k; k.s = s; k.base = base;
    { uint64_t w = 0; int b = 0; for (i = base; i < lim; i++) { if (done[i]) w |= 1ull << b; if (++b == 64) { k.m.push_back(w); w = 0; b = 0; } } k.m.push_back(w); }
    if (!seen.insert(k).second) return 0;
    for (i = base; i < lim; i++) {
      if (done[i] || v[i].inv > minres) continue;
      uint64_t n;
      if (!step(v[i], s, n)) continue;
      done[i] = true;
      int r = rec(base, n);
      if (r) return r;
      done[i] = false;
    }
    return 0;
  }
};
void History::check(const char *what) {
  Off o;
  for (int64_t key : order) {
    auto &src = per[key];
    Ck c; c.v = src;
    std::sort(c.v.begin(), c.v.end(), [](const Ev &a, const Ev &b) { return a.inv < b.inv; });
    // pending reads carry no information
    c.v.erase(std::remove_if(c.v.begin(), c.v.end(), [](const Ev &e) { return e.res == ~0ull && (e.kind == H_GET || e.kind == H_SEEN || e.kind == H_HAS); }), c.v.end());
    c.done.assign(c.v.size(), false);
    int r = c.rec(0, 0);
    if (r == -1) { sim_probe("linearizability_undecided"); continue; }
    if (r == 0) {
      // shortest failing prefix (by completion): report the operation that cannot be placed
      std::vector<Ev> all = src;
      std::vector<uint64_t> rs; for (auto &e : all) if (e.res != ~0ull) rs.push_back(e.res);
      std::sort(rs.begin(), rs.end());
      size_t lo = 0, hi = rs.size() ? rs.size() - 1 : 0;
      while (lo < hi) {
        size_t mid = (lo + hi) / 2;
        Ck d;
        for (auto e : all) { if (e.inv > rs[mid]) continue; if (e.res > rs[mid]) { if (e.kind == H_GET || e.kind == H_SEEN || e.kind == H_HAS) continue; e.res = ~0ull; } d.v.push_back(e); }
        std::sort(d.v.begin(), d.v.end(), [](const Ev &a, const Ev &b) { return a.inv < b.inv; });
        d.done.assign(d.v.size(), false);
        if (d.rec(0, 0) == 0) hi = mid; else lo = mid + 1;
      }
      char b[200] = "";
      for (auto &e : all) if (rs.size() && e.res == rs[lo]) snprintf(b, sizeof b, "T%d %s(%llx) returned %llx at [%llu,%llu]", e.tid, names[e.kind], (unsigned long long)e.val, (unsigned long long)e.ret, (unsigned long long)e.inv, (unsigned long long)e.res);
      std::string s = show(key);
      sim_fail("linearizability", "%s of key %lld has no legal order: %s; history: %s", what, (long long)key, b, s.c_str());
    }
  }
}
}
#include "hutil.h"
namespace sim {
void scan_check(const ScanObs &o, const std::vector<int64_t> &u, size_t lo, size_t hi, bool rev, const char *what) {
  Off off;
  std::unordered_map<int64_t, size_t> rank;
  for (size_t i = 0; i < u.size(); i++) rank[u[i]] = i;
  std::vector<uint64_t> seen(u.size(), 0);
  bool first = true; size_t last = 0;
  for (auto &g : o.got) {
    auto it = rank.find(g.first);
    if (it == rank.end()) sim_fail("scan", "%s returned a key that was never stored (id %lld)", what, (long long)g.first);
    size_t r = it->second;
    if (r < lo || r > hi) sim_fail("scan", "%s returned key %lld outside the requested range", what, (long long)g.first);
    if (!first && r == last) sim_fail("scan", "%s returned key %lld twice in a row", what, (long long)g.first);
    if (!first && (rev ? r > last : r < last)) sim_fail("scan", "%s is out of order: key %lld after key %lld", what, (long long)g.first, (long long)u[last]);
    if (g.second == 0) sim_fail("scan", "%s returned key %lld with an impossible value", what, (long long)g.first);
    first = false; last = r; seen[r] = g.second;
  }
  for (size_t i = lo; i <= hi && i < u.size(); i++) H.add(u[i], H_SEEN, 0, seen[i], o.inv, o.res);
}
// The scan claims to be one snapshot: there must be one moment at which every covered key had what was seen.
void snapshot_check(const ScanObs &o, const std::vector<int64_t> &u, size_t lo, size_t hi, const char *what) {
  Off off;
  std::unordered_map<int64_t, uint64_t> got;
  for (auto &g : o.got) got[g.first] = g.second;
  uint64_t after = o.inv, before = o.res; int64_t ka = -1, kb = -1;
  for (size_t i = lo; i <= hi && i < u.size(); i++) {
    auto it = H.per.find(u[i]); if (it == H.per.end()) continue;
    uint64_t v = got.count(u[i]) ? got[u[i]] : 0, wres = 0;
    auto writes = [](const Ev &e) { return e.kind == H_PUT || ((e.kind == H_INS || e.kind == H_UPD) && e.res != ~0ull && e.ret) || (e.kind == H_DEL && e.res != ~0ull && e.ret); };
    if (v) for (auto &e : it->second) if ((e.kind == H_PUT || e.kind == H_INS || e.kind == H_UPD) && e.val == v) { if (e.inv > after) { after = e.inv; ka = u[i]; } wres = e.res; }
    for (auto &e : it->second) if (writes(e) && e.res != ~0ull && (v ? e.inv > wres : (e.kind != H_DEL))) {
      // for an absent key: only usable when nothing ever removes it
      if (!v) { bool del = false; for (auto &d : it->second) if (d.kind == H_DEL || d.kind == H_CDEL) del = true; if (del) continue; }
      if (e.res < before) { before = e.res; kb = u[i]; }
    }
  }
  if (after > before) sim_fail("scan", "%s is not one snapshot: what it saw of key %lld began at %llu, what it saw of key %lld ended by %llu", what, (long long)ka, (unsigned long long)after, (long long)kb, (unsigned long long)before);
}
}
