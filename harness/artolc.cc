// ARTOLC: adaptive radix tree with optimistic lock coupling (and, with -DOPTIQL, its OptiQL variant).
#include "hutil.h"
#ifdef OPTIQL
#include "Tree.h"
using namespace ART_OLC_OptiQL;
#ifdef OMCS_OP_READ
#define VAR "optiql_opread"
#endif
#else
#include "Tree.cpp"
using namespace ART_OLC;
#endif
using namespace sim;

namespace {
struct Rec { int64_t id; uint64_t val; uint32_t len; uint8_t b[64]; };

// ---- key universe of a run
struct Uni {
  std::vector<int64_t> ids;                 // in key order
  std::unordered_map<int64_t, Rec *> proto; // id -> key bytes
  std::unordered_map<uint64_t, Rec *> byval;
};
Uni *U; Tree *T; const Spec *S; int keymode; bool swapb; uint64_t nextval, live0;
#ifndef OPTIQL
ThreadInfo *TI[16];
#endif
std::unordered_map<uint64_t, uint64_t> *deleted;  // OptiQL: nodes handed to removeNode

// key id layout: group*4096 + byte ; bytes depend on keymode
SIM_NOINST void mkbytes(int64_t id, Rec *r) {
  int64_t g = id >> 12; int b = id & 255; int sub = (id >> 8) & 15;
  if (swapb && keymode != 3) std::swap(b, sub);   // the fan-out is at the last byte of the key
  if (keymode == 0) { uint64_t k = ((uint64_t)g << 16) | (b << 8) | sub; k = __builtin_bswap64(k); memcpy(r->b, &k, 8); r->len = 8; }
  else if (keymode == 1) { // 24 bytes, long shared prefixes (longer than what a node stores)
    memcpy(r->b, "commonprefix-----", 17); r->b[3] = 'a' + (g & 1); r->b[15] = 'a' + ((g >> 1) & 3); r->b[17] = 'a' + (g >> 3); memcpy(r->b + 18, "tail", 4); r->b[22] = b; r->b[23] = sub; r->len = 24;
  } else if (keymode == 2) { // group splits late, children of a byte node have long private tails
    memset(r->b, 'x', 40); r->b[13] = 'a' + (g & 3); r->b[14] = b; r->b[30] = 'a' + (g >> 2); r->b[39] = sub; r->len = 40;
  } else { // variable length, terminator byte 0
    int n = 0; for (int i = 0; i <= (g & 7); i++) r->b[n++] = 'p'; r->b[n++] = 'q' + (g >> 3); r->b[n++] = b ? b : 1; for (int i = 0; i < sub; i++) r->b[n++] = 'm'; r->b[n++] = 0; r->len = n;
  }
}
SIM_NOINST bool kless(const Rec *a, const Rec *b) { int c = memcmp(a->b, b->b, std::min(a->len, b->len)); return c ? c < 0 : a->len < b->len; }
SIM_NOINST int64_t norm(int64_t id) { if (keymode == 3 && (id & 255) == 0) return id + 1; return id; }
SIM_NOINST Rec *proto(int64_t id) {
  auto it = U->proto.find(id);
  if (it != U->proto.end()) return it->second;
  Rec *r = new Rec(); r->id = id; r->val = 0; mkbytes(id, r); U->proto[id] = r; return r;
}
SIM_NOINST Rec *newrec(int64_t id) { Off o; Rec *p = proto(id); Rec *r = new Rec(*p); r->val = ++nextval; U->byval[r->val] = r; return r; }
SIM_NOINST Rec *recof(uint64_t v) { Off o; return U->byval[v]; }
SIM_NOINST void addkey(int64_t id) { proto(id); }
void loadKey(TID tid, Key &k) { Rec *r = (Rec *)tid;
#ifdef OPTIQL
  k.setKeyLen(r->len); memcpy(&k[0], r->b, r->len);
#else
  k.set((const char *)r->b, r->len);
#endif
}
void setkey(Key &k, int64_t id) { Rec *r; { Off o; r = proto(id); }
#ifdef OPTIQL
  k.setKeyLen(r->len); memcpy(&k[0], r->b, r->len);
#else
  k.set((const char *)r->b, r->len);
#endif
}
SIM_NOINST uint64_t valof(TID t) {
  if (!t) return 0;
  Off o;
  Rec *r = (Rec *)t;
  if (!sim_mem_ok(r, sizeof(Rec)) || r->id < 0 || !r->val || U->byval.find(r->val) == U->byval.end() || U->byval[r->val] != r) sim_fail("bad-value", "a lookup returned a value that was never stored");
  return r->val;
}
enum { GET, PUT, DEL, CHURN, SCAN, SCANFROM, UPD };
#ifdef OPTIQL
#define TIARG
#else
#define TIARG , *TI[sim_tid()]
#endif
#ifdef OPTIQL
void freenode(void *n) { Off o; sim_probe("node_retired"); if ((*deleted)[(uint64_t)n]++) sim_fail("double-free", "the same node was retired twice"); }
#endif
void do_get(int64_t id) {
  Key k; setkey(k, id);
  Mark m = hb(id, H_GET);
  TID t = T->lookup(k TIARG);
  if (t && ((Rec *)t)->id != id) sim_fail("bad-value", "lookup of key %lld returned the record of key %lld", (long long)id, (long long)((Rec *)t)->id);
  he(m, valof(t));
}
void do_put(int64_t id) {
  Key k; Rec *r = newrec(id); setkey(k, id);
#ifdef OPTIQL
  Mark m = hb(id, H_INS, r->val);
  bool ok = T->insert(k, (TID)r);
  he(m, ok);
#else
  Mark m = hb(id, H_PUT, r->val);
  T->insert(k, (TID)r TIARG);
  he(m, 0, false);
#endif
}
void do_del(int64_t id) {
  Key k; setkey(k, id);
  Mark m = hb(id, H_GET);
  TID t = T->lookup(k TIARG);
  he(m, valof(t));
  if (!t) t = (TID)newrec(id);   // remove of an absent key, with a value nobody stored
  Mark d = hb(id, H_CDEL, valof(t));
#ifdef OPTIQL
  bool ok = T->remove(k, t);
  he(d, ok);
#else
  T->remove(k, t TIARG);
  he(d, 0, false);
#endif
}
// insertions and removals of keys private to this thread next to a shared key: drives retirement of nodes the
// others traverse, and the collection threshold. The first m rounds run with preemption, the other n without.
void churn(int64_t base, int n, int m) {
  int tid = sim_tid();
  base &= ~0xf00ll;
  for (int i = 0; i < n + m; i++) {
    if (i == m) sim_quiet(1);
    int64_t id = norm(base | (int64_t)(4 + 2 * (tid - 1)) << 8), id2 = norm(base | (int64_t)(5 + 2 * (tid - 1)) << 8);
    Key a, b; setkey(a, id); setkey(b, id2);
    Rec *ra = newrec(id), *rb = newrec(id2);
    T->insert(a, (TID)ra TIARG); T->insert(b, (TID)rb TIARG);
    T->remove(a, (TID)ra TIARG);
    T->remove(b, (TID)rb TIARG);
  }
  if (n > 0) sim_quiet(-1);
}
#ifdef OPTIQL
void do_upd(int64_t id) {
  Key k; Rec *r = newrec(id); setkey(k, id);
  Mark m = hb(id, H_UPD, r->val);
  bool ok = T->update(k, (TID)r);
  he(m, ok);
}
#endif
size_t rank_of(int64_t id) { Off o; for (size_t i = 0; i < U->ids.size(); i++) if (U->ids[i] == id) return i; return U->ids.size(); }
// range lookup of [start, end) with room for n results
void do_scan(int64_t a, int64_t b, int n, bool openend) {
  static TID res_[16][600]; TID *res = res_[sim_tid()];
  size_t found = 0; Key ka, kb, kc; setkey(ka, a);
  if (!openend) setkey(kb, b);
  ScanObs o; o.inv = sim_now(); bool more = false;
#ifdef OPTIQL
  if (openend) { T->lookupRange(ka, res, n, found); more = found == (size_t)n; }
  else
#endif
  more = T->lookupRange(ka, kb, kc, res, n, found TIARG);
  o.res = sim_now();
  Off off;
  if (found > (size_t)n) sim_fail("scan", "range lookup reports %zu results with room for %d", found, n);
  for (size_t i = 0; i < found; i++) { uint64_t v = valof(res[i]); o.got.push_back({((Rec *)res[i])->id, v}); }
  size_t lo = rank_of(a), hi = openend ? U->ids.size() : rank_of(b);  // end is exclusive
  size_t cover = hi;   // exclusive
  if (more) {
    if (found != (size_t)n) sim_fail("scan", "range lookup says there is more but returned %zu of %d", found, n);
    if (found) cover = rank_of(o.got.back().first) + 1; else cover = lo;
    if (!openend) {
      Rec c; memcpy(c.b, &kc[0], kc.getKeyLen()); c.len = kc.getKeyLen(); size_t cr = U->ids.size();
      for (size_t i = 0; i < U->ids.size(); i++) { Rec *p = proto(U->ids[i]); if (p->len == c.len && !memcmp(p->b, c.b, c.len)) cr = i; }
      if (cr == U->ids.size()) sim_fail("scan", "the continuation key is not a stored key");
      if (cr < cover || cr >= hi) sim_fail("scan", "the continuation key (id %lld) does not follow the returned keys inside the range", (long long)U->ids[cr]);
    }
    sim_probe("scan_truncated");
  }
  if (found) sim_probe("scan_nonempty");
  if (cover <= lo) { if (found) sim_fail("scan", "range lookup of an empty range returned %zu keys", found); return; }
  scan_check(o, U->ids, lo, cover - 1);
}
void collect(const std::vector<Op> &v) { for (auto &o : v) { { addkey(norm(o.a)); if (o.kind == SCAN) addkey(norm(o.b)); } } }
void tbegin(int); void tend(int);
void setup(const Spec &s) {
  { Off o; S = &s; keymode = s.get("keymode"); swapb = s.get("swapb"); nextval = 0; U = new Uni(); H.reset(); deleted = new std::unordered_map<uint64_t, uint64_t>();
    collect(s.init); collect(s.fin); for (auto &t : s.thr) collect(t);
    for (int64_t g = 0, n = s.get("groups", 1); g < n; g++) for (int64_t f = 0; f < s.get("fan", 0); f++) addkey(norm((g << 12) | (uint8_t)(f * s.get("stride", 1) + s.get("off", 0))));
    std::vector<Rec *> v; for (auto &p : U->proto) v.push_back(p.second);
    std::sort(v.begin(), v.end(), kless);
    for (auto *r : v) U->ids.push_back(r->id); }
  live0 = sim_live_blocks();
#ifdef OPTIQL
  T = new Tree(loadKey, freenode);
#else
  T = new Tree(loadKey);
#endif
  tbegin(0);
  for (int64_t g = 0, n = S->get("groups", 1); g < n; g++) for (int64_t f = 0; f < S->get("fan", 0); f++) do_put(norm((g << 12) | (uint8_t)(f * S->get("stride", 1) + S->get("off", 0))));
  tend(0);
}
void tbegin(int tid) {
#ifndef OPTIQL
  TI[tid] = new ThreadInfo(T->getThreadInfo());
#endif
}
void tend(int tid) {
#ifndef OPTIQL
  delete TI[tid]; TI[tid] = nullptr;
#endif
}
void exec(int, const Op &o) {
  switch (o.kind) {
    case GET: do_get(norm(o.a)); break;
    case PUT: do_put(norm(o.a)); break;
    case DEL: do_del(norm(o.a)); break;
    case CHURN: churn(norm(o.a), o.b, o.c); break;
    case SCAN: { int64_t a = norm(o.a), b = norm(o.b); do_scan(a, b, o.c, false); break; }
    case SCANFROM: do_scan(norm(o.a), 0, o.c, true); break;
#ifdef OPTIQL
    case UPD: do_upd(norm(o.a)); break;
#endif
  }
}
std::string describe(const Op &o) {
  static const char *n[] = {"get", "put", "remove", "churn", "range", "range_from", "update"};
  char b[100]; snprintf(b, sizeof b, o.kind == SCAN ? "%s(%llx..%llx,max %lld)" : o.kind == CHURN ? "%s(%llx, %lld quiet + %lld)" : o.kind == SCANFROM ? "%s(%llx,%lld max %lld)" : "%s(%llx)", n[o.kind], (long long)o.a, (long long)o.b, (long long)o.c); return b;
}
// reads everything back and tears the tree down
void finish(const Spec &s) {
  tbegin(0);
  for (size_t i = 0; i < U->ids.size(); i++) do_get(U->ids[i]);
  if (s.get("finscan")) {
    // the whole contents as one range lookup
    int64_t lo = U->ids.front(), hi = U->ids.back();
    if (lo != hi) do_scan(lo, hi, 500, false);
  }
  H.check();
  tend(0);
  delete T;
#ifdef OPTIQL
  // what was retired is not part of the tree any more, and everything else was freed by the destructor
  for (auto &p : *deleted) { if (!sim_mem_ok((void *)p.first, 16)) sim_fail("double-free", "a node handed to removeNode was still part of the tree"); N::deleteNode((N *)p.first); }
#endif
  if (sim_live_blocks() != live0) sim_fail("leak", "%lld heap blocks are neither in the tree nor retired", (long long)(sim_live_blocks() - live0));
}
// ------------------------------------------------------------------ workloads
void gen_common(Rng &r, Spec &s, bool scans) {
  int mode = (int)r.below(4);
  s.par["keymode"] = mode; s.par["swapb"] = r.chance(0.4);
  static const int fans[] = {0, 1, 2, 3, 4, 5, 12, 13, 15, 16, 17, 36, 37, 38, 47, 48, 49, 60};
  int fan = fans[r.below(r.chance(0.6) ? 7 : 18)];
  if (scans && fan < 3) fan = 5;
  s.par["fan"] = fan; s.par["stride"] = r.chance(0.5) ? 1 : (int64_t)r.range(2, 4); s.par["off"] = r.below(256);
  int maxg = mode == 0 ? 3 : 6; int groups = r.chance(0.5) ? 1 : (int)r.range(1, maxg);
  if (fan > 20) groups = 1;
  s.par["groups"] = groups;
  int nt = (int)r.range(2, 4);
  // hot keys: siblings around the prefilled range, plus keys of other groups (path splits)
  std::vector<int64_t> hot; int nh = (int)r.range(1, 6);
  for (int i = 0; i < nh; i++) {
    int64_t g = r.chance(0.6) ? (int64_t)r.below(groups) : (int64_t)r.below(mode == 0 ? 600 : 12);
    int64_t b = (uint8_t)(s.par["off"] + (r.chance(0.5) ? fan + (int64_t)r.below(3) : (int64_t)r.below(fan + 1)) * s.par["stride"]);
    int64_t sub = r.chance(0.8) ? 0 : (int64_t)r.below(3);
    hot.push_back((g << 12) | (sub << 8) | b);
  }
  s.thr.resize(nt);
  double pg = 0.2 + 0.3 * r.below(3) / 2.0, pd = std::vector<double>{0.2, 0.35, 0.5}[r.below(3)];
  for (auto &t : s.thr) {
    int n = (int)r.range(1, 9);
    for (int i = 0; i < n; i++) {
      Op o; o.a = r.pick(hot);
      double x = (r.next() >> 11) * (1.0 / 9007199254740992.0);
      if (x < pg) o.kind = GET; else if (x < pg + (1 - pg) * pd) o.kind = DEL; else o.kind = PUT;
#ifdef OPTIQL
      if (o.kind == PUT && r.chance(0.4)) o.kind = UPD;
#endif
      t.push_back(o);
    }
  }
  int pre = (int)r.below(nh + 1);
  for (int i = 0; i < pre; i++) s.init.push_back(Op{PUT, r.pick(hot), 0, 0});
  if (r.chance(0.2)) s.par["finscan"] = scans;
}
void gen_map(Rng &r, Spec &s) { gen_common(r, s, false); }
void gen_gc(Rng &r, Spec &s) {
  gen_common(r, s, false);
  // one or two threads retire enough nodes to start collecting, while the others are inside operations
  std::vector<int64_t> hot; for (auto &t : s.thr) for (auto &o : t) hot.push_back(o.a);
  int k = (int)r.range(1, 3);
  for (int i = 0; i < k; i++) { auto &t = s.thr[r.below(s.thr.size())]; size_t at = r.below(t.size() + 1); t.insert(t.begin() + at, Op{CHURN, r.pick(hot), r.chance(0.5) ? (int64_t)r.range(120, 320) : (int64_t)r.range(20, 140), (int64_t)r.below(5)}); }
  if (r.chance(0.3)) { // every thread collects first and is then outside any epoch when the next operation starts
    for (auto &t : s.thr) t.insert(t.begin(), Op{CHURN, r.pick(hot), (int64_t)r.range(250, 320), 0});
    s.thr[0].insert(s.thr[0].begin() + 1, Op{CHURN, r.pick(hot), (int64_t)r.range(250, 320), (int64_t)r.below(5)});
    s.sched.tso = r.chance(0.8);
  }
}
void gen_scan(Rng &r, Spec &s) {
  gen_common(r, s, true);
  std::vector<int64_t> keys; for (auto &t : s.thr) for (auto &o : t) keys.push_back(o.a);
  int64_t groups = s.par["groups"], fan = s.par["fan"];
  auto anykey = [&]() -> int64_t { if (keys.size() && r.chance(0.5)) return keys[r.below(keys.size())]; return ((int64_t)r.below(groups) << 12) | (uint8_t)(s.par["off"] + (int64_t)r.below(fan) * s.par["stride"]); };
  int ns = (int)r.range(1, 4);
  for (int i = 0; i < ns; i++) {
    auto &t = s.thr[r.below(s.thr.size())]; Op o; o.kind = SCAN; o.a = anykey(); o.b = anykey();
#ifdef OPTIQL
    if (r.chance(0.4)) o.kind = SCANFROM;
#endif
    o.c = r.chance(0.6) ? 300 : (int64_t)r.range(1, 6);
    t.insert(t.begin() + r.below(t.size() + 1), o);
  }
}
#ifndef OPTIQL
Reg r1({"A01", "every history of concurrent put/get/remove on the ARTOLC tree is linearizable per key, memory-safe and terminates",
  "ARTOLC/Tree.cpp, N*.cpp, Epoche.cpp, Key.h (all real)", "tbb::enumerable_thread_specific (per-thread slot list), malloc, scheduler, sched_yield/pause",
  gen_map, setup, tbegin, exec, tend, finish, describe});
Reg r2({"A02", "ARTOLC range lookups return exactly the keys of the range that were stored, in order, at some moment during the call",
  "ARTOLC/Tree.cpp, N*.cpp, Epoche.cpp, Key.h (all real)", "tbb::enumerable_thread_specific (per-thread slot list), malloc, scheduler, sched_yield/pause",
  gen_scan, setup, tbegin, exec, tend, finish, describe});
Reg r3({"A03", "no ARTOLC operation touches a node after it was freed by epoch reclamation; nothing is freed twice",
  "ARTOLC/Tree.cpp, N*.cpp, Epoche.cpp, Key.h (all real)", "tbb::enumerable_thread_specific (per-thread slot list), malloc, scheduler, sched_yield/pause",
  gen_gc, setup, tbegin, exec, tend, finish, describe});
#else
Reg r1({"Q01", "every history of concurrent insert/update/remove/lookup on the OptiQL tree is linearizable per key, memory-safe and terminates; a node is retired at most once and only when unlinked",
  "OptiQL/Tree.cpp, N*.cpp, latches/OMCS*.h (all real)", "malloc, scheduler, pause; nodes handed to removeNode are recorded, not freed",
  gen_map, setup, tbegin, exec, tend, finish, describe});
Reg r2({"Q02", "OptiQL range lookups return exactly the keys of the range that were stored, in order, at some moment during the call",
  "OptiQL/Tree.cpp, N*.cpp, latches/OMCS*.h (all real)", "malloc, scheduler, pause; nodes handed to removeNode are recorded, not freed",
  gen_scan, setup, tbegin, exec, tend, finish, describe});
#endif
}
