// HOT (height optimized trie), ROWEX variant: HotTree wrapper and the HOTRowex index below it.
#include "mapgen.h"
#include <immintrin.h>
#include "hot.h"
using namespace sim;
namespace {
MapUni U; MapVals V; uint64_t live0; std::vector<uint64_t> masks; int enc, mode, lvl; std::string pre;
// order-preserving encodings of key ids; lvl: 64 dense ids, and sparse ones above: a full child below a full parent needs few keys
int64_t lv(int64_t id) { return lvl == 2 && id > 126 ? (id - 126) << 14 : lvl && id > 64 ? (id - 62) << 6 : id; }
uint64_t ukey(int64_t id) {
  static const uint64_t M[] = {0xFFFFFFFFull, 0x1111111111111111ull, 0x0F0F0F0F0F0F0F0Full, 0x0101010303070F1Full, 0xC0C0C0C0C0C0C0C0ull, 0xFFFFFFFF00000000ull, 0xFull | 0xFFFFFull << 40, 0x5555555500005555ull};
  Off o; uint64_t m = M[enc % 8], r = 0; int b = 0; id = lv(id);
  for (int i = 0; i < 64; i++) if (m >> i & 1) { r |= (uint64_t)(id >> b & 1) << i; b++; }
  return r;
}
int64_t unkey(uint64_t k) {   // by search: ids are ordered like keys
  Off o; size_t a = 0, b = U.ids.size();
  while (a < b) { size_t c = (a + b) / 2; if (ukey(U.ids[c]) < k) a = c + 1; else b = c; }
  return a < U.ids.size() && ukey(U.ids[a]) == k ? U.ids[a] : -1;
}
void skey(int64_t id, char *b) {
  Off o; static const char *suf[] = {"", "a", "ab", "b"}; id = lv(id);
  int n = 0;
  if (enc & 1) { memcpy(b, pre.data(), pre.size()); n = pre.size(); }
  if (enc & 2) { n += sprintf(b + n, "%06llx", (unsigned long long)id / 4); n += sprintf(b + n, "%s", suf[id & 3]); }
  else if (enc & 4) { for (int i = 21; i >= 0; i -= 3) b[n++] = (char)(0x80 | (id >> i & 7) << 4 | (id >> i & 7)); b[n] = 0; }
  else sprintf(b + n, "%08llu", (unsigned long long)id);
}
struct KV { uint64_t key, val, nval; };
struct SKV { uint64_t val, nval; char key[256]; };
template <class T> struct Ex { typedef uint64_t KeyType; inline KeyType operator()(const KV *k) const { return k->key; } };
template <class T> struct SEx { typedef const char *KeyType; inline KeyType operator()(const SKV *k) const { return k->key; } };
typedef hot::rowex::HOTRowex<KV *, Ex> RT;
typedef hot::rowex::HOTRowex<SKV *, SEx> ST;
HotTree<uint64_t, uint64_t> *hu; HotTree<std::string, uint64_t> *hs; RT *rt; ST *st;
std::vector<std::pair<int64_t, uint64_t>> *dummy;
uint64_t chk(int64_t id, uint64_t v) { return V.check(id, v); }
template <class P> uint64_t vof(P p, int64_t id) { if (p->nval != ~p->val) sim_fail("bad-value", "torn value"); return chk(id, p->val); }
KV *mk(int64_t id, uint64_t v) { KV *p = new KV; p->key = ukey(id); p->val = v; p->nval = ~v; return p; }
SKV *smk(int64_t id, uint64_t v) { SKV *p = (SKV *)malloc(sizeof(SKV)); p->val = v; p->nval = ~v; char b[256]; skey(id, b); memcpy(p->key, b, strlen(b) + 1); return p; }
void do_put(int64_t id) {
  uint64_t v = V.fresh(id);
  if (mode == 0) { uint64_t k = ukey(id); Mark m = hb(id, H_PUT, v); bool ins = hu->upsert(k, v); he(m, !ins); }
  else if (mode == 1) { char b[256]; skey(id, b); int n = strlen(b); Mark m = hb(id, H_PUT, v); bool ins = hs->upsert(b, n, v); he(m, !ins); }
  else if (mode == 2) { KV *p = mk(id, v); Mark m = hb(id, H_PUTOLD, v); auto r = rt->upsert(p); he(m, r.mIsValid ? vof(r.mValue, id) : 0); }
  else { SKV *p = smk(id, v); Mark m = hb(id, H_PUTOLD, v); auto r = st->upsert(p); he(m, r.mIsValid ? vof(r.mValue, id) : 0); }
}
void do_ins(int64_t id) {
  if (mode < 2) { do_put(id); return; }
  uint64_t v = V.fresh(id);
  if (mode == 2) { KV *p = mk(id, v); Mark m = hb(id, H_INS, v); he(m, rt->insert(p)); }
  else { SKV *p = smk(id, v); Mark m = hb(id, H_INS, v); he(m, st->insert(p)); }
}
void do_get(int64_t id) {
  if (mode == 0) { uint64_t k = ukey(id), v = 0; Mark m = hb(id, H_GET); bool ok = hu->search(k, v); he(m, ok ? chk(id, v) : 0); }
  else if (mode == 1) { char b[256]; skey(id, b); uint64_t v = 0; Mark m = hb(id, H_GET); bool ok = hs->search(b, v); he(m, ok ? chk(id, v) : 0); }
  else if (mode == 2) { uint64_t k = ukey(id); Mark m = hb(id, H_GET); auto r = rt->lookup(k); he(m, r.mIsValid ? vof(r.mValue, id) : 0); }
  else { char b[256]; skey(id, b); Mark m = hb(id, H_GET); auto r = st->lookup(b); he(m, r.mIsValid ? vof(r.mValue, id) : 0); }
}
int64_t idof(KV *p) { return unkey(p->key); }
int64_t idof(SKV *p) { return V.keyof(p->val); }
KV *probe(RT *, int64_t) { return nullptr; }
struct KArg { uint64_t u; char s[256]; operator uint64_t() const { return u; } operator const char *() const { return s; } };
// kind: 0 lower_bound, 1 upper_bound, 2 find, 3 begin
template <class T> void iter(T *t, int64_t id, int n, int kind) {
  typedef typename T::KeyType KT;
  KArg ka; { Off o; if (mode == 2) ka.u = ukey(id); else skey(id, ka.s); } KT k = ka;
  ScanObs o; o.inv = sim_now(); int c = 0; bool ended = false;
  {
    auto it = kind == 0 ? t->lower_bound(k) : kind == 1 ? t->upper_bound(k) : kind == 2 ? t->find(k) : t->begin();
    auto copy = it;   // iterators are copied by the callers of the interface
    for (; ; ++copy) {
      if (copy == t->end()) { ended = true; break; }
      if (c >= n) break;
      auto *p = *copy; { Off off; int64_t i = idof(p); if (p->nval != ~p->val || V.keyof(p->val) != i) sim_fail("scan", "iterator paired key %lld with a value that was never stored under it", (long long)i); o.got.push_back({i, p->val}); }
      c++;
    }
  }
  o.res = sim_now();
  Off off;
  size_t lo = kind == 3 ? 0 : kind == 1 ? U.upper(id) : U.lower(id), hi = ended ? U.ids.size() : U.upper(o.got.back().first);
  if (kind == 2) {   // find: positioned on the key if it is present, at the end otherwise
    if (o.got.empty()) { if (ended && std::binary_search(U.ids.begin(), U.ids.end(), id)) scan_check(o, U.ids, lo, lo); return; }
    if (o.got[0].first != id) sim_fail("scan", "find of key %lld returned an iterator at key %lld", (long long)id, (long long)o.got[0].first);
  }
  if (lo >= hi) { if (!o.got.empty()) sim_fail("scan", "iteration from %lld returned key %lld", (long long)id, (long long)o.got[0].first); return; }
  scan_check(o, U.ids, lo, hi - 1, false, "iteration");
}
// HOTRowex::scan returns the value `n` positions behind the lower bound: checked when nobody else runs
template <class T> void nth(T *t, int64_t id, int n) {
  KArg ka; { Off o; if (mode == 2) ka.u = ukey(id); else skey(id, ka.s); } typename T::KeyType k = ka;
  uint64_t inv = sim_now(); auto r = t->scan(k, n); uint64_t res = sim_now();
  Off off;
  if (!r.mIsValid) return;
  int64_t i = idof(r.mValue);
  if (i < id) sim_fail("scan", "scan from key %lld returned the smaller key %lld", (long long)id, (long long)i);
  if (n == 0 || i > id) {}
  ScanObs o; o.inv = inv; o.res = res; o.got.push_back({i, r.mValue->val});
  size_t p = U.lower(i); scan_check(o, U.ids, p, p, false, "scan");
}
void do_iter(int64_t id, int n, int kind) { if (mode < 2) { do_get(id); return; } if (mode == 2) iter(rt, id, n, kind); else iter(st, id, n, kind); }
void churn(int64_t base, int n) { Quiet q; for (int i = 0; i < n; i++) do_ins(base + i); }
void setup(const Spec &s) {
  { Off o; H.reset(); V.reset(); U.build(s); enc = s.get("enc"); lvl = s.get("lvl"); mode = s.get("mode"); pre.assign(s.get("prelen"), 'p'); std::set<int64_t> u(U.ids.begin(), U.ids.end());
    auto add = [&](const std::vector<Op> &v) { for (auto &o : v) if (o.kind == CHURN) for (int i = 0; i < o.b; i++) u.insert(o.a + i); }; for (auto &t : s.thr) add(t); add(s.init); U.ids.assign(u.begin(), u.end()); }
  hu = nullptr; hs = nullptr; rt = nullptr; st = nullptr;
  if (mode == 0) hu = new HotTree<uint64_t, uint64_t>(); else if (mode == 1) hs = new HotTree<std::string, uint64_t>(); else if (mode == 2) rt = new RT(); else st = new ST();
  for (int64_t k : U.load) do_ins(k);
}
void exec(int, const Op &o) {
  switch (o.kind) {
    case GET: do_get(o.a); break; case PUT: do_put(o.a); break; case INS: do_ins(o.a); break;
    case SCAN: do_iter(o.a, o.c, o.b & 3); break;
    case RANGE: if (mode == 2) nth(rt, o.a, o.c); else if (mode == 3) nth(st, o.a, o.c); break;
    case CHURN: churn(o.a, o.b); break;
  }
}
void finish(const Spec &s) {
  for (int64_t k : U.ids) do_get(k);
  if (mode >= 2) { do_iter(0, 1 << 20, 3); for (int i = 0; i < 4; i++) { int64_t k = U.ids.empty() ? 1 : U.ids[(s.seed >> i * 5) % U.ids.size()] + i - 1; do_iter(k, 1 << 20, i); } }
  H.check();
  uint64_t a = sim_live_blocks();
  delete hu; delete hs; delete rt; delete st;
  if (a < sim_live_blocks()) sim_fail("leak", "destroying the tree left more blocks than before");
}
void gen(Rng &r, Spec &s, int what) {
  int mo = s.par["mode"] = what == 2 ? 2 + r.below(2) : r.below(4);
  s.par["enc"] = r.below(8); s.par["prelen"] = r.chance(0.3) ? 200 : r.below(40);
  MapMix m; m.get = 0.35; m.put = 0.4; m.ins = 0.4; m.scans = what == 2 ? 1 : 0;
  m.fills = {0, 0, 1, 2, 3, 4, 16, 30, 31, 32, 33, 34, 60, 64, 120, 300}; m.maxops = 9; m.maxhot = 7; m.scanmax = 20; m.maxkey = 65535;
  gen_map(r, s, m);
  if (mo & 1 && s.par["fill"] > 120) s.par["fill"] = 64;
  for (auto &t : s.thr) for (auto &o : t) if (o.kind == SCAN) { o.b = r.below(4); if (r.chance(0.25)) o.c = 150; if (r.chance(0.1)) o.kind = RANGE; }
  if (r.chance(0.25)) {   // full nodes on several levels: a split that pulls up through full parents
    static const int E[] = {0, 2, 5, 6, 0, 0};
    s.par["lvl"] = what == 3 ? 1 : r.range(1, 2); s.par["enc"] = mo & 1 ? 4 : E[r.below(6)]; s.par["stride"] = 2; s.par["base"] = r.range(1, 2); s.par["fill"] = r.range(60, 70); s.par["order"] = r.below(2) * 2; s.init.clear();
    auto k = [&]() -> int64_t { return r.chance(0.7) ? r.range(1, 66) : r.range(64, 140); };
    int64_t h[4]; for (auto &x : h) x = k();
    for (auto &t : s.thr) for (auto &o : t) { o.a = r.chance(0.6) ? h[r.below(4)] : k(); }
  } else if (r.chance(0.02)) { s.par["fill"] = r.range(900, 1100); s.par["stride"] = 2; if (!(mo & 1)) s.par["enc"] = 0; }
  if (what == 3) {   // reclamation: enough retired nodes for epochs to advance while readers are inside
    int64_t b = 3000;
    for (auto &t : s.thr) {
      int n = (int)r.range(1, 4);
      for (int i = 0; i < n; i++) { Op o; o.kind = CHURN; o.a = b; o.b = r.chance(0.5) ? 64 : r.range(20, 80); b += o.b; t.insert(t.begin() + r.below(t.size() + 1), o); }
    }
    s.par["fill"] = std::min<int64_t>(s.par["fill"], 70);
    if (r.chance(0.3)) {   // long walks: an iterator refills its buffer while nodes are retired
      s.par["mode"] = 2 + r.below(2); if (s.par.count("lvl")) s.par["enc"] = s.par["mode"] == 3 ? 4 : 0; s.par["fill"] = r.range(130, 160); int n = (int)r.range(1, 3);
      for (int i = 0; i < n; i++) { auto &t = s.thr[r.below(s.thr.size())]; Op o; o.kind = SCAN; o.a = r.range(0, 10); o.b = r.below(4); o.c = 400; t.insert(t.begin() + r.below(t.size() + 1), o); }
    }
  }
}
void gen1(Rng &r, Spec &s) { gen(r, s, 1); }
void gen2(Rng &r, Spec &s) { gen(r, s, 2); }
void gen3(Rng &r, Spec &s) { gen(r, s, 3); }
#define REAL "HOT/hot.h, HOT/include/hot/rowex/*, hot/commons/*, idx/contenthelpers/* (all real)"
#define STUB "malloc, scheduler, tbb::enumerable_thread_specific"
Reg r1({"H01", "every history of concurrent upsert/insert/lookup on the height optimized trie is linearizable per key, memory-safe and terminates", REAL, STUB, gen1, setup, nullptr, exec, nullptr, finish, mop_describe});
Reg r2({"H02", "HOT iteration returns keys in order, without duplicates, missing no key that stays present", REAL, STUB, gen2, setup, nullptr, exec, nullptr, finish, mop_describe});
Reg r3({"H03", "HOT nodes are reclaimed only when no operation can reach them", REAL, STUB, gen3, setup, nullptr, exec, nullptr, finish, mop_describe});
}
