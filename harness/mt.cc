// Masstree: the table (cursors, scans, removal, layer collection, epoch reclamation) and the MassTreeWrapper front end.
#include "mapgen.h"
#include <unistd.h>
#include <tbb/enumerable_thread_specific.h>
#include <sstream>
#include "circular_int.hh"
#include "timestamp.hh"
#include "memdebug.hh"
#define private public
#include "kvthread.hh"
#undef private
#include "masstree.hh"
#include "masstree_insert.hh"
#include "masstree_remove.hh"
#include "masstree_scan.hh"
#include "MassTreeWrapper.h"
using namespace sim;
volatile uint64_t globalepoch, active_epoch;
// assertions of the code under test
SIM_NOINST static void broken(const char *what, const char *f, int l, const char *a) { const char *b = strrchr(f, '/'); sim_fail("invariant", "%s violated: %s (%s:%d)", what, a, b ? b + 1 : f, l); }
void fail_always_assert(const char *f, int l, const char *a, const char *) { broken("assertion", f, l, a); abort(); }
void fail_masstree_invariant(const char *f, int l, const char *a, const char *) { broken("invariant", f, l, a); abort(); }
void fail_masstree_precondition(const char *f, int l, const char *a, const char *) { broken("precondition", f, l, a); abort(); }
namespace {
MapUni U; MapVals V; int enc, mode, boxed; std::string pre; threadinfo *ti[16]; uint64_t live0; bool rev_epoch;
// order-preserving key encodings: slices shared, split inside and at the 8-byte boundaries, embedded zeros, lengths that differ only
int skey(int64_t id, char *b) {
  Off o; int n = 0;
  static const std::string S4[4] = {"", std::string("\0", 1), "a", "aaaaaaaab"};
  static const std::string S8[8] = {"", std::string("\0\0", 2), "0", "01234567", "012345670", "0123456789abcdef", "0123456789abcdefg", std::string("\xff", 1)};
  static const std::string F8[8] = {"", std::string(8, '\0'), std::string(9, '\0'), "01234567", "012345670", std::string("\xff", 1), std::string(8, '\xff'), std::string(17, '\xff')};
  auto be = [&](uint64_t v, int w) { for (int i = w - 1; i >= 0; i--) b[n++] = (char)(v >> 8 * i); };
  auto add = [&](const std::string &s) { memcpy(b + n, s.data(), s.size()); n += s.size(); };
  if (enc & 8) add(pre);
  switch (enc & 7) {
    case 0: be(id, 8); if (enc & 16) for (int i = 0, m = (int)(1 + id * 7 % 40); i < m; i++) b[n++] = (char)('a' + i % 20); break;
    case 1: n += sprintf(b + n, "%08llu", (unsigned long long)id); break;
    case 2: n += sprintf(b + n, "%012llu", (unsigned long long)id); break;
    case 3: be(id / 4, 4); add(S4[id & 3]); break;
    case 4: be(id / 4, 8); add(S4[id & 3]); break;
    case 5: be(id / 8, 8); add((enc & 16 ? F8 : S8)[id & 7]); break;
    case 6: be(id / 64, 2); add(std::string("abcdef")); be(id / 8 % 8, 8); add((enc & 16 ? F8 : S8)[id & 7]); break;
    case 7: for (int i = 18; i >= 0; i -= 3) { b[n++] = (char)('0' + (id >> i & 7)); for (int j = 0; j < 7; j++) b[n++] = '.'; } break;
  }
  return n;
}
struct Box { uint64_t val, nval; };
uint64_t unbox(uint64_t w, int64_t id) {
  if (!boxed) return V.check(id, w);
  Box *p = (Box *)w; uint64_t v = p->val, n = p->nval; if (n != ~v) sim_fail("bad-value", "torn value"); return V.check(id, v);
}
uint64_t mkval(int64_t id, uint64_t v, threadinfo &t) { if (!boxed) return v; Box *p = (Box *)t.allocate(sizeof(Box), memtag_value); p->val = v; p->nval = ~v; return (uint64_t)p; }
void drop(uint64_t w, threadinfo &t) { if (boxed) t.deallocate((void *)w, sizeof(Box), memtag_value); }
void retire(uint64_t w, threadinfo &t) { if (boxed) t.deallocate_rcu((void *)w, sizeof(Box), memtag_value); }
struct Ix {
  virtual void init(threadinfo &) = 0; virtual void fini(threadinfo &) = 0; virtual void put(int64_t, threadinfo &) = 0; virtual void ins(int64_t, threadinfo &) = 0;
  virtual void upd(int64_t, threadinfo &) = 0; virtual void del(int64_t, threadinfo &) = 0; virtual void get(int64_t, threadinfo &, int) = 0; virtual void scan(int64_t, int, bool, bool, threadinfo &) = 0;
  virtual bool table() { return true; }
};
struct Scanner {
  std::vector<std::pair<int64_t, uint64_t>> *got; int max; bool stopped = false;
  template <class S, class K> void visit_leaf(const S &, const K &, threadinfo &) {}
  bool visit_value(lcdf::Str key, uint64_t w, threadinfo &) {
    uint64_t v = w;
    if (boxed) { Box *p = (Box *)w; v = p->val; if (p->nval != ~v) sim_fail("bad-value", "torn value"); }
    {
      Off o; int64_t id = V.keyof(v); char b[400]; 
      if (id < 0) sim_fail("scan", "scan reported a value that was never stored");
      int n = skey(id, b);
      if (n != key.len || memcmp(b, key.s, n)) sim_fail("scan", "scan paired the value of key %lld with another key (length %d)", (long long)id, key.len);
      got->push_back({id, v});
    }
    if (--max > 0) return true;
    stopped = true; return false;
  }
};
template <int W> struct Tab : Ix {
  struct P : Masstree::nodeparams<W, W> { typedef uint64_t value_type; typedef threadinfo threadinfo_type; };
  typedef Masstree::basic_table<P> T; T t;
  void init(threadinfo &x) override { t.initialize(x); }
  void fini(threadinfo &x) override { t.destroy(x); }
  void put(int64_t id, threadinfo &x) override {
    char b[400]; int n = skey(id, b); uint64_t v = V.fresh(id), w = mkval(id, v, x);
    Mark m = hb(id, H_PUTOLD, v); x.rcu_start();
    typename T::cursor_type lp(t, b, n); bool f = lp.find_insert(x);
    uint64_t old = f ? lp.value() : 0; lp.value() = w; fence(); lp.finish(1, x);
    uint64_t ov = f ? unbox(old, id) : 0; if (f) retire(old, x);
    x.rcu_stop(); he(m, ov);
  }
  void ins(int64_t id, threadinfo &x) override {
    char b[400]; int n = skey(id, b); uint64_t v = V.fresh(id), w = mkval(id, v, x);
    Mark m = hb(id, H_INS, v); x.rcu_start();
    typename T::cursor_type lp(t, b, n); bool f = lp.find_insert(x);
    if (!f) { lp.value() = w; fence(); lp.finish(1, x); } else { lp.finish(0, x); drop(w, x); }
    x.rcu_stop(); he(m, !f);
  }
  void upd(int64_t id, threadinfo &x) override {
    char b[400]; int n = skey(id, b); uint64_t v = V.fresh(id), w = mkval(id, v, x);
    Mark m = hb(id, H_UPD, v); x.rcu_start();
    typename T::cursor_type lp(t, b, n); bool f = lp.find_locked(x); uint64_t old = 0;
    if (f) { old = lp.value(); lp.value() = w; fence(); }
    lp.finish(0, x); if (f) retire(old, x); else drop(w, x);
    x.rcu_stop(); he(m, f);
  }
  void del(int64_t id, threadinfo &x) override {
    char b[400]; int n = skey(id, b);
    Mark m = hb(id, H_DEL); x.rcu_start();
    typename T::cursor_type lp(t, b, n); bool f = lp.find_locked(x); uint64_t old = f ? lp.value() : 0;
    if (f) unbox(old, id);
    lp.finish(-1, x); if (f) retire(old, x);
    x.rcu_stop(); he(m, f);
  }
  void get(int64_t id, threadinfo &x, int how) override {
    char b[400]; int n = skey(id, b); uint64_t w = 0, v = 0; bool f;
    Mark m = hb(id, H_GET); x.rcu_start();
    if (how) { typename T::unlocked_cursor_type lp(t, b, n); f = lp.find_unlocked(x); if (f) w = lp.value(); }
    else f = t.get(lcdf::Str(b, n), w, x);
    if (f) v = unbox(w, id);
    x.rcu_stop(); he(m, v);
  }
  void scan(int64_t id, int max, bool rev, bool first, threadinfo &x) override {
    char b[400]; int n = skey(id, b); std::vector<std::pair<int64_t, uint64_t>> got; Scanner s; s.got = &got; s.max = max;
    uint64_t inv = sim_now(); x.rcu_start();
    int c = rev ? t.rscan(lcdf::Str(b, n), first, s, x) : t.scan(lcdf::Str(b, n), first, s, x);
    x.rcu_stop(); ScanObs o; o.inv = inv; o.res = sim_now();
    Off off; o.got = got;
    if (c != (int)got.size()) sim_fail("scan", "scan counted %d keys and visited %d", c, (int)got.size());
    size_t lo, hi;
    if (!rev) { lo = first ? U.lower(id) : U.upper(id); hi = s.stopped ? U.upper(got.back().first) : U.ids.size(); }
    else { hi = first ? U.upper(id) : U.lower(id); lo = s.stopped ? U.lower(got.back().first) : 0; }
    if (lo >= hi) { if (!got.empty()) sim_fail("scan", "scan from %lld reported key %lld", (long long)id, (long long)got[0].first); return; }
    scan_check(o, U.ids, lo, hi - 1, rev, rev ? "reverse scan" : "scan");
  }
};
// MassTreeWrapper: upsert/search on values that are retired when they are replaced
struct Wrap : Ix {
  MassTreeWrapper<Box *> *wp = nullptr; MassTreeWrapper<uint64_t> *wu = nullptr;
  void init(threadinfo &) override { if (boxed) wp = new MassTreeWrapper<Box *>(); else wu = new MassTreeWrapper<uint64_t>(); }
  void fini(threadinfo &) override {}
  void put(int64_t id, threadinfo &x) override {
    char b[400]; int n = skey(id, b); uint64_t v = V.fresh(id); Box *w = nullptr; if (boxed) w = (Box *)mkval(id, v, x);
    Mark m = hb(id, H_PUT, v); bool ins = boxed ? wp->upsert(b, n, w) : wu->upsert(b, n, v); he(m, !ins);
  }
  void get(int64_t id, threadinfo &, int how) override {
    char b[400]; int n = skey(id, b); uint64_t v = 0; Box *w = nullptr; bool f; std::string s; { Off o; s.assign(b, n); }
    Mark m = hb(id, H_GET);
    { MassEpochGuard g; if (boxed) { f = how ? wp->search(b, n, w) : wp->search(s, w); if (f) v = unbox((uint64_t)w, id); } else { f = how ? wu->search(b, n, v) : wu->search(s, v); if (f) V.check(id, v); } }
    he(m, f ? v : 0);
  }
  void ins(int64_t id, threadinfo &x) override { put(id, x); }
  void upd(int64_t id, threadinfo &x) override { put(id, x); }
  void del(int64_t id, threadinfo &x) override { put(id, x); }
  void scan(int64_t id, int, bool, bool, threadinfo &x) override { get(id, x, 0); }
  bool table() override { return false; }
};
Ix *ix; int nthr;
// callbacks registered with the reclaimer: each runs once, and not while a read section that was open at its registration lasts
uint64_t opened[16], ncb, cbrun;
struct Cb : threadinfo::mrcu_callback {
  uint64_t at; int by; bool ran = false;
  void operator()(threadinfo &t) override {
    { Off o;
      if (ran) sim_fail("reclaim", "a callback ran twice");
      ran = true; cbrun++;
      for (int i = 0; i < 16; i++) if (opened[i] && opened[i] < at) sim_fail("reclaim", "a callback registered by thread %d ran while thread %d was still in a read section it had begun before", by, i);
    }
    t.deallocate(this, sizeof(Cb), memtag_masstree_gc);
  }
  size_t size() const { return sizeof(Cb); }
};
void burst(int tid, int n) {
  threadinfo &x = *ti[tid]; x.rcu_start(); { Off o; opened[tid] = sim_now(); }
  auto go = [&] { for (int i = 0; i < n; i++) { Cb *c = new (x.allocate(sizeof(Cb), memtag_masstree_gc)) Cb(); { Off o; c->at = sim_now(); c->by = tid; ncb++; } x.rcu_register(c); } };
  if (n > 8) { Quiet q; go(); } else go();
  { Off o; opened[tid] = 0; } x.rcu_stop();
}
void hold(int tid, int naps, int64_t ns) {
  threadinfo &x = *ti[tid]; x.rcu_start(); { Off o; opened[tid] = sim_now(); }
  for (int i = 0; i < naps; i++) sim_sleep_ns(ns);
  { Off o; opened[tid] = 0; } x.rcu_stop();
}
void bump(int inc) { globalepoch += inc; active_epoch = threadinfo::min_active_epoch(); }
void setup(const Spec &s) {
  { Off o; H.reset(); V.reset(); U.build(s); enc = s.get("enc"); mode = s.get("mode"); boxed = s.get("boxed"); pre.assign(s.get("prelen"), 'p'); setenv("_", "valgrind", 1); }
  nthr = s.thr.size(); globalepoch = active_epoch = s.get("epoch", 1);
  for (auto &t : ti) t = nullptr;
  for (auto &o : opened) o = 0;
  ncb = cbrun = 0;
  mass_thd_info = nullptr;
  ti[0] = threadinfo::make(threadinfo::TI_MAIN, -1);
  if (mode == 3) { mass_thd_info = ti[0]; ix = new Wrap(); }
  else {
    for (int i = 1; i <= nthr; i++) ti[i] = threadinfo::make(threadinfo::TI_PROCESS, i);
    if (mode == 0) ix = new Tab<3>(); else if (mode == 1) ix = new Tab<15>(); else ix = new Tab<7>();
  }
  live0 = sim_live_blocks();
  ix->init(*ti[0]);
  for (int64_t k : U.load) ix->put(k, *ti[0]);
}
void tbegin(int tid) {
  if (mode != 3 || tid == 0) return;
  mass_thd_info = nullptr;
  if (boxed) ((Wrap *)ix)->wp->thread_init(tid); else ((Wrap *)ix)->wu->thread_init(tid);
  ti[tid] = mass_thd_info;
}
void exec(int tid, const Op &o) {
  threadinfo &x = *ti[tid];
  switch (o.kind) {
    case GET: ix->get(o.a, x, o.b & 1); break; case PUT: ix->put(o.a, x); break; case INS: ix->ins(o.a, x); break;
    case UPD: ix->upd(o.a, x); break; case DEL: ix->del(o.a, x); break;
    case SCAN: ix->scan(o.a, o.c, false, o.b & 1, x); break;
    case RSCAN: ix->scan(o.a, o.c, true, o.b & 1, x); break;
    case MISC: bump(o.b); sim_sleep_ns(o.c); break;
    case MISC2: burst(tid, (int)o.c); break;
    case MISC3: hold(tid, (int)o.a, o.c); break;
  }
}
void finish(const Spec &s) {
  mass_thd_info = ti[0];
  { Quiet q;
    for (size_t i = 0; i < U.ids.size(); i++) ix->get(U.ids[i], *ti[0], i & 1);
    if (ix->table()) { ix->scan(0, 1 << 20, false, true, *ti[0]); ix->scan(U.ids.empty() ? 1 : U.ids.back() + 1, 1 << 20, true, true, *ti[0]); }
    if (s.get("drop") && ix->table()) for (int64_t k : U.ids) ix->del(k, *ti[0]);
    if (s.get("drop") & 2) for (int r = 0; r < 40 + (int)(ncb / 64); r++) { bump(2); for (int i = 0; i < 16; i++) if (ti[i]) { ti[i]->rcu_start(); ti[i]->rcu_stop(); } }
    if (s.get("drop") & 4 && ix->table()) { ix->scan(0, 1 << 20, false, true, *ti[0]); for (int64_t k : U.ids) ix->ins(k, *ti[0]); ix->scan(0, 1 << 20, false, true, *ti[0]); }
  }
  H.check();
  if (s.get("drop") & 2 && cbrun != ncb) sim_fail("reclaim", "%llu of %llu callbacks never ran", (unsigned long long)(ncb - cbrun), (unsigned long long)ncb);
  Quiet q;
  std::vector<Box *> left; // values still in the tree belong to the application
  if (boxed) { struct C { std::vector<Box *> *l; } c{&left}; (void)c; }
  ix->fini(*ti[0]); delete ix;
}
// few keys, few leaves: slots are reused, leaves and layers are emptied and come back while others read them
void churn(Rng &r, Spec &s, int what) {
  if (r.chance(0.7)) s.par["mode"] = 0;
  if (r.chance(0.6)) s.par["enc"] = 5 + r.below(2) | (r.chance(0.5) ? 16 : 0) | (r.chance(0.2) ? 8 : 0);
  int n = (int)r.range(1, r.chance(0.3) ? 20 : 8), base = 8 * (int)r.range(1, 20) + (r.chance(0.3) ? (int)r.below(8) : 0);
  s.par["fill"] = n; s.par["stride"] = 1; s.par["base"] = base; s.init.clear(); s.thr.clear();
  int lo = base - (r.chance(0.3) ? 1 : 0), cnt = n + (int)r.range(0, 3); int64_t star = lo + r.below(cnt);
  int nt = (int)r.range(2, 3);
  for (int t = 0; t < nt; t++) {
    std::vector<Op> v; int role = t == 0 ? 0 : t == 1 ? (int)r.below(3) : (int)r.below(4);
    if (role == 0) {   // empties a part of the keys in some order, puts some back
      std::vector<int64_t> ks; for (int i = 0; i < cnt; i++) ks.push_back(lo + i);
      int ord = (int)r.below(3); if (ord == 1) std::reverse(ks.begin(), ks.end()); if (ord == 2) for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[r.below(i)]);
      double keep = r.chance(0.5) ? 0 : 0.3, back = r.chance(0.5) ? 0 : 0.5;
      for (auto k : ks) { if (r.chance(keep)) continue; v.push_back(Op{DEL, k, 0, 0}); if (r.chance(back)) v.push_back(Op{INS, r.chance(0.5) ? k : lo + (int64_t)r.below(cnt), 0, 0}); }
      if (r.chance(0.3)) for (auto k : ks) if (r.chance(0.5)) v.push_back(Op{INS, k, 0, 0});
    } else if (role == 1) { int m = (int)r.range(1, 6); for (int i = 0; i < m; i++) v.push_back(Op{what == 2 ? r.chance(0.5) ? SCAN : RSCAN : GET, r.chance(0.6) ? star : lo + (int64_t)r.below(cnt), 0, (int64_t)r.range(1, 16)}); }
    else if (role == 2) { int m = (int)r.range(1, 8); for (int i = 0; i < m; i++) v.push_back(Op{r.chance(0.5) ? INS : r.chance(0.5) ? DEL : GET, r.chance(0.4) ? star : lo + (int64_t)r.below(cnt), 0, 0}); }
    else { int m = (int)r.range(1, 8); int64_t at = r.chance(0.5) ? lo : lo + cnt; for (int i = 0; i < m; i++) v.push_back(Op{INS, std::max<int64_t>(1, at + i), 0, 0}); }
    if (v.empty()) v.push_back(Op{GET, star, 0, 0});
    s.thr.push_back(v);
  }
}
void gen(Rng &r, Spec &s, int what) {
  int mo = s.par["mode"] = what == 4 ? 3 : (int)r.below(8) < 5 ? 0 : r.chance(0.6) ? 1 : 2;
  s.par["enc"] = r.below(8) | (r.chance(0.3) ? 8 : 0) | (r.chance(0.4) ? 16 : 0); s.par["prelen"] = r.chance(0.2) ? r.range(60, 130) : r.below(20);
  s.par["boxed"] = what == 3 || what == 4 ? r.chance(0.85) : r.chance(0.3);
  s.par["epoch"] = 1 + r.below(3);
  s.par["drop"] = r.below(8);
  MapMix m; m.get = 0.3; m.put = 0.35; m.ins = 0.3; m.upd = 0.15; m.del = what == 4 ? 0 : r.chance(0.5) ? 0.5 : 0.9; if (what == 4) m.ins = m.upd = 0;
  m.scans = what == 2 ? 2 : what == 4 ? 0 : r.chance(0.2) ? 2 : 0;
  if (mo == 0 || mo == 2) m.fills = {0, 0, 1, 2, 3, 4, 6, 8, 9, 12, 15, 16, 17, 24, 40}; else m.fills = {0, 1, 2, 8, 13, 14, 15, 16, 17, 28, 30, 45, 120, 240};
  m.maxops = what == 3 ? 16 : 10; m.maxhot = 7; m.scanmax = 16; m.maxkey = 65535;
  gen_map(r, s, m);
  if (what != 4 && r.chance(0.3)) churn(r, s, what);
  for (auto &t : s.thr) for (auto &o : t) { o.b = r.below(4); if (o.kind == SCAN || o.kind == RSCAN) if (r.chance(0.2)) o.c = 400; }
  if (what == 3 && r.chance(0.3)) {
    int n = (int)r.range(1, 5);
    for (int i = 0; i < n; i++) {
      auto &t = s.thr[r.below(s.thr.size())];
      Op o = r.chance(0.6) ? Op{MISC2, 0, 0, r.chance(0.4) ? (int64_t)r.range(1, 6) : (int64_t)r.logu(40, 700)} : Op{MISC3, (int64_t)r.range(1, 4), 0, (int64_t)r.logu(100, 40000)};
      t.insert(t.begin() + r.below(t.size() + 1), o);
    }
  }
  // the epoch advances on a thread of its own (a timer in the programs that use the tree)
  if (what >= 3 || r.chance(0.6)) {
    std::vector<Op> t; int n = (int)r.range(2, what >= 3 ? 30 : 12); int inc = (int)r.range(1, 2);
    for (int i = 0; i < n; i++) t.push_back(Op{MISC, 0, inc, (int64_t)r.logu(100, 20000)});
    s.thr.push_back(t);
  }
}
void gen1(Rng &r, Spec &s) { gen(r, s, 1); }
void gen2(Rng &r, Spec &s) { gen(r, s, 2); }
void gen3(Rng &r, Spec &s) { gen(r, s, 3); }
void gen4(Rng &r, Spec &s) { gen(r, s, 4); }
#define REAL "MassTree: masstree*.hh, nodeversion.hh, kpermuter.hh, ksearch.hh, stringbag.hh, btree_leaflink.hh, kvthread.{hh,cc}, MassTreeWrapper.h (all real)"
#define STUB "malloc, scheduler, the timer that advances the epoch"
Reg r1({"M01", "every history of concurrent insert/upsert/update/remove/get on the table is linearizable per key", REAL, STUB, gen1, setup, tbegin, exec, nullptr, finish, mop_describe});
Reg r2({"M02", "forward and reverse scans are ordered, duplicate-free, and miss no key that stays present", REAL, STUB, gen2, setup, tbegin, exec, nullptr, finish, mop_describe});
Reg r3({"M03", "nothing is reclaimed while an operation can reach it", REAL, STUB, gen3, setup, tbegin, exec, nullptr, finish, mop_describe});
Reg r4({"M04", "MassTreeWrapper is a linearizable map whose retired values outlive their readers", REAL, STUB, gen4, setup, tbegin, exec, nullptr, finish, mop_describe});
}
