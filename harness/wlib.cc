// Building blocks of wormhole/lib.c: quiescent-state reclamation and the slab allocator.
#include "hutil.h"
#include <set>
#define static_assert(...) struct Sa_
typedef int au_dummy;
#undef static_assert
#include "lib.h"
using namespace sim;
namespace {
uint64_t live0; bool faults;
// ---- W04: a value published by pointer, replaced under a writer lock, the old one freed after qsbr_wait
struct Box { uint64_t ver; volatile uint64_t a, b; };
Box *volatile cur; qsbr *Q; spinlock wl; qsbr_ref *refs[16]; bool reg[16], parked[16];
__attribute__((noinline)) SIM_NOINST void st(int t, int r, int p) { reg[t] = r; parked[t] = p; }   // not a simulated access: it would drain the store buffer
enum { READ, WRITE, PARK, REG };
Box *load() { return __atomic_load_n(&cur, __ATOMIC_ACQUIRE); }
void reg_(int t) { if (!qsbr_register(Q, refs[t])) sim_fail("bad-result", "register failed with free places"); st(t, 1, 0); }
void setup4(const Spec &) {
  live0 = sim_live_blocks(); Q = qsbr_create(); spinlock_init(&wl); memset(reg, 0, sizeof reg); memset(parked, 0, sizeof parked);
  Box *b = new Box{1, 1, 1}; cur = b;
}
// references are next to each other, so that several fall into one shard
void tb4(int t) { if (!t) return; refs[t] = (qsbr_ref *)malloc(sizeof(qsbr_ref)); memset((void *)refs[t], 0, sizeof(qsbr_ref)); reg_(t); }
void te4(int t) { if (!t) return; if (parked[t]) qsbr_resume(refs[t]); if (reg[t]) qsbr_unregister(Q, refs[t]); free(refs[t]); }
void leave(int t, int how) { if (how == 1 && reg[t] && !parked[t]) { qsbr_park(refs[t]); st(t, 1, 1); } if (how == 2 && reg[t]) { if (parked[t]) qsbr_resume(refs[t]); qsbr_unregister(Q, refs[t]); st(t, 0, 0); } }
void enter(int t) { if (!reg[t]) reg_(t); if (parked[t]) { qsbr_resume(refs[t]); st(t, 1, 0); } }
void exec4(int t, const Op &o) {
  enter(t);
  if (o.kind == READ) {
    for (int k = 0; k < (int)o.a; k++) {
      Box *b = load(); uint64_t v = b->ver; qsbr_update(refs[t], v);
      uint64_t x = b->a; for (int i = 0; i < (int)o.b; i++) sim_point(); uint64_t y = b->b;
      if (b->ver != v || x != v || y != v) sim_fail("reclaimed", "a reader holding version %llu sees it destroyed (%llu %llu %llu)", (unsigned long long)v, (unsigned long long)x, (unsigned long long)y, (unsigned long long)b->ver);
    }
  } else {
    // as a wormhole writer: keeps reporting while it waits for the lock
    while (!spinlock_trylock(&wl)) { Box *b = load(); qsbr_update(refs[t], b->ver); sim_pause(); }
    Box *old = load(); uint64_t v = old->ver + 1; Box *n = new Box{v, v, v};
    qsbr_update(refs[t], v);
    __atomic_store_n(&cur, n, __ATOMIC_SEQ_CST);
    qsbr_wait(Q, v);
    old->a = 0; old->b = 0; old->ver = 0; sim_probe("reclaimed"); delete old;
    spinlock_unlock(&wl);
  }
  leave(t, (int)o.c);
}
void fin4(const Spec &) { Box *b = cur; if (b->ver != b->a) sim_fail("reclaimed", "the current version was destroyed"); delete b; qsbr_destroy(Q); if (sim_live_blocks() != live0) sim_fail("leak", "blocks left"); }
std::string desc4(const Op &o) { static const char *l[] = {"", " then park", " then unregister"}; return fmt((std::string(o.kind == READ ? "read(times %lld, len %lld)" : "replace and reclaim") + l[o.c % 3]).c_str(), o.a, o.b); }
void gen4(Rng &r, Spec &s) {
  s.thr.resize(r.pick(std::vector<int>{2, 2, 3, 3, 4, 6})); bool roles = r.chance(0.6); double w = r.pick(std::vector<double>{0.15, 0.4, 0.7}), park = r.pick(std::vector<double>{0.2, 0.5, 0.9});
  if (r.chance(0.4)) s.sched.tso = true;
  for (size_t t = 0; t < s.thr.size(); t++) { int n = (int)r.range(1, 10); double x = roles ? (t ? 0.05 : 0.9) : w; for (int i = 0; i < n; i++) { Op o; o.kind = r.chance(x) ? WRITE : READ; o.a = r.range(1, 3); o.b = r.below(6); o.c = !r.chance(park) ? 0 : r.range(1, 2); s.thr[t].push_back(o); } }
}
// ---- W08: slab allocator
slab *S; uint64_t osz; std::set<uint8_t *> *out; std::vector<uint8_t *> *held[16], *ret; uint64_t nfail;
void setup8(const Spec &s) {
  live0 = sim_live_blocks(); faults = s.get("faults"); osz = s.get("osz"); nfail = 0;
  { Off o; out = new std::set<uint8_t *>; ret = new std::vector<uint8_t *>; for (auto &h : held) h = new std::vector<uint8_t *>; }
  sim_fault_alloc_enabled(0);
  S = slab_create(osz, s.get("blk")); if (!S) sim_fail("bad-result", "slab_create failed without a fault");
  for (int i = 0; i < s.get("res"); i++) { uint8_t *p = (uint8_t *)slab_alloc_unsafe(S); Off o; if (!p) sim_fail("bad-result", "alloc failed"); held[0]->push_back(p); out->insert(p); }
  { Off o; *ret = *held[0]; held[0]->clear(); }
}
void tb8(int t) { if (t) sim_fault_alloc_enabled(faults); }
void te8(int t) { sim_fault_alloc_enabled(0); }
void fill(uint8_t *p, int tag) { for (uint64_t i = 8; i + 8 <= osz; i += 8) *(volatile uint64_t *)(p + i) = (uint64_t)p * 31 + tag; *(volatile uint64_t *)p = tag; }
void verify(uint8_t *p, int tag) { if (*(volatile uint64_t *)p != (uint64_t)tag) sim_fail("overlap", "an object in use was overwritten"); for (uint64_t i = 8; i + 8 <= osz; i += 8) if (*(volatile uint64_t *)(p + i) != (uint64_t)p * 31 + tag) sim_fail("overlap", "an object in use was overwritten"); }
void exec8(int t, const Op &o) {
  if (o.kind == 0) {
    uint8_t *p = (uint8_t *)slab_alloc_safe(S);
    if (!p) { if (!faults) sim_fail("bad-result", "slab_alloc_safe failed without a fault"); sim_probe("alloc_failed"); return; }
    { Off f;
      auto i = out->lower_bound(p); if (i != out->end() && (*i == p || *i < p + osz)) sim_fail("double", "an object was handed out twice");
      if (i != out->begin() && *--i + osz > p) sim_fail("double", "two objects overlap");
      if ((uint64_t)p % 8) sim_fail("align", "misaligned object"); if (!(osz & (osz - 1)) && (uint64_t)p % osz && osz <= 4096) sim_fail("align", "an object of a power-of-two size is not aligned to it");
      out->insert(p); held[t]->push_back(p); }
    fill(p, t);
  } else {
    uint8_t *p = nullptr; bool pre = false; { Off f; if (!held[t]->empty()) { size_t i = o.a % held[t]->size(); p = (*held[t])[i]; held[t]->erase(held[t]->begin() + i); } else if (!ret->empty()) { p = ret->back(); ret->pop_back(); pre = true; } }
    if (!p) return; if (!pre) verify(p, t);
    { Off f; out->erase(p); }
    slab_free_safe(S, p);
  }
}
void fin8(const Spec &) {
  for (int t = 0; t < 16; t++) for (auto p : *held[t]) verify(p, t);
  uint64_t n = slab_get_nalloc(S); if (n != out->size()) sim_fail("count", "%llu objects are counted as allocated, %zu are", (unsigned long long)n, out->size());
  // every object that is free can be handed out again
  slab_free_all(S); slab_destroy(S);
  if (sim_live_blocks() != live0) sim_fail("leak", "blocks left");
  Off o; delete out; delete ret; for (auto &h : held) delete h;
}
std::string desc8(const Op &o) { return o.kind ? fmt("free(%lld)", o.a) : "alloc"; }
void gen8(Rng &r, Spec &s) {
  s.par["osz"] = r.pick(std::vector<int>{64, 128, 24, 136, 1000, 1024, 2048, 512}); s.par["blk"] = 4096; s.par["res"] = r.below(6);
  if (r.chance(0.3)) { s.par["faults"] = 1; s.sched.allocfail = 0.3; }
  s.thr.resize(r.range(2, 5)); for (auto &t : s.thr) { int n = (int)r.range(2, 12); for (int i = 0; i < n; i++) { Op o; o.kind = r.chance(0.5); o.a = r.below(8); t.push_back(o); } }
}
Reg r4({"W04", "nothing a registered reader can still reach is reclaimed, and a writer's wait ends", "wormhole/lib.c qsbr_*, spinlock (all real)", "malloc, scheduler, TSO store buffers", gen4, setup4, tb4, exec4, te4, fin4, desc4});
Reg r8({"W08", "the slab allocator hands an object to one owner at a time and loses none", "wormhole/lib.c slab_*, astk (all real)", "mmap, mutex, scheduler", gen8, setup8, tb8, exec8, te8, fin8, desc8});
}
