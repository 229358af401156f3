// Latches of OptiQL: exclusion, progress, first-come-first-served, validity of optimistic reads.
#include "latch.h"
using namespace sim;
Latch *latches[32]; int nlatches;
namespace {
Latch *L; const Spec *S;
volatile uint64_t da, db, dc;            // protected data, always equal outside an exclusive section
int writers, readers; uint64_t commits;  // harness bookkeeping
struct Wait { bool on; bool wr; uint64_t steps0; } wt[16];
uint64_t seen_at_inv[16];                // bit per thread that was surely queued when this thread asked
void enter_wait(int t, bool wr) { Off o; uint64_t m = 0; for (int i = 0; i < 16; i++) if (wt[i].on && i != t && sim_steps(i) - wt[i].steps0 > 64 && (wr || wt[i].wr)) m |= 1ull << i; seen_at_inv[t] = m; wt[t] = {true, wr, sim_steps(t)}; }
void got(int t, bool wr) {
  Off o; wt[t].on = false;
  if (wr) { if (writers || readers) sim_fail("exclusion", "%s: thread %d got the latch exclusively while %d writers and %d readers hold it", L->name, t, writers, readers); writers++; }
  else { if (writers) sim_fail("exclusion", "%s: thread %d got the latch shared while a writer holds it", L->name, t); readers++; if (readers > 1) sim_probe("readers_shared"); }
  if (L->fifo) for (int i = 0; i < 16; i++) if ((seen_at_inv[t] >> i & 1) && wt[i].on) sim_fail("fairness", "%s: thread %d, which was already waiting when thread %d asked, was overtaken", L->name, i, t);
  if (seen_at_inv[t]) sim_probe("queued_behind_waiter");
  // whoever is waiting forgets an older waiter that has been served
  for (int i = 0; i < 16; i++) seen_at_inv[i] &= ~(1ull << t);
}
void drop(bool wr) { Off o; if (wr) writers--; else readers--; }
enum { W, RD, TRY, OPT, UPG, TRYR, DOWN };
void crit(int n) {  // an exclusive section
  uint64_t a = da, b = db, c = dc;
  if (a != b || b != c) sim_fail("exclusion", "%s: an exclusive section sees data of another one half way", L->name);
  da = a + 1; for (int i = 0; i < n; i++) sim_point(); db = b + 1; dc = c + 1;
  commits++;
}
void exec(int t, const Op &o) {
  int n = (int)o.b;
  switch (o.kind) {
    case W: enter_wait(t, true); L->lock(t); got(t, true); crit(n); drop(true); L->unlock(t); break;
    case RD: if (!L->shared) return; enter_wait(t, false); L->rlock(t); got(t, false);
      { uint64_t a = da; for (int i = 0; i < n; i++) sim_point(); uint64_t b = db, c = dc; if (a != b || b != c) sim_fail("exclusion", "%s: a reader sees data of a writer half way", L->name); }
      drop(false); L->runlock(t); break;
    case TRY: if (!L->trylock) return; if (L->tryl(t)) { sim_probe("trylock_ok"); Off o; got(t, true); sim_on(o.m); crit(n); o.m = sim_off(); drop(true); sim_on(o.m); L->unlock(t); o.m = sim_off(); } else sim_probe("trylock_failed"); break;
    case TRYR: if (!L->tryr) return; if (L->tryr(t)) { sim_probe("try_shared_ok"); got(t, false); uint64_t a = da; for (int i = 0; i < n; i++) sim_point(); uint64_t b = db, c = dc; if (a != b || b != c) sim_fail("exclusion", "%s: a reader sees data of a writer half way", L->name);
      drop(false); L->runlock(t); } else sim_probe("try_shared_failed"); break;
    case DOWN: { if (!L->down) return; enter_wait(t, true); L->lock(t); got(t, true); crit(n);
      { Off o; writers--; readers++; } uint64_t mine = da; L->down(t); sim_probe("downgraded");
      for (int i = 0; i < n + 2; i++) { if (da != mine || db != mine || dc != mine) sim_fail("exclusion", "%s: the data changed while thread %d turned its exclusive hold into a shared one", L->name, t); sim_point(); }
      drop(false); L->runlock(t); break; }
    case OPT: case UPG: {
      if (!L->opt) return;
      for (int k = 0; k < 3; k++) {
        bool r = false; uint64_t v = L->rbegin(r); if (r) { sim_pause(); continue; }
        uint64_t a = da; for (int i = 0; i < n; i++) sim_point(); uint64_t b = db, c = dc;
        if (o.kind == UPG && L->upgrade && !(v >> 63)) {  // a version read during a hand-over is for reading only
          sim_probe("upgrade_tried");
          if (!L->upg(t, v)) continue;
          sim_probe("upgraded");
          got(t, true);
          if (a != b || b != c || da != a) sim_fail("stale-version", "%s: an upgrade succeeded although the data changed since the version was read", L->name);
          crit(1); drop(true); L->unlock(t);
        } else {
          if (!L->rvalid(v)) { sim_probe("read_invalid"); continue; }
          sim_probe("read_valid");
          if (v >> 63) sim_probe("read_during_handover");
          if (a != b || b != c) sim_fail("stale-version", "%s: a validated optimistic read returned data of a writer half way (%llu %llu %llu)", L->name, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
        }
        break;
      }
    }
  }
}
void setup(const Spec &s) {
  S = &s; L = latches[s.get("latch") % nlatches]; da = db = dc = 0; writers = readers = 0; commits = 0; memset(wt, 0, sizeof wt); memset(seen_at_inv, 0, sizeof seen_at_inv);
  L->create(); L->thread_begin(0);
}
void tb(int t) { if (t) L->thread_begin(t); seen_at_inv[t] = 0; }
void finish(const Spec &) {
  if (da != commits || db != commits || dc != commits) sim_fail("lost-update", "%s: %llu exclusive sections ran but the counter is %llu", L->name, (unsigned long long)commits, (unsigned long long)da);
  // the latch is free again
  L->lock(0); L->unlock(0); if (L->shared) { L->rlock(0); L->runlock(0); }
  if (L->opt) { bool r = false; uint64_t v = L->rbegin(r); if (r || !L->rvalid(v)) sim_fail("stuck", "%s: the latch is not free after every thread released it", L->name); }
  L->destroy();
}
std::string describe(const Op &o) { static const char *n[] = {"exclusive", "shared", "trylock", "optimistic_read", "upgrade", "try_shared", "downgrade"}; return fmt((std::string(n[o.kind]) + "(len %lld)").c_str(), o.b); }
void gen(Rng &r, Spec &s, bool opt, char fam = 'O') {
  std::vector<int> c; for (int i = 0; i < nlatches; i++) if ((!opt || latches[i]->opt) && latches[i]->family == fam) c.push_back(i);
  int w = r.pick(c); s.par["latch"] = w; Latch *l = latches[w];
  int nt = (int)r.range(2, 5); s.thr.resize(nt);
  double pw = 0.3 + 0.2 * r.below(3);
  for (auto &t : s.thr) {
    int n = (int)r.range(1, 8);
    for (int i = 0; i < n; i++) {
      Op o; o.b = r.chance(0.8) ? (int64_t)r.below(4) : (int64_t)r.range(5, 80);
      std::vector<int> k; if (l->shared) k.push_back(RD); if (l->trylock) k.push_back(TRY); if (l->tryr) k.push_back(TRYR); if (l->down) k.push_back(DOWN); if (l->opt) { k.push_back(OPT); if (l->upgrade) k.push_back(UPG); }
      o.kind = k.empty() || r.chance(opt ? pw * 0.7 : pw) ? W : r.pick(k);
      t.push_back(o);
    }
  }
}
void gen_ex(Rng &r, Spec &s) { gen(r, s, false); }
void gen_l(Rng &r, Spec &s) { gen(r, s, false, 'L'); }
void gen_w(Rng &r, Spec &s) { gen(r, s, false, 'W'); }
void gen_opt(Rng &r, Spec &s) { gen(r, s, true); }
Reg r3({"Q03", "OptiQL latches: exclusion, no lost hand-over, queue order, on every schedule", "OptiQL/latches/MCS.h MCSRW.h OMCSImpl.h OMCSOffset.h STDRW.h (all real)", "malloc, scheduler, pthread_rwlock (for STDRW), NUMA allocation", gen_ex, setup, tb, exec, nullptr, finish, describe});
Reg r4({"Q04", "OptiQL latches: a validated optimistic read is consistent, an upgrade succeeds only from the current version", "OptiQL/latches/OMCSImpl.h OMCSOffset.h (all real)", "malloc, scheduler, NUMA allocation", gen_opt, setup, tb, exec, nullptr, finish, describe});
Reg r5({"L03", "B-link tree latches: exclusion, no lost release, no stuck waiter, on every schedule", "BLinkTree/latch.h (all real)", "scheduler, pthread_rwlock (inside std::shared_mutex), sleep", gen_l, setup, tb, exec, nullptr, finish, describe});
Reg r6({"W05", "wormhole's rwlock, spinlock and mutex: exclusion, no lost release, no stuck waiter, on every schedule", "wormhole/lib.c rwlock, spinlock, mutex (all real)", "scheduler, pthread spinlock and mutex (inside spinlock and mutex)", gen_w, setup, tb, exec, nullptr, finish, describe});
}
