// The simulator's runtime: fibers, seeded scheduler, memory model, allocator, seams.
// Compiled without instrumentation; the code under test is compiled with
// -fsanitize=thread *instrumentation*, whose callbacks are implemented here.
#include "rt.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <asm/prctl.h>

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
typedef unsigned char u8;
typedef uint64_t u64;

namespace sim {
const char *fired_names[8] = {"weak_cas_spurious_failure", "allocation_failure", "store_buffer_delay",
  "clock_jump", "io_fault", "thread_stall", "preemption", "spin_yield"};

// ------------------------------------------------------------------ memory
static const uintptr_t ARENA = 0x7e0000000000ull;
static const size_t ARENA_SZ = 8ull << 30;
static const uintptr_t SHADOW = 0x7d0000000000ull;  // 1 byte per 8 bytes
static const uintptr_t STACKS = 0x7c0000000000ull;
static const size_t STACK_SZ = 1 << 20;
static uintptr_t brk_ = ARENA + 4096;
enum : u8 { SH_NONE = 0, SH_FREED = 0xfd, SH_LIVE = 8 };  // 1..8: that many bytes are live
static inline u8 *shp(uintptr_t a) { return (u8 *)(SHADOW + ((a - ARENA) >> 3)); }
static inline bool in_arena(uintptr_t a) { return a - ARENA < ARENA_SZ; }
struct Hdr { u64 size; uint32_t magic; uint32_t flags; };
static const uint32_t MAGIC_LIVE = 0xA11C0DE5, MAGIC_FREE = 0xDEADF4EE;
static void *freel[64];
static u64 live_blocks, live_bytes, peak_bytes, alloc_seq;

// ------------------------------------------------------------------ fibers
enum FState { F_UNUSED, F_RUNNABLE, F_BLOCKED, F_SLEEP, F_DONE };
struct SbEnt { void *addr; int size; u64 val; };
struct Fiber {
  u64 cnt;          // number of events of this thread (key of decisions)
  u64 nat;          // trigger without the store buffer's deadline
  u64 sb_stall;     // stall at this access if stores are still buffered (0: no)
  u64 trigger;      // next cnt at which slow() must run
  uintptr_t stk_lo;
  uint16_t nsb; uint16_t tid;
  u64 sb_deadline;
  SbEnt sb[8];
  void *sp;
  uintptr_t fs;
  FState st;
  const void *wait;
  u64 wake_ns;
  int joiner;
  void (*fn)(void *);
  void *arg;
  long prio;
  u64 pauses;
  bool started;
  bool stalled;
  u64 stall_until;   // global step at which a stall ends
  std::vector<Ent> *ents; size_t ei;   // replay
  u64 ticks;
  bool timedout;
  bool allocfail_ok;
  u64 spin_addr; uint32_t spin_n;
  void *pthread_ret;
  bool detached;
  u64 quota;
  int quiet; u64 qn;
  uintptr_t pcs[16];
};
static Fiber F[MAXF];
static Fiber *cur;             // running fiber (nullptr: main context)
static void *main_sp; static uintptr_t main_fs;
static int nfib;               // fibers in use in this run
static int mode;               // 0 off, 1 checks only, 2 scheduled
static bool have_fsgs;

static const Spec *spec; static const Sched *sc; static const Harness *har;
static Result *res;
static Rng rng(1), urng(1);
static u64 gsteps, gstamp, hashv, thash, simns, time_off, ticks;
static u64 step_cap, hard_cap, next_cap;
static bool fair;
static uint32_t pconf16;
static u64 lastprogress;
static bool replaying;
static double rmwstall;   // chance of a stall shortly after an atomic read-modify-write
static int stalls_left; static u64 stall_pauses;
static bool in_fail;
static u64 tick_cap = 400000000ull;
static u64 padrand;
static int fillkind;
static bool ents_dirty;

extern "C" void sim_fail(const char *kind, const char *fmt, ...);

static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }

static inline uintptr_t get_fs() { uintptr_t r; if (have_fsgs) asm volatile("rdfsbase %0" : "=r"(r)); else syscall(SYS_arch_prctl, ARCH_GET_FS, &r); return r; }
static inline void set_fs(uintptr_t v) { if (have_fsgs) asm volatile("wrfsbase %0" ::"r"(v)); else { long r; asm volatile("syscall" : "=a"(r) : "a"(SYS_arch_prctl), "D"(ARCH_SET_FS), "S"(v) : "rcx", "r11", "memory"); } }

extern "C" void sim_swtch(void **save, void *to);
asm(R"(
.text
.globl sim_swtch
sim_swtch:
  pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp
  ret
.globl sim_pause_tramp
sim_pause_tramp:
  pushq %rbp
  movq %rsp, %rbp
  pushfq
  pushq %rax; pushq %rcx; pushq %rdx; pushq %rsi; pushq %rdi; pushq %r8; pushq %r9; pushq %r10; pushq %r11
  andq $-64, %rsp
  subq $4096, %rsp
  movq $0, 512(%rsp); movq $0, 520(%rsp); movq $0, 528(%rsp); movq $0, 536(%rsp)
  movq $0, 544(%rsp); movq $0, 552(%rsp); movq $0, 560(%rsp); movq $0, 568(%rsp)
  movl $0xe7, %eax
  xorl %edx, %edx
  xsave (%rsp)
  call sim_pause
  movl $0xe7, %eax
  xorl %edx, %edx
  xrstor (%rsp)
  leaq -80(%rbp), %rsp
  popq %r11; popq %r10; popq %r9; popq %r8; popq %rdi; popq %rsi; popq %rdx; popq %rcx; popq %rax
  popfq
  popq %rbp
  ret
.globl sim_rmw_tramp
sim_rmw_tramp:
  pushq %rbp
  movq %rsp, %rbp
  pushfq
  pushq %rax; pushq %rcx; pushq %rdx; pushq %rsi; pushq %rdi; pushq %r8; pushq %r9; pushq %r10; pushq %r11
  andq $-64, %rsp
  subq $4096, %rsp
  movq $0, 512(%rsp); movq $0, 520(%rsp); movq $0, 528(%rsp); movq $0, 536(%rsp)
  movq $0, 544(%rsp); movq $0, 552(%rsp); movq $0, 560(%rsp); movq $0, 568(%rsp)
  movl $0xe7, %eax
  xorl %edx, %edx
  xsave (%rsp)
  call sim_rmw
  movl $0xe7, %eax
  xorl %edx, %edx
  xrstor (%rsp)
  leaq -80(%rbp), %rsp
  popq %r11; popq %r10; popq %r9; popq %r8; popq %rdi; popq %rsi; popq %rdx; popq %rcx; popq %rax
  popfq
  popq %rbp
  ret
)");

// ------------------------------------------------------------------ logging / failing
static void vappend(char *buf, uint32_t *n, uint32_t cap, const char *fmt, va_list ap) {
  if (*n + 256 >= cap) return;
  int k = vsnprintf(buf + *n, cap - *n - 2, fmt, ap);
  if (k < 0) return;
  *n += k > (int)(cap - *n - 2) ? (cap - *n - 3) : k;
  buf[(*n)++] = '\n';
  buf[*n] = 0;
}
extern "C" void sim_note(const char *fmt, ...) {
  if (!res) return;
  int m = mode; mode = 0;
  va_list ap; va_start(ap, fmt);
  vappend(res->log, &res->nlog, sizeof res->log, fmt, ap);
  va_end(ap);
  mode = m;
}
static u64 steps0, time0;
static void publish() {
  if (!res) return;
  res->hash = hashv; res->thash = thash; res->steps = steps0 + gsteps; res->simtime_ns = time0 + simns + gsteps * 10;
  res->peak_bytes = peak_bytes;
}
extern "C" void sim_fail(const char *kind, const char *fmt, ...) {
  int m = mode; mode = 0; (void)m;
  if (in_fail || !res) { static const char x[] = "sim_fail outside a run\n"; if (!res) { va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); fprintf(stderr, "\n"); } (void)!write(2, x, sizeof x - 1); _exit(97); }
  in_fail = true;
  va_list ap; va_start(ap, fmt);
  snprintf(res->kind, sizeof res->kind, "%s", kind);
  vsnprintf(res->msg, sizeof res->msg, fmt, ap);
  va_end(ap);
  for (char *p = res->msg; *p; p++) if (*p == '\n') *p = ' ';
  hashv = mix(hashv, 0xbad);
  for (const char *p = res->msg; *p; p++) hashv = mix(hashv, *p);
  publish();
  res->status = ST_VIOL;
  res->done = 1;
  _exit(3);
}
extern "C" void sim_probe(const char *name) {
  if (!res) return;
  struct M { int m = mode; M() { mode = 0; } ~M() { mode = m; } } off;
  for (uint32_t i = 0; i < res->nprobe; i++) if (!strncmp(res->probe[i].name, name, 47)) { res->probe[i].n++; return; }
  if (res->nprobe < NPROBE) { snprintf(res->probe[res->nprobe].name, 48, "%s", name); res->probe[res->nprobe++].n = 1; }
}

static void record(int kind, Fiber *f, int64_t arg) {
  hashv = mix(mix(hashv, f->cnt), (u64)kind << 56 ^ (u64)f->tid << 32 ^ (u64)arg);
  if (fair) return;                    // the fair phase is a function of the seed alone and is never replayed from the record
  if (res->nents < Result::MAXE) res->ents[res->nents++] = Ent{f->tid + 32 * res->phase, kind, f->cnt, arg};
  else res->ents_over = 1;
}

// ------------------------------------------------------------------ store buffer
static inline void sb_store(void *a, int sz, u64 v) {
  switch (sz) { case 1: __atomic_store_n((uint8_t *)a, (uint8_t)v, __ATOMIC_SEQ_CST); break; case 2: __atomic_store_n((uint16_t *)a, (uint16_t)v, __ATOMIC_SEQ_CST); break;
    case 4: __atomic_store_n((uint32_t *)a, (uint32_t)v, __ATOMIC_SEQ_CST); break; default: __atomic_store_n((u64 *)a, v, __ATOMIC_SEQ_CST); }
}
static void sb_flush(Fiber *f) {
  for (int i = 0; i < f->nsb; i++) sb_store(f->sb[i].addr, f->sb[i].size, f->sb[i].val);
  f->nsb = 0;
}

// ------------------------------------------------------------------ scheduler
static const u64 SLICE = 4000;   // longest run of one thread without a scheduling decision
static void resched_trigger(Fiber *f) {
  u64 t;
  if (replaying && !fair) {
    t = f->ents && f->ei < f->ents->size() ? (*f->ents)[f->ei].cnt : ~0ull;
  } else {
    double p = fair ? 0.02 : sc->p;
    t = f->cnt + SLICE;
    if (!fair && (sc->strat == 1 || sc->strat == 3)) { if (f->quota && f->quota < t) t = f->quota; }
    else if (!fair && sc->strat == 4) {}
    else if (p > 0) {
      // geometric gap
      double u = (rng.next() >> 11) * (1.0 / 9007199254740992.0);
      u64 g = p >= 1 ? 1 : 1 + (u64)(__builtin_log(1 - u) / __builtin_log(1 - p));
      if (f->cnt + g < t) t = f->cnt + (g ? g : 1);
    }
  }
  f->nat = t;
  if (f->nsb && f->sb_deadline < t) t = f->sb_deadline;
  f->trigger = t;
}
static void switch_to(Fiber *n) {
  Fiber *o = cur;
  if (o == n) return;
  res->switches++;
  cur = n;
  set_fs(n->fs);
  sim_swtch(o ? &o->sp : &main_sp, n->sp);
}
static void to_main() {
  Fiber *o = cur;
  cur = nullptr;
  set_fs(main_fs);
  sim_swtch(&o->sp, main_sp);
}
static inline u64 now_ns() { return simns + gsteps * 10; }
static bool runnable(Fiber *f) { return f->st == F_RUNNABLE; }
static void wake_sleepers() {
  u64 n = now_ns();
  for (int i = 0; i < nfib; i++) if (F[i].st == F_SLEEP && F[i].wake_ns <= n) { F[i].st = F_RUNNABLE; F[i].timedout = true; }
}
static u64 tpass; // how long sleepers may go on while a stalled thread stays stalled
// replay: a switch to a sleeping thread lets time pass until it wakes, as far as that can happen
static void wake_target(int64_t t) {
  wake_sleepers();
  if (t >= 0 && t < nfib && F[t].st == F_SLEEP && F[t].wake_ns > now_ns()) {
    u64 d = F[t].wake_ns - now_ns(); bool first = true, any = false;
    for (int i = 0; i < nfib; i++) { if (F[i].st == F_SLEEP && F[i].wake_ns < F[t].wake_ns) first = false; if (runnable(&F[i])) any = true; }
    if (first && (!any || d < tpass)) { simns += d; if (any) tpass -= d; }
  }
  wake_sleepers();
}
static uint32_t patience; static bool insist;
// pick among runnable fibers; `self_ok`: current one may be chosen; returns null if none
static Fiber *pick(Fiber *self, bool self_ok) {
  for (;;) {
    wake_sleepers();
    Fiber *c[MAXF]; int n = 0, nst = 0;
    for (int i = 0; i < nfib; i++) if (runnable(&F[i]) && (self_ok || &F[i] != self)) {
      if (F[i].stalled && !fair && gsteps < F[i].stall_until) { nst++; continue; }
      F[i].stalled = false;
      c[n++] = &F[i];
    }
    if (!n && nst && self && runnable(self) && patience > 0) { patience--; insist = true; return self; }   // it spins while the others are slow
    if (!n && nst && tpass && !fair && !rng.chance(0.1)) {
      u64 best = ~0ull, t = now_ns(); for (int i = 0; i < nfib; i++) if (F[i].st == F_SLEEP && F[i].wake_ns < best) best = F[i].wake_ns;
      if (best != ~0ull && best > t && best - t < tpass) { tpass -= best - t; simns += best - t; for (int i = 0; i < nfib; i++) if (F[i].st == F_SLEEP && F[i].wake_ns == best) F[i].stalled = false; sim_probe("time passes while a thread is stalled"); if (self && self->st == F_SLEEP && self->wake_ns == best) { wake_sleepers(); insist = true; return self; } continue; }
    }
    if (!n && nst) { // everybody else is done or blocked: stalls end
      for (int i = 0; i < nfib; i++) F[i].stalled = false;
      continue;
    }
    if (!n) {
      if (self && runnable(self)) return self;
      // advance the clock to the next sleeper
      u64 best = ~0ull; for (int i = 0; i < nfib; i++) if (F[i].st == F_SLEEP && F[i].wake_ns < best) best = F[i].wake_ns;
      if (best == ~0ull) return nullptr;
      if (best > now_ns()) simns += best - now_ns();
      if (tpass) for (int i = 0; i < nfib; i++) if (F[i].st == F_SLEEP && F[i].wake_ns == best) F[i].stalled = false;
      continue;
    }
    if (replaying && !fair) { // round robin from self
      int b = self ? self->tid : 0;
      for (int k = 1; k <= nfib; k++) { Fiber *x = &F[(b + k) % nfib]; for (int i = 0; i < n; i++) if (c[i] == x) return x; }
      return c[0];
    }
    if (sc->strat == 1 && !fair) { Fiber *b = c[0]; for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i]; return b; }
    return c[rng.below(n)];
  }
}
static void deadlock() {
  mode = 0;
  char b[300]; int n = 0;
  for (int i = 0; i < nfib; i++) if (F[i].st == F_BLOCKED) n += snprintf(b + n, sizeof b - n, " T%d waits", i);
  sim_fail("deadlock", "no thread can run:%s", b);
}
static u64 crash_step; static bool abort_crash;
static void do_crash() { mode = 0; crash_step = 0; in_fail = false; har->crash(); sim_fail("internal", "crash hook returned"); }
static void check_caps() {
  if (likely(gsteps <= next_cap)) return;
  if (crash_step && gsteps > crash_step) do_crash();
  if (!fair) {
    fair = true; next_cap = hard_cap;
    rng = Rng(spec->seed ^ 0xfa1f);
    sim_note("-- faults and adversarial scheduling stop (step %llu)", (unsigned long long)gsteps);
    for (int i = 0; i < nfib; i++) { F[i].stalled = false; resched_trigger(&F[i]); }
    return;
  }
  mode = 0;
  char b[400]; int n = 0; b[0] = 0;
  for (int i = 0; i < nfib; i++) if (F[i].st != F_DONE && F[i].st != F_UNUSED) {
    n += snprintf(b + n, sizeof b - n, " T%d", i);
    char t[400]; int k = 0; t[0] = 0; for (int j = 0; j < 16; j++) { uintptr_t p = F[i].pcs[(F[i].cnt - j) & 15]; k += snprintf(t + k, sizeof t - k, " %#llx", (unsigned long long)p); }
    sim_note("T%d %s, last accesses at%s", i, F[i].st == F_BLOCKED ? "blocked" : F[i].st == F_RUNNABLE ? "runnable" : "sleeping", t);
  }
  sim_fail("noprogress", "threads did not finish within %llu fair steps after faults stopped:%s", (unsigned long long)(hard_cap - step_cap), b);
}
// forced yield at f's current cnt; blocked: f cannot continue
static void forced(Fiber *f, Fiber *woken = nullptr) {
  Fiber *n = woken; insist = false;
  if (replaying && !fair && f->ents && f->ei < f->ents->size()) {
    while (f->ei < f->ents->size() && (*f->ents)[f->ei].cnt < f->cnt) f->ei++;
    if (f->ei < f->ents->size()) {
      Ent &e = (*f->ents)[f->ei];
      if (e.cnt == f->cnt && e.kind == E_SWITCH) {
        f->ei++;
        wake_target(e.arg);
        if (e.arg >= 0 && e.arg < nfib && runnable(&F[e.arg])) { n = &F[e.arg]; insist = n == f; }
      }
    }
  }
  if (!n) n = pick(f, false);
  if (!n) deadlock();
  if (n != f || insist) record(E_SWITCH, f, n->tid);
  insist = false;
  resched_trigger(f);
  if (n != f) switch_to(n);
}
__attribute__((noinline)) static void slow(Fiber *f) {
  if (f->sb_stall && f->cnt >= f->sb_stall) {   // a thread whose stores are delayed is itself slow
    f->sb_stall = 0;
    if (f->nsb && f->cnt < f->sb_deadline && !fair && !replaying) {
      check_caps();
      if (!fair) {
        f->stalled = true; patience = rng.chance(0.4) ? 0 : (uint32_t)rng.logu(4, 600); f->stall_until = gsteps + rng.logu(16, 4000); res->fired[FI_STALL]++;
        Fiber *n = pick(f, false);
        if (n && n != f) { record(E_SWITCH, f, n->tid); resched_trigger(f); res->fired[FI_PREEMPT]++; switch_to(n); return; }
        f->stalled = false;
      }
    }
  }
  if (f->nsb && f->cnt >= f->sb_deadline) {
    bool only = f->cnt < f->nat && f->cnt >= f->trigger;
    sb_flush(f);
    if (only && !(replaying && !fair)) { f->trigger = f->nat; if (gsteps <= next_cap) return; }
  }
  check_caps();
  if (replaying && !fair) {
    for (;;) {
      while (f->ents && f->ei < f->ents->size() && (*f->ents)[f->ei].cnt < f->cnt) f->ei++;
      if (!f->ents || f->ei >= f->ents->size() || (*f->ents)[f->ei].cnt != f->cnt) { resched_trigger(f); return; }
      Ent e = (*f->ents)[f->ei];
      if (e.kind != E_SWITCH) { f->trigger = f->cnt + 1; return; }   // consumed by the faulting call itself
      f->ei++;
      wake_target(e.arg);
      if (e.arg >= 0 && e.arg < nfib && runnable(&F[e.arg]) && &F[e.arg] != f) { record(E_SWITCH, f, e.arg); res->fired[FI_PREEMPT]++; resched_trigger(f); switch_to(&F[e.arg]); if (fair) return; }
    }
  }
  if (!fair && (sc->strat == 1 || sc->strat == 3 || sc->strat == 4)) {
    bool q = f->quota && f->cnt >= f->quota, longrun = f->cnt >= f->trigger && !q;
    if (q) {
      f->quota = 0;
      if (stalls_left > 0 && rmwstall <= 0) { stalls_left--; f->quota = f->cnt + rng.logu(1, sc->span); }
      if (sc->strat == 1) f->prio = -(long)(rng.below(1000)) - (long)gsteps;   // lowest so far
      else { f->stalled = true; patience = rng.chance(0.4) ? 0 : (uint32_t)rng.logu(4, 600); f->stall_until = rng.chance(0.6) ? ~0ull : gsteps + rng.logu(8, 20000); res->fired[FI_STALL]++; }
    } else if (longrun) { if (sc->strat == 1) f->prio = -(long)gsteps - 1000; Fiber *n = pick(f, false); if (n && n != f) { record(E_SWITCH, f, n->tid); resched_trigger(f); res->fired[FI_PREEMPT]++; switch_to(n); } else resched_trigger(f); return; }
    else if (sc->strat != 1 || true) { if (sc->pconf <= 0) { resched_trigger(f); return; } }
  } else if (!fair && sc->strat == 2) {
    if (rng.chance(sc->depth * 0.001)) { f->stalled = true; patience = rng.chance(0.4) ? 0 : (uint32_t)rng.logu(4, 600); f->stall_until = gsteps + rng.logu(8, 12000); res->fired[FI_STALL]++; }
  }
  Fiber *n = pick(f, true);
  if (n && n != f) { record(E_SWITCH, f, n->tid); resched_trigger(f); res->fired[FI_PREEMPT]++; switch_to(n); }
  else resched_trigger(f);
}

static inline bool shadow_ok(uintptr_t a, size_t n);
// ------------------------------------------------------------------ conflict table
struct Conf { uint32_t tag; uint8_t tid; uint8_t w; uint8_t shared; };
static Conf conf[1 << 15];

static int oob_slack; // reads of up to this many bytes past the end of a block are let pass (code that documents that it does so)
extern "C" void sim_oob_slack(int n) { oob_slack = n; }
static void bad_access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  if (!w && oob_slack && n <= 8) { // a word whose beginning, or the byte before it, is inside a live block
    uintptr_t q = a; while (q < a + n && *shp(q) != SH_FREED) q++;
    for (uintptr_t b = a; b + (uintptr_t)oob_slack >= a && q == a + n; b--) if (shadow_ok(b, 1)) return;
  }
  uintptr_t p = a;
  u8 s = *shp(p);
  const char *what = s == SH_FREED ? "use after free" : "access outside any live allocation";
  // find enclosing block
  uintptr_t q = p & ~7ull; u64 off = 0; u64 size = 0;
  for (int i = 0; i < 4096; i++, q -= 8) {
    Hdr *h = (Hdr *)q;
    if (q < ARENA + 4096) break;
    if ((h->magic == MAGIC_LIVE || h->magic == MAGIC_FREE) && (q & 15) == 0 && h->size < (1u << 28)) { off = p - (q + 16); size = h->size; break; }
  }
  sim_fail(s == SH_FREED ? "use-after-free" : "heap-overflow", "%s: thread %d, %s of %zu bytes at offset %llu of a %llu-byte block, pc %#llx", what,
           cur ? cur->tid : -1, w ? "write" : "read", n, (unsigned long long)off, (unsigned long long)size, (unsigned long long)pc);
}
static inline bool shadow_ok(uintptr_t a, size_t n) {
  // every byte in [a,a+n)
  uintptr_t e = a + n;
  for (uintptr_t q = a & ~7ull; q < e; q += 8) {
    u8 s = *shp(q);
    if (s == SH_LIVE) continue;
    if (s == SH_NONE || s == SH_FREED) return false;
    uintptr_t hi = e < q + 8 ? e : q + 8;
    if (hi > q + s) return false;
  }
  return true;
}
extern "C" bool sim_concurrent(void) { return mode == 2; }
extern "C" void sim_mark(void *p, size_t n, int live) { uintptr_t a = (uintptr_t)p; if (!in_arena(a)) return; for (uintptr_t q = a; q + 8 <= a + n; q += 8) *shp(q) = live ? SH_LIVE : SH_FREED; }
extern "C" bool sim_mem_ok(const void *p, size_t n) {
  if (!in_arena((uintptr_t)p)) return true;
  return shadow_ok((uintptr_t)p, n);
}

// a loop that waits without saying so
static __attribute__((noinline)) void quiet_long(Fiber *f) {
  if (mode != 2) return;
  gsteps += 200; check_caps();
  if (!replaying && sc->strat == 1) f->prio = -(long)gsteps - 1000;
  if (!replaying) for (int i = 0; i < nfib; i++) F[i].stalled = false;
  forced(f);
}
static inline __attribute__((always_inline)) void access_(uintptr_t a, size_t n, bool w, bool atomic, uintptr_t pc, bool keep = false) {
  if (unlikely(!mode)) return;
  Fiber *f = cur;
  if (unlikely(!f)) return;
  if (!atomic && likely(a - f->stk_lo < STACK_SZ)) {
    if (unlikely(f->nsb)) for (int i = 0; i < f->nsb; i++) { uintptr_t b = (uintptr_t)f->sb[i].addr; if (a < b + f->sb[i].size && b < a + n) { sb_flush(f); break; } }
    if (unlikely(++ticks > tick_cap)) sim_fail("noprogress", "thread %d loops without end (%llu accesses)", f->tid, (unsigned long long)ticks);
    return;
  }
  if (in_arena(a) && unlikely(!shadow_ok(a, n))) bad_access(a, n, w, pc);
  if (mode == 1) { if (unlikely(++ticks > tick_cap)) sim_fail("noprogress", "thread %d loops without end (%llu accesses)", f->tid, (unsigned long long)ticks); return; }
  if (unlikely(f->quiet)) { f->cnt++; if (f->nsb) sb_flush(f); if (unlikely((++f->qn & 4095) == 0 && f->qn > 100000)) quiet_long(f); if (unlikely(++ticks > tick_cap)) sim_fail("noprogress", "thread %d loops without end (%llu accesses)", f->tid, (unsigned long long)ticks); return; }
  f->cnt++; gsteps++;
  f->pcs[f->cnt & 15] = pc;
  if (unlikely(f->nsb)) {
    bool ov = w && !keep;   // an atomic store may queue behind the ones already buffered
    if (!ov && !keep) for (int i = 0; i < f->nsb; i++) { uintptr_t b = (uintptr_t)f->sb[i].addr; if (a < b + f->sb[i].size && b < a + n) ov = true; }
    if (ov) sb_flush(f);
  }
  if (unlikely(f->cnt >= f->trigger)) { slow(f); }
  else if (unlikely(gsteps > next_cap)) slow(f);
  // conflict tracking
  uint32_t k = (uint32_t)((a >> 3) * 0x9E3779B1u);
  Conf &c = conf[k >> 17];
  uint32_t tag = (uint32_t)(a >> 3);
  if (c.tag == tag) {
    if (c.tid != f->tid && (w || c.w)) {
      thash = mix(thash, ((u64)f->tid << 40) ^ ((u64)w << 39) ^ (a & 0xffffffff));
      res->contested++;
      c.shared = 1;
      c.tid = f->tid; c.w = w;
      if (pconf16 && !replaying && !fair && (rng.next() & 0xffff) < pconf16) slow(f);
    } else if (c.shared && pconf16 && !replaying && !fair && (rng.next() & 0xffff) < (pconf16 >> 2)) { c.w |= w; slow(f); }
    else c.w |= w;
  } else { c.tag = tag; c.tid = f->tid; c.w = w; c.shared = 0; }
  // spin detection: the same word read again and again
  if (!w) {
    if (f->spin_addr == a) { if (unlikely(++f->spin_n >= 64)) { f->spin_n = 0; f->cnt++; forced(f); } }
    else { f->spin_addr = a; f->spin_n = 0; }
  } else f->spin_addr = 0;
  (void)atomic;
}
#define PC ((uintptr_t)__builtin_return_address(0))

// ------------------------------------------------------------------ instrumentation callbacks
extern "C" {
#define RW(n) \
  void __tsan_read##n(void *a) { access_((uintptr_t)a, n, false, false, PC); } \
  void __tsan_write##n(void *a) { access_((uintptr_t)a, n, true, false, PC); } \
  void __tsan_read_write##n(void *a) { access_((uintptr_t)a, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void *a) { access_((uintptr_t)a, n, false, false, PC); } \
  void __tsan_unaligned_write##n(void *a) { access_((uintptr_t)a, n, true, false, PC); } \
  void __tsan_unaligned_read_write##n(void *a) { access_((uintptr_t)a, n, true, false, PC); } \
  void __tsan_volatile_read##n(void *a) { access_((uintptr_t)a, n, false, false, PC); } \
  void __tsan_volatile_write##n(void *a) { access_((uintptr_t)a, n, true, false, PC); } \
  void __tsan_unaligned_volatile_read##n(void *a) { access_((uintptr_t)a, n, false, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void *a) { access_((uintptr_t)a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { if (n) access_((uintptr_t)a, n, false, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { if (n) access_((uintptr_t)a, n, true, false, PC); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_vptr_update(void **a, void *) { access_((uintptr_t)a, 8, true, false, PC); }
void __tsan_vptr_read(void **a) { access_((uintptr_t)a, 8, false, false, PC); }

static inline void maybe_buffer_prep() {}
static inline bool ev_match(Fiber *f, int kind, int64_t *arg) {
  // replay: is there an entry of this kind at this event?
  if (!f->ents) return false;
  size_t i = f->ei;
  while (i < f->ents->size() && (*f->ents)[i].cnt < f->cnt) i++;
  for (; i < f->ents->size() && (*f->ents)[i].cnt == f->cnt; i++)
    if ((*f->ents)[i].kind == kind) { *arg = (*f->ents)[i].arg; return true; }
  return false;
}
static void ev_done(Fiber *f) { // after an event with fault entries was consumed
  if (!f->ents) return;
  while (f->ei < f->ents->size() && (*f->ents)[f->ei].cnt <= f->cnt) f->ei++;
  resched_trigger(f);
}
// decide a fault at the current event; returns arg (>0) or 0
static int64_t decide(Fiber *f, int kind, double p, int64_t n) {
  if (mode != 2 || fair || f->quiet) return 0;
  if (replaying) { int64_t a; u64 c = f->cnt; if (ev_match(f, kind, &a)) { record(kind, f, a); (void)c; ev_done(f); return a; } return 0; }
  if (p <= 0 || !rng.chance(p)) return 0;
  int64_t a = n <= 1 ? 1 : rng.range(1, n);
  record(kind, f, a);
  return a;
}

static void atomic_store(void *a, int sz, u64 v, int mo) {
  access_((uintptr_t)a, sz, true, true, PC, mo != __ATOMIC_SEQ_CST);
  Fiber *f = cur;
  if (mode == 2 && f && !f->quiet) {
    if (mo != __ATOMIC_SEQ_CST && f->nsb < 8 && !fair && (uintptr_t)a - f->stk_lo >= STACK_SZ) {   // (a frame may be gone when its store is due)
      int64_t d = 0;
      if (replaying) d = decide(f, E_BUFFER, 1, 1);
      else if (sc->tso && rng.chance(f->nsb ? 0.9 : 0.35)) { d = rng.logu(2, 400); record(E_BUFFER, f, d); }
      if (d) {
        res->fired[FI_TSO]++;
        if (!f->nsb) f->sb_deadline = f->cnt + d;
        f->sb[f->nsb++] = SbEnt{a, sz, v};
        if (!replaying) {
          // give others a chance inside the window
          if (rng.chance(0.3)) { u64 at = f->cnt + 1 + rng.below(d < 40 ? d : 40); if (at < f->nat) f->nat = at; }
          if (!f->sb_stall && rng.chance(0.25)) { f->sb_stall = f->cnt + 1 + rng.below(d < 6 ? d : 6); if (f->sb_stall < f->nat) f->nat = f->sb_stall; }
          f->trigger = f->nat < f->sb_deadline ? f->nat : f->sb_deadline;
        } else resched_trigger(f);
        return;
      }
    }
    sb_flush(f);
  }
  sb_store(a, sz, v);
}
// stalls aimed just behind an atomic read-modify-write: a thread that has just taken a lock or published something
__attribute__((noinline)) static void aim_stall(Fiber *f) {
  if (fair || replaying || sc->strat != 3 || stalls_left <= 0 || !rng.chance(rmwstall)) return;
  stalls_left--; f->quota = f->cnt + rng.logu(1, 60); resched_trigger(f);
}
static inline void rmw_pre(void *a, int sz, uintptr_t pc) {
  if (rmwstall > 0 && mode == 2 && cur) aim_stall(cur);
  access_((uintptr_t)a, sz, true, true, pc);
}
// a thread reads its own buffered store
static bool sb_forward(Fiber *f, uintptr_t a, size_t n, u64 *v) {
  for (int i = f->nsb - 1; i >= 0; i--) {
    uintptr_t b = (uintptr_t)f->sb[i].addr;
    if (b == a && (size_t)f->sb[i].size == n) { *v = f->sb[i].val; return true; }
    if (a < b + f->sb[i].size && b < a + n) { sb_flush(f); return false; }
  }
  return false;
}
static bool cas_fails(bool weak) {
  Fiber *f = cur;
  if (!weak || !f) return false;
  if (decide(f, E_CASFAIL, sc->casfail, 1)) { res->fired[FI_CAS]++; return true; }
  return false;
}
#define ATOM(n, T) \
  T __tsan_atomic##n##_load(const volatile T *a, int mo) { \
    if (unlikely(cur && cur->nsb)) { u64 v; access_((uintptr_t)a, sizeof(T), false, true, PC, true); if (sb_forward(cur, (uintptr_t)a, sizeof(T), &v)) return (T)v; return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    access_((uintptr_t)a, sizeof(T), false, true, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile T *a, T v, int mo) { atomic_store((void *)a, sizeof(T), (u64)v, mo); } \
  T __tsan_atomic##n##_exchange(volatile T *a, T v, int mo) { rmw_pre((void *)a, sizeof(T), PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int mo) { rmw_pre((void *)a, sizeof(T), PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int mo) { rmw_pre((void *)a, sizeof(T), PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int mo) { rmw_pre((void *)a, sizeof(T), PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int mo) { rmw_pre((void *)a, sizeof(T), PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int mo) { rmw_pre((void *)a, sizeof(T), PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int mo) { rmw_pre((void *)a, sizeof(T), PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { rmw_pre((void *)a, sizeof(T), PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { rmw_pre((void *)a, sizeof(T), PC); if (mode == 2 && cas_fails(true)) { *c = __atomic_load_n(a, __ATOMIC_SEQ_CST); return false; } return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { rmw_pre((void *)a, sizeof(T), PC); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (mode == 2 && cur && mo == __ATOMIC_SEQ_CST) sb_flush(cur); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ memory functions
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
static inline bool on_stack(const void *p) { return cur && (uintptr_t)p - cur->stk_lo < STACK_SZ; }
static inline void chkrange(const void *p, size_t n, bool w, uintptr_t pc) {
  if (n && in_arena((uintptr_t)p) && unlikely(!shadow_ok((uintptr_t)p, n))) bad_access((uintptr_t)p, n, w, pc);
}
static inline void sb_touch(const void *p, size_t n) {   // plain accesses to the own stack see the own buffered stores
  Fiber *f = cur; uintptr_t a = (uintptr_t)p;
  if (unlikely(f->nsb)) for (int i = 0; i < f->nsb; i++) { uintptr_t b = (uintptr_t)f->sb[i].addr; if (a < b + f->sb[i].size && b < a + n) { sb_flush(f); return; } }
}
static void *do_copy(void *d, const void *s, size_t n, uintptr_t pc, bool back) {
  if (!mode || !cur || !n) return __real_memmove(d, s, n);
  sb_touch(d, n); sb_touch(s, n);
  chkrange(d, n, true, pc); chkrange(s, n, false, pc);
  if (mode == 1 || (on_stack(d) && on_stack(s))) return __real_memmove(d, s, n);
  // not atomic: 8-byte pieces, each a preemption point
  char *D = (char *)d; const char *S = (const char *)s;
  size_t pieces = (n + 7) / 8;
  size_t step = pieces <= 64 ? 8 : ((pieces + 63) / 64) * 8;
  if (!back) for (size_t i = 0; i < n; i += step) { size_t k = n - i < step ? n - i : step;
      if (!on_stack(S + i)) access_((uintptr_t)(S + i), k, false, false, pc);
      char tmp[64 * 8]; if (k <= sizeof tmp) { __real_memcpy(tmp, S + i, k); if (!on_stack(D + i)) access_((uintptr_t)(D + i), k, true, false, pc); __real_memcpy(D + i, tmp, k); } else __real_memmove(D + i, S + i, k); }
  else for (size_t e = n; e > 0;) { size_t k = e % step ? e % step : step; size_t i = e - k;
      if (!on_stack(S + i)) access_((uintptr_t)(S + i), k, false, false, pc);
      char tmp[64 * 8]; if (k <= sizeof tmp) { __real_memcpy(tmp, S + i, k); if (!on_stack(D + i)) access_((uintptr_t)(D + i), k, true, false, pc); __real_memcpy(D + i, tmp, k); } else __real_memmove(D + i, S + i, k); e = i; }
  return d;
}
void *__wrap_memcpy(void *d, const void *s, size_t n) { return do_copy(d, s, n, PC, false); }
void *__wrap_memmove(void *d, const void *s, size_t n) { return do_copy(d, s, n, PC, (uintptr_t)d > (uintptr_t)s); }
void *__wrap_memset(void *d, int c, size_t n) {
  if (mode && cur && n) { sb_touch(d, n); chkrange(d, n, true, PC); if (mode == 2 && !on_stack(d)) { size_t step = n <= 256 ? 8 : ((n / 32) & ~7ull); for (size_t i = 0; i < n; i += step) { size_t k = n - i < step ? n - i : step; access_((uintptr_t)d + i, k, true, false, PC); __real_memset((char *)d + i, c, k); } return d; } }
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void *a, const void *b, size_t n) {
  if (mode && cur && n) {
    sb_touch(a, n); sb_touch(b, n);
    // only bytes up to the first difference are semantically read; check those
    if (mode == 2) { if (!on_stack(a)) access_((uintptr_t)a, 1, false, false, PC); if (!on_stack(b)) access_((uintptr_t)b, 1, false, false, PC); }
    chkrange(a, n, false, PC); chkrange(b, n, false, PC);
  }
  return __real_memcmp(a, b, n);
}
void *__tsan_memcpy(void *d, const void *s, size_t n) { return do_copy(d, s, n, PC, false); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return do_copy(d, s, n, PC, (uintptr_t)d > (uintptr_t)s); }
void *__tsan_memset(void *d, int c, size_t n) { return __wrap_memset(d, c, n); }

size_t __real_strlen(const char *);
size_t __wrap_strlen(const char *s) {
  if (!mode || !cur) return __real_strlen(s);
  const char *p = s;
  if (!on_stack(s)) access_((uintptr_t)s, 1, false, false, PC);
  while (true) { if (in_arena((uintptr_t)p) && unlikely(!shadow_ok((uintptr_t)p, 1))) bad_access((uintptr_t)p, 1, false, PC); if (!*p) return p - s; p++; }
}
int __real_strcmp(const char *, const char *);
int __wrap_strcmp(const char *a, const char *b) {
  if (!mode || !cur) return __real_strcmp(a, b);
  if (!on_stack(a)) access_((uintptr_t)a, 1, false, false, PC);
  if (!on_stack(b)) access_((uintptr_t)b, 1, false, false, PC);
  for (;; a++, b++) {
    if (in_arena((uintptr_t)a) && unlikely(!shadow_ok((uintptr_t)a, 1))) bad_access((uintptr_t)a, 1, false, PC);
    if (in_arena((uintptr_t)b) && unlikely(!shadow_ok((uintptr_t)b, 1))) bad_access((uintptr_t)b, 1, false, PC);
    unsigned char x = *a, y = *b;
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
}

// ------------------------------------------------------------------ allocator
static bool arena_ready;
extern "C" void sim_map_arena();
static void *alloc_raw(size_t n, size_t align, bool zero, uintptr_t pc) {
  if (unlikely(!arena_ready)) sim_map_arena();
  if (!mode) { // driver / outside the simulation: size-class free lists
    size_t r = n < 16 ? 16 : n;
    int cls = 64 - __builtin_clzll(r - 1);
    if (align <= 16 && cls < 40 && freel[cls]) { void *p = freel[cls]; freel[cls] = *(void **)p; Hdr *h = (Hdr *)p - 1; h->size = n; h->magic = MAGIC_LIVE; h->flags = 1; if (zero) __real_memset(p, 0, n); return p; }
    size_t cap = align <= 16 && cls < 40 ? (1ull << cls) : r;
    uintptr_t p = (brk_ + 16 + align - 1) & ~(align - 1); if (align < 16) p = (brk_ + 31) & ~15ull;
    brk_ = (p + cap + 15) & ~15ull;
    if (brk_ > ARENA + ARENA_SZ) { (void)!write(2, "sim: arena exhausted\n", 21); _exit(98); }
    Hdr *h = (Hdr *)p - 1; h->size = n; h->magic = MAGIC_LIVE; h->flags = align <= 16 ? 1 : 0;
    // shadow: live for the whole capacity
    for (uintptr_t q = p; q < p + cap; q += 8) *shp(q) = SH_LIVE;
    return (void *)p;
  }
  if (align < 16) align = 16;
  alloc_seq++;
  uintptr_t base = brk_ + 16;
  if (padrand) { padrand = padrand * 6364136223846793005ull + 1442695040888963407ull; base += ((padrand >> 60) & 3) * 16; }
  uintptr_t p = (base + 15 + align - 1) & ~(align - 1);
  brk_ = (p + n + 16 + 15) & ~15ull;
  if (brk_ > ARENA + ARENA_SZ) sim_fail("oom", "the run allocated more than the arena holds");
  if (brk_ - ARENA > (6ull << 30)) sim_fail("oom", "the run allocated more than 3 GB");
  Hdr *h = (Hdr *)p - 1; h->size = n; h->magic = MAGIC_LIVE; h->flags = 2 | (uint32_t)pc << 8;
  size_t full = n >> 3;
  __real_memset(shp(p), SH_LIVE, full);
  if (n & 7) *shp(p + (full << 3)) = n & 7;
  if (!zero && fillkind) {
    int c = fillkind == 1 ? 0xff : fillkind == 2 ? 0xcd : 0x5a;
    if (n > (1u << 20)) __real_memset((void *)p, c, 1u << 18), __real_memset((char *)p + n - 4096, c, 4096);   // enough of a huge buffer
    else __real_memset((void *)p, c, n);
  }
  if (mode == 2 && res) res->allocs++;
  live_blocks++; live_bytes += n; if (live_bytes > peak_bytes) peak_bytes = live_bytes;
  return (void *)p;
}
extern "C" void sim_note(const char *fmt, ...);
extern "C" void sim_dump_live(void) {   // into the log: what is still allocated (newest last) and from where
  int n = 0;
  for (uintptr_t q = ARENA + (2ull << 30); q + 16 < brk_ && n < 40; q += 16) {
    Hdr *h = (Hdr *)q;
    if (h->magic == MAGIC_LIVE && (h->flags & 0xff) == 2 && *shp(q + 16) != SH_NONE && h->size < (1u << 28)) { n++; sim_note("live: %llu bytes from pc %#x: %016llx %016llx", (unsigned long long)h->size, h->flags >> 8, (unsigned long long)((u64 *)(q + 16))[0], h->size >= 16 ? (unsigned long long)((u64 *)(q + 16))[1] : 0); q += (h->size + 15) & ~15ull; }
  }
}
static bool alloc_fault() {
  Fiber *f = cur;
  if (mode != 2 || !f || f->quiet) return false;
  f->cnt++; gsteps++;
  if (f->nsb) sb_flush(f);
  if (f->cnt >= f->trigger) slow(f);
  if (!f->allocfail_ok) return false;
  if (decide(f, E_ALLOC, sc->allocfail, 1)) { res->fired[FI_ALLOC]++; errno = ENOMEM; return true; }
  return false;
}
void *malloc(size_t n) { if (alloc_fault()) return nullptr; return alloc_raw(n, 16, false, PC); }
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; if (alloc_fault()) return nullptr; void *p = alloc_raw(n, 16, true, PC); __real_memset(p, 0, n); return p; }
static void free_(void *p, uintptr_t pc) {
  if (!p) return;
  uintptr_t a = (uintptr_t)p;
  if (!in_arena(a)) { if (mode) sim_fail("bad-free", "free of a non-heap pointer, pc %#llx", (unsigned long long)pc); return; }
  Hdr *h = (Hdr *)p - 1;
  if (mode && h->magic == MAGIC_FREE) sim_fail("double-free", "block of %llu bytes freed twice, pc %#llx", (unsigned long long)h->size, (unsigned long long)pc);
  if (h->magic != MAGIC_LIVE) { if (mode) sim_fail("bad-free", "free of a pointer that is not a block, pc %#llx", (unsigned long long)pc); return; }
  if (mode && (h->flags & 0xff) == 2) {
    Fiber *f = cur;
    if (mode == 2 && f && !f->quiet) { f->cnt++; gsteps++; if (f->nsb) sb_flush(f); if (f->cnt >= f->trigger) slow(f); if (h->magic != MAGIC_LIVE) sim_fail("double-free", "block of %llu bytes freed twice concurrently", (unsigned long long)h->size); }
    if (mode == 2) res->frees++;
    h->magic = MAGIC_FREE;
    __real_memset(shp(a), SH_FREED, (h->size + 7) >> 3);
    live_blocks--; live_bytes -= h->size;
    return;
  }
  if (h->flags == 1) {
    size_t r = h->size < 16 ? 16 : h->size; int cls = 64 - __builtin_clzll(r - 1);
    // the capacity class may be larger than the size's class after reuse; using the smaller class is safe
    h->magic = MAGIC_FREE; *(void **)p = freel[cls]; freel[cls] = p;
  }
}
void free(void *p) { free_(p, PC); }
void cfree(void *p) { free_(p, PC); }
void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  if (!n) { free_(p, PC); return nullptr; }
  if (alloc_fault()) return nullptr;
  void *q = alloc_raw(n, 16, false, PC);
  u64 o = ((Hdr *)p - 1)->size;
  __real_memcpy(q, p, o < n ? o : n);
  free_(p, PC);
  return q;
}
void *memalign(size_t al, size_t n) { if (alloc_fault()) return nullptr; return alloc_raw(n, al, false, PC); }
void *aligned_alloc(size_t al, size_t n) { if (alloc_fault()) return nullptr; return alloc_raw(n, al, false, PC); }
void *valloc(size_t n) { return memalign(4096, n); }
void *pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~4095ull); }
int posix_memalign(void **pp, size_t al, size_t n) { if (alloc_fault()) return ENOMEM; *pp = alloc_raw(n, al, false, PC); return 0; }
// anonymous pages come from the same heap: zeroed, page aligned, checked like any block after munmap; huge pages are never
// available, so the fallbacks run
void *(*sim_mmap_fd)(size_t n, int fd, off_t off);
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
  if (mode && cur && fd >= 0 && sim_mmap_fd) return sim_mmap_fd(n, fd, off);
  if (!mode || !cur || fd >= 0) return __real_mmap(a, n, prot, flags, fd, off);
  if (flags & MAP_HUGETLB) { errno = ENOMEM; return MAP_FAILED; }
  if (alloc_fault()) return MAP_FAILED;
  void *p = alloc_raw(n, 4096, true, PC);
  __real_memset(p, 0, n);
  return p;
}
int __real_munmap(void *, size_t);
int __wrap_munmap(void *p, size_t n) {
  if (!mode || !cur || !in_arena((uintptr_t)p)) return __real_munmap(p, n);
  Hdr *h = (Hdr *)p - 1;
  if (h->magic == MAGIC_LIVE && h->size != n) sim_fail("bad-free", "munmap of %zu bytes of a %llu byte mapping", n, (unsigned long long)h->size);
  free_(p, PC);
  return 0;
}
int __wrap_mlock(const void *, size_t) { return 0; }
size_t malloc_usable_size(void *p) { return p ? ((Hdr *)p - 1)->size : 0; }

u64 sim_live_blocks(void) { return live_blocks; }
u64 sim_live_bytes(void) { return live_bytes; }
u64 sim_now(void) { return ++gstamp; }
int sim_tid(void) { return cur ? cur->tid : -1; }
uint64_t sim_steps(int tid) { return F[tid].cnt; }
int sim_off(void) { int m = mode; mode = 0; return m; }
void sim_on(int m) { mode = m; }
u64 sim_rand(void) { return urng.next(); }
int sim_fault_alloc_enabled(int on) { if (!cur) return 0; int o = cur->allocfail_ok; cur->allocfail_ok = on; return o; }
void sim_yield(void) { if (mode != 2 || !cur) return; Fiber *f = cur; sb_flush(f); f->cnt++; gsteps++; check_caps(); forced(f); }
void sim_point(void) { if (mode != 2 || !cur) return; Fiber *f = cur; f->cnt++; gsteps++; if (f->cnt >= f->trigger || gsteps > next_cap) slow(f); }
// an atomic instruction written in assembler follows
void sim_rmw(void) { if (mode != 2 || !cur || cur->quiet) return; sb_flush(cur); if (rmwstall > 0) aim_stall(cur); sim_point(); }
void sim_pause(void) {
  if (mode == 1) { if ((ticks += 1000) > tick_cap) sim_fail("noprogress", "thread %d spins for ever with no other thread running", cur ? cur->tid : -1); return; }
  if (mode != 2 || !cur) return;
  Fiber *f = cur; res->fired[FI_PAUSE]++;
  sb_flush(f);
  f->cnt++; gsteps += 4; check_caps();
  // somebody spins while others sleep: time passes
  wake_sleepers();
  { u64 best = ~0ull, t = now_ns(); for (int i = 0; i < nfib; i++) if (F[i].st == F_SLEEP && F[i].wake_ns < best) best = F[i].wake_ns;
    if (best != ~0ull && best > t) simns += (best - t) / 128 + 1000; }
  if (!replaying && sc->strat == 1) f->prio = -(long)gsteps - 1000;
  if (!replaying && (++stall_pauses & 511) == 0) for (int i = 0; i < nfib; i++) F[i].stalled = false;   // everybody spins: likely on a stalled thread
  // a thread waits busily for a stalled one: time passes for the others all the same
  Fiber *woken = nullptr;
  if (tpass && !replaying && !fair) {
    bool st = false; u64 best = ~0ull, t = now_ns(); for (int i = 0; i < nfib; i++) { if (F[i].stalled && F[i].st == F_RUNNABLE && gsteps < F[i].stall_until) st = true; if (F[i].st == F_SLEEP && F[i].wake_ns < best) { best = F[i].wake_ns; woken = &F[i]; } }
    if (st && woken && best > t && best - t < tpass && rng.chance(0.05)) { tpass -= best - t; simns += best - t; wake_sleepers(); woken->stalled = false; sim_probe("time passes while a thread spins for a stalled one"); }
    else woken = nullptr;
  }
  forced(f, woken);
}
int sim_phase(void) { return res ? res->phase : 0; }
const char *sim_blob(size_t *n) { *n = res->bloblen; return res->blob; }
void sim_next_phase(const void *p, size_t n) {
  mode = 0;
  if (n > sizeof res->blob) sim_fail("internal", "the state handed to the next process is too large");
  __real_memcpy(res->blob, p, n); res->bloblen = n;
  publish(); res->phase++; res->status = ST_PHASE; res->done = 1;
  _exit(0);
}
void sim_crash_in(uint64_t steps) { crash_step = gsteps + steps; if (crash_step < next_cap) next_cap = crash_step; }
bool sim_abort_is_crash(int on) { if (on >= 0) abort_crash = on; return abort_crash; }
u64 sim_time_ns(void) { return now_ns(); }
void sim_block(const void *key) {
  if (!cur) return;
  int m = mode; mode = 2;
  Fiber *f = cur; sb_flush(f); f->cnt++; gsteps++; check_caps();
  f->wait = (void *)key; f->st = F_BLOCKED; forced(f);
  mode = m;
}
bool sim_block_until(const void *key, u64 ns) {
  int m = mode; mode = 2;
  Fiber *f = cur; sb_flush(f); f->cnt++; gsteps++; check_caps();
  f->wait = (void *)key; f->wake_ns = ns; f->st = F_SLEEP; f->timedout = false; forced(f);
  f->wait = nullptr; mode = m;
  return !f->timedout;
}
void sim_wake(const void *key) { for (int i = 0; i < nfib; i++) { Fiber *x = &F[i]; if ((x->st == F_BLOCKED || x->st == F_SLEEP) && x->wait == key) { x->st = F_RUNNABLE; x->wait = nullptr; x->timedout = false; } } }
void sim_drain(void) { if (mode == 2 && cur && cur->nsb) sb_flush(cur); }
void sim_quiet(int d) { if (cur) { if (cur->nsb) sb_flush(cur); cur->quiet += d; cur->qn = 0; } }
int64_t sim_io_choice(int kind, int64_t n) {
  Fiber *f = cur;
  if (mode != 2 || !f) return 0;
  f->cnt++; gsteps++; sb_flush(f);
  if (f->cnt >= f->trigger) slow(f);
  int64_t a = decide(f, E_IO, sc->iofault, n);
  if (a) res->fired[FI_IO]++;
  (void)kind;
  return a;
}

// ------------------------------------------------------------------ time
static const u64 BASE_NS = 1700000000ull * 1000000000ull;
static u64 base_ns = BASE_NS;
static u64 clock_read() {
  Fiber *f = cur;
  if (mode == 2 && f) {
    f->cnt++; gsteps++; sb_flush(f);
    if (f->cnt >= f->trigger) slow(f);
    int64_t j = decide(f, E_TIME, sc->timejump, 40);
    if (j) { res->fired[FI_TIME]++; simns += 1ull << j; wake_sleepers(); }
  }
  return base_ns + now_ns();
}
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
  u64 n = clock_read(); if (c != CLOCK_REALTIME) n -= base_ns - 1000000000000ull;
  t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull; return 0;
}
int __wrap_gettimeofday(struct timeval *t, void *) { u64 n = clock_read(); t->tv_sec = n / 1000000000ull; t->tv_usec = n % 1000000000ull / 1000; return 0; }
time_t __wrap_time(time_t *t) { time_t v = clock_read() / 1000000000ull; if (t) *t = v; return v; }
void sim_sleep_ns(u64 ns) {
  if (mode != 2 || !cur) { simns += ns; return; }
  Fiber *f = cur; sb_flush(f);
  f->cnt++; gsteps++; check_caps();
  f->wake_ns = now_ns() + ns; f->st = F_SLEEP;
  forced(f);
}
int __wrap_nanosleep(const struct timespec *t, struct timespec *) { sim_sleep_ns(t->tv_sec * 1000000000ull + t->tv_nsec); return 0; }
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec *t, struct timespec *) { sim_sleep_ns(t->tv_sec * 1000000000ull + t->tv_nsec); return 0; }
int __wrap_usleep(useconds_t u) { sim_sleep_ns(u * 1000ull); return 0; }
unsigned __wrap_sleep(unsigned s) { sim_sleep_ns(s * 1000000000ull); return 0; }
int __wrap_sched_yield(void) { sim_pause(); return 0; }
int __wrap_pthread_yield(void) { sim_pause(); return 0; }
int __wrap_sched_getcpu(void) { return cur ? cur->tid % 8 : 0; }

// ------------------------------------------------------------------ blocking primitives
static void block_on(const void *a) { Fiber *f = cur; f->cnt++; f->wait = a; f->st = F_BLOCKED; forced(f); }
static void wake_all(const void *a) { for (int i = 0; i < nfib; i++) if (F[i].st == F_BLOCKED && F[i].wait == a) { F[i].st = F_RUNNABLE; F[i].wait = nullptr; } }
struct Mx { int owner; int cnt; };   // overlays pthread_mutex_t (zero = free)
static inline void sync_point(const void *a, uintptr_t pc) { access_((uintptr_t)a, 8, true, true, pc); if (cur) sb_flush(cur); }
static int mx_kind(pthread_mutex_t *m) { return ((int *)m)[4]; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *at) { int k = 0; if (at) pthread_mutexattr_gettype(at, &k); __real_memset(m, 0, sizeof *m); ((int *)m)[4] = k; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { if (mode && ((Mx *)m)->owner) sim_fail("lock-misuse", "a locked mutex is destroyed"); return 0; }
static int mx_lock(pthread_mutex_t *m, bool try_) {
  Mx *x = (Mx *)m; int me = cur ? cur->tid + 1 : 1000;
  if (mode == 2 && cur) sync_point(m, PC);
  while (x->owner) {
    if (x->owner == me) { if (mx_kind(m) == PTHREAD_MUTEX_RECURSIVE) { x->cnt++; return 0; } if (try_) return EBUSY; sim_fail("deadlock", "thread %d locks a mutex it already holds", me - 1); }
    if (try_) return EBUSY;
    if (mode != 2) sim_fail("deadlock", "a mutex is still locked while no other thread runs");
    block_on(m);
  }
  x->owner = me; x->cnt = 1;
  return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return mx_lock(m, false); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return mx_lock(m, true); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  Mx *x = (Mx *)m; int me = cur ? cur->tid + 1 : 1000;
  if (mode == 2 && cur) sync_point(m, PC);
  if (mode && x->owner != me) sim_fail("lock-misuse", "thread %d unlocks a mutex it does not hold", me - 1);
  if (--x->cnt > 0) return 0;
  x->owner = 0; wake_all(m);
  return 0;
}
// spinlocks: one int, owner + 1; contention spins (and yields) instead of blocking
int __wrap_pthread_spin_init(pthread_spinlock_t *l, int) { *(volatile int *)l = 0; return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
static int spin_lock_(pthread_spinlock_t *l, bool try_) {
  volatile int *x = (volatile int *)l; int me = cur ? cur->tid + 1 : 1000;
  access_((uintptr_t)l, 4, true, true, PC); if (mode == 2 && cur) sb_flush(cur);
  while (*x) {
    if (try_) return EBUSY;
    if (*x == me) sim_fail("deadlock", "thread %d locks a spinlock it already holds", me - 1);
    if (mode != 2 || !cur) sim_fail("deadlock", "a spinlock is still held while no other thread runs");
    block_on((const void *)l);
    access_((uintptr_t)l, 4, true, true, PC);
  }
  *x = me;
  return 0;
}
int __wrap_pthread_spin_lock(pthread_spinlock_t *l) { return spin_lock_(l, false); }
int __wrap_pthread_spin_trylock(pthread_spinlock_t *l) { return spin_lock_(l, true); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *l) {
  int me = cur ? cur->tid + 1 : 1000;
  access_((uintptr_t)l, 4, true, true, PC); if (mode == 2 && cur) sb_flush(cur);
  if (mode && *(volatile int *)l != me) sim_fail("lock-misuse", "thread %d releases a spinlock it does not hold", me - 1);
  *(volatile int *)l = 0; wake_all((const void *)l);
  return 0;
}
struct Rw { int readers; int writer; };
int __wrap_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { __real_memset(l, 0, sizeof *l); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
static int rw_lock(pthread_rwlock_t *l, bool w, bool try_) {
  Rw *x = (Rw *)l; int me = cur ? cur->tid + 1 : 1000;
  if (mode == 2 && cur) sync_point(l, PC);
  while (x->writer || (w && x->readers)) {
    if (try_) return EBUSY;
    if (x->writer == me) return EDEADLK;
    if (mode != 2) sim_fail("deadlock", "a rwlock is still held while no other thread runs");
    block_on(l);
  }
  if (w) x->writer = me; else x->readers++;
  return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rw_lock(l, false, false); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l) { return rw_lock(l, true, false); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rw_lock(l, false, true); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return rw_lock(l, true, true); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l) {
  Rw *x = (Rw *)l; int me = cur ? cur->tid + 1 : 1000;
  if (mode == 2 && cur) sync_point(l, PC);
  if (x->writer) { if (mode && x->writer != me) sim_fail("lock-misuse", "thread %d releases a write lock of thread %d", me - 1, x->writer - 1); x->writer = 0; }
  else { if (mode && x->readers <= 0) sim_fail("lock-misuse", "release of a rwlock nobody holds"); x->readers--; }
  wake_all(l);
  return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { __real_memset(c, 0, sizeof *c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *) { return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (mode != 2 || !cur) sim_fail("deadlock", "condition wait with no other thread running");
  Fiber *f = cur;
  sync_point(c, PC);
  ((Mx *)m)->owner = 0; wake_all(m);
  f->cnt++; f->wait = c; f->st = F_BLOCKED; forced(f);
  return mx_lock(m, false);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
  Fiber *f = cur;
  u64 dl = t->tv_sec * 1000000000ull + t->tv_nsec;
  dl = dl > base_ns ? dl - base_ns : 0;
  if (mode != 2 || !f) { if (dl > simns) simns = dl; return ETIMEDOUT; }
  sync_point(c, PC);
  ((Mx *)m)->owner = 0; wake_all(m);
  f->cnt++; f->wait = c; f->wake_ns = dl; f->st = F_SLEEP; f->timedout = false; forced(f);
  bool to = f->timedout;
  f->wait = nullptr;
  mx_lock(m, false);
  return to ? ETIMEDOUT : 0;
}
static int cond_wake(pthread_cond_t *c, bool all) {
  if (mode == 2 && cur) sync_point(c, PC);
  // wake order is a scheduling choice: start at a position derived from the step count
  int k = nfib ? (int)(hashv % nfib) : 0;
  for (int j = 0; j < nfib; j++) { Fiber *x = &F[(j + k) % nfib]; if ((x->st == F_BLOCKED || x->st == F_SLEEP) && x->wait == c) { x->st = F_RUNNABLE; x->wait = nullptr; x->timedout = false; if (!all) break; } }
  return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { return cond_wake(c, false); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { return cond_wake(c, true); }

// ------------------------------------------------------------------ threads
void __call_tls_dtors(void);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg);
int __real_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg);
int __wrap_pthread_join(pthread_t t, void **ret);
int __real_pthread_join(pthread_t t, void **ret);
int __wrap_pthread_detach(pthread_t) { return 0; }
}  // extern "C"

static void fiber_main() {
  Fiber *f = cur;
  f->fn(f->arg);
  __call_tls_dtors();
  sb_flush(f);
  f->st = F_DONE;
  wake_all(f);
  f->cnt++;
  if (mode != 2) { to_main(); }
  // last one? return to main if every fiber is done
  bool any = false;
  for (int i = 0; i < nfib; i++) if (F[i].st != F_DONE && F[i].st != F_UNUSED) any = true;
  if (!any) to_main();
  forced(f);
  __builtin_trap();
}
static void *park(void *arg) {
  Fiber *f = (Fiber *)arg;
  f->fs = get_fs();
  f->sp = __builtin_frame_address(0);
  __atomic_store_n(&f->started, true, __ATOMIC_SEQ_CST);
  for (;;) pause();
}
static void prep_fiber(Fiber *f, void (*fn)(void *), void *arg, void *top) {
  f->fn = fn; f->arg = arg;
  uintptr_t sp = ((uintptr_t)top - 16384) & ~63ull;
  u64 *p = (u64 *)sp;
  *--p = 0;                    // alignment / fake return
  *--p = (u64)fiber_main;      // ret target
  for (int i = 0; i < 6; i++) *--p = 0;
  f->sp = p;
}
static void *ftop[MAXF];
static int alloc_fiber(void (*fn)(void *), void *arg) {
  if (nfib >= MAXF) { (void)!write(2, "sim: too many threads\n", 22); _exit(98); }
  Fiber *f = &F[nfib];
  f->tid = nfib;
  prep_fiber(f, fn, arg, ftop[nfib]);
  f->quiet = 0; f->st = F_RUNNABLE; f->cnt = 0; f->nsb = 0; f->sb_stall = 0; f->joiner = -1; f->stalled = false; f->ei = 0;
  f->quota = 0;
  if (!replaying && (sc->strat == 1 || sc->strat == 3)) {
    f->prio = (long)rng.below(1000000);
    if (stalls_left > 0 && rmwstall <= 0 && rng.chance(0.7)) { stalls_left--; f->quota = rng.logu(1, sc->span); }
  }
  nfib++;
  resched_trigger(f);
  return nfib - 1;
}
int spawn(void (*fn)(void *), void *arg) {
  int m = mode; mode = 0;
  int t = alloc_fiber(fn, arg);
  mode = m;
  if (mode == 2) { sb_flush(cur); sim_point(); }
  return t;
}
void join(int t) {
  Fiber *f = cur;
  while (F[t].st != F_DONE) { f->cnt++; gsteps++; sb_flush(f); f->wait = &F[t]; f->st = F_BLOCKED; forced(f); }
}
struct PArg { void *(*fn)(void *); void *arg; int tid; };
static PArg pargs[MAXF];
static void pthread_tramp(void *a) { PArg *p = (PArg *)a; F[p->tid].pthread_ret = p->fn(p->arg); }
extern "C" int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!mode || !cur) return __real_pthread_create(t, at, fn, arg);
  int m = mode; mode = 0;
  PArg *p = &pargs[nfib]; p->fn = fn; p->arg = arg; p->tid = nfib;
  int id = alloc_fiber(pthread_tramp, p);
  mode = m;
  *t = (pthread_t)F[id].fs;
  sim_point();
  return 0;
}
extern "C" int __wrap_pthread_join(pthread_t t, void **ret) {
  if (!mode || !cur) return __real_pthread_join(t, ret);
  for (int i = 0; i < nfib; i++) if (F[i].fs == (uintptr_t)t) { join(i); if (ret) *ret = F[i].pthread_ret; return 0; }
  return ESRCH;
}

// ------------------------------------------------------------------ crashes
static char altstk[65536];
static void on_sig(int sig, siginfo_t *si, void *uc) {
  mode = 0;
  u64 pc = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
  if (!res) { char b[200]; int n = snprintf(b, sizeof b, "sim: signal %d outside a run, pc %#llx addr %p\n", sig, (unsigned long long)pc, si->si_addr); (void)!write(2, b, n); _exit(99); }
  if (sig == SIGALRM) sim_fail("hang", "thread %d is stuck outside simulated code", cur ? cur->tid : -1);
  if (!cur && !in_fail) { snprintf(res->msg, sizeof res->msg, "simulator crashed: signal %d pc %#llx addr %p", sig, (unsigned long long)pc, si->si_addr); res->status = ST_INTERNAL; res->done = 1; _exit(4); }
  sim_fail("crash", "thread %d: signal %d (%s) at pc %#llx, address %p", cur ? cur->tid : -1, sig, sig == SIGSEGV ? "invalid memory access" : sig == SIGFPE ? "arithmetic" : sig == SIGILL ? "trap" : "fault", (unsigned long long)pc, si->si_addr);
}
extern "C" void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *) {
  const char *b = strrchr(f, '/');
  if (!res) { fprintf(stderr, "assert %s %s:%u\n", e, f, l); _exit(97); }
  if (abort_crash) do_crash();
  sim_fail("assertion", "assertion failed: %s (%s:%u)", e, b ? b + 1 : f, l);
}
extern "C" struct tm *__real_localtime_r(const time_t *, struct tm *);
extern "C" struct tm *__wrap_localtime_r(const time_t *t, struct tm *r) { int m = mode; mode = 0; memset(r, 0, sizeof *r); gmtime_r(t, r); mode = m; return r; }
extern "C" size_t __real_strftime(char *, size_t, const char *, const struct tm *);
extern "C" size_t __wrap_strftime(char *s, size_t n, const char *f, const struct tm *t) { int m = mode; mode = 0; size_t r = __real_strftime(s, n, f, t); mode = m; return r; }
extern "C" int __wrap_backtrace(void **, int) {   // only asked for when the code under test has given up (debug_assert, debug_die)
  if (!res) return 0;
  sim_fail("assertion", "an internal check of the code under test failed (thread %d)", cur ? cur->tid : -1);
}
extern "C" void __wrap_abort(void) {
  if (!res) { (void)!write(2, "abort\n", 6); _exit(97); }
  if (abort_crash) do_crash();
  sim_fail("abort", "the code under test called abort (thread %d, pc %#llx)", cur ? cur->tid : -1, (unsigned long long)PC);
}
extern "C" void __wrap_exit(int c) {
  if (!res || !mode) { fflush(0); _exit(c); }
  if (abort_crash) do_crash();
  sim_fail("exit", "the code under test called exit(%d)", c);
}

// ------------------------------------------------------------------ init / run
void rt_init() {
  static bool done; if (done) return; done = true;
  have_fsgs = (getauxval(AT_HWCAP2) & 2) != 0;
  void *q;
  for (int i = 0; i < MAXF; i++) {
    uintptr_t b = STACKS + (uintptr_t)i * (STACK_SZ + 65536);
    q = mmap((void *)b, STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (q != (void *)b) { fprintf(stderr, "sim: cannot map stacks\n"); _exit(98); }
    F[i].stk_lo = b;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (void *)b, STACK_SZ);
    pthread_t t;
    int e = __real_pthread_create(&t, &at, park, &F[i]);
    if (e) { fprintf(stderr, "sim: pthread_create %d\n", e); _exit(98); }
    while (!__atomic_load_n(&F[i].started, __ATOMIC_SEQ_CST)) sched_yield();
    ftop[i] = F[i].sp;
  }
  main_fs = get_fs();
  stack_t ss{}; ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, nullptr);
}
__attribute__((constructor(101))) static void map_arena() {}
struct ArenaInit { };
// The arena must exist before the first malloc, which can come from any constructor: map it on demand.
extern "C" void sim_map_arena() {
  if (arena_ready) return;
  arena_ready = true;
  void *p = mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  void *q = mmap((void *)SHADOW, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (p != (void *)ARENA || q != (void *)SHADOW) { (void)!write(2, "sim: cannot map the arena\n", 26); _exit(98); }
}
__attribute__((section(".preinit_array"), used)) static void (*pre)(void) = sim_map_arena;

static void body_init(void *) { har->setup(*spec); if (har->thread_begin) har->thread_begin(0); if (!res->phase) for (auto &o : spec->init) har->exec(0, o); if (har->thread_end) har->thread_end(0); }
static void body_fin(void *) { if (har->thread_begin) har->thread_begin(0); for (auto &o : spec->fin) har->exec(0, o); if (har->thread_end) har->thread_end(0); har->finish(*spec); }
struct TA { int idx; int tid; };
static void body_thr(void *a) {
  TA *t = (TA *)a; int tid = cur->tid;
  if (har->thread_begin) har->thread_begin(tid);
  for (auto &o : spec->thr[t->idx]) { res->ops++; har->exec(tid, o); }
  if (har->thread_end) har->thread_end(tid);
}
static TA tas[MAXF];
static void body_main(void *) {
  body_init(nullptr);
  int lo = har->tpp * res->phase, n = har->tpp ? std::max(0, std::min(har->tpp, (int)spec->thr.size() - lo)) : (int)spec->thr.size();
  mode = 2;
  resched_trigger(&F[0]);
  int ids[MAXF];
  { int m = mode; mode = 0; for (int i = 0; i < n; i++) { tas[i].idx = lo + i; ids[i] = alloc_fiber(body_thr, &tas[i]); } mode = m; }
  for (int i = 0; i < n; i++) join(ids[i]);
  mode = 1; ticks = 0;
  body_fin(nullptr);
}
void rt_run(const Harness &h, const Spec &s, Result *r) {
  rt_init();
  struct sigaction sa{}; sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGALRM}) sigaction(sg, &sa, nullptr);
  har = &h; spec = &s; sc = &s.sched; res = r;
  u64 px = r->phase * 0x51ed270b9f652295ull;
  rng = Rng(s.seed ^ 0x5eed5eedull ^ px); urng = Rng(s.seed ^ 0xabcdef ^ px);
  gsteps = gstamp = 0; stall_pauses = 0; patience = 0; insist = false; simns = 0; ticks = 0; fair = false; nfib = 0;
  replaying = s.replay;
  step_cap = s.get("step_cap", 400000); hard_cap = step_cap + s.get("fair_cap", 3000000); next_cap = step_cap;
  abort_crash = false; crash_step = 0;
  if (h.crash) { char b[32]; snprintf(b, sizeof b, "crash%d", r->phase); crash_step = s.get(b); if (crash_step && crash_step < next_cap) next_cap = crash_step; }
  u64 hash0 = r->phase ? r->hash : 1, thash0 = r->phase ? r->thash : 1; steps0 = r->phase ? r->steps : 0; time0 = r->phase ? r->simtime_ns : 0;
  hashv = hash0; thash = thash0;
  base_ns = BASE_NS + time0;
  if (r->phase) { char b[32]; snprintf(b, sizeof b, "gap%d", r->phase); base_ns += s.get(b, 1000000); }
  pconf16 = (uint32_t)(sc->pconf * 65536);
  tpass = (u64)spec->get("tpass") * 1000000; stalls_left = sc->depth; rmwstall = spec->get("srmw") / 1000.0;
  padrand = s.get("pad", 0);
  fillkind = (int)s.get("memfill", 2);
  memset(conf, 0, sizeof conf);
  static std::vector<Ent> per[MAXF];
  if (replaying) {
    for (auto &v : per) v.clear();
    for (auto &e : s.ents) if (e.tid / 32 == r->phase && e.tid % 32 < MAXF) per[e.tid % 32].push_back(e);
    for (int i = 0; i < MAXF; i++) { F[i].ents = &per[i]; F[i].ei = 0; }
  } else for (int i = 0; i < MAXF; i++) F[i].ents = nullptr;
  live_blocks = live_bytes = peak_bytes = 0;
  // the run's heap starts at a fixed place, whatever the driver allocated before
  if (brk_ < ARENA + (2ull << 30)) brk_ = ARENA + (2ull << 30);
  for (auto &x : freel) x = nullptr;
  { Spec *c = new Spec; c->seed = s.seed; c->sched = s.sched; c->par = s.par; c->init = s.init; c->thr = s.thr; c->fin = s.fin; c->replay = s.replay; spec = c; sc = &c->sched; }  // read by the run itself, so it must not lie where the driver happened to put it
  int t0 = alloc_fiber(body_main, nullptr);
  mode = 1;
  switch_to(&F[t0]);
  mode = 0;
  publish();
  res->status = ST_OK;
  res->done = 1;
}
}  // namespace sim
