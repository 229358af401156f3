// Deterministic simulator: public interface for harnesses.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>

#define SIM_NOINST __attribute__((no_sanitize("thread")))

namespace sim {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  SIM_NOINST uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  SIM_NOINST uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  SIM_NOINST int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  SIM_NOINST bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  SIM_NOINST uint64_t logu(uint64_t lo, uint64_t hi) {  // log-uniform
    int l = 63 - __builtin_clzll(lo | 1), h = 63 - __builtin_clzll(hi | 1);
    int b = (int)range(l, h);
    uint64_t v = (1ull << b) + below(1ull << b);
    return v < lo ? lo : v > hi ? hi : v;
  }
  template <class T> SIM_NOINST const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

struct Op { int kind = 0; int64_t a = 0, b = 0, c = 0; };

// kinds of recorded scheduling / fault decisions
enum EntKind : int { E_SWITCH = 'S', E_BUFFER = 'B', E_CASFAIL = 'W', E_ALLOC = 'A', E_TIME = 'J', E_IO = 'I' };
struct Ent { int tid; int kind; uint64_t cnt; int64_t arg; };

struct Sched {
  int strat = 0;        // 0 random walk, 1 PCT, 2 conflict-biased, 3 stall, 4 serial
  double p = 0.01;      // switch probability at an ordinary access
  double pconf = 0;     // switch probability at a contested access
  int depth = 3;        // PCT change points / number of stalls
  uint64_t span = 4096; // range of change points
  bool tso = false;     // store-buffer delays of atomic stores
  double casfail = 0;   // spurious failure of weak CAS
  double allocfail = 0; // allocation failure
  double timejump = 0;  // clock jumps on a clock read
  double iofault = 0;   // I/O faults
};

struct Spec {
  uint64_t seed = 0;
  std::map<std::string, int64_t> par;
  std::vector<Op> init;               // run without preemption, on the main simulated thread
  std::vector<std::vector<Op>> thr;   // one list per simulated thread
  std::vector<Op> fin;                // run without preemption, afterwards
  Sched sched;
  bool replay = false;
  std::vector<Ent> ents;              // replay only
  int64_t get(const char *k, int64_t d = 0) const { auto i = par.find(k); return i == par.end() ? d : i->second; }
};

struct Harness {
  const char *prop;
  const char *what;    // one line: what is checked
  const char *real;    // components that run real code
  const char *stub;    // components that are stubs
  void (*gen)(Rng &, Spec &);
  void (*setup)(const Spec &);
  void (*thread_begin)(int tid);           // may be null
  void (*exec)(int tid, const Op &);
  void (*thread_end)(int tid);             // may be null
  void (*finish)(const Spec &);            // on the main simulated thread, after all threads are done; runs checks
  std::string (*describe)(const Op &);
  int tpp = 0;                             // restarts: thread lists per phase (0: a run is one process)
  void (*crash)() = nullptr;               // called when the process is killed in the middle of a phase; ends with sim_next_phase
};
void register_harness(const Harness &h);
struct Reg { Reg(const Harness &h) { register_harness(h); } };

// ---- runtime services (none of these is a preemption point unless said so)
extern "C" {
void sim_yield(void);           // forced yield: another runnable thread gets the CPU
void sim_point(void);           // ordinary preemption point
void sim_drain(void);         // the thread's delayed stores become visible
void sim_oob_slack(int n);     // reads of a word up to n bytes past the end of a live block are let pass
void sim_pause(void);           // spin hint
uint64_t sim_now(void);         // global event stamp (strictly increasing)
int sim_tid(void);              // current simulated thread (0 = main)
uint64_t sim_steps(int tid);    // accesses executed so far by a simulated thread
void sim_fail(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void sim_probe(const char *name);   // "rare condition reached" counter
void sim_sleep_ns(uint64_t ns);
uint64_t sim_live_blocks(void);   // live heap blocks allocated by simulated threads
uint64_t sim_live_bytes(void);
void sim_dump_live(void);         // notes every live block in the log
bool sim_mem_ok(const void *p, size_t n);  // is [p,p+n) live (or not heap)
bool sim_concurrent(void);  // preemption possible now
void sim_mark(void *p, size_t n, int live); // custom allocators: marks [p,p+n), 8-byte aligned, as live or as freed
void sim_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // recorded in the replay's log
int sim_off(void);                // suspend instrumentation (returns old mode)
void sim_on(int mode);
uint64_t sim_rand(void);          // per-run PRNG, for stubs (drawn outside the schedule PRNG)
int sim_fault_alloc_enabled(int on);  // enable allocation failure on this thread; returns old
int64_t sim_io_choice(int kind, int64_t n); // I/O fault choice: 0 = no fault, else 1..n
int sim_phase(void);              // 0, then one more after each restart
const char *sim_blob(size_t *n);  // what the previous phase left
void sim_next_phase(const void *p, size_t n) __attribute__((noreturn));  // this process ends; the run goes on in a fresh one
void sim_crash_in(uint64_t steps); // the process is killed this many steps from now
bool sim_abort_is_crash(int on);  // abort and failed assertions of the code under test end the phase (after an injected fault); -1 asks
void sim_block(const void *key);  // the thread waits until sim_wake(key)
bool sim_block_until(const void *key, uint64_t ns);   // ditto, or until the simulated time ns; false = timed out
void sim_wake(const void *key);
uint64_t sim_time_ns(void);       // simulated time, without a step
}

struct Off {  // RAII: code inside runs outside the simulation (no steps, no preemption)
  int m;
  SIM_NOINST Off() : m(sim_off()) {}
  SIM_NOINST ~Off() { sim_on(m); }
};

// run `fn` in a new simulated thread
int spawn(void (*fn)(void *), void *arg);
void join(int tid);

}  // namespace sim
