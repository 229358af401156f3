// Exploration, reproduction gate, minimisation, replay and evidence.
#include <csignal>
#include <fcntl.h>
#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>
#include <poll.h>
extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
extern "C" int __real_nanosleep(const struct timespec *, struct timespec *);
extern "C" void __real_exit(int);
namespace sim {
static std::vector<Harness> &regs() { static std::vector<Harness> v; return v; }
void register_harness(const Harness &h) { regs().push_back(h); }
static double wall() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void msleep(int ms) { struct timespec t{ms / 1000, (ms % 1000) * 1000000l}; __real_nanosleep(&t, nullptr); }
static void *shared(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(98); } return p; }

static uint64_t seed_of(uint64_t seed, const char *prop, uint64_t i) {
  uint64_t h = seed * 0x9E3779B97F4A7C15ull + 77; for (const char *p = prop; *p; p++) h = (h ^ (unsigned char)*p) * 0x100000001b3ull;
  Rng r(h + i * 0xD1B54A32D192ED03ull); return r.next() >> 1;
}
// default scheduling swarm; harness gen() may override parts
static void gen_sched(Rng &r, Spec &s) {
  Sched &c = s.sched;
  int k = (int)r.below(20);
  if (k < 6) { c.strat = 2; c.p = std::vector<double>{0, 0.0005, 0.003}[r.below(3)]; c.pconf = std::vector<double>{0.5, 0.25, 0.1, 0.03}[r.below(4)]; c.depth = std::vector<int>{20, 20, 100, 300}[r.below(4)]; }
  else if (k < 11) { c.strat = 3; c.depth = (int)r.range(1, 8); c.span = r.logu(64, 8192); c.pconf = r.chance(0.4) ? 0.05 : 0; }
  else if (k < 16) { c.strat = 1; c.depth = (int)r.range(1, 8); c.span = r.logu(64, 8192); }
  else { c.strat = 0; c.p = std::vector<double>{0.5, 0.2, 0.05, 0.01, 0.002}[r.below(5)]; }
  c.tso = r.chance(0.4);
  c.casfail = r.chance(0.3) ? std::vector<double>{0.02, 0.1, 0.3}[r.below(3)] : 0;
  s.par["fill"] = r.range(0, 3);
  s.par["pad"] = r.chance(0.3) ? (int64_t)(r.next() >> 2) : 0;
}
static void make_spec(const Harness &h, uint64_t seed, Spec &s) {
  s = Spec(); s.seed = seed; Rng r(seed);
  gen_sched(r, s);
  h.gen(r, s);
}
// ------------------------------------------------------------ running one spec in a child
static void clear(Result *r) { r->status = ST_INTERNAL; r->done = 0; r->kind[0] = r->msg[0] = 0; r->hash = r->thash = r->steps = r->switches = r->contested = r->simtime_ns = 0; memset(r->fired, 0, sizeof r->fired); r->ops = r->undecided = r->allocs = r->frees = 0; r->nents = r->ents_over = r->nlog = 0; r->log[0] = 0; r->nprobe = 0; r->peak_bytes = 0; r->phase = 0; r->bloblen = 0; }
static double run_timeout = 60;
static int run_child(const Harness &h, const Spec &s, Result *r) {
  clear(r);
  int st = 0;
  do {
    r->done = 0; r->status = ST_INTERNAL;
  pid_t p = (pid_t)syscall(SYS_fork);
  if (p == 0) { struct rlimit l{(rlim_t)run_timeout, (rlim_t)run_timeout + 2}; setrlimit(RLIMIT_CPU, &l); l = {0, 0}; setrlimit(RLIMIT_CORE, &l); alarm(90); static int nul = open("/dev/null", O_WRONLY); if (nul >= 0) { dup2(nul, 2); if (h.tpp) dup2(nul, 1); } rt_run(h, s, r); _exit(0); }
  if (p < 0) { perror("fork"); _exit(98); }
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  } while (r->done && r->status == ST_PHASE);
  if (!r->done) {
    r->status = ST_INTERNAL;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) snprintf(r->msg, sizeof r->msg, "run exceeded %g s of CPU time", run_timeout);
    else if (WIFSIGNALED(st)) snprintf(r->msg, sizeof r->msg, "run killed by signal %d", WTERMSIG(st));
    else snprintf(r->msg, sizeof r->msg, "run ended with code %d without a result", WEXITSTATUS(st));
  }
  return r->status;
}
// ------------------------------------------------------------ replay files
static bool save_replay(const char *path, const Harness &h, const Spec &s, const Result &r, const std::string &note) {
  FILE *f = fopen(path, "w"); if (!f) return false;
  fprintf(f, "sim-replay 1\nprop %s\nseed %llu\nkind %s\nhash %llx\nmsg %s\n", h.prop, (unsigned long long)s.seed, r.kind, (unsigned long long)r.hash, r.msg);
  fprintf(f, "# %s\n", note.c_str());
  fprintf(f, "sched %d %.17g %.17g %d %llu %d %.17g %.17g %.17g %.17g\n", s.sched.strat, s.sched.p, s.sched.pconf, s.sched.depth, (unsigned long long)s.sched.span, (int)s.sched.tso, s.sched.casfail, s.sched.allocfail, s.sched.timejump, s.sched.iofault);
  if (!s.replay) fprintf(f, "live 1   # the schedule comes from the seed, not from a record\n");
  for (auto &p : s.par) fprintf(f, "par %s %lld\n", p.first.c_str(), (long long)p.second);
  auto po = [&](const char *w, int t, const Op &o) { fprintf(f, "%s %d %d %lld %lld %lld   # %s\n", w, t, o.kind, (long long)o.a, (long long)o.b, (long long)o.c, h.describe(o).c_str()); };
  for (auto &o : s.init) po("init", 0, o);
  fprintf(f, "threads %zu\n", s.thr.size());
  for (size_t t = 0; t < s.thr.size(); t++) for (auto &o : s.thr[t]) po("op", (int)t, o);
  for (auto &o : s.fin) po("fin", 0, o);
  for (uint32_t i = 0; i < r.nents; i++) { const Ent &e = r.ents[i]; fprintf(f, "ent %d %c %llu %lld   # %s\n", e.tid, e.kind, (unsigned long long)e.cnt, (long long)e.arg,
      e.kind == E_SWITCH ? "switch to thread" : e.kind == E_BUFFER ? "delay this store for n steps" : e.kind == E_CASFAIL ? "weak CAS fails" : e.kind == E_ALLOC ? "allocation fails" : e.kind == E_TIME ? "clock jumps by 2^n ns" : "I/O fault"); }
  std::string lg(r.log); size_t p = 0; while (p < lg.size()) { size_t q = lg.find('\n', p); if (q == std::string::npos) q = lg.size(); fprintf(f, "# log %s\n", lg.substr(p, q - p).c_str()); p = q + 1; }
  fclose(f);
  return true;
}
static bool load_replay(const char *path, std::string &prop, Spec &s, std::string &kind, uint64_t &hash) {
  FILE *f = fopen(path, "r"); if (!f) { perror(path); return false; }
  static char line[8192];
  s = Spec(); s.replay = true; hash = 0;
  while (fgets(line, sizeof line, f)) {
    char w[64]; if (sscanf(line, "%63s", w) != 1 || w[0] == '#') continue;
    std::string W = w; char b[128]; long long x, y, z; int t, k; unsigned long long u;
    if (W == "prop") { sscanf(line, "%*s %127s", b); prop = b; }
    else if (W == "seed") { sscanf(line, "%*s %llu", &u); s.seed = u; }
    else if (W == "live") s.replay = false;
    else if (W == "kind") { sscanf(line, "%*s %127s", b); kind = b; }
    else if (W == "hash") { sscanf(line, "%*s %llx", &u); hash = u; }
    else if (W == "sched") { int ts; sscanf(line, "%*s %d %lf %lf %d %llu %d %lf %lf %lf %lf", &s.sched.strat, &s.sched.p, &s.sched.pconf, &s.sched.depth, &u, &ts, &s.sched.casfail, &s.sched.allocfail, &s.sched.timejump, &s.sched.iofault); s.sched.span = u; s.sched.tso = ts; }
    else if (W == "par") { sscanf(line, "%*s %127s %lld", b, &x); s.par[b] = x; }
    else if (W == "threads") { sscanf(line, "%*s %d", &t); s.thr.resize(t); }
    else if (W == "init" || W == "op" || W == "fin") { sscanf(line, "%*s %d %d %lld %lld %lld", &t, &k, &x, &y, &z); Op o{k, x, y, z}; if (W == "init") s.init.push_back(o); else if (W == "fin") s.fin.push_back(o); else { if ((int)s.thr.size() <= t) s.thr.resize(t + 1); s.thr[t].push_back(o); } }
    else if (W == "ent") { char c; sscanf(line, "%*s %d %c %llu %lld", &t, &c, &u, &x); s.ents.push_back(Ent{t, c, u, x}); }
  }
  fclose(f);
  return true;
}
// ------------------------------------------------------------ minimisation
struct Min {
  const Harness &h; Result *r; std::string kind; double deadline; uint64_t tries = 0; Spec best; 
  std::vector<Ent> ents;
  bool fails(Spec &s) { // as a replay with s.ents
    tries++;
    s.replay = true;
    if (run_child(h, s, r) != ST_VIOL || kind != r->kind || r->ents_over) return false;
    return true;
  }
  void adopt(const Spec &s) { best = s; best.replay = true; best.ents.assign(r->ents, r->ents + r->nents); }
  bool attempt(Spec s, int searches) {
    if (wall() > deadline) return false;
    s.ents = best.ents;
    if (fails(s)) { adopt(s); return true; }
    for (int i = 0; i < searches && wall() < deadline; i++) {
      Spec q = s; q.replay = false; q.ents.clear(); q.seed = s.seed + 1000003ull * (i + 1);
      if (run_child(h, q, r) == ST_VIOL && kind == r->kind && !r->ents_over) { adopt(q); return true; }
      tries++;
    }
    return false;
  }
  template <class Get> void shrink_list(Get get, int searches) {
    size_t n = get(best).size();
    for (size_t chunk = n ? n : 0; chunk >= 1 && wall() < deadline; chunk = chunk / 2) {
      for (size_t i = 0; i < get(best).size() && wall() < deadline;) {
        Spec s = best; auto &v = get(s);
        size_t k = std::min(chunk, v.size() - i);
        v.erase(v.begin() + i, v.begin() + i + k);
        if (!attempt(s, searches)) i += k;
      }
    }
  }
  void go() {
    int se = 12;
    for (int round = 0; round < 3 && wall() < deadline; round++) {
      size_t before = size();
      for (size_t t = 0; t < best.thr.size(); t++) if (!best.thr[t].empty()) { Spec s = best; s.thr[t].clear(); attempt(s, se); }
      for (size_t t = 0; t < best.thr.size(); t++) shrink_list([t](Spec &s) -> std::vector<Op> & { return s.thr[t]; }, se);
      shrink_list([](Spec &s) -> std::vector<Op> & { return s.init; }, 2);
      shrink_list([](Spec &s) -> std::vector<Op> & { return s.fin; }, 0);
      if (size() == before) break;
    }
    // trailing empty threads
    while (best.thr.size() > 1 && best.thr.back().empty()) { Spec s = best; s.thr.pop_back(); if (!attempt(s, se)) break; }
    // schedule: drop decisions
    for (int round = 0; round < 4 && wall() < deadline; round++) {
      size_t b = best.ents.size();
      for (size_t chunk = std::max<size_t>(1, best.ents.size() / 2); chunk >= 1 && wall() < deadline; chunk /= 2) {
        for (size_t i = 0; i < best.ents.size() && wall() < deadline;) {
          Spec s = best; size_t k = std::min(chunk, s.ents.size() - i);
          s.ents.erase(s.ents.begin() + i, s.ents.begin() + i + k);
          Spec q = s;
          if (fails(q) && r->nents < best.ents.size()) { adopt(s); } else i += k;
        }
      }
      if (best.ents.size() >= b) break;
    }
  }
  size_t size() const { size_t n = best.init.size() + best.fin.size(); for (auto &t : best.thr) n += t.size(); return n; }
};
// ------------------------------------------------------------ exploration
struct WStat {
  volatile uint64_t runs, distinct, nontrivial, steps, switches, contested, simns, fired[8], firedruns[8], ops, allocs, frees, freeruns, detchecks, undecided, internal, tested_min, mism;
  volatile uint64_t strat[8];
  volatile int viol, err; volatile uint64_t viol_index;
  char errmsg[400];
  uint32_t nprobe; ProbeSlot probe[NPROBE]; 
  double cpu;
  char sample[6000];
  volatile uint64_t maxsteps, nents_max;
};
static volatile int *stopflag;
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else if ((unsigned char)c > 126) o += '?'; else o += c; } return o; }
static std::string spec_text(const Harness &h, const Spec &s, size_t lim) {
  std::string o; char b[200];
  snprintf(b, sizeof b, "seed %llu, strategy %d, init %zu ops", (unsigned long long)s.seed, s.sched.strat, s.init.size()); o = b;
  for (auto &p : s.par) if (p.first != "pad") { snprintf(b, sizeof b, ", %s=%lld", p.first.c_str(), (long long)p.second); o += b; }
  for (size_t t = 0; t < s.thr.size() && o.size() < lim; t++) { snprintf(b, sizeof b, "; T%zu:", t + 1); o += b; for (auto &x : s.thr[t]) { o += " " + h.describe(x); if (o.size() > lim) { o += " ..."; break; } } }
  return o;
}
static void merge_probes(ProbeSlot *d, uint32_t &n, const ProbeSlot *s, uint32_t m) {
  for (uint32_t i = 0; i < m; i++) { uint32_t j = 0; for (; j < n; j++) if (!strcmp(d[j].name, s[i].name)) break; if (j == n) { if (n >= NPROBE) continue; memcpy(d[n].name, s[i].name, 48); d[n].n = 0; n++; } d[j].n += s[i].n; }
}
static void worker(const Harness &h, int w, int W, uint64_t seed, uint64_t first, uint64_t maxruns, double deadline, WStat *st, Result *r, Result *r2) {
  std::unordered_set<uint64_t> seen; uint64_t n = 0;
  for (uint64_t i = first + w; i < maxruns && !*stopflag && wall() < deadline; i += W, n++) {
    Spec s; make_spec(h, seed_of(seed, h.prop, i), s);
    int c = run_child(h, s, r);
    st->runs++;
    if (c == ST_INTERNAL) { st->internal++; st->err = 1; snprintf(st->errmsg, sizeof st->errmsg, "run %llu (seed %llu): %s", (unsigned long long)i, (unsigned long long)s.seed, r->msg); *stopflag = 1; return; }
    st->steps += r->steps; st->switches += r->switches; st->contested += r->contested; st->simns += r->simtime_ns; st->ops += r->ops; st->allocs += r->allocs; st->frees += r->frees; if (r->frees) st->freeruns++; st->strat[s.sched.strat]++;
    if (r->steps > st->maxsteps) st->maxsteps = r->steps;
    if (r->nents > st->nents_max) st->nents_max = r->nents;
    for (int k = 0; k < 8; k++) { st->fired[k] += r->fired[k]; if (r->fired[k]) st->firedruns[k]++; }
    merge_probes(st->probe, st->nprobe, r->probe, r->nprobe);
    bool nt = (r->contested > 0 && r->switches > 2) || r->fired[FI_IO] || r->fired[FI_ALLOC];
    if (nt) st->nontrivial++;
    if (seen.insert(r->thash * 31 + r->hash).second && nt) st->distinct++;
    if (n < 2 && w == 0) { std::string t = spec_text(h, s, 2500); strncat(st->sample, (jesc(t) + "\n").c_str(), sizeof st->sample - strlen(st->sample) - 2); }
    if (c == ST_VIOL) { st->viol = 1; st->viol_index = i; *stopflag = 1; return; }
    if (n % 64 == 0 || n < 2) { // determinism probe: same seed again, and its recorded schedule replayed
      st->detchecks++;
      void *junk = malloc(8 + 40 * (n % 50)); Spec s2 = s;
      run_child(h, s2, r2); free(junk);
      if (r2->hash != r->hash || r2->thash != r->thash || r2->steps != r->steps || r2->status != r->status) { st->err = 1; snprintf(st->errmsg, sizeof st->errmsg, "NONDETERMINISM: run %llu (seed %llu) differs when repeated: hash %llx/%llx steps %llu/%llu %s %s", (unsigned long long)i, (unsigned long long)s.seed, (unsigned long long)r->hash, (unsigned long long)r2->hash, (unsigned long long)r->steps, (unsigned long long)r2->steps, r2->kind, r2->msg); *stopflag = 1; return; }
      if (!r->ents_over) {
        Spec q = s; q.replay = true; q.ents.assign(r->ents, r->ents + r->nents);
        run_child(h, q, r2);
        if (r2->hash != r->hash || r2->steps != r->steps) st->mism++;   // the seed repeats exactly, only its recorded schedule does not
      }
    }
  }
}
static const Harness *find(const char *prop) { for (auto &h : regs()) if (!strcmp(h.prop, prop)) return &h; return nullptr; }
static int do_replay(const char *path, bool verbose) {
  std::string prop, kind; Spec s; uint64_t hash;
  if (!load_replay(path, prop, s, kind, hash)) return 2;
  const Harness *h = find(prop.c_str()); if (!h) { fprintf(stderr, "no harness %s in this binary\n", prop.c_str()); return 2; }
  Result *r = (Result *)shared(sizeof(Result));
  run_child(*h, s, r);
  if (verbose) printf("%s", r->log);
  if (r->status == ST_VIOL && kind == r->kind && r->hash == hash) { printf("replayed exactly: %s: %s\nVIOLATION property=%s replay=%s\n", r->kind, r->msg, prop.c_str(), path); return 1; }
  if (r->status == ST_VIOL) { printf("replay fails differently: %s: %s (hash %llx, recorded %llx)\n", r->kind, r->msg, (unsigned long long)r->hash, (unsigned long long)hash); return 2; }
  if (r->status == ST_OK) { printf("replay: no violation\n"); return 0; }
  printf("replay: internal error: %s\n", r->msg); return 2;
}
static int main_(int argc, char **argv) {
  for (int g : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) signal(g, SIG_DFL);   // whatever a library installed at load time
  std::string prop, evid, replays = "replays", replay, tier = "quick"; uint64_t seed = 1, maxruns = ~0ull, one = ~0ull, first = 0; double secs = 30, minsecs = 45; int W = 8; bool list = false, verbose = false, hashes = false; std::string assume;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto v = [&]() { return std::string(argv[++i]); };
    if (a == "--prop") prop = v(); else if (a == "--seed") seed = strtoull(v().c_str(), 0, 10); else if (a == "--secs") secs = atof(v().c_str());
    else if (a == "--workers") W = atoi(v().c_str()); else if (a == "--evidence") evid = v(); else if (a == "--replays") replays = v(); else if (a == "--replay") replay = v();
    else if (a == "--max") maxruns = strtoull(v().c_str(), 0, 10); else if (a == "--first") first = strtoull(v().c_str(), 0, 10); else if (a == "--one") one = strtoull(v().c_str(), 0, 10); else if (a == "--list") list = true; else if (a == "-v") verbose = true; else if (a == "--tier") tier = v(); else if (a == "--hashes") hashes = true; else if (a == "--minsecs") minsecs = atof(v().c_str()); else if (a == "--assume") assume = v();
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (list) { for (auto &h : regs()) printf("%s %s\n", h.prop, h.what); return 0; }
  rt_init();
  if (!replay.empty()) return do_replay(replay.c_str(), verbose);
  const Harness *hp = find(prop.c_str()); if (!hp) { fprintf(stderr, "no harness for %s\n", prop.c_str()); return 2; }
  const Harness &h = *hp;
  if (one != ~0ull) { Spec s; make_spec(h, seed_of(seed, h.prop, one), s); Result *r = (Result *)shared(sizeof(Result)); run_child(h, s, r); printf("%s\nstatus %d kind %s msg %s\nhash %llx steps %llu switches %llu contested %llu ents %u ops %llu\n%s", spec_text(h, s, 4000).c_str(), r->status, r->kind, r->msg, (unsigned long long)r->hash, (unsigned long long)r->steps, (unsigned long long)r->switches, (unsigned long long)r->contested, r->nents, (unsigned long long)r->ops, r->log); for (uint32_t i = 0; i < r->nprobe; i++) printf("probe %s %llu\n", r->probe[i].name, (unsigned long long)r->probe[i].n);
    if (verbose) { Result *q = (Result *)shared(sizeof(Result)); Spec t = s; t.replay = true; t.ents.assign(r->ents, r->ents + r->nents); run_child(h, t, q); printf("replay: status %d hash %llx steps %llu ents %u\n", q->status, (unsigned long long)q->hash, (unsigned long long)q->steps, q->nents); for (uint32_t i = 0; i < r->nents || i < q->nents; i++) { const Ent &a = r->ents[i], &b = q->ents[i]; bool d = a.tid != b.tid || a.kind != b.kind || a.cnt != b.cnt || a.arg != b.arg; printf("%c T%d %c %llu %lld   |  T%d %c %llu %lld\n", d ? '*' : ' ', a.tid, a.kind, (unsigned long long)a.cnt, (long long)a.arg, b.tid, b.kind, (unsigned long long)b.cnt, (long long)b.arg); if (d) break; } }
    return 0; }
  if (hashes) { Result *r = (Result *)shared(sizeof(Result)); for (uint64_t i = first; i < maxruns; i++) { Spec s; make_spec(h, seed_of(seed, h.prop, i), s); run_child(h, s, r); printf("%llu %d %llx %llx %llu\n", (unsigned long long)i, r->status, (unsigned long long)r->hash, (unsigned long long)r->thash, (unsigned long long)r->steps); } return 0; }
  double t0 = wall(), deadline = t0 + secs;
  stopflag = (volatile int *)shared(4096);
  WStat *st = (WStat *)shared(sizeof(WStat) * W);
  std::vector<Result *> rs; for (int w = 0; w < W; w++) rs.push_back((Result *)shared(sizeof(Result)));
  std::vector<pid_t> pids;
  for (int w = 0; w < W; w++) {
    pid_t p = (pid_t)syscall(SYS_fork);
    if (p == 0) { Result *r2 = (Result *)shared(sizeof(Result)); worker(h, w, W, seed, first, maxruns, deadline, &st[w], rs[w], r2); _exit(0); }
    pids.push_back(p);
  }
  for (int w = 0; w < W; w++) { int s = 0; while (waitpid(pids[w], &s, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(s) || WEXITSTATUS(s)) { st[w].err = 1; snprintf(st[w].errmsg, sizeof st[w].errmsg, "worker %d died (status %x)", w, s); } }
  double t1 = wall();
  // totals
  WStat T{}; 
  for (int w = 0; w < W; w++) {
    WStat &x = st[w]; T.runs += x.runs; T.distinct += x.distinct; T.nontrivial += x.nontrivial; T.steps += x.steps; T.switches += x.switches; T.contested += x.contested; T.simns += x.simns; T.ops += x.ops; T.allocs += x.allocs; T.frees += x.frees; T.freeruns += x.freeruns; T.detchecks += x.detchecks; T.mism += x.mism;
    for (int k = 0; k < 8; k++) { T.fired[k] += x.fired[k]; T.firedruns[k] += x.firedruns[k]; T.strat[k] += x.strat[k]; }
    merge_probes(T.probe, T.nprobe, x.probe, x.nprobe);
    if (x.maxsteps > T.maxsteps) T.maxsteps = x.maxsteps;
  }
  int rc = 0; std::string vline; 
  bool anyviol = false; for (int w = 0; w < W; w++) anyviol |= st[w].viol;
  for (int w = 0; w < W; w++) if (st[w].err && !anyviol) { fprintf(stderr, "ERROR: %s\n", st[w].errmsg); rc = 2; }
  std::string vmsg;
  if (anyviol) {
    int bw = -1; for (int w = 0; w < W; w++) if (st[w].viol && (bw < 0 || st[w].viol_index < st[bw].viol_index)) bw = w;
    bool ok = false;
    for (int w0 = 0; w0 < W && !ok; w0++) {
      int w = w0 == 0 ? bw : w0 == bw ? 0 : w0; if (!st[w].viol) continue;
      uint64_t idx = st[w].viol_index;
      Result *r = rs[w];
      Spec s; make_spec(h, seed_of(seed, h.prop, idx), s);
      std::string kind = r->kind, msg = r->msg; uint64_t hash = r->hash; bool over = r->ents_over;
      printf("violation in run %llu (seed %llu): %s: %s\n", (unsigned long long)idx, (unsigned long long)s.seed, kind.c_str(), msg.c_str()); fflush(stdout);
      std::vector<Ent> ents(r->ents, r->ents + r->nents);
      Result *q = (Result *)shared(sizeof(Result));
      // gate 1: the same seed gives the same run
      run_child(h, s, q);
      if (q->status != ST_VIOL || q->hash != hash || kind != q->kind) { fprintf(stderr, "ERROR: run %llu does not repeat (hash %llx, then %llx; %s)\n", (unsigned long long)idx, (unsigned long long)hash, (unsigned long long)q->hash, q->msg); rc = 2; continue; }
      // gate 2: the recorded schedule replays
      Spec rp = s; rp.replay = true; rp.ents = ents;
      run_child(h, rp, q);
      bool live = over || q->status != ST_VIOL || kind != q->kind;   // then the replay file names the seed
      if (live) { rp = s; ents.clear(); }
      Min m{h, q, kind, wall() + minsecs}; m.best = rp; size_t ops0 = m.size(), e0 = ents.size();
      if (kind != "hang" && !live) m.go();
      Spec f = m.best; f.replay = !live;
      int c = run_child(h, f, q);
      if (c != ST_VIOL || kind != q->kind) { f = rp; run_child(h, f, q); }
      char note[300]; snprintf(note, sizeof note, "found as run %llu of VERIF_SEED %llu; minimised from %zu operations, %zu decisions to %zu operations, %u decisions in %llu runs", (unsigned long long)idx, (unsigned long long)seed, ops0, e0, m.size(), q->nents, (unsigned long long)m.tries);
      char path[600]; snprintf(path, sizeof path, "%s/%s-%llu.replay", replays.c_str(), h.prop, (unsigned long long)s.seed);
      std::vector<Ent> fe(q->ents, q->ents + q->nents);
      if (!save_replay(path, h, f, *q, note)) { perror(path); rc = 2; continue; }
      // gate 3: a fresh process reproduces it from the file
      char self[500]; ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1); self[sl > 0 ? sl : 0] = 0;
      pid_t p = (pid_t)syscall(SYS_fork);
      if (p == 0) { int fd = dup(1); (void)fd; freopen("/dev/null", "w", stdout); execl(self, self, "--replay", path, (char *)nullptr); _exit(9); }
      int wst = 0; while (waitpid(p, &wst, 0) < 0 && errno == EINTR) {}
      if (!WIFEXITED(wst) || WEXITSTATUS(wst) != 1) { fprintf(stderr, "ERROR: %s does not reproduce in a fresh process (status %x)\n", path, wst); rc = 2; continue; }
      ok = true; rc = 1; vmsg = std::string(q->kind) + ": " + q->msg;
      printf("%s\n%s\n", note, vmsg.c_str());
      vline = std::string("VIOLATION property=") + h.prop + " replay=" + path;
    }
  }
  double t2 = wall();
  double el = t1 - t0;
  printf("%s: %llu runs (%.0f/hour), %llu distinct, %.3g simulated accesses, %llu switches, %.1f s\n", h.prop, (unsigned long long)T.runs, T.runs / el * 3600, (unsigned long long)T.distinct, (double)T.steps, (unsigned long long)T.switches, el);
  if (verbose) { for (int k = 0; k < 8; k++) printf("  fault %s %llu in %llu runs\n", fired_names[k], (unsigned long long)T.fired[k], (unsigned long long)T.firedruns[k]); for (uint32_t i = 0; i < T.nprobe; i++) printf("  probe %s %llu\n", T.probe[i].name, (unsigned long long)T.probe[i].n); printf("  allocs %llu frees %llu in %llu runs\n", (unsigned long long)T.allocs, (unsigned long long)T.frees, (unsigned long long)T.freeruns); printf("  maxsteps %llu avg %llu contested avg %llu\n", (unsigned long long)T.maxsteps, (unsigned long long)(T.runs ? T.steps / T.runs : 0), (unsigned long long)(T.runs ? T.contested / T.runs : 0)); }
  if (!evid.empty()) {
    FILE *f = fopen(evid.c_str(), "w");
    if (!f) { perror(evid.c_str()); return 2; }
    fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"wall_s\": %.2f,\n \"violations\": %d,\n", h.prop, tier.c_str(), (unsigned long long)seed, t2 - t0, rc == 1 ? 1 : 0);
    fprintf(f, " \"assumptions\": [%s],\n", assume.empty() ? "\"memory model: sequential consistency plus per-thread store buffers for non-seq_cst atomic stores (a subset of x86-TSO); precompiled libc and libstdc++ code runs as atomic steps\"" : assume.c_str());
    fprintf(f, " \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n", (unsigned long long)T.runs, (unsigned long long)T.distinct);
    fprintf(f, "  \"rule\": \"one case = one simulated run with its own seed: workload, tuning knobs, schedule and faults all drawn from one seed; distinct = different hash of (decisions, order of conflicting accesses); non-trivial = threads made conflicting accesses with more than 2 switches, or an I/O or allocation fault fired. Checked: %s\",\n", jesc(h.what).c_str());
    fprintf(f, "  \"samples\": [");
    { std::string sm = st[0].sample; size_t p = 0; bool fst = true; while (p < sm.size()) { size_t q = sm.find('\n', p); if (q == std::string::npos) q = sm.size(); if (q > p) { fprintf(f, "%s\"%s\"", fst ? "" : ", ", sm.substr(p, q - p).c_str()); fst = false; } p = q + 1; } }
    fprintf(f, "],\n  \"runs_per_hour\": %.0f,\n  \"simulated_accesses\": %llu,\n  \"simulated_time_s\": %.6f,\n  \"operations\": %llu,\n  \"context_switches\": %llu,\n  \"conflicting_access_pairs\": %llu,\n  \"heap_blocks_allocated_concurrently\": %llu,\n  \"heap_blocks_freed_concurrently\": %llu,\n  \"repeat_and_replay_checks\": %llu,\n  \"recorded_schedules_that_did_not_replay\": %llu,\n", T.runs / el * 3600, (unsigned long long)T.steps, T.simns * 1e-9, (unsigned long long)T.ops, (unsigned long long)T.switches, (unsigned long long)T.contested, (unsigned long long)T.allocs, (unsigned long long)T.frees, (unsigned long long)T.detchecks, (unsigned long long)T.mism);
    fprintf(f, "  \"runs_by_strategy\": {\"random_walk\": %llu, \"priority_change_points\": %llu, \"conflict_biased\": %llu, \"stalls\": %llu},\n", (unsigned long long)T.strat[0], (unsigned long long)T.strat[1], (unsigned long long)T.strat[2], (unsigned long long)T.strat[3]);
    fprintf(f, "  \"faults_injected\": {"); for (int k = 0; k < 8; k++) fprintf(f, "%s\"%s\": {\"times\": %llu, \"runs\": %llu}", k ? ", " : "", fired_names[k], (unsigned long long)T.fired[k], (unsigned long long)T.firedruns[k]); fprintf(f, "},\n");
    fprintf(f, "  \"probes\": {"); for (uint32_t i = 0; i < T.nprobe; i++) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", jesc(T.probe[i].name).c_str(), (unsigned long long)T.probe[i].n); fprintf(f, "},\n");
    fprintf(f, "  \"real_components\": \"%s\",\n  \"stub_components\": \"%s\",\n  \"workers\": %d", jesc(h.real).c_str(), jesc(h.stub).c_str(), W);
    if (rc == 1) fprintf(f, ",\n  \"violation\": \"%s\"", jesc(vmsg).c_str());
    fprintf(f, "\n }\n}\n");
    fclose(f);
  }
  if (rc == 1) printf("%s\n", vline.c_str());
  fflush(stdout);
  return rc;
}
}  // namespace sim
int main(int argc, char **argv) { int r = sim::main_(argc, argv); fflush(stdout); fflush(stderr); _exit(r); }
