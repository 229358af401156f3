// Runtime internals shared between rt.cc and driver.cc
#pragma once
#include "sim.h"
namespace sim {
enum { MAXF = 24 };
enum Status { ST_OK = 0, ST_VIOL = 1, ST_INTERNAL = 2, ST_PHASE = 3 };
enum Probe { NPROBE = 96 };
struct ProbeSlot { char name[48]; uint64_t n; };
struct Result {              // written by the run (in the child), read by the worker
  volatile int status;       // Status
  volatile int done;
  char kind[32];
  char msg[1000];
  uint64_t hash;             // hash of everything that happened
  uint64_t thash;            // trace hash: order of conflicting accesses
  uint64_t steps, switches, contested, simtime_ns;
  uint64_t fired[8];         // casfail, alloc, tsodelay, timejump, io, stall, preempt, pauses
  uint64_t ops, allocs, frees;
  uint64_t undecided;
  uint32_t nents; uint32_t ents_over;
  uint32_t nlog;
  char log[60000];
  uint32_t nprobe;
  ProbeSlot probe[NPROBE];
  uint64_t peak_bytes;
  int nviolations;
  int phase;                 // harnesses with restarts: number of the next process
  uint32_t bloblen; char blob[1 << 18];   // what a phase hands to the next one (durable state, history)
  enum { MAXE = 400000 };
  Ent ents[MAXE];
};
enum { FI_CAS, FI_ALLOC, FI_TSO, FI_TIME, FI_IO, FI_STALL, FI_PREEMPT, FI_PAUSE };
extern const char *fired_names[8];
void rt_init();                       // once per process: arena, fibers
// execute one run in the current process; never returns normally on violation (calls _exit)
void rt_run(const Harness &h, const Spec &s, Result *r);
void rt_result(Result *r);
const char *rt_harness_log();
}
