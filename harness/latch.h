#pragma once
#include "hutil.h"
// one latch implementation under test, as seen by the harness
struct Latch {
  const char *name;
  bool shared;      // has shared (reader) mode
  bool opt;         // has optimistic reads (version / validate)
  bool upgrade;     // a validated version can be upgraded to the exclusive mode
  bool trylock;     // has try-lock
  bool fifo;        // queue based: first come, first served
  void (*create)();
  void (*destroy)();
  void (*thread_begin)(int tid);
  void (*lock)(int tid); void (*unlock)(int tid);
  void (*rlock)(int tid); void (*runlock)(int tid);
  bool (*tryl)(int tid);
  uint64_t (*rbegin)(bool &restart); bool (*rvalid)(uint64_t v); bool (*upg)(int tid, uint64_t v);
  char family = 'O';   // O OptiQL, L BLinkTree, W wormhole
  bool (*tryr)(int tid) = nullptr;
  void (*down)(int tid) = nullptr;   // exclusive to shared, without a gap
};
extern Latch *latches[32]; extern int nlatches;
struct LatchReg { LatchReg(Latch *l) { latches[nlatches++] = l; } };
