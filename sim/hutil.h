// Helpers shared by the harnesses of the index structures.
#pragma once
#include "sim.h"
#include "lin.h"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
namespace sim {
// preemption disabled inside (except in spin loops), used to run bulky preparatory work inside a simulated thread
extern "C" void sim_quiet(int delta);
struct Quiet { SIM_NOINST Quiet() { sim_quiet(1); } SIM_NOINST ~Quiet() { sim_quiet(-1); } };
struct Mark { int64_t key; size_t i; };
SIM_NOINST inline Mark hb(int64_t key, HK k, uint64_t val = 0) { return Mark{key, H.begin(key, k, val)}; }
// a result can only be passed on through memory, behind the operation's own stores: these are visible by then
SIM_NOINST inline void he(const Mark &m, uint64_t ret, bool known = true) { sim_drain(); H.end(m.key, m.i, ret, known); }
inline std::string fmt(const char *f, long long a = 0, long long b = 0, long long c = 0) { char x[200]; snprintf(x, sizeof x, f, a, b, c); return x; }

// A scan as observed: keys (model ids, in key order as returned) with values; the scan covered [lo, hi] of the
// model's key order. Checks order and duplicates and records one observation per covered key.
struct ScanObs { uint64_t inv, res; std::vector<std::pair<int64_t, uint64_t>> got; };
// `universe`: every key id any operation of the run may touch, sorted in index order;
// rank = position in it.
void scan_check(const ScanObs &o, const std::vector<int64_t> &universe, size_t lo_rank, size_t hi_rank, bool reverse = false, const char *what = "scan");
void snapshot_check(const ScanObs &o, const std::vector<int64_t> &universe, size_t lo_rank, size_t hi_rank, const char *what = "scan");
}
