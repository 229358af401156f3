// History recording and a per-key linearizability checker (maps are compositional per key).
#pragma once
#include "sim.h"
#include <unordered_map>
#include <unordered_set>
namespace sim {

enum HK : uint8_t {
  H_GET,      // returned `ret` (0 = absent, else the value)
  H_PUT,      // upsert of `val`; if known: ret 1 = was present before, 0 = was absent
  H_INS,      // insert if absent; ret 1 = inserted, 0 = was present
  H_UPD,      // update if present; ret 1 = updated, 0 = was absent
  H_DEL,      // remove; ret 1 = removed, 0 = was absent
  H_CDEL,     // remove if the value equals `val`; ret 1 removed, 0 not (absent or different)
  H_SEEN,     // scan saw value `ret` for the key (0 = scan covered the key and did not report it)
  H_PUTOLD,   // upsert of `val` that returns the old value in `ret` (0 absent)
  H_HAS,      // ret 1 present / 0 absent
  H_RMW,      // value := old ^ val if present; ret = new value or 0 when absent
  H_RMWB,     // ditto, but only success (1) or absence (0) is observed
  H_XUPS,     // value := old + val (0 when absent) : merge that always writes
};
struct Ev {
  uint8_t kind; uint8_t tid; bool known;   // known: ret is meaningful
  uint64_t inv, res;                       // stamps; res = ~0 while pending
  uint64_t val, ret;
};
struct History {
  std::unordered_map<int64_t, std::vector<Ev>> per;
  std::vector<int64_t> order;
  void reset();
  // returns an index to pass to end()
  size_t begin(int64_t key, HK kind, uint64_t val);
  void end(int64_t key, size_t idx, uint64_t ret, bool known = true);
  void add(int64_t key, HK kind, uint64_t val, uint64_t ret, uint64_t inv, uint64_t res, bool known = true);
  // checks every key; sim_fail("linearizability", ...) on a violation
  void check(const char *what = "history");
  std::string show(int64_t key) const;
};
extern History H;
const char *hk_name(int k);
}
