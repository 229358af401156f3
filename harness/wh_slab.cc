// Objects that wormhole gives back to its slabs are marked dead for the simulator until they are handed out again,
// so that use of a reclaimed leaf or meta node is seen although the slab's memory stays mapped.
#include "hutil.h"
#include <map>
using namespace sim;
static std::map<void *, uint64_t> *sz;
uint64_t wh_leaf_events;   // leaves allocated or given back so far
__attribute__((noinline)) SIM_NOINST static void ev() { wh_leaf_events++; }
__attribute__((noinline)) SIM_NOINST static uint64_t size_of(void *s) { Off o; if (!sz) return 0; auto i = sz->find(s); return i == sz->end() ? 0 : i->second; }
extern "C" {
void *__real_slab_create(uint64_t, uint64_t); void *__real_slab_alloc_unsafe(void *); void *__real_slab_alloc_safe(void *);
void __real_slab_free_unsafe(void *, void *); void __real_slab_free_safe(void *, void *); void __real_slab_destroy(void *);
SIM_NOINST void *__wrap_slab_create(uint64_t o, uint64_t b) { void *s = __real_slab_create(o, b); if (s) { Off f; if (!sz) sz = new std::map<void *, uint64_t>; (*sz)[s] = o; } return s; }
SIM_NOINST static void *out(void *s, void *p) { if (p) { uint64_t n = size_of(s); if (n > 8) sim_mark((char *)p + 8, n - 8, 1); } return p; }
SIM_NOINST static void in(void *s, void *p) { uint64_t n = size_of(s); if (n > 8) { if (!sim_mem_ok((char *)p + 8, n - 8)) sim_fail("double-free", "an object was given back to its slab twice"); sim_mark((char *)p + 8, n - 8, 0); } }
void *__wrap_slab_alloc_unsafe(void *s) { return out(s, __real_slab_alloc_unsafe(s)); }
void *__wrap_slab_alloc_safe(void *s) { ev(); if (sim_concurrent()) sim_probe("leaf_split"); return out(s, __real_slab_alloc_safe(s)); }
void __wrap_slab_free_unsafe(void *s, void *p) { in(s, p); __real_slab_free_unsafe(s, p); }
void __wrap_slab_free_safe(void *s, void *p) { ev(); if (sim_concurrent()) sim_probe("leaf_reclaimed"); in(s, p); __real_slab_free_safe(s, p); }
void __wrap_slab_destroy(void *s) { { Off f; if (sz) sz->erase(s); } __real_slab_destroy(s); }
}
