// compiled once per latch variant
#include "latch.h"
#include <new>
#if V == 1
#include "latches/MCS.h"
static mcs::MCSLock *L; static mcs::MCSQNode *q[16];
static void tb(int t) { q[t] = new mcs::MCSQNode(); }
static void mk() { L = new mcs::MCSLock(); } static void rm() { delete L; }
static void lock(int t) { L->lock(q[t]); } static void unlock(int t) { L->unlock(q[t]); }
static bool tryl(int t) { return L->try_lock(q[t]); }
static Latch l = {"mcs", false, false, false, true, true, mk, rm, tb, lock, unlock, nullptr, nullptr, tryl, nullptr, nullptr, nullptr};
#elif V == 2   // versioned latch, centralised
#define omcs_impl omcs_central
#include "latches/OMCSImpl.h"
static omcs_impl::OMCSLock *L; static uint64_t ver[16];
static void tb(int) {} static void mk() { L = new omcs_impl::OMCSLock(); } static void rm() { delete L; }
static void lock(int t) { ver[t] = L->lock(); } static void unlock(int t) { if (t & 1) L->unlock(ver[t]); else L->unlock(); }
static uint64_t rb(bool &r) { return L->try_begin_read(r); } static bool rv(uint64_t v) { return L->validate_read(v); }
static bool upg(int t, uint64_t v) { ver[t] = v; return L->try_lock(v); }
static Latch l = {"omcs-central", false, true, true, false, false, mk, rm, tb, lock, unlock, nullptr, nullptr, nullptr, rb, rv, upg};
#elif V == 3   // versioned latch with a queue
#define omcs_impl omcs_queue
#include "latches/OMCSImpl.h"
static omcs_impl::OMCSLock *L; static omcs_impl::OMCSQNode *q[16];
static void tb(int t) { q[t] = new omcs_impl::OMCSQNode(); } static void mk() { L = new omcs_impl::OMCSLock(); } static void rm() { delete L; }
static void lock(int t) { if (t & 1) { L->lock(q[t]); } else { L->lock_begin(q[t]); L->lock_turn_off_opread(); } } static void unlock(int t) { L->unlock(q[t]); }
static uint64_t rb(bool &r) { return L->try_begin_read(r); } static bool rv(uint64_t v) { return L->validate_read(v); }
static bool upg(int t, uint64_t v) { return L->try_lock(q[t], v); }
static Latch l = {"omcs-queue", false, true, true, false, true, mk, rm, tb, lock, unlock, nullptr, nullptr, nullptr, rb, rv, upg};
#elif V == 4   // the same with opportunistic reads during handover, queue nodes by number
#define omcs_impl omcs_opread
#define offset omcs_opread_offset
#define OMCS_OFFSET
#define OMCS_OP_READ
#define OMCS_LOCK
#include "latches/OMCSOffset.h"
static omcs_impl::OMCSLock *L; static offset::QNode *q[16];
static void tb(int t) { offset::reset_tls_qnodes(); q[t] = offset::get_qnode(t & 1); }
static void mk() { sim::Off o; omcs_impl::base_qnode = (offset::QNode *)aligned_alloc(256, 64 * sizeof(offset::QNode)); offset::next_node = 0; sim::sim_on(o.m); o.m = sim::sim_off(); L = new omcs_impl::OMCSLock(); }
static void rm() { delete L; }
static void lock(int t) {
  if (t & 1) { L->lock(q[t]); return; }
  if (L->lock_begin(q[t])) L->lock_turn_off_opread();
}
static void unlock(int t) { L->unlock(q[t]); }
static uint64_t rb(bool &r) { return L->try_begin_read(r); } static bool rv(uint64_t v) { return L->validate_read(v); }
static bool upg(int t, uint64_t v) { return L->try_lock(q[t], v); }
static Latch l = {"omcs-opread", false, true, true, false, true, mk, rm, tb, lock, unlock, nullptr, nullptr, nullptr, rb, rv, upg};
#elif V == 5 || V == 6   // centralised reader-writer latches
#if V == 5
#define mcsrw mcsrw_wp
#define RWLOCK_WRITER_PREFERENCE
#else
#define mcsrw mcsrw_rp
#define RWLOCK_READER_PREFERENCE
#endif
#include "latches/MCSRW.h"
static mcsrw::MCSRWLock *L;
static void tb(int) {} static void mk() { L = new mcsrw::MCSRWLock(); } static void rm() { delete L; }
static void lock(int t) { L->lock(); } static void unlock(int t) { L->unlock(); } static void rlock(int t) { L->read_lock(); } static void runlock(int t) { L->read_unlock(); }
static Latch l = {V == 5 ? "rw-central-writer-pref" : "rw-central-reader-pref", true, false, false, false, false, mk, rm, tb, lock, unlock, rlock, runlock, nullptr, nullptr, nullptr, nullptr};
#elif V == 7 || V == 8   // reader-writer queue latches
#if V == 7
#define mcsrw mcsrw_q
#define RWLOCK_WRITER_PREFERENCE
#include "latches/MCSRW.h"
static mcsrw::MCSRWQNode *q[16];
static void tb(int t) { q[t] = new mcsrw::MCSRWQNode(); }
static void base() {}
#else
#define mcsrw mcsrw_qo
#define offset mcsrw_offset
#define RWLOCK_WRITER_PREFERENCE
#define MCSRW_LOCK
#define OMCS_OFFSET
#include "latches/OMCSOffset.h"
static mcsrw::MCSRWQNode *q[16];
static void tb(int t) { offset::reset_tls_qnodes(); q[t] = offset::get_qnode(t & 3); }
static void base() { sim::Off o; mcsrw::base_qnode = (offset::QNode *)aligned_alloc(256, 64 * sizeof(offset::QNode)); offset::next_node = 0; }
#endif
static mcsrw::MCSRWLock *L;
static void mk() { base(); L = new mcsrw::MCSRWLock(); } static void rm() { delete L; }
static void lock(int t) { L->lock(q[t]); } static void unlock(int t) { L->unlock(q[t]); } static void rlock(int t) { L->read_lock(q[t]); } static void runlock(int t) { L->read_unlock(q[t]); }
static Latch l = {V == 7 ? "mcsrw-queue" : "mcsrw-queue-numbered", true, false, false, false, true, mk, rm, tb, lock, unlock, rlock, runlock, nullptr, nullptr, nullptr, nullptr};
#elif V == 9
#include "latches/STDRW.h"
static std_lock::STDRWLock *L;
static void tb(int) {} static void mk() { L = new std_lock::STDRWLock(); } static void rm() { delete L; }
static void lock(int t) { L->lock(); } static void unlock(int t) { L->unlock(); } static void rlock(int t) { L->read_lock(); } static void runlock(int t) { L->read_unlock(); }
static Latch l = {"stdrw", true, false, false, false, false, mk, rm, tb, lock, unlock, rlock, runlock, nullptr, nullptr, nullptr, nullptr};
#elif V == 10 || V == 11
#include BLATCH
#if V == 10
typedef RSpinSharedLatch LT;
#else
typedef StandardSharedMutex LT;
#endif
static LT *L;
static void tb(int) {} static void mk() { L = new LT(); } static void rm() { delete L; }
static void lock(int t) { L->latch_exclusive(); } static void unlock(int t) { L->unlatch_exclusive(); } static void rlock(int t) { L->latch_shared(); } static void runlock(int t) { L->unlatch_shared(); }
static Latch l = {V == 10 ? "blink-spin" : "blink-mutex", true, false, false, false, false, mk, rm, tb, lock, unlock, rlock, runlock, nullptr, nullptr, nullptr, nullptr, 'L'};
#endif
static LatchReg reg(&l);
