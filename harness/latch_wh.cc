// locks of wormhole/lib.c as latch implementations
#include "latch.h"
#define static_assert(...) struct Sa_
typedef int au_dummy;
#undef static_assert
#include "lib.h"
static rwlock *rw; static spinlock *sp; static mutex *mu;
static void tb(int) {}
static void mk1() { rw = new rwlock; rwlock_init(rw); } static void rm1() { delete rw; }
static void lock1(int t) { if (t & 1) rwlock_lock_write_hp(rw); else rwlock_lock_write(rw); }
static void unlock1(int t) { if (t == 2) { rwlock_write_to_read(rw); rwlock_unlock_read(rw); } else rwlock_unlock_write(rw); }
static void rlock1(int) { rwlock_lock_read(rw); } static void runlock1(int) { rwlock_unlock_read(rw); }
static bool tryl1(int t) { return t == 0 ? rwlock_trylock_write(rw) : t == 1 ? rwlock_trylock_write_hp(rw) : t == 2 ? rwlock_trylock_write_nr(rw, 5) : rwlock_trylock_write_hp_nr(rw, 5); }
static bool tryr1(int t) { return t == 0 ? rwlock_trylock_read(rw) : t == 1 ? rwlock_trylock_read_lp(rw) : rwlock_trylock_read_nr(rw, 5); }
static void down1(int) { rwlock_write_to_read(rw); }
static Latch l1 = {"wormhole-rwlock", true, false, false, true, false, mk1, rm1, tb, lock1, unlock1, rlock1, runlock1, tryl1, nullptr, nullptr, nullptr, 'W', tryr1, down1};
static LatchReg reg1(&l1);
static void mk2() { sp = new spinlock; spinlock_init(sp); } static void rm2() { delete sp; }
static void lock2(int) { spinlock_lock(sp); } static void unlock2(int) { spinlock_unlock(sp); } static bool tryl2(int) { return spinlock_trylock(sp); }
static Latch l2 = {"wormhole-spinlock", false, false, false, true, false, mk2, rm2, tb, lock2, unlock2, nullptr, nullptr, tryl2, nullptr, nullptr, nullptr, 'W'};
static LatchReg reg2(&l2);
static void mk3() { mu = new mutex; mutex_init(mu); } static void rm3() { mutex_deinit(mu); delete mu; }
static void lock3(int) { mutex_lock(mu); } static void unlock3(int) { mutex_unlock(mu); } static bool tryl3(int) { return mutex_trylock(mu); }
static Latch l3 = {"wormhole-mutex", false, false, false, true, false, mk3, rm3, tb, lock3, unlock3, nullptr, nullptr, tryl3, nullptr, nullptr, nullptr, 'W'};
static LatchReg reg3(&l3);
