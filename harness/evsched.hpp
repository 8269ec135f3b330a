// Generated schedules for the scheduler of sched.hpp: a list of thread switches at
// instruction or call granularity, and cooperative stand-ins for the locks of
// the library, which switch threads when they block.
#pragma once
#include "sched.hpp"
#include <map>
#include <vector>

using namespace pbt;
// ---- schedule
struct Ev { bool call; unsigned gap; int target; };
static std::vector<Ev> evs; static size_t nextev; static uint64_t left; static uint64_t n_switched, n_blocked, n_mid;
static void next_event() { if (nextev < evs.size()) left = evs[nextev].gap + 1; else sched::stepping = false; }
static void fire(bool mid) {
	Ev e = evs[nextev++]; next_event(); int n = sched::nth, t = sched::self->id;
	for (int k = 0; k < n; k++) { int x = (e.target + k) % n; if (x != t && sched::th[x].st == sched::READY) { n_switched++; if (mid) n_mid++; sched::switch_to(x); return; } }
}
static void at_step(sched::Th &, ucontext_t *) { if (sched::stepping && !evs[nextev].call && --left == 0) fire(true); }
static void at_call() { if (sched::self && nextev < evs.size() && evs[nextev].call && --left == 0) fire(true); }

// ---- lock stand-ins
struct L { int owner = -1; int readers = 0; };
static std::map<const void *, L> locks;
static const int MAIN = 100;
static int me() { return sched::self ? sched::self->id : MAIN; }
[[noreturn]] static void bad(const char *f, ...) { char b[900]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); if (!sched::self) throw Fail{b}; sched::stop_all(b); }
static int lock_ex(const void *m, bool wait) {
	int e = errno; at_call();
	while (locks[m].owner >= 0 || locks[m].readers) { if (!wait) { errno = e; return EBUSY; } if (!sched::self) bad("the main thread waits for a lock nobody will release"); n_blocked++; sched::block_on(m); }
	locks[m].owner = me(); errno = e; return 0;
}
static int lock_sh(const void *m) { int e = errno; at_call(); while (locks[m].owner >= 0) { if (!sched::self) bad("the main thread waits for a lock nobody will release"); n_blocked++; sched::block_on(m); } locks[m].readers++; errno = e; return 0; }
static int unlock(const void *m) {
	int e = errno; auto &l = locks[m];
	if (l.owner >= 0) { if (l.owner != me()) bad("a lock held by another thread was released"); l.owner = -1; } else if (l.readers) l.readers--; else bad("a lock that is not held was released");
	sched::wake_all(m); at_call(); errno = e; return 0;
}
extern "C" {
int vp_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { locks.erase(m); return 0; }
int vp_pthread_mutex_destroy(pthread_mutex_t *m) { if (locks.count(m) && locks[m].owner >= 0) bad("a held lock was destroyed"); locks.erase(m); return 0; }
int vp_pthread_mutex_lock(pthread_mutex_t *m) { return lock_ex(m, true); }
int vp_pthread_mutex_trylock(pthread_mutex_t *m) { return lock_ex(m, false); }
int vp_pthread_mutex_unlock(pthread_mutex_t *m) { return unlock(m); }
int vp_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) { locks.erase(m); return 0; }
int vp_pthread_rwlock_destroy(pthread_rwlock_t *m) { locks.erase(m); return 0; }
int vp_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return lock_sh(m); }
int vp_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return lock_ex(m, true); }
int vp_pthread_rwlock_unlock(pthread_rwlock_t *m) { return unlock(m); }
int vp_pthread_spin_init(pthread_spinlock_t *m, int) { locks.erase((const void *) m); return 0; }
int vp_pthread_spin_destroy(pthread_spinlock_t *m) { locks.erase((const void *) m); return 0; }
int vp_pthread_spin_lock(pthread_spinlock_t *m) { return lock_ex((const void *) m, true); }
int vp_pthread_spin_trylock(pthread_spinlock_t *m) { return lock_ex((const void *) m, false); }
int vp_pthread_spin_unlock(pthread_spinlock_t *m) { return unlock((const void *) m); }
static std::map<const void *, int> onces;   // 1 running, 2 done
int vp_pthread_once(pthread_once_t *o, void (*f)(void)) { at_call(); for (;;) { int &s = onces[o]; if (s == 2) return 0; if (s == 0) { s = 1; f(); onces[o] = 2; sched::wake_all(o); at_call(); return 0; } sched::block_on(o); } }
}
static void gen_schedule(Ctx &c, int nthr, unsigned G) {
	evs.clear(); nextev = 0; unsigned ne = 1 + (unsigned) c.below(c.chance(1, 3) ? 16 : 5);
	for (unsigned i = 0; i < ne; i++) { Ctx::SpanGuard g(c); Ev e; e.call = c.chance(1, 3); e.gap = (unsigned) c.below(e.call ? 6 : G); e.target = (int) c.below(nthr); evs.push_back(e); c.note("after %u more %s: thread %d continues", e.gap, e.call ? "library calls" : "instructions", e.target); }
	sched::on_step = at_step; sched::pick = nullptr; next_event();
}
