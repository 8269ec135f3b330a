// Controlled scheduler: several OS threads of which exactly one runs at a time.
// Code in the section "vplib" (the code under test) is single-stepped, and a
// hook called at each of its instruction boundaries may hand the processor to
// another thread.  Calls leaving that section are stepped over at full speed.
#pragma once
#include "../engine/pbt.hpp"
#include <ucontext.h>
#include <pthread.h>
#include <linux/futex.h>
#include <sys/syscall.h>

namespace sched {

static const int MAXT = 8;
enum St { UNUSED, READY, BLOCKED, DONE };
struct Th { int id; St st; pthread_t pt; std::atomic<int> go; const void *waiting; ucontext_t *uc; std::function<void()> body; uint64_t steps; };
static Th *th = new Th[MAXT]; static int nth;
static std::atomic<int> *main_go = new std::atomic<int>;   // both replaced when a run is abandoned with its threads still around
static int cur;                                     // running thread
static uint64_t nsteps, since_switch, max_steps = 400000, nswitch;
static std::string failure; static bool failed, overrun;
static bool stepping = true;                        // false: run freely from here on (threads still change at blocking points)
static __thread Th *self;
static std::function<void(Th &, ucontext_t *)> on_step;  // at each instruction boundary of code under test
static std::function<int(Th &)> pick;               // next thread when the current one cannot go on; -1: none

static void fwait(std::atomic<int> &w) { while (!w.load()) syscall(SYS_futex, &w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); w.store(0); }
static bool fwait_for(std::atomic<int> &w, int sec) { struct timespec ts = { sec, 0 }; while (!w.load()) if (syscall(SYS_futex, &w, FUTEX_WAIT_PRIVATE, 0, &ts, nullptr, 0) < 0 && errno == ETIMEDOUT) return false; w.store(0); return true; }
static void fwake(std::atomic<int> &w) { w.store(1); syscall(SYS_futex, &w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void switch_to(int t) { // from a thread
	if (t == self->id) return;
	int e = errno; nswitch++; since_switch = 0; cur = t; fwake(th[t].go); fwait(self->go); errno = e;
}
[[noreturn]] static void stop_all(const char *msg, bool over = false) {
	if (!failed && !overrun) { if (over) overrun = true; else { failed = true; failure = msg; } }
	fwake(*main_go); for (;;) pause();
}
static int first_ready(int after) { for (int k = 1; k <= nth; k++) { int t = (after + k) % nth; if (th[t].st == READY) return t; } return -1; }
// The current thread cannot continue (blocked or done).
static void reschedule() {
	int t = pick ? pick(*self) : -1; if (t < 0 || th[t].st != READY) t = first_ready(self->id);
	if (t < 0) { bool all = true; for (int i = 0; i < nth; i++) if (th[i].st != DONE) all = false; if (all) { fwake(*main_go); return; } stop_all("deadlock: every remaining thread waits for a lock"); }
	if (self->st == DONE) { cur = t; since_switch = 0; fwake(th[t].go); } else switch_to(t);
}
static void block_on(const void *o) { self->st = BLOCKED; self->waiting = o; reschedule(); }
static void wake_all(const void *o) { for (int i = 0; i < nth; i++) if (th[i].st == BLOCKED && th[i].waiting == o) th[i].st = READY; }

// ---- stepping
extern "C" { extern char __start_vplib[] __attribute__((weak)), __stop_vplib[] __attribute__((weak)); extern char __start___rseq_failure[] __attribute__((weak)), __stop___rseq_failure[] __attribute__((weak)); extern char vp_scall_begin[], vp_scall_ret[], vp_scall_end[], vp_rearm[]; long vp_scall(long (*fn)(void *), void *a); __thread uint64_t vp_saved_ret __attribute__((tls_model("local-exec"))); }
__asm__ (
	".text\n.globl vp_scall, vp_scall_begin, vp_scall_ret, vp_scall_end, vp_rearm\n"
	"vp_scall_begin:\nvp_scall:\npush %rbp\nmov %rsp, %rbp\nand $-16, %rsp\nmov %rdi, %rax\nmov %rsi, %rdi\npushfq\norq $0x100, (%rsp)\npopfq\ncall *%rax\n"
	"vp_scall_ret:\npushfq\nandq $~0x100, (%rsp)\npopfq\nmov %rbp, %rsp\npop %rbp\nret\nvp_scall_end:\n"
	"vp_rearm:\nsub $8, %rsp\npush %rax\nmov %fs:vp_saved_ret@tpoff, %rax\nmov %rax, 8(%rsp)\npop %rax\npushfq\norq $0x100, (%rsp)\npopfq\nret\nvp_rearm_end:\n");
static inline bool in_lib(uintptr_t p) { return (p >= (uintptr_t) __start_vplib && p < (uintptr_t) __stop_vplib) || (p >= (uintptr_t) __start___rseq_failure && p < (uintptr_t) __stop___rseq_failure); }
static void trap(int, siginfo_t *, void *u) {
	ucontext_t *uc = (ucontext_t *) u; uintptr_t ip = (uintptr_t) uc->uc_mcontext.gregs[REG_RIP];
	if (!self || !stepping) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; return; }
	if (in_lib(ip)) {
		int e = errno;
		if (++nsteps > max_steps) stop_all("", true);
		since_switch++; self->steps++; self->uc = uc;
		if (on_step) on_step(*self, uc);
		self->uc = nullptr; errno = e; return;
	}
	if (ip >= (uintptr_t) vp_scall_begin && ip < (uintptr_t) vp_scall_end) { if (ip == (uintptr_t) vp_scall_ret) uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; return; }
	uint64_t *sp = (uint64_t *) uc->uc_mcontext.gregs[REG_RSP];
	if (in_lib(*sp)) { vp_saved_ret = *sp; *sp = (uint64_t) vp_rearm; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; return; }
	uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; // left for good (tail call)
}
static void *start(void *p) { self = (Th *) p; fwait(self->go); self->body(); self->st = DONE; reschedule(); return nullptr; }

static void init() {
	struct sigaction sa = {}; sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO; sigemptyset(&sa.sa_mask); sigaction(SIGTRAP, &sa, nullptr);
}
// Runs the bodies to completion under the hooks.  Returns false when cut short by the step limit.
static bool run(std::vector<std::function<void()>> bodies, int first) {
	static bool pinned; if (!pinned) { pinned = true; cpu_set_t m; if (!sched_getaffinity(0, sizeof m, &m)) { int n = CPU_COUNT(&m), k = (int) (getpid() % n); for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &m) && k-- == 0) { cpu_set_t o; CPU_ZERO(&o); CPU_SET(i, &o); sched_setaffinity(0, sizeof o, &o); break; } } }
	nth = (int) bodies.size(); nsteps = since_switch = nswitch = 0; failed = overrun = false; stepping = true; *main_go = 0;
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 << 10);
	for (int i = 0; i < nth; i++) { th[i].id = i; th[i].st = READY; th[i].go = 0; th[i].uc = nullptr; th[i].steps = 0; th[i].waiting = nullptr; th[i].body = bodies[i]; if (pthread_create(&th[i].pt, &at, start, &th[i])) { perror("pthread_create"); _exit(99); } }
	pthread_attr_destroy(&at);
	cur = first; fwake(th[first].go); if (!fwait_for(*main_go, 30)) overrun = true;
	if (overrun || failed) { th = new Th[MAXT]; main_go = new std::atomic<int>; }
	if (overrun) return false;
	if (failed) throw pbt::Fail{failure};
	for (int i = 0; i < nth; i++) pthread_join(th[i].pt, nullptr);
	return true;
}
template<class F, class A> static long call(F fn, A *a) { return vp_scall((long (*)(void *)) fn, (void *) a); }

} // namespace sched
