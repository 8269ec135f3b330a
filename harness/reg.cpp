// C07, C08, C10: registration lifecycle, exposed features and CPU/node queries,
// against a simulated kernel and C library (or the real ones for C10-real).
// The library's constructors are not run at start-up (their section is renamed)
// so that every case, in a process of its own, can initialise it in a chosen environment.
#include "evsched.hpp"
#include <rseq/rseq.h>
#include <rseq/mempool.h>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <dlfcn.h>
#include <sys/auxv.h>
#include <sys/syscall.h>
#include <linux/futex.h>
using namespace pbt;

extern "C" { typedef void (*initfn)(int, char **, char **); extern initfn __start_vp_init_array[] __attribute__((weak)), __stop_vp_init_array[] __attribute__((weak)); extern initfn __start_vp_fini_array[] __attribute__((weak)), __stop_vp_fini_array[] __attribute__((weak)); }
static void run_dtors() { for (initfn *f = __stop_vp_fini_array; f > __start_vp_fini_array;) { f--; if (*f && (intptr_t) *f != -1) ((void (*)()) *f)(); } }
static void run_ctors() { for (initfn *f = __start_vp_init_array; f < __stop_vp_init_array; f++) if (*f && (intptr_t) *f != -1) (*f)(0, nullptr, nullptr); }

struct Aborted { const char *why; };
struct SysRseq { void *addr; uint32_t len; int flags; uint32_t sig; int ret, err; };
struct KernReg { void *addr = nullptr; uint32_t len = 0, sig = 0; };
static __thread KernReg kreg; static __thread int tcpu, tnode, tcid;

static struct Env {
	bool real = false;
	bool rseq = true; unsigned long F = 0, A = 0;          // kernel: rseq(2) present, advertised feature size and alignment
	bool has_off = false, has_size = false, has_flags = false; ptrdiff_t off = 0; unsigned size = 0, flags = 0;   // C library symbols
	int inject = 0;                                         // errno for the next rseq registration call
	int getcpu_err = 0; bool getcpu_partial = false; int sched_err = 0;
	std::vector<SysRseq> log; unsigned other = 0, queries = 0;
	unsigned eff() const { return F ? (unsigned) F : 20; }
} K;
// a C library's area, for environments in which the C library owns the registration
static __thread char libc_mem[1152] __attribute__((aligned(64)));
#define libc_abi (*(struct rseq_abi *) (libc_mem + 64))

static int kern_rseq(void *addr, uint32_t len, int flags, uint32_t sig) {
	int e = 0; bool probe = !addr && !len && !flags && !sig; unsigned alloc = 32;
	if (!K.rseq) e = ENOSYS;
	else if (K.inject && !probe) e = K.inject;
	else if (flags & 1) { if (flags & ~1) e = EINVAL; else if (!kreg.addr || kreg.addr != addr) e = EINVAL; else if (kreg.len != len) e = EINVAL; else if (kreg.sig != sig) e = EPERM;
		if (!e) { auto *a = (volatile struct rseq_abi *) addr; a->cpu_id_start = 0; a->cpu_id = (uint32_t) RSEQ_ABI_CPU_ID_UNINITIALIZED; if (kreg.len >= 24 && K.eff() >= 24) a->node_id = 0; if (K.eff() >= 28) a->mm_cid = 0; kreg = KernReg(); } }
	else if (flags) e = EINVAL;
	else if (kreg.addr) e = (kreg.addr != addr || kreg.len != len) ? EINVAL : kreg.sig != sig ? EPERM : EBUSY;
	else if (!K.F) { if (len != alloc || (uintptr_t) addr % 32) e = EINVAL; }                  // kernels before extensible rseq
	else { unsigned al = K.A ? (unsigned) K.A : 32; if (len < alloc || (len == alloc && (uintptr_t) addr % alloc) || (len != alloc && ((uintptr_t) addr % al || len < K.F))) e = EINVAL; }
	if (!e && !flags) {
		if (!addr) e = EFAULT;
		else { kreg = {addr, len, sig}; auto *a = (volatile struct rseq_abi *) addr; a->cpu_id_start = (uint32_t) tcpu; a->cpu_id = (uint32_t) tcpu; if (K.eff() >= 24) a->node_id = (uint32_t) tnode; if (K.eff() >= 28) a->mm_cid = (uint32_t) tcid; }
	}
	if (probe) K.queries++; else K.log.push_back({addr, len, flags, sig, e ? -1 : 0, e});
	if (e) { errno = e; return -1; }
	return 0;
}
static int conc_rseq(void *, uint32_t, int, uint32_t);
extern "C" {
long vp_syscall(long nr, ...) {
	long a[6]; va_list ap; va_start(ap, nr); for (auto &x : a) x = va_arg(ap, long); va_end(ap);
	if (K.real) return syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
	if (nr == SYS_rseq && sched::self) { at_call(); int r = conc_rseq((void *) a[0], (uint32_t) a[1], (int) a[2], (uint32_t) a[3]); int e = errno; at_call(); errno = e; return r; }
	if (nr == SYS_rseq) return kern_rseq((void *) a[0], (uint32_t) a[1], (int) a[2], (uint32_t) a[3]);
	if (nr == SYS_getcpu) { if (K.getcpu_err) { if (K.getcpu_partial && a[0]) *(unsigned *) a[0] = (unsigned) tcpu; errno = K.getcpu_err; return -1; } if (a[0]) *(unsigned *) a[0] = (unsigned) tcpu; if (a[1]) *(unsigned *) a[1] = (unsigned) tnode; return 0; }
	K.other++; return syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int vp_sched_getcpu(void) { if (K.real) return sched_getcpu(); if (K.sched_err) { errno = K.sched_err; return -1; } return tcpu; }
int vp_getcpu(unsigned *c, unsigned *n) { return (int) vp_syscall(SYS_getcpu, c, n, 0L, 0L, 0L, 0L); }
unsigned long vp_getauxval(unsigned long t) { if (sched::self) at_call(); if (K.real) return getauxval(t); if (t == 27) return K.F; if (t == 28) return K.A; return getauxval(t); }
void *vp_dlsym(void *h, const char *n) {
	if (sched::self) at_call();
	if (K.real) return dlsym(RTLD_DEFAULT, n);
	if (!strcmp(n, "__rseq_offset")) return K.has_off ? &K.off : nullptr; if (!strcmp(n, "__rseq_size")) return K.has_size ? &K.size : nullptr; if (!strcmp(n, "__rseq_flags")) return K.has_flags ? &K.flags : nullptr;
	return dlsym(RTLD_DEFAULT, n);
}
static void conc_abort();
void vp_abort(void) { if (sched::self) conc_abort(); throw Aborted{"abort"}; }
void vp___assert_fail(const char *x, const char *, unsigned, const char *) { if (sched::self) bad("the library terminated a correct program (assertion %s)", x); throw Aborted{x}; }
}

// ---- threads, one command at a time
struct T { pthread_t pt; std::atomic<int> go{0}, done{0}; std::function<void()> f; bool quit = false; std::string fail; bool aborted = false; };
static void fwait(std::atomic<int> &w) { while (!w.load()) syscall(SYS_futex, &w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); w.store(0); }
static void fwake(std::atomic<int> &w) { w.store(1); syscall(SYS_futex, &w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void *tmain(void *p) { T &t = *(T *) p; for (;;) { fwait(t.go); if (t.quit) return nullptr; try { t.f(); } catch (Fail &f) { t.fail = f.msg; } catch (Aborted &) { t.aborted = true; } fwake(t.done); } }
struct Threads { std::vector<std::unique_ptr<T>> v; Threads(int n) { for (int i = 0; i < n; i++) { v.emplace_back(new T); pthread_create(&v[i]->pt, nullptr, tmain, v[i].get()); } }
	// runs f on thread i; returns true if the library terminated the process
	bool run(int i, std::function<void()> f) { T &t = *v[i]; t.f = f; t.aborted = false; t.fail.clear(); fwake(t.go); fwait(t.done); if (!t.fail.empty()) throw Fail{t.fail}; return t.aborted; } };

static std::string env_str() { char b[300]; snprintf(b, sizeof b, "kernel rseq %s, feature size %lu align %lu; C library symbols%s%s%s size %u offset %td flags %u", K.rseq ? "present" : "absent", K.F, K.A, K.has_off ? " offset" : "", K.has_size ? " size" : "", K.has_flags ? " flags" : "", K.size, K.off, K.flags); return b; }
static void gen_env(Ctx &c, bool owned_bias) {
	K = Env(); K.rseq = !c.chance(1, 8);
	switch (c.weighted({3, 4, 2, 2})) { case 0: K.F = 0; break; case 1: { static const unsigned f[] = {28, 20, 24, 32, 33, 36, 40, 48, 64}; K.F = f[c.below(9)]; break; } case 2: K.F = 20 + c.below(45); break; default: K.F = 20 + c.below(1005); break; }
	if (K.F) { K.A = 32; while (K.A < K.F) K.A <<= 1; if (c.chance(1, 4) && K.A > 32) K.A = 32; } 
	bool own = c.chance(owned_bias ? 3 : 1, owned_bias ? 4 : 3);  // library owns
	if (own) { unsigned m = (unsigned) c.below(8); K.has_off = m & 1; K.has_size = m & 2; K.has_flags = m & 4; K.size = m == 7 ? 0 : (unsigned) (c.coin() ? 32 : c.below(1100)); }
	else { K.has_off = K.has_size = K.has_flags = true; static const unsigned s[] = {20, 32, 28, 24, 33, 40, 64, 256}; K.size = c.chance(1, 3) ? 1 + (unsigned) c.below(1024) : s[c.below(8)]; }
	K.off = (char *) &libc_abi - (char *) __builtin_thread_pointer(); K.flags = c.chance(1, 2) ? 0 : (unsigned) c.below(16);
	c.note("%s", env_str().c_str());
}
static bool libc_owns() { return K.has_off && K.has_size && K.has_flags && K.size; }
static void set_where(Ctx &c) { tcpu = c.chance(1, 4) ? (int) c.below(65536) : (int) c.below(9); tnode = (int) c.below(c.coin() ? 3 : 1024); tcid = (int) c.below(64); }

static void check_reads(const char *when) { // on the registered thread (library owned)
	if (rseq_current_cpu_raw() != tcpu) throw Fail{std::string(when) + ": raw CPU query does not return the current CPU"};
	if (rseq_current_cpu() != (uint32_t) tcpu || rseq_cpu_start() != (uint32_t) tcpu) throw Fail{std::string(when) + ": CPU query does not return the current CPU"};
	if (rseq_node_id_available() && rseq_current_node_id() != (uint32_t) tnode) throw Fail{std::string(when) + ": node query does not return the current node"};
	if (rseq_mm_cid_available() && rseq_current_mm_cid() != (uint32_t) tcid) throw Fail{std::string(when) + ": concurrency id query does not return the current id"};
}

static void C07(Ctx &c) {
	gen_env(c, true); int n = 1 + (int) c.below(4); Threads th(n); bool early = c.chance(1, 4); if (!early) run_ctors();
	bool owned = libc_owns(), success = false; std::vector<char> reg(n, 0); std::vector<void *> addr(n, nullptr); std::vector<uint32_t> len(n, 0); unsigned rereg = 0, refused = 0, nreg = 0; unsigned ops = 2 + (unsigned) c.below(12);
	for (int i = 0; i < n; i++) { int a, b, d; set_where(c); a = tcpu; b = tnode; d = tcid; th.run(i, [=] { tcpu = a; tnode = b; tcid = d; }); }
	for (unsigned k = 0; k < ops; k++) {
		Ctx::SpanGuard g(c); int t = (int) c.below(n); bool want_reg = reg[t] ? c.chance(1, 8) : !c.chance(1, 8); static const int es[] = {EINVAL, EPERM, EFAULT, EBUSY, ENOMEM, EACCES, ENOSYS}; K.inject = c.chance(1, 6) ? es[c.below(7)] : 0; K.log.clear(); K.other = 0;
		c.note("thread %d: %s%s%s", t, want_reg ? "register" : "unregister", reg[t] ? " (is registered)" : "", K.inject ? " (kernel refuses)" : "");
		int ret = 77; bool died; void *tp_area = nullptr;
		if (want_reg) died = th.run(t, [&] { ret = rseq_register_current_thread(); tp_area = (char *) __builtin_thread_pointer() + rseq_offset; });
		else { bool fresh = early && k == 0; (void) fresh; died = th.run(t, [&] { ret = rseq_unregister_current_thread(); tp_area = (char *) __builtin_thread_pointer() + rseq_offset; }); }
		if (owned) { PBT_CHECK(c, !died, "process terminated although the C library owns the registration (%s)", env_str().c_str()); if (!(early && !want_reg && k == 0 && K.log.size())) { PBT_CHECK(c, ret == 0, "%s returned %d although the C library owns the registration (%s)", want_reg ? "register" : "unregister", ret, env_str().c_str()); PBT_CHECK(c, K.log.empty(), "rseq(2) was called although the C library owns the registration (%s)", env_str().c_str()); } continue; }
		if (want_reg) {
			PBT_CHECK(c, K.log.size() == 1 || died, "registering made %zu rseq(2) calls (%s)", K.log.size(), env_str().c_str());
			SysRseq s = K.log.empty() ? SysRseq() : K.log.back();
			if (s.err) {
				refused++;
				PBT_CHECK(c, s.err == EBUSY || K.inject || !K.rseq || reg[t], "the kernel refuses the library's registration request with errno %d: address %p length %u flags %d signature 0x%x (%s)", s.err, s.addr, s.len, s.flags, s.sig, env_str().c_str());
				PBT_CHECK(c, died || ret != 0, "a registration refused by the kernel (errno %d) was reported as success (%s)", s.err, env_str().c_str());
				if (!success) PBT_CHECK(c, !died, "a refused first registration terminated the process (%s)", env_str().c_str());
				if (success && !reg[t]) PBT_CHECK(c, died, "a refused registration after a successful one did not terminate the process (%s)", env_str().c_str());
				if (died) { c.label("terminated on incoherent refusal"); break; }
				if (!success) PBT_CHECK(c, rseq_size == 0, "size %u exposed although no registration succeeded (%s)", rseq_size, env_str().c_str());
			} else {
				PBT_CHECK(c, !died && ret == 0, "a registration accepted by the kernel was reported as failure (%d) (%s)", ret, env_str().c_str());
				PBT_CHECK(c, s.addr == tp_area, "the registered area %p is not the one exposed, %p (%s)", s.addr, tp_area, env_str().c_str());
				PBT_CHECK(c, s.sig == RSEQ_SIG, "registered with signature 0x%x (%s)", s.sig, env_str().c_str());
				for (int i = 0; i < n; i++) if (i != t && addr[i] && (char *) addr[i] < (char *) s.addr + s.len && (char *) s.addr < (char *) addr[i] + len[i]) c.fail("two threads registered overlapping areas (%s)", env_str().c_str());
				if (addr[t]) rereg++; addr[t] = s.addr; len[t] = s.len; reg[t] = 1; success = true; nreg++;
				PBT_CHECK(c, s.len >= rseq_size && s.len >= 32, "registered %u bytes while exposing a feature size of %u (%s)", s.len, rseq_size, env_str().c_str());
				PBT_CHECK(c, !th.run(t, [] { check_reads("after registration"); }), "a query after registration terminated the process (%s)", env_str().c_str());
			}
		} else {
			PBT_CHECK(c, !died, "unregistering terminated the process (%s)", env_str().c_str());
			PBT_CHECK(c, K.log.size() <= 1, "unregistering made %zu rseq(2) calls (%s)", K.log.size(), env_str().c_str());
			if (reg[t] && !K.inject) { PBT_CHECK(c, K.log.size() == 1 && !K.log[0].err, "the kernel refuses to release the thread's registration, errno %d: address %p length %u flags %d signature 0x%x, registered %p length %u (%s)", K.log.empty() ? 0 : K.log[0].err, K.log.empty() ? nullptr : K.log[0].addr, K.log.empty() ? 0 : K.log[0].len, K.log.empty() ? 0 : K.log[0].flags, K.log.empty() ? 0 : K.log[0].sig, addr[t], len[t], env_str().c_str());
				PBT_CHECK(c, ret == 0, "a successful unregistration was reported as failure (%s)", env_str().c_str()); reg[t] = 0;
				PBT_CHECK(c, !th.run(t, [] { if (rseq_current_cpu_raw() >= 0) throw Fail{"the raw CPU query gives a CPU number after unregistration"}; if (rseq_current_cpu() != (uint32_t) tcpu) throw Fail{"the CPU query is wrong after unregistration"}; }), "a query terminated the process");
			} else if (!(early && !success && K.log.empty())) { refused++; PBT_CHECK(c, ret != 0, "an unregistration refused by the kernel was reported as success (%s)", env_str().c_str()); }
		}
		for (int i = 0; i < n; i++) if (reg[i]) PBT_CHECK(c, !th.run(i, [] { if (!kreg.addr) throw Fail{"a thread's registration disappeared"}; check_reads("later"); }), "a query terminated the process (%s)", env_str().c_str());
	}
	// the end of the library (unloading, or exit while other threads run) leaves the C library's registration usable
	if (owned && !early && c.chance(1, 3)) { ptrdiff_t o = rseq_offset; unsigned z = rseq_size, fl = rseq_flags; c.note("library terminated"); K.log.clear(); run_dtors(); PBT_CHECK(c, K.log.empty(), "terminating the library called rseq(2) although the C library owns the registration (%s)", env_str().c_str()); PBT_CHECK(c, rseq_offset == o && rseq_size == z && rseq_flags == fl, "terminating the library changed offset %td size %u to offset %td size %u although the C library owns the registration (%s)", o, z, rseq_offset, rseq_size, env_str().c_str()); c.label("library terminated"); }
	if (nreg > 1 || refused || owned) c.nontrivial();
	c.label(owned ? "C library owns" : "library owns"); c.label("registrations", nreg); c.label("registrations again after unregistering", rereg); c.label("refused by the kernel", refused); if (K.F > 32) c.label("kernel feature size above 32");
}

static void C08(Ctx &c) {
	gen_env(c, false); bool owned = libc_owns();
	// before anything ran, no feature may appear available
	PBT_CHECK(c, !rseq_node_id_available() && !rseq_mm_cid_available(), "features appear available before initialisation");
	bool early = c.chance(1, 5); if (!early) run_ctors();
	Threads th(2); int fail_first = c.chance(1, 3) ? EPERM : 0;
	auto chk = [&](unsigned size, const char *when) {
		if (rseq_size != size) c.fail("%s: exposed size is %u, expected %u (%s)", when, rseq_size, size, env_str().c_str());
		bool node = (int) size >= 24, cid = (int) size >= 28;
		PBT_CHECK(c, rseq_node_id_available() == node, "%s: node id availability is %d with size %u (%s)", when, rseq_node_id_available(), size, env_str().c_str());
		PBT_CHECK(c, rseq_mm_cid_available() == cid, "%s: concurrency id availability is %d with size %u (%s)", when, rseq_mm_cid_available(), size, env_str().c_str());
		PBT_CHECK(c, rseq_available(RSEQ_AVAILABLE_QUERY_LIBC) == owned, "%s: C library availability reported as %d (%s)", when, !owned, env_str().c_str());
		bool kq; try { kq = rseq_available(RSEQ_AVAILABLE_QUERY_KERNEL); } catch (Aborted &) { c.fail("%s: kernel availability query terminated the process (%s)", when, env_str().c_str()); }
		PBT_CHECK(c, kq == K.rseq, "%s: kernel availability reported as %d (%s)", when, kq, env_str().c_str());
		unsigned q = 2 + (unsigned) c.below(1000); PBT_CHECK(c, !rseq_available(q), "unknown availability query %u answered true", q);
		PBT_CHECK(c, rseq_flags == (owned ? K.flags : 0), "%s: exposed flags 0x%x (%s)", when, rseq_flags, env_str().c_str());
		if (owned) PBT_CHECK(c, rseq_offset == K.off, "%s: exposed offset %td, the C library's is %td (%s)", when, rseq_offset, K.off, env_str().c_str());
	};
	unsigned want = owned ? (K.size == 20 || K.size == 32 ? std::min(32u, K.eff()) : K.size) : 0;
	if (!early) { chk(want, "after initialisation"); if (c.coin()) { run_ctors(); chk(want, "after a second initialisation"); } }
	unsigned k = 1 + (unsigned) c.below(6); bool ok_before = false;
	for (unsigned i = 0; i < k; i++) {
		int t = (int) c.below(2), ret = 0; K.inject = fail_first && i == 0 ? fail_first : 0; K.log.clear(); bool wasreg = false; th.run(t, [&] { wasreg = kreg.addr; }); if (wasreg) { th.run(t, [&] { ret = rseq_unregister_current_thread(); }); if (ret) c.discard(); chk(want, "after unregistering a thread"); continue; }
		c.note("register thread %d%s", t, K.inject ? " (kernel refuses)" : ""); ptrdiff_t off = 0;
		bool died = th.run(t, [&] { ret = rseq_register_current_thread(); if (!K.log.empty()) off = (char *) K.log.back().addr - (char *) __builtin_thread_pointer(); });
		if (died) { c.discard(); }
		if (!owned && !ret) { ok_before = true; want = K.eff(); PBT_CHECK(c, !K.log.empty() && off == rseq_offset, "exposed offset does not designate the registered area (%s)", env_str().c_str()); PBT_CHECK(c, K.log.back().len >= want, "features up to %u exposed, but only %u bytes were registered with the kernel (%s)", want, K.log.back().len, env_str().c_str()); }
		chk(want, ret ? "after a refused registration" : "after registration");
	}
	(void) ok_before; if (owned || K.F) c.nontrivial(); c.label(owned ? "C library owns" : "library owns"); c.labelf(1, "exposed size %s", want == 0 ? "0" : want < 24 ? "<24" : want < 28 ? "24-27" : want <= 32 ? "28-32" : ">32");
}

static void C10(Ctx &c) {
	gen_env(c, true); K.rseq = true; K.inject = 0; int n = 1 + (int) c.below(3); Threads th(n); run_ctors(); bool owned = libc_owns(); std::vector<char> reg(n, 0); const uint32_t unregd = (uint32_t) (c.coin() ? RSEQ_ABI_CPU_ID_UNINITIALIZED : RSEQ_ABI_CPU_ID_REGISTRATION_FAILED);
	unsigned ops = 3 + (unsigned) c.below(12), fb = 0, moves = 0;
	for (unsigned k = 0; k < ops; k++) {
		Ctx::SpanGuard g(c); int t = (int) c.below(n), op = c.weighted({3, 2, 4, 2}); std::string err; int ret = 0; bool died = false;
		if (op == 0) { if (reg[t]) continue; died = th.run(t, [&] { if (owned) { libc_abi.cpu_id = libc_abi.cpu_id_start = tcpu; libc_abi.node_id = tnode; libc_abi.mm_cid = tcid; } ret = rseq_register_current_thread(); }); if (died || ret) c.discard(); reg[t] = 1; c.note("thread %d registered", t); }
		else if (op == 1) { if (!reg[t]) continue; died = th.run(t, [&] { if (owned) { libc_abi.cpu_id = unregd; libc_abi.cpu_id_start = 0; } else ret = rseq_unregister_current_thread(); }); if (died || ret) c.discard(); reg[t] = 0; c.note("thread %d unregistered", t); }
		else if (op == 2) { set_where(c); int a = tcpu, b = tnode, d = tcid; bool r = reg[t]; moves++; th.run(t, [=] { tcpu = a; tnode = b; tcid = d; struct rseq_abi *x = owned ? &libc_abi : (struct rseq_abi *) kreg.addr; if (r && x) { x->cpu_id = x->cpu_id_start = (uint32_t) a; if (owned || K.eff() >= 24) x->node_id = (uint32_t) b; if (owned || K.eff() >= 28) x->mm_cid = (uint32_t) d; } else if (owned) { libc_abi.cpu_id = unregd; libc_abi.cpu_id_start = 0; } }); c.note("thread %d runs on CPU %d node %d", t, a, b); }
		else if (c.chance(1, 8)) { static const int es[] = {EFAULT, ENOSYS, EPERM}; K.sched_err = es[c.below(3)]; int cpu = -1; bool un = c.coin() && !reg[t]; died = th.run(t, [&] { if (owned && un) libc_abi.cpu_id = unregd; cpu = un ? (int) rseq_current_cpu() : rseq_fallback_current_cpu(); }); c.note("thread %d: %s CPU query, sched_getcpu fails", t, un ? "current" : "fallback"); K.sched_err = 0;
			PBT_CHECK(c, died || cpu < 0, "the %s CPU query returned CPU %d although the system reported failure", un ? "current" : "fallback", cpu); c.label("CPU unknown to the system"); }
		else { static const int es[] = {EFAULT, ENOSYS, EPERM}; K.getcpu_err = c.coin() ? es[c.below(3)] : 0; K.getcpu_partial = c.coin(); int node = 0, cpu = 0; int want = 0, wcpu = 0; died = th.run(t, [&] { node = rseq_fallback_current_node(); want = tnode; wcpu = tcpu; cpu = rseq_fallback_current_cpu(); }); fb++;
			PBT_CHECK(c, !died, "a fallback query terminated the process"); if (K.getcpu_err) PBT_CHECK(c, node < 0, "the fallback node query returned node %d although the kernel reported failure", node); else PBT_CHECK(c, node == want, "the fallback node query returned %d, the thread runs on node %d", node, want); PBT_CHECK(c, cpu == wcpu, "the fallback CPU query returned %d, the thread runs on CPU %d", cpu, wcpu); c.note("thread %d: fallback queries%s", t, K.getcpu_err ? " (getcpu fails)" : ""); K.getcpu_err = 0; }
		for (int i = 0; i < n; i++) { bool r = reg[i]; died = th.run(i, [=] {
			if (owned && !r && (int32_t) libc_abi.cpu_id == 0 && libc_abi.cpu_id_start == 0) { libc_abi.cpu_id = unregd; }
			char b[200]; int raw = rseq_current_cpu_raw(); uint32_t cur = rseq_current_cpu(), st = rseq_cpu_start();
			if (cur != (uint32_t) tcpu) { snprintf(b, sizeof b, "the current-CPU query of a%s thread returned %u, it runs on CPU %d", r ? " registered" : "n unregistered", cur, tcpu); throw Fail{b}; }
			if (r ? raw != tcpu : raw >= 0) { snprintf(b, sizeof b, "the raw CPU query of a%s thread returned %d on CPU %d", r ? " registered" : "n unregistered", raw, tcpu); throw Fail{b}; }
			if (r ? st != (uint32_t) tcpu : st != 0) { snprintf(b, sizeof b, "the start-CPU query of a%s thread returned %u on CPU %d", r ? " registered" : "n unregistered", st, tcpu); throw Fail{b}; }
			if (r && rseq_node_id_available() && rseq_current_node_id() != (uint32_t) tnode) throw Fail{"the node query returned another node"};
			}); PBT_CHECK(c, !died, "a query terminated the process (%s)", env_str().c_str()); }
	}
	if (moves) c.nontrivial(); c.label("fallback node queries", fb); c.label("moves", moves);
}
// Real kernel, real C library (its registration is switched off by the caller's environment for the library-owned unit).
static void C10real(Ctx &c) {
	K = Env(); K.real = true; run_ctors(); bool owned = rseq_available(RSEQ_AVAILABLE_QUERY_LIBC); bool reg = owned; cpu_set_t all; sched_getaffinity(0, sizeof all, &all); std::vector<int> cpus; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all)) cpus.push_back(i);
	unsigned ops = 3 + (unsigned) c.below(20), q = 0, hops = 0; int maxc = (int) sysconf(_SC_NPROCESSORS_CONF); int poss = rseq_get_max_nr_cpus(); (void) maxc;
	for (unsigned k = 0; k < ops; k++) { Ctx::SpanGuard g(c);
		int op = c.weighted({4, 2, 2}); int pin = -1;
		if (op == 0) { pin = cpus[c.below(cpus.size())]; cpu_set_t m; CPU_ZERO(&m); CPU_SET(pin, &m); if (sched_setaffinity(0, sizeof m, &m)) c.discard(); hops++; c.note("pinned to CPU %d", pin); }
		else if (op == 1 && !reg) { int r = rseq_register_current_thread(); PBT_CHECK(c, r == 0, "registration with the real kernel failed, errno %d", errno); reg = true; c.note("registered"); }
		else if (op == 2 && reg && !owned) { int r = rseq_unregister_current_thread(); PBT_CHECK(c, r == 0, "unregistration with the real kernel failed, errno %d", errno); reg = false; c.note("unregistered"); }
		cpu_set_t now; sched_getaffinity(0, sizeof now, &now); bool pinned = CPU_COUNT(&now) == 1; q++;
		unsigned cpu0 = 0, node0 = 0; syscall(SYS_getcpu, &cpu0, &node0, nullptr);
		uint32_t cur = rseq_current_cpu(); int raw = rseq_current_cpu_raw(); uint32_t st = rseq_cpu_start(); int fn = rseq_fallback_current_node(), fc = rseq_fallback_current_cpu();
		unsigned cpu1 = 0, node1 = 0; syscall(SYS_getcpu, &cpu1, &node1, nullptr);
		PBT_CHECK(c, (int) st < poss, "the start-CPU query returned %u, CPUs go up to %d", st, poss - 1);
		PBT_CHECK(c, (int) cur < poss, "the current-CPU query returned %u, CPUs go up to %d", cur, poss - 1);
		if (pinned) { PBT_CHECK(c, cur == cpu1 && fc == (int) cpu1, "pinned to CPU %u, the queries returned %u and %d", cpu1, cur, fc); PBT_CHECK(c, fn == (int) node1, "on node %u, the fallback query returned %d", node1, fn); if (reg) { PBT_CHECK(c, raw == (int) cpu1 && st == cpu1, "pinned to CPU %u and registered, raw query %d, start query %u", cpu1, raw, st); if (rseq_node_id_available()) PBT_CHECK(c, rseq_current_node_id() == node1, "on node %u, the node query returned %u", node1, rseq_current_node_id()); } }
		if (!reg) { PBT_CHECK(c, raw < 0, "unregistered, the raw query returned %d", raw); PBT_CHECK(c, st == 0, "unregistered, the start query returned %u", st); }
	}
	if (hops > 1) c.nontrivial(); c.label(owned ? "C library owns" : "library owns"); c.label("queries", q); c.label("moves", hops);
}

// ---- C07 under generated thread schedules: several threads initialise, register and unregister at the same time.
struct TState { int calls = 0, err = 0; bool reg = false; int inject = 0; };
static TState ts[sched::MAXT]; static bool kernel_accepted, success_returned; static unsigned n_reg, n_unreg, n_ref; struct ROp { bool reg; int inject; }; static std::vector<ROp> rprog[sched::MAXT];
static int conc_rseq(void *addr, uint32_t len, int flags, uint32_t sig) {
	TState &t = ts[sched::self->id]; K.inject = t.inject; size_t n = K.log.size(); int r = kern_rseq(addr, len, flags, sig); int e = errno; K.inject = 0;
	if (K.log.size() > n) { t.calls++; t.err = r ? e : 0; if (!r && !(flags & 1)) kernel_accepted = true; } errno = e; return r;
}
static void conc_abort() { TState &t = ts[sched::self->id]; if (t.calls && t.err && kernel_accepted) sched::stop_all("coherent termination"); bad("the process was terminated although no registration had succeeded before (%s)", env_str().c_str()); }
static void reg_body(int id, bool owned) {
	TState &t = ts[id];
	for (auto &o : rprog[id]) {
		t.calls = t.err = 0; t.inject = o.inject; bool before = success_returned; int ret;
		if (!t.reg) { // register
			ret = (int) sched::call((long (*)(void *)) rseq_register_current_thread, (void *) nullptr);
			if (owned) { if (ret || t.calls) bad("registering returned %d after %d system calls although the C library owns the registration (%s)", ret, t.calls, env_str().c_str()); continue; }
			if (t.calls != 1) bad("thread %d: registering returned %d after %d rseq(2) requests (%s)", id, ret, t.calls, env_str().c_str());
			if (t.err) { n_ref++; if (!ret) bad("a refused registration was reported as success (%s)", env_str().c_str()); if (before) bad("a refused registration after a successful one did not terminate the process (%s)", env_str().c_str()); continue; }
			if (ret) bad("a registration accepted by the kernel was reported as failure (%s)", env_str().c_str());
			t.reg = true; success_returned = true; n_reg++;
			if (kreg.addr != (char *) __builtin_thread_pointer() + rseq_offset || kreg.sig != RSEQ_SIG) bad("thread %d: the registered area is not the one exposed (%s)", id, env_str().c_str());
			if (rseq_size != K.eff() || kreg.len < rseq_size || kreg.len < 32) bad("thread %d: exposed size is %u after registration of %u bytes, expected %u (%s)", id, rseq_size, kreg.len, K.eff(), env_str().c_str());
			try { check_reads("after registration"); } catch (Fail &f) { bad("%s (%s)", f.msg.c_str(), env_str().c_str()); }
		} else {
			ret = (int) sched::call((long (*)(void *)) rseq_unregister_current_thread, (void *) nullptr);
			if (t.calls != 1) bad("thread %d: unregistering returned %d after %d rseq(2) requests (%s)", id, ret, t.calls, env_str().c_str());
			if (!!ret != !!t.err) bad("thread %d: unregistering returned %d, the kernel %s the request (%s)", id, ret, t.err ? "refused" : "accepted", env_str().c_str());
			if (t.err && !t.inject) bad("thread %d: the kernel refuses to release the registration, errno %d (%s)", id, t.err, env_str().c_str());
			if (!t.err) { t.reg = false; n_unreg++; if (kreg.addr) bad("the registration is still there after unregistration"); if (rseq_current_cpu_raw() >= 0) bad("the raw CPU query gives a CPU number after unregistration"); }
		}
	}
}
static void C07conc(Ctx &c) {
	gen_env(c, true); if (!c.chance(1, 4)) K.rseq = true; int n = 2 + (int) c.weighted({4, 3, 1}); bool early = !c.chance(1, 4); bool owned = libc_owns(); if (!early) run_ctors(); c.note("%d threads, %s", n, early ? "not initialised yet" : "initialised");
	for (int t = 0; t < n; t++) { unsigned k = 1 + (unsigned) c.below(4); std::string d; for (unsigned i = 0; i < k; i++) { Ctx::SpanGuard g(c); static const int es[] = {EINVAL, EPERM, ENOMEM, ENOSYS, EBUSY}; int e = c.chance(1, 8) ? es[c.below(5)] : 0; rprog[t].push_back({true, e}); d += e ? " step(refused)" : " step"; } c.note("thread %d: %zu register/unregister steps%s", t, rprog[t].size(), d.c_str()); }
	gen_schedule(c, n, c.chance(1, 3) ? 15 : c.coin() ? 50 : 150); sched::max_steps = 100000;
	std::vector<std::function<void()>> b; int where[8][3]; for (int t = 0; t < n; t++) { set_where(c); where[t][0] = tcpu; where[t][1] = tnode; where[t][2] = tcid; }
	for (int t = 0; t < n; t++) b.push_back([t, owned, &where] { tcpu = where[t][0]; tnode = where[t][1]; tcid = where[t][2]; reg_body(t, owned); });
	int first = (int) c.below(n);
	try { if (!sched::run(b, first)) c.discard(); } catch (Fail &f) { if (f.msg != "coherent termination") throw; c.nontrivial(); c.label("terminated on incoherent refusal"); return; }
	unsigned want = owned ? (K.size == 20 || K.size == 32 ? std::min(32u, K.eff()) : K.size) : success_returned ? K.eff() : 0;
	PBT_CHECK(c, rseq_size == want, "exposed size is %u at the end, expected %u (%s)", rseq_size, want, env_str().c_str());
	if (owned) PBT_CHECK(c, rseq_offset == K.off && rseq_flags == K.flags, "the exposed area is not the C library's (%s)", env_str().c_str());
	if (n_mid) c.nontrivial(); c.label(owned ? "C library owns" : "library owns"); c.label("registrations", n_reg); c.label("unregistrations", n_unreg); c.label("refused by the kernel", n_ref); c.label("thread switches inside library code", n_mid); if (early) c.label("concurrent initialisation");
}

int main(int argc, char **argv) {
	std::vector<Property> P = {
		{"C07", "case = a simulated kernel (rseq present or not, feature size, alignment) and C library, and a history of up to 13 register/unregister calls over 1-4 threads with kernel refusals injected; non-trivial = several registrations, a refusal, or C library ownership", C07, 40000, 1500000, 1, 30},
		{"C07conc", "case = 2-4 threads registering and unregistering concurrently in a process that may not be initialised yet, with generated thread switches at instruction and call granularity inside the library and injected kernel refusals; non-trivial = a switch happened inside a library call, or the process was terminated for an incoherent refusal", C07conc, 15000, 600000, 1, 40, [] { sched::init(); }},
		{"C08", "case = a combination of C library symbols/size/offset/flags, kernel feature size and rseq(2) presence, with registrations some of which are refused; non-trivial = C library ownership or an advertised feature size", C08, 40000, 1500000, 1, 30},
		{"C10", "case = a history of moves, registrations, unregistrations and queries over 1-3 threads on a simulated kernel (CPU and node numbers, getcpu failures generated); non-trivial = at least one move", C10, 40000, 1500000, 1, 30},
		{"C10real", "case = a history of pinnings, registrations and queries on the real kernel; non-trivial = at least two pinnings", C10real, 6000, 100000, 1, 30},
	};
	return main_(argc, argv, P);
}
