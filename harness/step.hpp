// Single-stepping rig: the trap flag makes every instruction boundary of a call
// visible to a handler which plays the kernel for a simulated rseq area (the
// kernel does not know that area, so nothing else interferes with it).
#pragma once
#include "../engine/pbt.hpp"
#include <rseq/rseq.h>
#include <ucontext.h>
#include <functional>

namespace step {

struct alignas(64) Area { unsigned char pre[64]; struct { uint32_t cpu_id_start, cpu_id; uint64_t rseq_cs; uint32_t flags, node_id, mm_cid, pad; unsigned char rest[32]; } a; unsigned char post[64]; };
static __thread Area area;

struct KernelCs { uint32_t version, flags; uint64_t start_ip, post_commit_offset, abort_ip; };

static inline void install_area() {
	memset(&area, 0xc3, sizeof area);
	area.a.cpu_id_start = 0; area.a.cpu_id = 0; area.a.rseq_cs = 0; area.a.flags = 0; area.a.node_id = 0x77; area.a.mm_cid = 0; area.a.pad = 0xc3c3c3c3;
	rseq_offset = (ptrdiff_t) ((char *) &area.a - (char *) __builtin_thread_pointer());
	rseq_size = 32;
}
static inline const char *area_damage() {
	for (unsigned char b : area.pre) if (b != 0xc3) return "memory before the thread area was modified";
	for (unsigned char b : area.post) if (b != 0xc3) return "memory after the thread area was modified";
	for (unsigned char b : area.a.rest) if (b != 0xc3) return "fields beyond the known thread area were modified";
	if (area.a.node_id != 0x77 || area.a.pad != 0xc3c3c3c3 || area.a.flags != 0) return "kernel-owned fields of the thread area were modified";
	return nullptr;
}

// What the kernel does with rseq_cs when the thread was preempted, migrated or
// gets a signal: returns 1 when it redirects the thread, -1 when it would kill it.
static const char *kernel_error;
static inline int kernel_fixup(uint64_t *rseq_cs, greg_t *ip) {
	if (!*rseq_cs) return 0;
	const KernelCs *cs = (const KernelCs *) *rseq_cs;
	if (*rseq_cs >= 0x7ffffffff000ull) { kernel_error = "descriptor pointer outside user memory"; return -1; }
	if (cs->version > 0) { kernel_error = "descriptor version not 0"; return -1; }
	if (cs->start_ip >= 0x7ffffffff000ull || cs->start_ip + cs->post_commit_offset >= 0x7ffffffff000ull || cs->abort_ip >= 0x7ffffffff000ull || cs->start_ip + cs->post_commit_offset < cs->start_ip) { kernel_error = "descriptor range outside user memory"; return -1; }
	if (cs->abort_ip - cs->start_ip < cs->post_commit_offset) { kernel_error = "abort handler inside the critical section"; return -1; }
	uint32_t sig; memcpy(&sig, (void *) (cs->abort_ip - 4), 4);
	if (sig != RSEQ_SIG) { kernel_error = "abort handler is not preceded by the signature"; return -1; }
	*rseq_cs = 0;
	if ((uint64_t) *ip - cs->start_ip >= cs->post_commit_offset) return 0;
	if (cs->flags) { kernel_error = "descriptor flags not 0"; return -1; }
	*ip = (greg_t) cs->abort_ip;
	return 1;
}

extern "C" { extern char vp_tramp_begin[], vp_tramp_ret[], vp_tramp_end[]; int vp_tramp(int (*fn)(void *), void *a, uint64_t *out, int step); extern uint64_t vp_tramp_rsp; }
__asm__ (
	".text\n.globl vp_tramp, vp_tramp_begin, vp_tramp_ret, vp_tramp_end\n.type vp_tramp,@function\n"
	"vp_tramp:\nvp_tramp_begin:\n"
	"push %rbx\npush %rbp\npush %r12\npush %r13\npush %r14\npush %r15\npush %rdx\n"
	"mov %rdi, %rax\nmov %rsi, %rdi\n"
	"movabs $0x1b1b1b1b1b1b1b01, %rbx\nmovabs $0x2b2b2b2b2b2b2b02, %rbp\nmovabs $0x3b3b3b3b3b3b3b03, %r12\nmovabs $0x4b4b4b4b4b4b4b04, %r13\nmovabs $0x5b5b5b5b5b5b5b05, %r14\nmovabs $0x6b6b6b6b6b6b6b06, %r15\n"
	"mov %rsp, vp_tramp_rsp(%rip)\n"
	"test %ecx, %ecx\njz 1f\npushfq\norq $0x100, (%rsp)\npopfq\n"
	"1: call *%rax\n"
	"vp_tramp_ret:\n"
	"pushfq\npop %rcx\n"
	"mov %rsp, %rsi\nmov vp_tramp_rsp(%rip), %rsp\n"
	"mov (%rsp), %rdx\n"
	"mov %rbx, 0(%rdx)\nmov %rbp, 8(%rdx)\nmov %r12, 16(%rdx)\nmov %r13, 24(%rdx)\nmov %r14, 32(%rdx)\nmov %r15, 40(%rdx)\nmov %rsi, 48(%rdx)\nmov %rcx, 56(%rdx)\n"
	"cld\npop %rdx\npop %r15\npop %r14\npop %r13\npop %r12\npop %rbp\npop %rbx\nret\n"
	"vp_tramp_end:\n.size vp_tramp, .-vp_tramp\n"
	".bss\n.globl vp_tramp_rsp\n.balign 8\nvp_tramp_rsp: .zero 8\n.text\n");

struct Regs { uint64_t r[8]; };
static uint64_t nsteps, max_steps = 2000000;
static std::function<void(ucontext_t *)> *on_step;   // called at each boundary inside the callee
static bool runaway;

static void trap(int, siginfo_t *, void *u) {
	ucontext_t *uc = (ucontext_t *) u; uintptr_t ip = (uintptr_t) uc->uc_mcontext.gregs[REG_RIP];
	if (ip >= (uintptr_t) vp_tramp_begin && ip < (uintptr_t) vp_tramp_end) { if (ip == (uintptr_t) vp_tramp_ret) uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; return; }
	if (++nsteps > max_steps) { const char m[] = "runaway\n"; (void) !write(2, m, sizeof m); _exit(77); }
	if (on_step) (*on_step)(uc);
}
static inline void init() {
	stack_t ss = {}; ss.ss_size = 1 << 18; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, nullptr);
	struct sigaction sa = {}; sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigemptyset(&sa.sa_mask); sigaction(SIGTRAP, &sa, nullptr);
}
// Calls fn(a), stepping when cb is given.
template<class F, class A> static int call(F fn, A *a, Regs &r, std::function<void(ucontext_t *)> *cb) {
	nsteps = 0; on_step = cb;
	int x = vp_tramp((int (*)(void *)) fn, (void *) a, r.r, cb != nullptr);
	on_step = nullptr; return x;
}
static inline const char *regs_damage(const Regs &r) {
	static const uint64_t want[6] = { 0x1b1b1b1b1b1b1b01ull, 0x2b2b2b2b2b2b2b02ull, 0x3b3b3b3b3b3b3b03ull, 0x4b4b4b4b4b4b4b04ull, 0x5b5b5b5b5b5b5b05ull, 0x6b6b6b6b6b6b6b06ull };
	static const char *const nm[6] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
	static char b[64];
	for (int i = 0; i < 6; i++) if (r.r[i] != want[i]) { snprintf(b, sizeof b, "callee-saved register %s was not preserved", nm[i]); return b; }
	if (r.r[6] != vp_tramp_rsp) return "the stack pointer was not preserved";
	if (r.r[7] & 0x400) return "the direction flag was left set";
	return nullptr;
}

} // namespace step
