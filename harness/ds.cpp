// C04: per-CPU data structures built from the helpers, under generated thread schedules.
#include "step.hpp"
#include "sched.hpp"
#include "ds.h"
#include <sys/mman.h>
using namespace pbt;

#define V(n) extern "C" const struct dsvar n;
#include "dsvariants.inc"
#undef V
static const struct dsvar *const vars[] = {
#define V(n) &n,
#include "dsvariants.inc"
#undef V
};
static const unsigned NV = sizeof(vars) / sizeof(vars[0]);
static const char *const opn[] = { "counter add", "locked add", "list push", "list pop", "buffer push", "buffer pop", "copy-buffer push", "copy-buffer pop", "indirect counter add" };

struct Op { int kind; intptr_t n; };
struct Rec { int cpu = -1, cid = -1, lastcid = -1; step::Area *area = nullptr; std::vector<Op> prog; size_t pc = 0; bool in_op = false; dsarg a; int commits = 0; bool saw_stop = false; unsigned held = 0; node *exp_node = nullptr; item exp_item; std::vector<node *> own; uint64_t seq = 0; };
struct Ev { uint64_t gap; int kind; unsigned a, b; };

// Mapped across a multiple of 4 GiB, so that an address computed with 32-bit arithmetic is a wrong one.
template<class T> static T &hi(unsigned long at) { void *p = mmap((void *) at, (sizeof(T) + 8191) & ~4095ul, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (p == MAP_FAILED) abort(); return *new ((char *) p + 4096 - 256) T(); }
static ds &D = hi<ds>(0x612300000000ul - 4096); static Rec R[sched::MAXT]; static int ncpu, nthr, mode; static bool sticky;
static std::vector<Ev> evs; static size_t nextev; static uint64_t gapleft;
static std::vector<node *> mstack[NIDX], mbuf[NIDX]; static std::vector<item> mcopy[NIDX]; static intptr_t mcount[NIDX], mlocked[NIDX], mcnt[2][NIDX]; static int owner[NIDX]; static int curblk;
struct Nodes { node n[64]; }; static node (&nodes)[64] = hi<Nodes>(0x612500000000ul - 4096).n; static uint64_t in_cs, n_ev, n_commit, n_abort;
struct Shadow { intptr_t count, lock, lcount; node *head; intptr_t boff, moff; } sh[NIDX]; static intptr_t shc[2][NIDX];
static std::string desc; static uint64_t quantum;

[[noreturn]] static void bad(const char *f, ...) { char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); std::string m = b; m += " ("; m += desc; m += ")"; sched::stop_all(m.c_str()); }
static int index_of(const Rec &r) { return mode ? r.cid : r.cpu; }
static void write_ids(Rec &r) { if (!r.area) return; auto &a = r.area->a; *(volatile uint32_t *) &a.cpu_id = r.cpu; *(volatile uint32_t *) &a.cpu_id_start = r.cpu; *(volatile uint32_t *) &a.mm_cid = r.cid; }
static void off_cpu(int t) { Rec &r = R[t]; r.lastcid = r.cid; r.cpu = r.cid = -1; }
static void on_cpu(int t, int cpu) {
	Rec &r = R[t]; r.cpu = cpu; bool used[NIDX] = {}; for (int i = 0; i < nthr; i++) if (i != t && R[i].cpu >= 0 && R[i].cid >= 0) used[R[i].cid] = true;
	if (sticky && r.lastcid >= 0 && !used[r.lastcid]) r.cid = r.lastcid; else { r.cid = 0; while (used[r.cid]) r.cid++; }
	write_ids(r);
}
static void fixup(int t) { // the kernel takes note that the thread was interrupted
	Rec &r = R[t]; if (!r.area || !sched::th[t].uc) return;
	int f = step::kernel_fixup(&r.area->a.rseq_cs, &sched::th[t].uc->uc_mcontext.gregs[REG_RIP]);
	if (f > 0) { in_cs++; n_abort++; } if (f < 0) bad("%s", step::kernel_error);
}
static int on(int cpu) { for (int i = 0; i < nthr; i++) if (R[i].cpu == cpu) return i; return -1; }
static int nth_where(unsigned k, bool oncpu, int except) { std::vector<int> v; for (int i = 0; i < nthr; i++) if (i != except && sched::th[i].st == sched::READY && (R[i].cpu >= 0) == oncpu) v.push_back(i); return v.empty() ? -1 : v[k % v.size()]; }

static void check(int t) { // what did the last instruction of thread t change?
	Rec &r = R[t]; int k = r.in_op ? r.prog[r.pc].kind : -1; int idx = index_of(r);
	for (int i = 0; i < NIDX; i++) {
		percpu &p = D.c[i]; Shadow &s = sh[i];
		auto commit = [&](const char *what) { if (i != idx) bad("thread %d changed the %s of index %d while running on index %d", t, what, i, idx); if (r.commits++) bad("thread %d performed its %s twice", t, opn[k < 0 ? 0 : k]); n_commit++; };
		if (p.count != s.count) { if (k != DS_INC) bad("counter %d changed from %ld to %ld by a thread not incrementing it", i, (long) s.count, (long) p.count); if ((uintptr_t) p.count != (uintptr_t) s.count + (uintptr_t) r.a.n) bad("counter %d went from %ld to %ld, increment is %ld", i, (long) s.count, (long) p.count, (long) r.a.n); commit("counter"); mcount[i] = p.count; s.count = p.count; }
		if (p.lock != s.lock) { if (k != DS_LOCKED_INC) bad("lock %d changed by a thread not using it", i);
			if (p.lock == 1 && s.lock == 0) { if (owner[i] >= 0) bad("lock %d granted to thread %d while held by %d", i, t, owner[i]); if (i != idx) bad("lock of index %d taken from index %d", i, idx); owner[i] = t; }
			else if (p.lock == 0 && s.lock == 1) { if (owner[i] != t) bad("lock %d released by thread %d, held by %d", i, t, owner[i]); owner[i] = -1; }
			else bad("lock word %d went from %ld to %ld", i, (long) s.lock, (long) p.lock); s.lock = p.lock; }
		if (p.locked_count != s.lcount) { if (owner[i] != t) bad("thread %d changed the counter of lock %d without holding it", t, i); if ((uintptr_t) p.locked_count != (uintptr_t) s.lcount + (uintptr_t) r.a.n) bad("locked counter %d lost an update", i); r.commits++; mlocked[i] += r.a.n; s.lcount = p.locked_count; n_commit++; }
		if (p.head != s.head) {
			if (k == DS_PUSH) { commit("list"); if (p.head != r.a.node) bad("list %d head is not the pushed node", i); if (r.a.node->next != s.head) bad("pushed node's link does not lead to the previous head of list %d", i); mstack[i].push_back(r.a.node); }
			else if (k == DS_POP) { commit("list"); if (mstack[i].empty()) bad("pop from empty list %d changed its head", i); r.exp_node = mstack[i].back(); mstack[i].pop_back(); node *b = mstack[i].empty() ? nullptr : mstack[i].back(); if (p.head != b) bad("pop from list %d made an element other than the next one the head", i); }
			else bad("list %d head changed by a thread doing something else", i);
			s.head = p.head; }
		if (p.boff != s.boff) {
			if (k == DS_BPUSH) { commit("buffer"); if (p.boff != s.boff + 1 || p.boff > BUFLEN) bad("buffer %d offset went from %ld to %ld on push", i, (long) s.boff, (long) p.boff); if (p.barr[s.boff] != r.a.node) bad("buffer %d slot does not hold the pushed element at commit", i); mbuf[i].push_back(r.a.node); }
			else if (k == DS_BPOP) { commit("buffer"); if (mbuf[i].empty() || p.boff != s.boff - 1) bad("buffer %d offset went from %ld to %ld on pop", i, (long) s.boff, (long) p.boff); r.exp_node = mbuf[i].back(); mbuf[i].pop_back(); }
			else bad("buffer %d offset changed by a thread doing something else", i);
			s.boff = p.boff; }
		if (p.moff != s.moff) {
			if (k == DS_MPUSH) { commit("copy buffer"); if (p.moff != s.moff + 1 || p.moff > BUFLEN) bad("copy buffer %d offset went from %ld to %ld on push", i, (long) s.moff, (long) p.moff); if (memcmp(&p.marr[s.moff], &r.exp_item, sizeof(item))) bad("copy buffer %d slot does not hold the pushed bytes at commit", i); mcopy[i].push_back(r.exp_item); }
			else if (k == DS_MPOP) { commit("copy buffer"); if (mcopy[i].empty() || p.moff != s.moff - 1) bad("copy buffer %d offset went from %ld to %ld on pop", i, (long) s.moff, (long) p.moff); r.exp_item = mcopy[i].back(); mcopy[i].pop_back(); if (memcmp(&r.a.it, &r.exp_item, sizeof(item))) bad("popped bytes from copy buffer %d are not the last pushed ones", i); }
			else bad("copy buffer %d offset changed by a thread doing something else", i);
			s.moff = p.moff; }
		for (int b = 0; b < 2; b++) if (D.b[b].counter[i] != shc[b][i]) { if (k != DS_IND) bad("indirect counter changed by a thread doing something else"); if (b != curblk) bad("indirect counter of a block already replaced (after the barrier) was updated"); if ((uintptr_t) D.b[b].counter[i] != (uintptr_t) shc[b][i] + (uintptr_t) r.a.n) bad("indirect counter %d went from %ld to %ld, increment is %ld", i, (long) shc[b][i], (long) D.b[b].counter[i], (long) r.a.n); commit("indirect counter"); shc[b][i] = D.b[b].counter[i]; mcnt[b][i] = shc[b][i]; }
	}
	// "empty" or "full" may have been read from the structure of any index held since the operation began (the read precedes the sequence, which is only entered when there is work to do)
	if (r.in_op && !r.saw_stop) { if (idx >= 0) r.held |= 1u << idx; for (int i = 0; i < NIDX; i++) if (r.held >> i & 1) { bool e = k == DS_POP ? mstack[i].empty() : k == DS_BPOP ? mbuf[i].empty() : k == DS_MPOP ? mcopy[i].empty() : k == DS_BPUSH ? mbuf[i].size() == BUFLEN : k == DS_MPUSH ? mcopy[i].size() == BUFLEN : false; if (e) r.saw_stop = true; } }
}
static void next_gap() { gapleft = nextev < evs.size() ? evs[nextev].gap + 1 : UINT64_MAX; }
static void hook(sched::Th &T, ucontext_t *) {
	int t = T.id; Rec &r = R[t]; check(t);
	int next = -1;
	if (--gapleft == 0) {
		Ev e = evs[nextev++]; next_gap(); n_ev++;
		switch (e.kind) {
		case 0: fixup(t); break;
		case 1: next = nth_where(e.a, true, t); break;
		case 2: { int x = nth_where(e.a, false, t); fixup(t); if (x >= 0) { int cpu = r.cpu; off_cpu(t); on_cpu(x, cpu); next = e.b & 1 ? nth_where(e.b >> 1, true, t) : x; } break; }
		case 3: { int q = e.a % ncpu; if (q == r.cpu) { fixup(t); break; } int u = on(q), cpu = r.cpu; fixup(t); off_cpu(t); if (u >= 0) { fixup(u); off_cpu(u); } on_cpu(t, q); if (u >= 0) on_cpu(u, cpu); else { int x = nth_where(e.b, false, t); if (x >= 0) on_cpu(x, cpu); } if (e.b & 1) next = nth_where(e.b >> 1, true, t); break; }
		case 4: { curblk ^= 1; D.blk = &D.b[curblk]; for (int i = 0; i < nthr; i++) if (R[i].cpu >= 0) fixup(i); break; } // publish another block, then membarrier(rseq)
		}
	} else if (T.steps && sched::since_switch > quantum) { // fairness, with a growing time slice
		sched::since_switch = 0; quantum += quantum / 3; int x = sched::first_ready(t);
		if (x >= 0 && x != t) { if (R[x].cpu < 0) { fixup(t); int cpu = r.cpu; off_cpu(t); on_cpu(x, cpu); } next = x; }
	}
	if (next >= 0 && next != t) { sched::switch_to(next); }
}
static int pick(sched::Th &T) { // T is done
	int cpu = R[T.id].cpu; off_cpu(T.id); int x = nth_where(0, false, T.id); if (x >= 0) on_cpu(x, cpu);
	return nth_where(1, true, T.id);
}
static void body(int t, const dsent *e) {
	Rec &r = R[t]; step::install_area(); r.area = &step::area; write_ids(r);
	for (r.pc = 0; r.pc < r.prog.size(); r.pc++) {
		Op &o = r.prog[r.pc]; int k = o.kind; memset(&r.a, 0, sizeof r.a); r.a.ds = &D; r.a.n = o.n; r.commits = 0; r.saw_stop = false; r.held = 0; r.exp_node = nullptr;
		if (k == DS_PUSH || k == DS_BPUSH) { if (r.own.empty()) continue; r.a.node = r.own.back(); r.own.pop_back(); }
		if (k == DS_MPUSH) { for (int i = 0; i < 4; i++) r.a.it.w[i] = mix((uint64_t) t << 32 | r.seq++); r.exp_item = r.a.it; }
		r.in_op = true; long ret = sched::call(e->fn[k], &r.a); check(t); r.in_op = false;
		const char *d = nullptr; for (unsigned char b : step::area.pre) if (b != 0xc3) d = "memory before the thread area was modified"; for (unsigned char b : step::area.post) if (b != 0xc3) d = "memory after the thread area was modified"; if (d) bad("%s", d);
		switch (k) {
		case DS_INC: case DS_IND: case DS_LOCKED_INC: case DS_PUSH: if (r.commits != 1) bad("%s of thread %d returned after %d updates instead of one", opn[k], t, r.commits); if (k == DS_LOCKED_INC) for (int i = 0; i < NIDX; i++) if (owner[i] == t) bad("thread %d still holds lock %d after unlocking", t, i); break;
		case DS_POP: case DS_BPOP: if (ret) { if (r.commits != 1) bad("%s returned an element after %d updates", opn[k], r.commits); if (r.a.node != r.exp_node) bad("%s returned %p, the last element pushed there is %p", opn[k], (void *) r.a.node, (void *) r.exp_node); r.a.node->next = (node *) 0xdead000000000000ull; r.own.push_back(r.a.node); } else { if (r.commits) bad("%s reported empty after removing an element", opn[k]); if (!r.saw_stop) bad("%s reported empty although the structure was never empty meanwhile", opn[k]); } break;
		case DS_BPUSH: case DS_MPUSH: if (ret) { if (r.commits != 1) bad("%s reported success after %d updates", opn[k], r.commits); } else { if (r.commits) bad("%s reported full after adding an element", opn[k]); if (!r.saw_stop) bad("%s reported full although there was always room", opn[k]); if (k == DS_BPUSH) r.own.push_back(r.a.node); } break;
		case DS_MPOP: if (ret) { if (r.commits != 1) bad("%s returned an element after %d updates", opn[k], r.commits); if (memcmp(&r.a.it, &r.exp_item, sizeof(item))) bad("%s returned the wrong bytes", opn[k]); } else { if (r.commits) bad("%s reported empty after removing an element", opn[k]); if (!r.saw_stop) bad("%s reported empty although the structure was never empty meanwhile", opn[k]); } break;
		}
	}
}
static void C04(Ctx &c) {
	memset(&D, 0, sizeof D); memset(sh, 0, sizeof sh); memset(shc, 0, sizeof shc); memset(mcount, 0, sizeof mcount); memset(mlocked, 0, sizeof mlocked); memset(mcnt, 0, sizeof mcnt); curblk = 0; evs.clear(); nextev = 0; in_cs = n_ev = n_commit = n_abort = 0;
	for (int i = 0; i < NIDX; i++) { owner[i] = -1; mstack[i].clear(); mbuf[i].clear(); mcopy[i].clear(); for (int b = 0; b < 2; b++) { D.b[b].c[i].slot = &D.b[b].counter[i]; } }
	D.blk = &D.b[0]; for (auto &r : R) r = Rec();
	const dsvar *v = vars[c.below(NV)]; const dsent *e = &v->e[c.below(4)]; mode = e->mode;
	nthr = 2 + (int) c.weighted({4, 3, 1}); ncpu = 1 + (int) c.weighted({4, 3, 2}); sticky = c.coin();
	int focus = (int) c.below(8); // which structures
	static const std::vector<int> sets[8] = { { DS_INC }, { DS_PUSH, DS_POP }, { DS_BPUSH, DS_BPOP }, { DS_MPUSH, DS_MPOP }, { DS_IND }, { DS_LOCKED_INC }, { DS_PUSH, DS_POP, DS_BPUSH, DS_BPOP }, { 0, 1, 2, 3, 4, 5, 6, 7, 8 } };
	unsigned npre = c.below(4); c.note("%s/%s, %d threads on %d CPUs%s, %u elements present", v->name, e->name, nthr, ncpu, sticky ? ", sticky ids" : "", npre);
	int nn = 0; for (unsigned i = 0; i < npre; i++) for (int x = 0; x < ncpu; x++) { node *n = &nodes[nn++]; n->next = D.c[x].head; D.c[x].head = n; mstack[x].push_back(n); node *m = &nodes[nn++]; D.c[x].barr[D.c[x].boff++] = m; mbuf[x].push_back(m); item it; for (auto &w : it.w) w = mix(i * 77 + x); D.c[x].marr[D.c[x].moff++] = it; mcopy[x].push_back(it); }
	for (int x = 0; x < NIDX; x++) sh[x] = { D.c[x].count, D.c[x].lock, D.c[x].locked_count, D.c[x].head, D.c[x].boff, D.c[x].moff };
	uint64_t total = 0;
	for (int t = 0; t < nthr; t++) { unsigned no = 1 + c.below(4); std::string s; for (unsigned i = 0; i < no; i++) { Ctx::SpanGuard g(c); Op o; const auto &S = sets[focus]; o.kind = S[c.below(S.size())]; o.n = c.coin() ? 1 : (intptr_t) c.word(); if (!o.n) o.n = 1; R[t].prog.push_back(o); s += std::string(i ? ", " : "") + opn[o.kind]; } for (int i = 0; i < 3 && nn < 63; i++) { nodes[nn].next = (node *) 0xdead000000000000ull; R[t].own.push_back(&nodes[nn++]); } total += no; c.note("thread %d: %s", t, s.c_str()); }
	unsigned ne = 1 + c.below(c.chance(1, 3) ? 30 : 8); unsigned G = c.chance(1, 3) ? 6 : c.coin() ? 30 : (unsigned) (total * 30 / ne + 2);
	static const char *const en[] = { "interrupted", "other CPU continues", "preempted", "migrated", "block replaced + barrier" };
	for (unsigned i = 0; i < ne; i++) { Ctx::SpanGuard g(c); Ev x; x.gap = c.below(G); x.kind = c.weighted({2, 3, 5, 3, (unsigned) (focus == 4 || focus == 7 ? 3 : 0)}); x.a = (unsigned) c.below(8); x.b = (unsigned) c.below(8); evs.push_back(x); c.note("after %llu more instructions: %s (%u,%u)", (unsigned long long) x.gap, en[x.kind], x.a, x.b); }
	next_gap(); quantum = 200; sched::max_steps = 60000;
	char b[160]; snprintf(b, sizeof b, "%s/%s, %d threads, %d CPUs, focus %d, %u events", v->name, e->name, nthr, ncpu, focus, ne); desc = b;
	for (int t = 0; t < nthr && t < ncpu; t++) { R[t].cpu = t; R[t].cid = t; }
	if (mode && c.coin() && ncpu > 1 && nthr > 1) { std::swap(R[0].cid, R[1].cid); }
	sched::on_step = hook; sched::pick = pick;
	std::vector<std::function<void()>> bodies; for (int t = 0; t < nthr; t++) bodies.push_back([t, e] { body(t, e); });
	if (!sched::run(bodies, 0)) { if (getenv("VP_DBG")) { fprintf(stderr, "overrun: %s\n", desc.c_str()); for (int t = 0; t < nthr; t++) fprintf(stderr, " t%d cpu %d cid %d pc %zu/%zu kind %d steps\n", t, R[t].cpu, R[t].cid, R[t].pc, R[t].prog.size(), R[t].pc < R[t].prog.size() ? R[t].prog[R[t].pc].kind : -1); } c.discard(); }
	for (int i = 0; i < NIDX; i++) { // final structures equal the model
		std::vector<node *> l; for (node *n = D.c[i].head; n && l.size() < 100; n = n->next) l.push_back(n); std::reverse(l.begin(), l.end());
		if (l != mstack[i]) c.fail("final list of index %d is not what the history leaves (%s)", i, desc.c_str());
		for (size_t k = 0; k < mbuf[i].size(); k++) if (D.c[i].barr[k] != mbuf[i][k]) c.fail("final buffer %d slot %zu is wrong (%s)", i, k, desc.c_str());
		for (size_t k = 0; k < mcopy[i].size(); k++) if (memcmp(&D.c[i].marr[k], &mcopy[i][k], sizeof(item))) c.fail("final copy buffer %d slot %zu is wrong (%s)", i, k, desc.c_str());
		if (D.c[i].count != mcount[i] || D.c[i].locked_count != mlocked[i] || D.c[i].lock) c.fail("final counters or lock of index %d wrong (%s)", i, desc.c_str());
	}
	if (in_cs) c.nontrivial();
	c.label("operations", total); c.label("commits", n_commit); c.label("scheduling events", n_ev); c.label("aborts forced inside a sequence", n_abort); c.label("thread switches", sched::nswitch); c.label("instructions stepped", sched::nsteps); c.label(mode ? "mm_cid" : "cpu_id");
}
int main(int argc, char **argv) {
	std::vector<Property> P = {
		{"C04", "case = 2-4 threads with generated programs over per-CPU counters, lists, buffers, copy buffers, indirect counters and locks, on 1-3 simulated CPUs, and a generated list of scheduling events (interruption, switch, preemption, migration, block replacement with barrier) at instruction granularity; non-trivial = at least one restartable sequence was aborted by an event", C04, 25000, 600000, 40, 40, [] { sched::init(); }},
	};
	return main_(argc, argv, P);
}
