// C21: pools and sets used by several threads under generated schedules.
#include "evsched.hpp"
#define SHIM_IMPL
#include "mempool.hpp"
#include "conc.h"
using namespace pbt;

extern "C" {
void vp_abort(void) { bad("the library terminated a correct program (abort)"); }
void vp___assert_fail(const char *x, const char *, unsigned, const char *) { bad("the library terminated a correct program (assertion %s)", x); }
}

// ---- model
struct MItem { void *p; int pool; uint64_t serial; bool local_pool; };
struct MPool { Cfg g; rseq_mempool *h = nullptr; size_t cap = 0; long live = 0, maybe = 0, max_maybe = 0; int set_state = 0; std::map<void *, uint64_t> items; std::set<uintptr_t> bases; bool usable = true; int owner = -1; std::shared_ptr<InitRec> ir; };
struct Inflight { bool on = false; std::vector<char> counts; std::vector<long> maxo; std::vector<int> st0; };
struct TOp { int kind; unsigned a, b, c; };
static std::vector<MPool> MP; static Inflight calls[sched::MAXT]; static rseq_mempool_set *the_set; static std::vector<TOp> prog[sched::MAXT]; static std::vector<MItem> mine[sched::MAXT], given; static uint64_t serial; static std::string desc; static unsigned n_enomem, n_alloc, n_free, n_add, n_ebusy, n_create, n_setalloc, n_fall;

static void note_counts() { for (auto &q : calls) if (q.on) for (size_t i = 0; i < MP.size(); i++) { long o = MP[i].maybe - (i < q.counts.size() && q.counts[i] ? 1 : 0); if (i >= q.maxo.size()) q.maxo.resize(i + 1, 0); if (o > q.maxo[i]) q.maxo[i] = o; } for (auto &p : MP) if (p.maybe > p.max_maybe) p.max_maybe = p.maybe; }
static void begin(int t, const std::vector<int> &cand) { Inflight &q = calls[t]; q = Inflight(); q.on = true; q.counts.assign(MP.size(), 0); q.maxo.assign(MP.size(), 0); for (auto &p : MP) q.st0.push_back(p.set_state); for (int i : cand) { q.counts[i] = 1; MP[i].maybe++; } note_counts(); }
static void end(int t, int got) { Inflight &q = calls[t]; for (size_t i = 0; i < q.counts.size(); i++) if (q.counts[i] && (int) i != got) MP[i].maybe--; q.on = false; }

static char *cpup(const MPool &p, void *a, int cpu) { return p.g.global ? (char *) a : (char *) rseq_percpu_ptr((char *) a, cpu, p.g.S()); }
static uint64_t pat(uint64_t s, int cpu, size_t o) { return mix(s * 1315423911u + (uint64_t) cpu * 7777 + o); }
static void fill(const MPool &p, const MItem &it) { for (int cpu = 0; cpu < p.g.N(); cpu++) for (size_t o = 0; o + 8 <= p.g.R(); o += 8) { uint64_t v = pat(it.serial, cpu, o); memcpy(cpup(p, it.p, cpu) + o, &v, 8); } }
static void verify(const MPool &p, const MItem &it, const char *when) { for (int cpu = 0; cpu < p.g.N(); cpu++) for (size_t o = 0; o + 8 <= p.g.R(); o += 8) { uint64_t v; memcpy(&v, cpup(p, it.p, cpu) + o, 8); if (v != pat(it.serial, cpu, o)) bad("%s: live item of pool %d changed on CPU %d at byte %zu (%s)", when, it.pool, cpu, o, desc.c_str()); } }
static void got_item(int t, int pi, void *a, int kind, const uint8_t *init, size_t len, bool keep = true) {
	MPool &p = MP[pi]; size_t R = p.g.R();
	if ((uintptr_t) a % R) bad("item not aligned (%s)", desc.c_str());
	auto it = p.items.lower_bound(a); if (it != p.items.end() && it->first == a) bad("thread %d was handed the live item %p of pool %d a second time (%s)", t, a, pi, desc.c_str());
	p.bases.insert((uintptr_t) a & ~(p.g.S() - 1)); p.live++; n_alloc++;
	if (p.cap && (size_t) p.live > p.cap) bad("pool %d has %ld live items, its limit is %zu (%s)", pi, p.live, p.cap, desc.c_str());
	long mx = std::max(p.max_maybe, 1l); if (p.bases.size() > (size_t) ((mx + (long) p.g.per_range() - 1) / (long) p.g.per_range())) bad("pool %d grew to %zu ranges although at most %ld items of %zu per range were ever in use (%s)", pi, p.bases.size(), mx, p.g.per_range(), desc.c_str());
	MItem m{a, pi, ++serial, false}; p.items[a] = m.serial;
	for (int cpu = 0; cpu < p.g.N(); cpu++) { const uint8_t *q = (const uint8_t *) cpup(p, a, cpu);
		if (kind == 1) for (size_t o = 0; o < R; o++) if (q[o]) bad("zeroed item of pool %d reads 0x%02x at byte %zu on CPU %d (%s)", pi, q[o], o, cpu, desc.c_str());
		if (kind == 2 && memcmp(q, init, len)) bad("initialised item of pool %d has other content on CPU %d (%s)", pi, cpu, desc.c_str()); }
	fill(p, m); if (keep) mine[t].push_back(m);
}
static void body(int t) {
	uint8_t init[512];
	for (auto &o : prog[t]) {
		carg a; memset(&a, 0, sizeof a); a.set = the_set;
		switch (o.kind) {
		case 0: { // pool allocation
			std::vector<int> u; for (size_t i = 0; i < MP.size(); i++) if (MP[i].usable && !MP[i].set_state && (MP[i].owner < 0 || MP[i].owner == t)) u.push_back((int) i); if (u.empty()) break;
			int pi = u[o.a % u.size()]; int kind = o.b % 3; a.pool = MP[pi].h; a.global = MP[pi].g.global; a.len = kind == 2 ? std::min<size_t>(o.c % (MP[pi].g.item_len + 1), sizeof init) : 0; for (size_t i = 0; i < a.len; i++) init[i] = (uint8_t) mix(o.c + i * 3 + t); a.init = init;
			if (kind == 2 && o.c >= 58 && MP[pi].g.R() < sizeof init) { // longer than the item: refused, with no other effect
				a.len = MP[pi].g.R() + 1 + o.c % 2; errno = 0; sched::call(co_fn[CO_MALLOC + kind], &a); int e = errno; if (a.p || e != EINVAL) bad("an initialising allocation of %zu bytes from pool %d of item size %zu gave %p, errno %d (%s)", a.len, pi, MP[pi].g.R(), a.p, e, desc.c_str()); break; }
			begin(t, {pi}); errno = 0; sched::call(co_fn[CO_MALLOC + kind], &a); int e = errno;
			if (a.p) { end(t, pi); got_item(t, pi, a.p, kind, init, a.len); }
			else { Inflight q = calls[t]; end(t, -1); n_enomem++; if (!MP[pi].cap) bad("allocation from pool %d without a range limit failed, errno %d (%s)", pi, e, desc.c_str()); if (e != ENOMEM) bad("allocation from pool %d failed with errno %d (%s)", pi, e, desc.c_str()); if (q.maxo[pi] < (long) MP[pi].cap) bad("allocation from pool %d failed although at most %ld of its %zu items were in use during the call (%s)", pi, q.maxo[pi], MP[pi].cap, desc.c_str()); }
			break; }
		case 1: { // free
			std::vector<MItem> *v = &mine[t]; if (o.b % 4 == 0 && !given.empty()) v = &given; if (v->empty()) break;
			size_t k = o.a % v->size(); MItem m = (*v)[k]; (*v)[k] = v->back(); v->pop_back(); MPool &p = MP[m.pool];
			verify(p, m, "before free"); p.items.erase(m.p); p.live--; n_free++; int pi = m.pool; a.p = m.p; a.stride = p.g.S(); a.global = p.g.global;
			sched::call(co_fn[CO_FREE], &a); MP[pi].maybe--; break; }
		case 2: if (!mine[t].empty()) { given.push_back(mine[t].back()); mine[t].pop_back(); } break;
		case 3: { // set allocation
			size_t len = o.c % 4 == 0 ? o.a % 9 : 1 + (o.a * 37) % 300; int kind = o.b % 3; a.len = len; for (size_t i = 0; i < len; i++) init[i] = (uint8_t) mix(o.c * 5 + i * 3 + t); a.init = init; if (kind == 2 && !len) kind = 0;
			std::vector<int> cand; for (size_t i = 0; i < MP.size(); i++) if (MP[i].usable && !MP[i].g.global && MP[i].g.R() >= len && (MP[i].set_state || MP[i].owner >= 0)) cand.push_back((int) i); // may still be added meanwhile
			begin(t, cand); errno = 0; sched::call(co_fn[CO_SET_MALLOC + kind], &a); int e = errno; Inflight q = calls[t];
			int got = -1; if (a.p) for (size_t i = 0; i < MP.size(); i++) if (MP[i].ir) for (auto &k : MP[i].ir->calls) if (((uintptr_t) k.addr - (uintptr_t) k.cpu * MP[i].g.S()) == ((uintptr_t) a.p & ~(MP[i].g.S() - 1)) && MP[i].usable) got = (int) i; // each pool's initialisation callback told where its ranges are
			n_setalloc++;
			if (a.p && got < 0) { end(t, -1); bad("set allocation returned %p which lies in no known range of a pool of the set (%s)", a.p, desc.c_str()); }
			end(t, got);
			if (a.p) { if (!MP[got].set_state) bad("set allocation served by pool %d which is not in the set (%s)", got, desc.c_str()); if (MP[got].g.R() < len) bad("set allocation of %zu bytes served by a pool of item size %zu (%s)", len, MP[got].g.R(), desc.c_str()); got_item(t, got, a.p, kind, init, len); }
			else if (e != ENOMEM) bad("set allocation failed with errno %d (%s)", e, desc.c_str());
			for (int i : cand) if (q.st0[i] == 2 && i != got && (got < 0 || MP[i].g.R() < MP[got].g.R())) { n_fall++; if (!MP[i].cap || q.maxo[i] < (long) MP[i].cap) bad("set allocation of %zu bytes %s although pool %d (item size %zu) had space during the whole call (%s)", len, got < 0 ? "failed" : "was served by a larger pool", i, MP[i].g.R(), desc.c_str()); }
			if (!a.p) n_enomem++;
			break; }
		case 4: { // add to the set a pool reserved for this thread
			for (size_t i = 0; i < MP.size(); i++) if (MP[i].owner == t && MP[i].usable && !MP[i].set_state && MP[i].h && !MP[i].g.global) {
				bool busy = false, maybe_busy = false; for (auto &x : MP) if (x.set_state && x.g.R() == MP[i].g.R()) { maybe_busy = true; if (x.set_state == 2) busy = true; }
				MP[i].set_state = 1; a.pool = MP[i].h; errno = 0; long r = sched::call(co_fn[CO_SET_ADD], &a); int e = errno;
				for (size_t k = 0; k < MP.size(); k++) if (k != i && MP[k].set_state && MP[k].g.R() == MP[i].g.R()) maybe_busy = true;
				if (!r) { if (busy) bad("a second pool of item size %zu was added to the set (%s)", MP[i].g.R(), desc.c_str()); for (size_t k = 0; k < MP.size(); k++) if (k != i && MP[k].set_state == 2 && MP[k].g.R() == MP[i].g.R()) bad("two threads both added a pool of item size %zu (%s)", MP[i].g.R(), desc.c_str()); MP[i].set_state = 2; n_add++; }
				else { if (e != EBUSY) bad("adding a pool failed with errno %d (%s)", e, desc.c_str()); if (!maybe_busy) bad("adding the only pool of item size %zu was refused (%s)", MP[i].g.R(), desc.c_str()); MP[i].set_state = 0; n_ebusy++; }
				break; }
			break; }
		case 5: { // a pool of one's own, used and destroyed
			Cfg g; g.item_len = 8u << (o.a % 4); g.stride = 4096; g.cpus = 1 + o.b % 2; g.policy_set = true; g.policy = o.c % 2; g.max_ranges = 1;
			rseq_mempool_attr *at = rseq_mempool_attr_create(); if (!at) break; rseq_mempool_attr_set_percpu(at, g.stride, g.cpus); rseq_mempool_attr_set_populate_policy(at, (enum rseq_mempool_populate_policy) g.policy); if (o.c & 4) rseq_mempool_attr_set_poison(at, 0x77); rseq_mempool_attr_set_max_nr_ranges(at, 1);
			a.attr = at; a.len = g.item_len; sched::call(co_fn[CO_CREATE], &a); if (!a.pool) bad("creating a pool failed, errno %d (%s)", errno, desc.c_str()); rseq_mempool_attr_destroy(at);
			rseq_mempool *h = a.pool; unsigned n = 1 + o.c % 3; std::vector<void *> v; for (unsigned i = 0; i < n; i++) { sched::call(co_fn[CO_ZMALLOC], &a); if (!a.p) bad("allocation from a private pool failed (%s)", desc.c_str()); for (void *x : v) if (x == a.p) bad("private pool handed out an item twice (%s)", desc.c_str()); v.push_back(a.p); for (int cpu = 0; cpu < g.cpus; cpu++) { char *q = (char *) rseq_percpu_ptr((char *) a.p, cpu, g.stride); for (size_t k = 0; k < g.R(); k++) if (q[k]) bad("zeroed item of a private pool is not zero (%s)", desc.c_str()); memset(q, 0x40 + t, g.R()); } a.pool = h; }
			a.stride = g.stride; a.p = v[0]; sched::call(co_fn[CO_FREE], &a); a.pool = h; if (sched::call(co_fn[CO_DESTROY], &a)) bad("destroying a pool failed, errno %d (%s)", errno, desc.c_str()); n_create++; break; }
		}
	}
}
static void C21(Ctx &c) {
	shim::S.reset(); locks.clear(); MP.clear(); given.clear(); evs.clear(); nextev = 0; serial = 0; n_switched = n_blocked = n_mid = 0; n_enomem = n_alloc = n_free = n_add = n_ebusy = n_create = n_setalloc = n_fall = 0; for (auto &v : mine) v.clear(); for (auto &v : prog) v.clear(); for (auto &q : calls) q = Inflight();
	int nthr = 2 + (int) c.weighted({5, 3, 1}); unsigned npool = 1 + (unsigned) c.below(3); bool useset = c.chance(2, 5);
	auto mk = [&](int owner, bool forset) {
		MPool p; Cfg &g = p.g; g.global = !forset && c.chance(1, 6); g.item_len = c.chance(2, 3) ? 8u << c.below(forset ? 6 : 5) : 1 + c.below(1000); if (c.chance(1, 4)) g.item_len = 2048; if (c.chance(1, 6)) g.item_len = 4096; g.stride = 4096; g.cpus = g.global ? 1 : 1 + (int) c.below(3); g.policy_set = true; g.policy = (int) c.below(2); g.poison_set = c.chance(1, 4); g.poison = c.coin() ? 0 : 0x1122334455667788ull; g.robust = c.chance(1, 4); g.max_ranges = c.weighted({1, 4, 2, 1}); p.owner = owner;
		if (g.global) g.policy_set = false;
		if (forset) { g.init = true; p.ir = std::make_shared<InitRec>(); } errno = 0; p.h = cfg_create(g, p.ir.get()); if (!p.h) c.fail("creating a pool failed, errno %d", errno); p.cap = g.max_ranges * g.per_range(); MP.push_back(p); c.note("pool %d: %s%s", (int) MP.size() - 1, g.str().c_str(), owner >= 0 ? " (one thread's own, to be added to the set)" : ""); };
	for (unsigned i = 0; i < npool; i++) mk(-1, false);
	the_set = nullptr; std::vector<size_t> toadd;
	if (useset) { the_set = rseq_mempool_set_create(); unsigned k = (unsigned) c.below(3); for (unsigned i = 0; i < k; i++) { mk(-1, true); toadd.push_back(MP.size() - 1); } for (int t = 0; t < nthr; t++) if (c.chance(2, 3)) { mk(t, true);} }
	// bring pools to interesting fill levels
	for (size_t i = 0; i < MP.size(); i++) { MPool &p = MP[i]; if (!p.usable) continue; // learn the first range's address, and fill up
		size_t want = 0; if (p.cap && p.cap <= 512) want = c.chance(2, 3) ? p.cap - std::min<size_t>(p.cap, c.below(4)) : c.below(4); else want = c.below(4);
		if (!want) want = 1; if (p.cap && want > p.cap) want = p.cap; std::vector<void *> v; for (size_t k = 0; k < want; k++) { void *a = p.g.global ? rseq_mempool_malloc(p.h) : (void *) rseq_mempool_percpu_malloc(p.h); if (!a) c.fail("filling pool %zu failed at item %zu of %zu", i, k, p.cap); p.maybe++; note_counts(); got_item(0, (int) i, a, 0, nullptr, 0, false); v.push_back(a); }
		size_t nf = c.weighted({2, 2, 1, 1}); if (nf == 3) nf = c.below(v.size() + 1); if (nf > v.size()) nf = v.size();
		for (size_t k = 0; k < v.size(); k++) { MItem m{v[k], (int) i, p.items[v[k]], false}; if (k < nf) { if (p.g.global) rseq_mempool_free(v[k], p.g.S()); else rseq_mempool_percpu_free(v[k], p.g.S()); p.items.erase(v[k]); p.live--; p.maybe--; } else { if (mine[k % nthr].size() < 6) mine[k % nthr].push_back(m); else given.push_back(m); } }
		c.note("pool %zu: %ld of %zu in use, %zu freed", i, p.live, p.cap, nf);
	}
	for (size_t i : toadd) if (!rseq_mempool_set_add_pool(the_set, MP[i].h)) MP[i].set_state = 2;
	static const char *const on[] = { "alloc", "free", "give", "set alloc", "set add", "private pool" };
	for (int t = 0; t < nthr; t++) { unsigned no = 1 + (unsigned) c.below(6); std::string s; for (unsigned i = 0; i < no; i++) { Ctx::SpanGuard g(c); TOp o; o.kind = c.weighted({6, 5, 1, (unsigned) (useset ? 5 : 0), (unsigned) (useset ? 3 : 0), 1}); o.a = (unsigned) c.below(64); o.b = (unsigned) c.below(12); o.c = (unsigned) c.below(64); prog[t].push_back(o); s += std::string(i ? ", " : "") + on[o.kind]; } c.note("thread %d: %s", t, s.c_str()); }
	unsigned G = c.chance(1, 3) ? 12 : c.coin() ? 60 : 400; gen_schedule(c, nthr, G);
	char b[200]; snprintf(b, sizeof b, "%d threads, %zu pools%s, %zu switches planned", nthr, MP.size(), useset ? ", a set" : "", evs.size()); desc = b;
	sched::max_steps = 40000;
	std::vector<std::function<void()>> bodies; for (int t = 0; t < nthr; t++) bodies.push_back([t] { body(t); });
	int first = (int) c.below(nthr);
	if (!sched::run(bodies, first)) c.discard();
	sched::stepping = false;
	// everything still there?
	for (int t = 0; t < nthr; t++) for (auto &m : mine[t]) verify(MP[m.pool], m, "at the end"); for (auto &m : given) verify(MP[m.pool], m, "at the end");
	// exact remaining capacity
	for (size_t i = 0; i < MP.size(); i++) { MPool &p = MP[i]; size_t want = p.cap ? p.cap - p.items.size() : p.bases.size() * p.g.per_range() - p.items.size();
		for (size_t k = 0; k < want; k++) { errno = 0; void *a = p.g.global ? rseq_mempool_malloc(p.h) : (void *) rseq_mempool_percpu_malloc(p.h); if (!a) c.fail("pool %zu lost capacity: only %zu more items could be allocated, %zu expected (%s)", i, k, want, desc.c_str()); if (p.items.count(a)) c.fail("pool %zu hands out a live item after the concurrent phase (%s)", i, desc.c_str()); p.items[a] = 0; if (!p.cap && !p.bases.count((uintptr_t) a & ~(p.g.S() - 1))) c.fail("pool %zu grew although %zu items were free: capacity was lost (%s)", i, want - k, desc.c_str()); }
		if (p.cap) { errno = 0; void *a = p.g.global ? rseq_mempool_malloc(p.h) : (void *) rseq_mempool_percpu_malloc(p.h); if (a) c.fail("pool %zu exceeds its limit of %zu items (%s)", i, p.cap, desc.c_str()); }
		for (auto &x : p.items) { if (p.g.global) rseq_mempool_free(x.first, p.g.S()); else rseq_mempool_percpu_free(x.first, p.g.S()); } p.items.clear(); }
	if (the_set && rseq_mempool_set_destroy(the_set)) c.fail("destroying the set failed (%s)", desc.c_str());
	for (auto &p : MP) if (p.set_state != 2 && rseq_mempool_destroy(p.h)) c.fail("destroying a pool failed (%s)", desc.c_str());
	if (!shim::S.error.empty()) c.fail("the library misused a resource: %s (%s)", shim::S.error.c_str(), desc.c_str());
	if (!shim::S.maps.empty() || !shim::S.fds.empty() || !shim::S.heap.empty()) c.fail("resources left after the pools were destroyed: %zu mappings, %zu descriptors, %zu heap blocks (%s)", shim::S.maps.size(), shim::S.fds.size(), shim::S.heap.size(), desc.c_str());
	if (n_mid) c.nontrivial();
	c.label("thread switches inside library code", n_mid); c.label("waits for a lock", n_blocked); c.label("allocations", n_alloc); c.label("frees", n_free); c.label("allocations refused (exhausted)", n_enomem); c.label("set additions", n_add); c.label("set additions refused", n_ebusy); c.label("private pools", n_create); c.label("set allocations", n_setalloc); c.label("set fall-throughs", n_fall); c.label("instructions stepped", sched::nsteps);
}
int main(int argc, char **argv) {
	std::vector<Property> P = {
		{"C21", "case = 2-4 threads with generated programs (allocate plain/zeroed/initialised, free own or another thread's items, set allocation, set addition, private pool creation and destruction) over 1-6 shared pools near exhaustion, and a generated list of thread switches at instruction or lock-operation granularity inside library code; non-trivial = at least one switch happened inside a library call", C21, 12000, 300000, 40, 40, [] { sched::init(); }},
	};
	return main_(argc, argv, P);
}
