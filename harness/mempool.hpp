// Reference model of pools and items, shared by the mempool properties.
#pragma once
#include "../engine/pbt.hpp"
#include "shim.hpp"
#include <rseq/mempool.h>
#include <rseq/rseq.h>
#include <memory>

using pbt::Ctx;

static const size_t PAGE = 4096;
static inline size_t pow2ceil(size_t x) { size_t r = 1; while (r < x) r <<= 1; return r; }
static inline int ilog2(size_t x) { int r = 0; while ((1ull << r) < x) r++; return r; }

struct Cfg {
	bool global = false; size_t item_len = 8; size_t stride = 0; int cpus = 1; bool set_type = true;
	bool policy_set = false; int policy = RSEQ_MEMPOOL_POPULATE_COW_INIT;
	bool init = false; bool init_before_policy = true;
	bool robust = false; bool poison_set = false; uintptr_t poison = 0;
	unsigned long max_ranges = 0; bool name = false; unsigned name_len = 7; bool attr = true;
	std::string nm() const { static const char t[] = "vp-%s%n pool/\xc3\xa9:%d "; std::string r; for (unsigned i = 0; i < name_len; i++) r += t[i % (sizeof t - 1)]; return r; }
	// effective values
	size_t R() const { return pow2ceil(item_len < 8 ? 8 : item_len); }
	size_t S() const { return stride ? stride : RSEQ_MEMPOOL_STRIDE; }
	int N() const { return global ? 1 : cpus ? cpus : rseq_get_max_nr_cpus(); }
	int eff_policy() const {
		if (global) return RSEQ_MEMPOOL_POPULATE_COW_ZERO;
		int p = RSEQ_MEMPOOL_POPULATE_COW_INIT;
		if (!attr) return p;
		if (init && init_before_policy) p = RSEQ_MEMPOOL_POPULATE_COW_INIT;
		if (policy_set) p = policy;
		if (init && !init_before_policy) p = RSEQ_MEMPOOL_POPULATE_COW_INIT;
		return p;
	}
	bool cow_init() const { return eff_policy() == RSEQ_MEMPOOL_POPULATE_COW_INIT; }
	bool has_poison() const { return poison_set || robust; }
	uintptr_t eff_poison() const { if (poison_set) return poison; return cow_init() ? 0x5555555555555555ull : 0; }
	size_t per_range() const { return S() / R(); }
	std::string str() const {
		char b[400]; snprintf(b, sizeof b, "%s pool item_len=%zu(->%zu) stride=%zu cpus=%d policy=%s%s%s%s max_ranges=%lu", global ? "global" : "per-cpu", item_len, R(), S(), N(), cow_init() ? "COW_INIT" : "COW_ZERO", init ? " init-callback" : "", robust ? " robust" : "", has_poison() ? " poison" : "", max_ranges);
		std::string s = b; if (has_poison()) { snprintf(b, sizeof b, "=0x%lx", (unsigned long) eff_poison()); s += b; } return s;
	}
};

struct InitCall { void *priv; void *addr; size_t len; int cpu; };
struct InitRec {
	std::vector<InitCall> calls; long fail_at = -1; long n = 0; unsigned depth = 1 << 16; bool fill = false; bool failed = false;
	uint64_t seed = 0;
	static uint64_t pat(uint64_t seed, uintptr_t base, int cpu, size_t off) { return pbt::mix(seed ^ base ^ ((uint64_t) (cpu + 7) << 48) ^ off * 0x10001) | 1; }
	static int cb(void *priv, void *addr, size_t len, int cpu) {
		InitRec *r = (InitRec *) priv; r->calls.push_back({priv, addr, len, cpu});
		if (r->n++ == r->fail_at) { r->failed = true; errno = EIO; return -1; }
		if (r->fill) { size_t m = len < r->depth ? len : r->depth; for (size_t o = 0; o < m; o += 8) *(uint64_t *) ((char *) addr + o) = pat(r->seed, 0, cpu, o); }
		return 0;
	}
};

struct Item { void *p = nullptr; uint64_t serial = 0; uint32_t range = 0; std::vector<std::vector<uint8_t>> c; /* content per model cpu */ bool content = true; };

// Applies the attributes in cfg and creates the pool.
static struct rseq_mempool *cfg_create(const Cfg &g, InitRec *ir) {
	struct rseq_mempool_attr *a = nullptr;
	if (g.attr) {
		a = rseq_mempool_attr_create();
		if (!a) return nullptr;
		int e = 0;
		if (g.global) e |= rseq_mempool_attr_set_global(a, g.stride);
		else if (g.set_type) e |= rseq_mempool_attr_set_percpu(a, g.stride, g.cpus);
		if (g.init && g.init_before_policy) e |= rseq_mempool_attr_set_init(a, InitRec::cb, ir);
		if (g.policy_set) e |= rseq_mempool_attr_set_populate_policy(a, (enum rseq_mempool_populate_policy) g.policy);
		if (g.init && !g.init_before_policy) e |= rseq_mempool_attr_set_init(a, InitRec::cb, ir);
		if (g.robust) e |= rseq_mempool_attr_set_robust(a);
		if (g.poison_set) e |= rseq_mempool_attr_set_poison(a, g.poison);
		if (g.max_ranges) e |= rseq_mempool_attr_set_max_nr_ranges(a, g.max_ranges);
		if (e) { rseq_mempool_attr_destroy(a); errno = EINVAL; return nullptr; }
	}
	struct rseq_mempool *p = rseq_mempool_create(g.name ? g.nm().c_str() : nullptr, g.item_len, a);
	int e = errno; rseq_mempool_attr_destroy(a); errno = e;
	return p;
}

struct Pool {
	Cfg g; struct rseq_mempool *h = nullptr; InitRec ir; uint64_t id = 0;
	std::vector<std::shared_ptr<Item>> live;
	std::map<void *, bool> ever;            // every address ever handed out
	size_t nr_ranges = 1;
	std::set<uintptr_t> bases;              // range bases seen
	std::vector<int> mcpus;                 // CPUs whose content is modelled
	size_t avail() const { return nr_ranges * g.per_range() - live.size(); }
	char *ptr(const void *p, int cpu) const {
		if (g.global) return (char *) p;
		if (g.S() == RSEQ_MEMPOOL_STRIDE) return (char *) rseq_percpu_ptr((char *) p, cpu);
		return (char *) rseq_percpu_ptr((char *) p, cpu, g.S());
	}
};

enum AllocKind { A_PLAIN, A_ZERO, A_INIT };

struct World {
	Ctx &c; std::vector<std::unique_ptr<Pool>> pools; uint64_t serial = 0, nextpool = 0;
	std::map<uintptr_t, uintptr_t> intervals; // live item memory on modelled CPUs
	size_t model_bytes = 0;
	unsigned reuse = 0, growths = 0, enomem = 0, frees = 0, allocs = 0, divergent_reuse = 0;
	World(Ctx &c_) : c(c_) {}

	static void pick_mcpus(Ctx &c, Pool &p) {
		int n = p.g.N(); size_t R = p.g.R(); int maxc = (int) std::max<size_t>(2, 65536 / R); if (maxc > 16) maxc = 16;
		if (n <= maxc) for (int i = 0; i < n; i++) p.mcpus.push_back(i);
		else { p.mcpus = {0}; for (int k = 1; k < maxc - 1; k++) p.mcpus.push_back((int) c.below(n)); p.mcpus.push_back(n - 1);
			std::sort(p.mcpus.begin(), p.mcpus.end()); p.mcpus.erase(std::unique(p.mcpus.begin(), p.mcpus.end()), p.mcpus.end()); }
	}
	Pool *create(const Cfg &g, bool fill = false) {
		auto p = std::make_unique<Pool>(); p->g = g; p->id = nextpool++; p->ir.fill = fill; p->ir.seed = 0xabc + p->id;
		if (g.S() > (1 << 20)) p->ir.depth = 8192;
		c.note("create pool#%d: %s", (int) p->id, g.str().c_str());
		errno = 0;
		p->h = cfg_create(g, &p->ir);
		if (!p->h) return nullptr;
		pick_mcpus(c, *p);
		Pool *r = p.get(); pools.push_back(std::move(p)); return r;
	}
	bool shim_ok() { if (!shim::S.error.empty()) c.fail("the library misused a resource: %s", shim::S.error.c_str()); return true; }

	void check_item(Pool &p, Item &it, const char *when) {
		if (!it.content) return;
		size_t R = p.g.R();
		for (size_t k = 0; k < p.mcpus.size(); k++) {
			const uint8_t *q = (const uint8_t *) p.ptr(it.p, p.mcpus[k]);
			if (memcmp(q, it.c[k].data(), R)) {
				size_t o = 0; while (q[o] == it.c[k][o]) o++;
				c.fail("%s: item #%llu of pool#%d changed on CPU %d at byte %zu of %zu: expected 0x%02x, found 0x%02x", when, (unsigned long long) it.serial, (int) p.id, p.mcpus[k], o, R, it.c[k][o], q[o]);
			}
		}
	}
	void check_all(const char *when) { for (auto &p : pools) for (auto &it : p->live) check_item(*p, *it, when); }

	// Registers an address just handed out: alignment, overlap, access.
	void claim(Pool &p, void *a, std::shared_ptr<Item> it) {
		size_t R = p.g.R(), S = p.g.S(); uintptr_t u = (uintptr_t) a;
		PBT_CHECK(c, u % R == 0, "item %p is not aligned to its size %zu", a, R);
		for (int cpu : p.mcpus) {
			uintptr_t s = (uintptr_t) p.ptr(a, cpu), e = s + R;
			auto n = intervals.lower_bound(e);
			if (n != intervals.begin()) { --n; if (n->second > s) c.fail("item at %p overlaps a live item on CPU %d (%lx-%lx and %lx-%lx)", a, cpu, (unsigned long) s, (unsigned long) e, (unsigned long) n->first, (unsigned long) n->second); }
			intervals[s] = e;
		}
		p.bases.insert(u & ~(S - 1));
		it->p = a; it->serial = serial++;
	}
	void adopt(Pool &p, Item &it) { // content becomes whatever is there now
		size_t R = p.g.R(); it.c.resize(p.mcpus.size());
		for (size_t k = 0; k < p.mcpus.size(); k++) { const uint8_t *q = (const uint8_t *) p.ptr(it.p, p.mcpus[k]); it.c[k].assign(q, q + R); }
	}
	bool should_succeed(Pool &p, bool &grow) {
		grow = false;
		if (p.avail() > 0) return true;
		if (p.g.max_ranges == 0 || p.nr_ranges < p.g.max_ranges) { grow = true; return true; }
		return false;
	}
	// Content checks right after an allocation served by pool p at address a.
	std::shared_ptr<Item> allocated(Pool &p, void *a, AllocKind kind, const std::vector<uint8_t> &init, bool grow) {
		bool again = p.ever.count(a); if (again) reuse++; allocs++;
		size_t R = p.g.R();
		if (grow) { p.nr_ranges++; growths++; }
		auto it = std::make_shared<Item>(); claim(p, a, it); p.ever[a] = true;
		if (p.bases.size() > p.nr_ranges) c.fail("pool#%d uses %zu ranges, at most %zu expected (capacity or growth limit not respected)", (int) p.id, p.bases.size(), p.nr_ranges);
		adopt(p, *it);
		for (size_t k = 0; k < p.mcpus.size(); k++) {
			auto &v = it->c[k];
			if (kind == A_ZERO) { for (size_t o = 0; o < R; o++) if (v[o]) c.fail("zeroed allocation (item #%llu, %s, pool#%d %s) reads 0x%02x at byte %zu on CPU %d", (unsigned long long) it->serial, again ? "recycled" : "fresh", (int) p.id, p.g.str().c_str(), v[o], o, p.mcpus[k]); }
			else if (kind == A_INIT) { for (size_t o = 0; o < init.size(); o++) if (v[o] != init[o]) c.fail("initialised allocation (item #%llu, %s, len %zu, pool#%d %s) reads 0x%02x instead of 0x%02x at byte %zu on CPU %d", (unsigned long long) it->serial, again ? "recycled" : "fresh", init.size(), (int) p.id, p.g.str().c_str(), v[o], init[o], o, p.mcpus[k]); }
			if (again && p.g.has_poison() && kind != A_ZERO) {
				uintptr_t po = p.g.eff_poison(); size_t from = kind == A_INIT ? (init.size() + 7) / 8 * 8 : 0;
				if (!p.g.robust && from < 8) from = 8;
				for (size_t o = from; o + 8 <= R; o += 8) { uint64_t x; memcpy(&x, &v[o], 8); if (x != po) c.fail("recycled item of poisoned pool#%d (%s) exposes 0x%llx instead of the poison at byte %zu on CPU %d", (int) p.id, p.g.str().c_str(), (unsigned long long) x, o, p.mcpus[k]); }
			}
			if (!again && kind != A_ZERO && p.g.init && p.ir.fill) {
				size_t off = (uintptr_t) a & (p.g.S() - 1), from = kind == A_INIT ? (init.size() + 7) / 8 * 8 : 0;
				for (size_t o = from; o + 8 <= R && off + o < std::min<size_t>(p.ir.depth, p.g.S()); o += 8) { uint64_t x; memcpy(&x, &v[o], 8); uint64_t e = InitRec::pat(p.ir.seed, 0, p.g.global ? -1 : p.mcpus[k], off + o); if (x != e) c.fail("fresh item of pool#%d reads 0x%llx at range offset %zu on CPU %d, init callback wrote 0x%llx", (int) p.id, (unsigned long long) x, off + o, p.mcpus[k], (unsigned long long) e); }
			}
		}
		p.live.push_back(it);
		return it;
	}
	// Returns the item or null on an expected failure.
	std::shared_ptr<Item> alloc(Pool &p, AllocKind kind, const std::vector<uint8_t> &init) {
		bool grow, ok = should_succeed(p, grow);
		errno = 0; void *a;
		std::vector<uint8_t> ib = init; ib.push_back(0);
		if (p.g.global) a = kind == A_PLAIN ? rseq_mempool_malloc(p.h) : kind == A_ZERO ? rseq_mempool_zmalloc(p.h) : rseq_mempool_malloc_init(p.h, ib.data(), init.size());
		else a = kind == A_PLAIN ? (void *) rseq_mempool_percpu_malloc(p.h) : kind == A_ZERO ? (void *) rseq_mempool_percpu_zmalloc(p.h) : (void *) rseq_mempool_percpu_malloc_init(p.h, ib.data(), init.size());
		int e = errno; shim_ok();
		if (!ok) {
			PBT_CHECK(c, !a, "pool#%d (%s) handed out an item although %zu ranges x %zu items are all in use", (int) p.id, p.g.str().c_str(), p.nr_ranges, p.g.per_range());
			PBT_CHECK(c, e == ENOMEM, "exhausted pool#%d reported errno %d instead of ENOMEM", (int) p.id, e);
			enomem++; return nullptr;
		}
		if (!a && grow && p.g.S() * (size_t) (p.g.N() + 2) > (1ull << 30)) c.discard();   // the system may refuse very large ranges
		PBT_CHECK(c, a, "pool#%d (%s) refused an allocation (errno %d) with %zu live items, %zu ranges%s", (int) p.id, p.g.str().c_str(), e, p.live.size(), p.nr_ranges, grow ? ", growth allowed" : "");
		return allocated(p, a, kind, init, grow);
	}
	void forget(Pool &p, size_t i) {
		auto it = p.live[i];
		for (int cpu : p.mcpus) intervals.erase((uintptr_t) p.ptr(it->p, cpu));
		p.live[i] = p.live.back(); p.live.pop_back();
	}
	void raw_free(Pool &p, void *a) {
		if (p.g.global) { if (p.g.stride) rseq_mempool_free(a, p.g.S()); else rseq_mempool_free(a); }
		else { if (p.g.stride && p.g.S() != RSEQ_MEMPOOL_STRIDE) rseq_mempool_percpu_free(a, p.g.S()); else rseq_mempool_percpu_free(a); }
	}
	void check_poisoned(Pool &p, void *a) {
		if (!p.g.has_poison()) return;
		size_t R = p.g.R(); uintptr_t po = p.g.eff_poison();
		for (int cpu : p.mcpus) { const char *q = p.ptr(a, cpu); for (size_t o = p.g.robust ? 0 : 8; o + 8 <= R; o += 8) { uint64_t x; memcpy(&x, q + o, 8); if (x != po) c.fail("freed item of pool#%d (%s) still reads 0x%llx at byte %zu on CPU %d, poison is 0x%lx", (int) p.id, p.g.str().c_str(), (unsigned long long) x, o, cpu, (unsigned long) po); } }
	}
	void free_item(Pool &p, size_t i) {
		auto it = p.live[i]; check_item(p, *it, "before free");
		bool div = false; for (size_t k = 1; k < it->c.size(); k++) if (it->c[k] != it->c[0]) div = true;
		if (div) divergent_reuse++;
		forget(p, i); frees++;
		raw_free(p, it->p); shim_ok();
		check_poisoned(p, it->p);
	}
	void write(Pool &p, Item &it, size_t k, size_t off, size_t len, const uint8_t *src) {
		char *q = p.ptr(it.p, p.mcpus[k]); memcpy(q + off, src, len); memcpy(it.c[k].data() + off, src, len);
	}
	void destroy(size_t pi) {
		Pool &p = *pools[pi];
		c.note("destroy pool#%d", (int) p.id);
		errno = 0; int r = rseq_mempool_destroy(p.h); shim_ok();
		PBT_CHECK(c, r == 0, "destroy of pool#%d failed (errno %d)", (int) p.id, errno);
		for (auto &it : p.live) for (int cpu : p.mcpus) intervals.erase((uintptr_t) p.ptr(it->p, cpu));
		pools.erase(pools.begin() + pi);
	}
	void finish() { // free everything (robust pools require it) and destroy
		while (!pools.empty()) { Pool &p = *pools.back(); if (p.g.robust || p.live.size() < 64) while (!p.live.empty()) free_item(p, p.live.size() - 1); destroy(pools.size() - 1); }
		PBT_CHECK(c, shim::S.maps.empty(), "%zu bytes still mapped after every pool was destroyed", shim::S.mapped());
		PBT_CHECK(c, shim::S.fds.empty(), "%zu file descriptors still open after every pool was destroyed", shim::S.fds.size());
		PBT_CHECK(c, shim::S.heap.empty(), "%zu heap blocks still allocated after every pool was destroyed", shim::S.heap.size());
	}
};

struct GenOpt { bool init_ok = true, robust_ok = true, big_ok = true, small_only = false; int force_policy = -1; int max_cpus = 16; bool huge_items = false; };

static Cfg gen_cfg(Ctx &c, const GenOpt &o = GenOpt()) {
	Cfg g;
	g.global = c.chance(1, 6);
	bool large = false;
	switch (c.weighted({12, 6, 2, o.huge_items ? 1u : 0u})) {
	case 3: large = true; g.item_len = 60000 + c.below(300000); break;
	case 0: g.item_len = 1ull << c.range(0, 8); break;
	case 1: g.item_len = 1 + c.below(700); break;
	default: g.item_len = 1 + c.below(20000); break;
	}
	size_t R = g.R(); int lo = std::max(12, ilog2(R));
	switch (c.weighted({4, 2, 4, (o.big_ok && !o.small_only) ? 1u : 0u})) {
	case 0: g.stride = 1ull << (lo + c.below(2)); break;
	case 1: g.stride = 0; if (R > RSEQ_MEMPOOL_STRIDE) g.stride = R; break;
	case 2: g.stride = 1ull << (lo + c.below(o.small_only ? 3 : 6)); break;
	default: g.stride = 1ull << (20 + c.below(13)); if (g.stride < R) g.stride = R; break;
	}
	switch (c.weighted({4, 3, 1, 1})) {
	case 0: g.cpus = 1 + c.below(3); break;
	case 1: g.cpus = 1 + c.below(o.max_cpus); break;
	case 2: g.cpus = 0; break;
	default: g.cpus = o.big_ok ? 1 + c.below(300) : 1 + c.below(o.max_cpus); break;
	}
	if (large) g.cpus = 1 + (int) c.below(3);
	while (g.S() * (size_t) (g.N() + 2) > (9ull << 30)) { if (g.cpus > 2) g.cpus /= 2; else g.stride = g.S() / 2; }
	if (g.global) g.cpus = 1;
	if (g.item_len > g.S()) g.item_len = g.S();
	if (o.force_policy >= 0) { g.policy_set = true; g.policy = o.force_policy; if (o.force_policy == 0) g.global = false; }
	else { g.policy_set = c.coin(); if (g.policy_set) g.policy = (int) c.below(2); }
	g.robust = o.robust_ok && c.chance(1, 2);
	g.poison_set = c.chance(1, 3);
	if (g.poison_set) g.poison = c.chance(1, 3) ? 0 : c.word();
	g.init = o.init_ok && c.chance(1, 5); g.init_before_policy = !c.coin();
	g.max_ranges = c.weighted({2, 3, 2, 1, 1}); if (g.max_ranges == 4) { static const unsigned long far[] = { 255, 256, 257, 65535, 65536, 65537, 1ul << 31, (1ul << 32) - 1, 1ul << 32, (1ul << 32) + 1, 1ul << 63, ~0ul }; g.max_ranges = c.chance(1, 3) ? far[c.below(12)] : 1 + c.below(20); }
	g.name = c.coin(); if (g.name) g.name_len = c.chance(1, 4) ? (unsigned) c.below(600) : c.chance(1, 4) ? 225 + (unsigned) c.below(30) : (unsigned) c.below(40);
	return g;
}
