// Mempool properties C11-C15, C18-C20, C24: model-based histories.
#define SHIM_IMPL
#include "shim.hpp"
#include "mempool.hpp"
#include <dirent.h>
#include <setjmp.h>

using namespace pbt;

static void snapshot_foreign() {
	shim::S.foreign_fds.clear();
	for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) >= 0) shim::S.foreign_fds.insert(i);
}
static void begin_case() { shim::S.reset(); snapshot_foreign(); }

struct Profile {
	unsigned len = 30;
	unsigned w_plain = 4, w_zero = 4, w_init = 4, w_free = 8, w_write = 8, w_fill = 1, w_drain = 1, w_check = 2, w_newpool = 1, w_destroy = 0, w_fault = 0;
	unsigned max_pools = 2; bool init_fill = true; bool scribble = false; // overwrite whole item on several CPUs before free
};

static std::vector<uint8_t> gen_init(Ctx &c, size_t R) {
	size_t n;
	switch (c.weighted({3, 3, 1, 2})) { case 0: n = R; break; case 1: n = 1 + c.below(R); break; case 2: n = 0; break; default: n = std::min<size_t>(R, 8 * (1 + c.below(4))); break; }
	std::vector<uint8_t> v(n); int mode = (int) c.below(4); uint64_t s = mode >= 2 ? c.u64() : 0;
	for (size_t i = 0; i < n; i++) v[i] = mode == 0 ? 0 : mode == 1 ? (uint8_t) 0xff : mode == 2 ? (uint8_t) (mix(s + i / 8) >> (8 * (i % 8))) : (i + 1 == n ? (uint8_t) (s | 1) : 0);
	return v;
}
static void gen_write(World &w, Ctx &c, Pool &p, Item &it, bool full) {
	size_t R = p.g.R(); size_t k = c.below(p.mcpus.size());
	size_t off = 0, len = R; if (!full) switch (c.weighted({3, 2, 2, 2})) { case 0: break; case 1: off = c.below(R); len = 1 + c.below(R - off); break; case 2: off = R - 1; len = 1; break; default: len = std::min<size_t>(R, 8); break; }
	uint64_t s = c.u64(); bool uni = c.chance(1, 6);
	std::vector<uint8_t> b(len); for (size_t i = 0; i < len; i++) b[i] = uni ? (uint8_t) s : (uint8_t) (mix(s + (off + i) / 8) >> (8 * ((off + i) % 8)));
	bool all = c.chance(1, 5);
	c.note("write item#%llu of pool#%d %s bytes [%zu,+%zu) %s", (unsigned long long) it.serial, (int) p.id, all ? "on every CPU" : ("on CPU " + std::to_string(p.mcpus[k])).c_str(), off, len, uni ? "uniform" : "pattern");
	if (all) for (size_t q = 0; q < p.mcpus.size(); q++) w.write(p, it, q, off, len, b.data()); else w.write(p, it, k, off, len, b.data());
}
static bool do_alloc(World &w, Ctx &c, Pool &p, AllocKind k) {
	std::vector<uint8_t> in; if (k == A_INIT) in = gen_init(c, p.g.R());
	auto it = w.alloc(p, k, in);
	c.note("%s pool#%d%s -> %s", k == A_PLAIN ? "malloc" : k == A_ZERO ? "zmalloc" : "malloc_init", (int) p.id, k == A_INIT ? (" len=" + std::to_string(in.size())).c_str() : "", it ? ("item#" + std::to_string(it->serial)).c_str() : "ENOMEM");
	return (bool) it;
}
static void check_init_calls(World &w, Pool &p, size_t ranges, size_t from = 0) {
	(void) w; Ctx &c = w.c; if (!p.g.init) return;
	size_t per = p.g.global ? 1 : p.g.N();
	PBT_CHECK(c, p.ir.calls.size() - from == per * ranges, "init callback called %zu times for %zu new range(s) of a %zu-CPU pool", p.ir.calls.size() - from, ranges, per);
	for (size_t r = 0; r < ranges; r++) {
		std::set<int> seen; uintptr_t base = 0;
		for (size_t i = 0; i < per; i++) { auto &q = p.ir.calls[from + r * per + i];
			PBT_CHECK(c, q.priv == &p.ir, "init callback got private pointer %p instead of %p", q.priv, (void *) &p.ir);
			PBT_CHECK(c, q.len == p.g.S(), "init callback got length %zu instead of the stride %zu", q.len, p.g.S());
			if (p.g.global) { PBT_CHECK(c, q.cpu == -1, "init callback of a global pool got cpu %d", q.cpu); base = (uintptr_t) q.addr; }
			else { PBT_CHECK(c, q.cpu >= 0 && q.cpu < (int) per && seen.insert(q.cpu).second, "init callback got cpu %d (repeated or out of range)", q.cpu);
				uintptr_t b = (uintptr_t) q.addr - (uintptr_t) q.cpu * p.g.S(); if (i == 0) base = b; PBT_CHECK(c, b == base, "init callback for cpu %d got address %p, expected %lx", q.cpu, q.addr, (unsigned long) (base + (uintptr_t) q.cpu * p.g.S())); } }
		// remember range base: items of this range must fall in it
		p.bases.insert(base);
		if (p.bases.size() > p.nr_ranges) c.fail("init callback was given memory at %lx that is not one of the pool's %zu ranges", (unsigned long) base, p.nr_ranges);
	}
}

// Generic history; every model check is always on.
static void history(Ctx &c, const Profile &f, const GenOpt &go, bool init_checks = false, const std::function<void(Cfg &)> &tweak = nullptr) {
	begin_case(); World w(c);
	auto newpool = [&] { Cfg g = gen_cfg(c, go); if (tweak) tweak(g); if (w.pools.size() && g.S() * (size_t) g.N() > (1ull << 31)) g.stride = 0, g.item_len = std::min<size_t>(g.item_len, 4096);
		Pool *p = w.create(g, f.init_fill);
		if (!p) { if (errno == ENOMEM && g.S() * (size_t) (g.N() + 2) > (1ull << 30)) c.discard(); c.fail("creating a valid pool failed with errno %d (%s)", errno, g.str().c_str()); }
		if (!g.global) { int n = rseq_mempool_get_max_nr_cpus(p->h); PBT_CHECK(c, n == g.N(), "pool reports %d CPUs, configured %d", n, g.N()); }
		w.shim_ok();
		if (init_checks) check_init_calls(w, *p, 1);
		if (g.S() * (size_t) g.N() > (1ull << 32)) c.label("pool spans more than 4 GiB");
		c.label(g.global ? "global pool" : "per-cpu pool"); c.label(g.cow_init() ? "COW_INIT" : "COW_ZERO"); if (g.robust) c.label("robust"); if (g.poison_set) c.label("explicit poison"); if (g.init) c.label("init callback");
		return p; };
	newpool();
	while (c.more(f.len)) {
		Ctx::SpanGuard sg(c);
		if (w.pools.empty()) { newpool(); continue; }
		size_t pi = c.below(w.pools.size()); Pool &p = *w.pools[pi];
		size_t before = p.ir.calls.size(), rb = p.nr_ranges;
		int op = c.weighted({f.w_plain, f.w_zero, f.w_init, f.w_free, f.w_write, f.w_fill, f.w_drain, f.w_check, f.w_newpool, f.w_destroy, f.w_fault});
		switch (op) {
		case 0: do_alloc(w, c, p, A_PLAIN); break;
		case 1: do_alloc(w, c, p, A_ZERO); break;
		case 2: do_alloc(w, c, p, A_INIT); break;
		case 3: if (!p.live.empty()) { size_t i = c.below(p.live.size());
				if (f.scribble) for (unsigned k = 0, n = 1 + c.below(3); k < n; k++) gen_write(w, c, p, *p.live[i], true);
				c.note("free item#%llu of pool#%d", (unsigned long long) p.live[i]->serial, (int) p.id); w.free_item(p, i); } break;
		case 4: if (!p.live.empty()) gen_write(w, c, p, *p.live[c.below(p.live.size())], false); break;
		case 5: { // allocate up to, at or past the end of the current ranges
			size_t n = p.avail(); size_t cap = 1500; if (p.g.R() * p.mcpus.size() > 4096) cap = 300; n = std::min(n, cap); n += c.below(3);
			AllocKind k = (AllocKind) c.below(3); bool wr = c.coin(); c.note("allocate %zu times from pool#%d (%d)", n, (int) p.id, (int) k);
			std::vector<uint8_t> in; if (k == A_INIT) in = gen_init(c, p.g.R());
			for (size_t i = 0; i < n; i++) { auto it = w.alloc(p, k, in); if (!it) break; if (wr) { uint64_t v = mix(it->serial); size_t q = i % p.mcpus.size(); w.write(p, *it, q, 0, 8, (uint8_t *) &v); w.write(p, *it, q, p.g.R() - 1, 1, (uint8_t *) &v); } }
			break; }
		case 6: { bool rev = c.coin(); size_t keep = c.below(4); c.note("free all but %zu items of pool#%d", keep, (int) p.id); while (p.live.size() > keep) w.free_item(p, rev ? 0 : p.live.size() - 1); break; }
		case 7: w.check_all("checkpoint"); break;
		case 8: if (w.pools.size() < f.max_pools) newpool(); break;
		case 9: if (p.g.robust) while (!p.live.empty()) w.free_item(p, p.live.size() - 1); w.destroy(pi); break;
		case 10: { // a growth that fails for lack of a resource must leave everything as it was
			size_t n = std::min<size_t>(p.avail(), 600); bool gr; for (size_t i = 0; i < n; i++) if (!w.alloc(p, A_PLAIN, {})) break;
			if (!w.should_succeed(p, gr) || !gr) break;
			AllocKind k = (AllocKind) c.below(2); long f0 = shim::S.faults; shim::S.fail_at = { shim::S.seq + (long) c.below(5) }; errno = 0;
			void *a = k == A_PLAIN ? (void *) rseq_mempool_percpu_malloc(p.h) : (void *) rseq_mempool_percpu_zmalloc(p.h); int e = errno; shim::S.fail_at.clear(); w.shim_ok();
			c.note("%s pool#%d needing growth with a resource failure -> %s", k ? "zmalloc" : "malloc", (int) p.id, a ? "item" : "NULL");
			if (shim::S.faults == f0) { PBT_CHECK(c, a, "pool#%d (%s) refused to grow (errno %d) although every resource was granted", (int) p.id, p.g.str().c_str(), e); w.allocated(p, a, k, {}, true); break; }
			if (a) { w.allocated(p, a, k, {}, true); break; }   // the failed resource was not essential
			PBT_CHECK(c, e == ENOMEM, "growth of pool#%d failed with errno %d instead of ENOMEM", (int) p.id, e); c.label("growths failed for lack of a resource"); p.ir.calls.resize(before); w.check_all("after a failed growth"); break; }
		}
		if (init_checks && op != 9 && op != 8) check_init_calls(w, p, p.nr_ranges - rb, before);
		// a random other item must not have been disturbed
		if (!w.pools.empty()) { Pool &q = *w.pools[c.below(w.pools.size())]; if (!q.live.empty()) w.check_item(q, *q.live[c.below(q.live.size())], "after unrelated operation"); }
	}
	w.check_all("at the end");
	if (w.reuse) c.label("histories recycling items"); if (w.growths) c.label("histories growing ranges"); if (w.enomem) c.label("histories reaching ENOMEM"); if (w.divergent_reuse) c.label("histories freeing items with CPU-divergent content");
	c.label("allocations", w.allocs); c.label("frees", w.frees);
	if (w.reuse >= 1 && w.allocs >= 3) c.nontrivial();
	w.finish();
}

// Items of up to several GiB in strides of up to 16 GiB: content modelled at sampled words.
static void huge(Ctx &c) {
	begin_case(); World w(c); Cfg g; g.policy_set = true; g.policy = (int) c.below(2); g.global = c.chance(1, 6);
	g.stride = 1ull << c.range(30, 34); g.cpus = 1 + (int) c.below(6); while (g.S() * (size_t) (g.N() + 2) > (36ull << 30)) { if (g.cpus > 1) g.cpus--; else g.stride /= 2; }
	g.item_len = g.stride >> c.below(5); g.max_ranges = c.below(3);
	Pool *p = w.create(g); if (!p) { if (errno == ENOMEM) c.discard(); c.fail("creating a valid pool failed with errno %d (%s)", errno, g.str().c_str()); }
	p->mcpus.clear(); for (int i = 0; i < g.N(); i++) p->mcpus.push_back(i);
	struct H { void *p; uint64_t serial; std::map<std::pair<int, size_t>, uint64_t> v; }; std::vector<H> live; size_t R = g.R(); unsigned reuse = 0;
	auto verify = [&](H &h, const char *when) { for (auto &q : h.v) { uint64_t x; memcpy(&x, p->ptr(h.p, q.first.first) + q.first.second, 8); if (x != q.second) c.fail("%s: item #%llu changed on CPU %d at byte 0x%zx of 0x%zx: expected 0x%llx, found 0x%llx", when, (unsigned long long) h.serial, q.first.first, q.first.second, R, (unsigned long long) q.second, (unsigned long long) x); } };
	auto offs = [&]() -> size_t { switch (c.below(4)) { case 0: return 0; case 1: return R - 8; case 2: return R / 2; default: return c.below(R / 8) * 8; } };
	while (c.more(14)) { Ctx::SpanGuard sg(c);
		switch (c.weighted({3, 4, 5, 6})) {
		case 0: case 1: { // allocate
			if (p->nr_ranges * g.per_range() == live.size() && (g.max_ranges ? p->nr_ranges >= g.max_ranges : p->nr_ranges >= 2)) break;
			bool grow = p->nr_ranges * g.per_range() == live.size(); uint64_t iv[4]; size_t il = 8 * (1 + c.below(4)); for (auto &x : iv) x = c.u64(); bool ini = c.coin(); errno = 0;
			void *a = ini ? (void *) rseq_mempool_percpu_malloc_init(p->h, iv, il) : (void *) rseq_mempool_percpu_malloc(p->h); w.shim_ok(); c.note("%s -> %s", ini ? "malloc_init" : "malloc", a ? "item" : "NULL");
			if (!a && grow) c.discard(); PBT_CHECK(c, a, "allocation failed with errno %d although space is left", errno); if (grow) p->nr_ranges++;
			auto it = std::make_shared<Item>(); if (p->ever.count(a)) reuse++; p->ever[a] = true; w.claim(*p, a, it); live.push_back({a, it->serial, {}});
			if (ini) for (int cpu : p->mcpus) for (size_t o = 0; o < il; o += 8) live.back().v[{cpu, o}] = iv[o / 8];
			verify(live.back(), "initialised allocation"); break; }
		case 2: { if (live.empty()) break; size_t i = c.below(live.size()); verify(live[i], "before free"); c.note("free item#%llu", (unsigned long long) live[i].serial); for (int cpu : p->mcpus) w.intervals.erase((uintptr_t) p->ptr(live[i].p, cpu)); w.raw_free(*p, live[i].p); w.shim_ok(); live.erase(live.begin() + i); break; }
		case 3: { if (live.empty()) break; H &h = live[c.below(live.size())]; int cpu = p->mcpus[c.below(p->mcpus.size())]; size_t o = offs(); uint64_t x = c.u64(); c.note("write item#%llu on CPU %d at 0x%zx", (unsigned long long) h.serial, cpu, o); memcpy(p->ptr(h.p, cpu) + o, &x, 8); h.v[{cpu, o}] = x; break; }
		}
		for (auto &h : live) verify(h, "after an operation");
	}
	c.label("huge items or strides"); if (reuse) c.nontrivial();
	for (auto &h : live) w.raw_free(*p, h.p);
	live.clear(); w.finish();
}

static void C11(Ctx &c) { if (c.chance(1, 100)) { huge(c); return; } Profile f; f.len = 40; f.w_write = 12; f.w_destroy = 1; f.w_fault = 1; f.max_pools = 3; GenOpt g; g.huge_items = true; history(c, f, g); }
static void C12(Ctx &c) { Profile f; f.len = 30; f.w_plain = 1; f.w_zero = 8; f.w_init = 8; f.w_free = 12; f.scribble = true; f.w_write = 4; GenOpt g; g.small_only = c.coin(); g.huge_items = true; history(c, f, g); }
static void C15(Ctx &c) { Profile f; f.len = 30; f.w_plain = 8; f.w_free = 12; f.scribble = true; f.w_write = 3; GenOpt g; g.huge_items = true; history(c, f, g, false, [&](Cfg &q) { if (!q.robust && !q.poison_set) { q.poison_set = true; q.poison = c.word(); } }); }
// Pools with very many items per range or very many ranges: capacity, distinctness, reuse and limits stay exact.
static void deep(Ctx &c) {
	begin_case(); World w(c); Cfg g; int kind = c.weighted({8, 8, 1, 12}); g.policy_set = true; g.policy = kind == 2 ? 1 : (int) c.below(2); g.global = c.chance(1, 6); g.cpus = 1 + (int) c.below(kind == 2 ? 1 : 2); g.robust = kind < 2 && c.coin(); g.poison_set = kind != 3 && c.chance(1, 4); g.poison = c.word(); size_t want;   // ranges
	if (kind == 1) { g.item_len = 8u << c.below(3); g.stride = 1ul << (19 + c.below(3)); want = 1 + c.below(2); }
	else if (kind == 3) { g.stride = 1ul << c.range(23, 31); g.item_len = g.stride >> c.below(8); want = 1 + c.below(3); while (want > 1 && want * (g.cpus + 1) * g.stride > (4ul << 30)) want--; }
	else { g.stride = 4096; g.item_len = 4096u >> c.below(2); want = kind == 0 ? 200 + c.below(500) : 65500 + c.below(200); }
	switch (c.below(3)) { case 0: g.max_ranges = 0; break; case 1: g.max_ranges = want; break; default: { static const unsigned long far[] = { 65536, 1ul << 31, 1ul << 32, (1ul << 32) + 1, ~0ul }; g.max_ranges = far[c.below(5)]; if (g.max_ranges < want) g.max_ranges = want; } }
	Pool *p = w.create(g); if (!p) { if (kind == 2 || (kind == 3 && errno == ENOMEM)) c.discard(); c.fail("creating a valid pool failed with errno %d (%s)", errno, g.str().c_str()); }
	size_t cap = want * g.per_range(); std::vector<char *> it; it.reserve(cap); int last = g.global ? 0 : g.N() - 1; std::set<uintptr_t> bases;
	auto get = [&](size_t tag) { errno = 0; char *a = g.global ? (char *) rseq_mempool_malloc(p->h) : (char *) rseq_mempool_percpu_malloc(p->h); if (!a) return a; PBT_CHECK(c, (uintptr_t) a % g.R() == 0, "item %p is not aligned to its size", (void *) a); *(uint64_t *) p->ptr(a, 0) = tag; if (last) *(uint64_t *) p->ptr(a, last) = ~tag; bases.insert((uintptr_t) a & ~(g.S() - 1)); return a; };
	auto same = [&](char *a, size_t tag) { if (*(uint64_t *) p->ptr(a, 0) != tag || (last && *(uint64_t *) p->ptr(a, last) != ~tag)) c.fail("item %zu of %zu was overwritten: handed out twice or overlapping", tag, it.size()); };
	for (size_t i = 0; i < cap; i++) { char *a = get(i); if (!a && kind == 2 && errno == ENOMEM && shim::S.maps.size() > 60000) c.discard(); PBT_CHECK(c, a, "allocation %zu of %zu failed (errno %d) in %s", i, cap, errno, g.str().c_str()); it.push_back(a); } w.shim_ok();
	c.note("%zu items in %zu ranges allocated", cap, want); PBT_CHECK(c, bases.size() == want, "%zu items were served from %zu ranges instead of %zu", cap, bases.size(), want);
	if (g.max_ranges == want) { char *a = get(0); PBT_CHECK(c, !a && errno == ENOMEM, "the growth limit of %zu ranges is not respected", want); }
	for (size_t i = 0; i < cap; i++) same(it[i], i);
	// free some, in some order, and get them all back without growing
	size_t n = 1 + c.below(cap < 3000 ? cap : 3000), step = 1 + c.below(cap), at = c.below(cap); std::vector<size_t> idx; std::set<size_t> seen; for (size_t i = 0; i < n; i++) { if (!seen.insert(at).second) break; idx.push_back(at); at = (at + step) % cap; }
	std::multiset<char *> freed; for (size_t i : idx) { freed.insert(it[i]); w.raw_free(*p, it[i]); } size_t nb = bases.size();
	for (size_t i : idx) { char *a = get(i); PBT_CHECK(c, a, "a freed item is not available again (errno %d)", errno); PBT_CHECK(c, freed.count(a), "an allocation was not served from the %zu freed items", idx.size()); freed.erase(a); it[i] = a; }
	PBT_CHECK(c, bases.size() == nb, "the pool grew although freed items were available");
	for (size_t i = 0; i < cap; i++) same(it[i], i);
	c.label(kind == 0 ? "hundreds of ranges" : kind == 1 ? "more than 65536 items in a range" : kind == 3 ? "large strides" : "more than 65500 ranges"); c.nontrivial();
	if (g.robust) { bool rev = c.coin(); for (size_t i = 0; i < cap; i++) w.raw_free(*p, it[rev ? cap - 1 - i : i]); }
	w.finish();
}
static void C13(Ctx &c) {
	if (c.chance(1, 200)) { deep(c); return; }
	Profile f; f.len = 25; f.w_write = 1; f.w_fill = 8; f.w_drain = 3; f.w_free = 6; f.w_check = 1; f.w_fault = 2; f.max_pools = 1;
	GenOpt g; g.small_only = true; g.big_ok = false; g.max_cpus = 4;
	history(c, f, g, false, [&](Cfg &q) { size_t R = q.R(); if (q.S() / R > 512) { q.item_len = q.S() / 512; } });
}
static void C24(Ctx &c) {
	if (c.chance(2, 3)) { Profile f; f.len = 14; f.w_plain = 8; f.w_zero = 2; f.w_init = 3; f.w_fill = 4; f.w_write = 4; GenOpt g; g.small_only = true; history(c, f, g, true, [&](Cfg &q) { q.init = true; }); return; }
	// failing callback
	begin_case(); World w(c); GenOpt go; go.small_only = true; go.big_ok = false; go.max_cpus = 6; Cfg g = gen_cfg(c, go); g.init = true; if (g.S() / g.R() > 64) g.item_len = g.S() / 64;
	size_t per = g.global ? 1 : g.N(); long at = (long) c.below(per * 3);
	auto p = std::make_unique<Pool>(); p->g = g; p->ir.fill = true; p->ir.fail_at = at; p->ir.seed = 5;
	c.note("callback fails at invocation %ld; %s", at, g.str().c_str());
	errno = 0; p->h = cfg_create(g, &p->ir); int e = errno; w.shim_ok();
	c.label("failing init callback"); c.nontrivial();
	if (at < (long) per) {
		PBT_CHECK(c, !p->h, "pool creation succeeded although the init callback failed"); PBT_CHECK(c, e != 0, "errno not set after the init callback failed");
		PBT_CHECK(c, shim::S.maps.empty() && shim::S.fds.empty() && shim::S.heap.empty(), "resources leaked after the init callback failed at creation (%zu bytes mapped, %zu fds, %zu blocks)", shim::S.mapped(), shim::S.fds.size(), shim::S.heap.size());
		return;
	}
	PBT_CHECK(c, p->h, "creation failed with errno %d although the callback succeeded", e);
	World::pick_mcpus(c, *p); w.pools.push_back(std::move(p)); Pool &q = *w.pools[0];
	size_t maps0 = 0; bool hit = false;
	for (size_t i = 0; i < q.g.per_range() * 3 + 2; i++) {
		bool grow; bool ok = w.should_succeed(q, grow); size_t per_ = per; size_t callsb = q.ir.calls.size();
		if (ok && grow && !hit && at < (long) ((q.nr_ranges + 1) * per_)) {
			maps0 = shim::S.mapped(); size_t h0 = shim::S.heap.size(); errno = 0; AllocKind k = (AllocKind) c.below(2);
			void *a = k == A_PLAIN ? (void *) rseq_mempool_percpu_malloc(q.h) : (void *) rseq_mempool_percpu_zmalloc(q.h); int er = errno; w.shim_ok();
			PBT_CHECK(c, !a, "an allocation succeeded although the init callback of the new range failed"); PBT_CHECK(c, er == ENOMEM, "errno %d instead of ENOMEM after the init callback failed", er);
			PBT_CHECK(c, shim::S.mapped() == maps0 && shim::S.heap.size() == h0 && shim::S.fds.empty(), "resources leaked by a failed range");
			hit = true; w.check_all("after failed growth"); c.note("growth failed as it should"); continue;
		}
		size_t rb = q.nr_ranges; if (!do_alloc(w, c, q, A_PLAIN)) break; check_init_calls(w, q, q.nr_ranges - rb, callsb); if (q.live.size() > 1 && c.chance(1, 8)) w.free_item(q, c.below(q.live.size()));
	}
	if (hit) c.label("growth failure then continued use");
	w.check_all("end"); w.finish();
}

// ---------------------------------------------------------------- C14
struct Stage { volatile int s; char msg[512]; };
static void C14(Ctx &c) {
	GenOpt go; go.small_only = true; go.big_ok = false; go.max_cpus = 6; Cfg g = gen_cfg(c, go); g.robust = true;
	if (g.S() / g.R() > 256) g.item_len = g.S() / 256;
	if (g.max_ranges == 1 && c.coin()) g.max_ranges = 0;
	if (!g.global && c.chance(1, 25)) { g.cpus = 7 + (int) c.below(c.coin() ? 130 : 600); g.stride = 4096; g.item_len = 4096u >> c.below(4); }
	int kind = c.weighted({3, 4, 4, 6, 6, 4}); // 0 clean, 1 double free, 2 leak, 3 uaf-realloc, 4 uaf-destroy, 5 free-list
	static const char *kn[] = { "no misuse", "double free", "leak at destroy", "write after free, then reallocate", "write after free, then destroy", "free-list corruption, then destroy" };
	bool far = c.chance(1, 150); // misuse of items far into a range, or of a pool of many ranges
	if (far) { bool many = c.coin(); kind = c.below(5); g = Cfg(); g.robust = true; g.policy_set = true; g.policy = (int) c.below(2); g.cpus = 1 + (int) c.below(2); if (many) { g.stride = 4096; g.item_len = 2048; g.max_ranges = 0; } else { g.item_len = 8; g.stride = 1ul << (20 + c.below(2)); } if (c.chance(1, 3)) { g.poison_set = true; g.poison = c.word(); } }
	c.note("misuse: %s%s", kn[kind], far ? " in a large pool" : "");
	Stage *st = (Stage *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	fflush(nullptr);
	// The child consumes choices too; they are recorded in the shared worker area
	// and the parent takes over the final position.
	struct Tail { uint32_t n; bool nt; }; Tail *tl = (Tail *) ((char *) st + 2048);
	pid_t pid = fork();
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		int code = 0;
		try {
			begin_case(); World w(c); Pool *p = w.create(g, true); if (!p) c.fail("creation failed");
			if (far) {
				size_t pr = p->g.per_range(), cap = pr > 1000 ? 66000 + c.below(pr - 66000) : pr * (260 + c.below(200)); std::vector<void *> it; for (size_t i = 0; i < cap; i++) { void *a = (void *) rseq_mempool_percpu_malloc(p->h); if (!a) c.fail("allocation %zu of %zu failed with errno %d in %s", i, cap, errno, g.str().c_str()); it.push_back(a); }
				auto pick = [&] { return c.chance(3, 4) ? cap - 1 - c.below(cap / 20) : c.below(cap); }; size_t i = pick(); void *a = it[i];
				size_t nf = c.below(20); if (kind == 4) nf = cap; std::vector<void *> fr; auto fre = [&](size_t j) { if (!it[j]) return; w.raw_free(*p, it[j]); fr.push_back(it[j]); it[j] = nullptr; };
				c.note("item %zu of %zu", i, cap);
				switch (kind) {
				case 0: for (size_t j = 0; j < cap; j++) fre(j); if (rseq_mempool_destroy(p->h)) c.fail("destroy failed"); st->s = 2; break;
				case 1: fre(i); while (nf--) fre(pick()); st->s = 1; w.raw_free(*p, a); st->s = 2; break;
				case 2: for (size_t j = 0; j < cap; j++) if (j != i) fre(j); st->s = 1; rseq_mempool_destroy(p->h); st->s = 2; break;
				default: { fre(i); if (kind == 4) for (size_t j = 0; j < cap; j++) fre(j); else while (nf--) fre(pick()); int cpu = (int) c.below(p->g.N()); size_t off = c.below(p->g.R()); *(uint8_t *) (p->ptr(a, cpu) + off) ^= (uint8_t) (1 + c.below(255)); st->s = 1;
					if (kind == 4) { rseq_mempool_destroy(p->h); st->s = 2; } else { size_t n = fr.size(); while (n--) { void *b = (void *) rseq_mempool_percpu_malloc(p->h); if (b == a) { st->s = 2; break; } } if (st->s == 1) st->s = 3; } break; } }
				tl->n = c.n; _exit(0);
			}
			unsigned steps = 0;
			while (c.more(25) && steps < 400) { Ctx::SpanGuard sg(c); steps++;
				switch (c.weighted({3, 3, 3, 7, 8, 2, 1})) {
				case 0: do_alloc(w, c, *p, A_PLAIN); break; case 1: do_alloc(w, c, *p, A_ZERO); break; case 2: do_alloc(w, c, *p, A_INIT); break;
				case 3: if (!p->live.empty()) w.free_item(*p, c.below(p->live.size())); break;
				case 4: if (!p->live.empty()) { auto &it = *p->live[c.below(p->live.size())]; if (c.chance(1, 4)) { std::vector<uint8_t> b(p->g.R()); uintptr_t po = p->g.eff_poison(); for (size_t i = 0; i < b.size(); i++) b[i] = (uint8_t) (po >> (8 * (i % 8))); w.write(*p, it, c.below(p->mcpus.size()), 0, b.size(), b.data()); } else gen_write(w, c, *p, it, false); } break;
				case 5: { size_t n = std::min<size_t>(p->avail(), 300) + c.below(3); for (size_t i = 0; i < n; i++) if (!w.alloc(*p, A_PLAIN, {})) break; break; }
				case 6: while (!p->live.empty()) w.free_item(*p, p->live.size() - 1); break; } }
			w.check_all("before misuse");
			auto need = [&](size_t n) { while (p->live.size() < n) if (!w.alloc(*p, A_ZERO, {})) return false; return true; };
			auto free_all = [&] { while (!p->live.empty()) w.free_item(*p, c.coin() ? 0 : p->live.size() - 1); };
			switch (kind) {
			case 0: free_all(); w.destroy(0); st->s = 2; break;
			case 1: { if (!need(1)) c.discard(); size_t i = c.below(p->live.size()); void *a = p->live[i]->p; w.free_item(*p, i);
				unsigned k = (unsigned) c.below(4); while (k-- && !p->live.empty()) w.free_item(*p, c.below(p->live.size()));
				if (c.chance(1, 4)) { auto it = w.alloc(*p, A_PLAIN, {}); if (it && it->p == a) { w.free_item(*p, p->live.size() - 1); } }
				c.note("second free"); st->s = 1; w.raw_free(*p, a); st->s = 2; break; }
			case 2: { if (!need(1)) c.discard(); size_t keep = 1 + c.below(std::min<size_t>(p->live.size(), 3)); while (p->live.size() > keep) w.free_item(*p, c.below(p->live.size()));
				c.note("destroy with %zu live items", p->live.size()); st->s = 1; rseq_mempool_destroy(p->h); st->s = 2; break; }
			case 3: case 4: { if (!need(1)) c.discard();
				unsigned nf = 1 + (unsigned) c.below(4); std::vector<void *> fr; while (nf-- && !p->live.empty()) { size_t i = c.below(p->live.size()); fr.push_back(p->live[i]->p); w.free_item(*p, i); }
				void *a = fr[c.below(fr.size())]; int cpu = (int) c.below(p->g.N()); size_t R = p->g.R(); size_t off = c.coin() ? c.below(R) : (c.coin() ? 0 : R - 1); uint8_t x = (uint8_t) (1 + c.below(255));
				c.note("corrupt freed item at CPU %d byte %zu of %zu (xor 0x%02x)", cpu, off, R, x);
				if (kind == 4) free_all();
				*(uint8_t *) (p->ptr(a, cpu) + off) ^= x;
				st->s = 1;
				if (kind == 4) { rseq_mempool_destroy(p->h); st->s = 2; }
				else { size_t n = p->avail(); for (size_t i = 0; i < n; i++) { void *b = (void *) rseq_mempool_percpu_malloc(p->h); if (b == a) { st->s = 2; break; } if (!b) break; } if (st->s == 1) st->s = 3; }
				break; }
			case 5: { // Locate the link words by watching which word outside the CPUs' areas starts pointing into the pool when an item is freed.
				if (!need(2)) c.discard(); std::vector<void *> fr; std::map<void *, uintptr_t *> link; std::set<intptr_t> dist;
				auto in_cpu_area = [&](uintptr_t u) { for (uintptr_t bs : p->bases) if (u >= bs && u < bs + p->g.S() * (size_t) p->g.N()) return true; return false; };
				std::vector<uintptr_t *> words; std::vector<uintptr_t> snap;
				for (auto &m : shim::S.maps) for (uintptr_t u = m.first; u < m.second; u += 4096) if (!in_cpu_area(u)) for (size_t o = 0; o < 4096; o += 8) words.push_back((uintptr_t *) (u + o));
				auto take = [&] { snap.resize(words.size()); for (size_t i = 0; i < words.size(); i++) snap[i] = *words[i]; };
				if (words.size() > 200000) c.discard();
				unsigned watched = 0;
				while (!p->live.empty()) { size_t i = c.coin() ? 0 : p->live.size() - 1; void *a = p->live[i]->p; fr.push_back(a); bool watch = watched < 8 || p->live.size() < 3; if (watch) { watched++; take(); } w.free_item(*p, i);
					if (!watch) continue;
					uintptr_t *hit = nullptr; int nh = 0; for (size_t k = 0; k < words.size(); k++) { uintptr_t v = *words[k]; if (v == snap[k] || !v || v == p->g.eff_poison()) continue; for (auto &m : shim::S.maps) if (v >= m.first && v < m.second) { hit = words[k]; nh++; } }
					if (nh == 1) { link[a] = hit; dist.insert((intptr_t) hit - (intptr_t) a); } }
				if (dist.size() == 1) for (void *a : fr) link[a] = (uintptr_t *) ((intptr_t) a + *dist.begin());
				if (link.empty()) c.discard();
				auto li = link.begin(); std::advance(li, c.below(link.size())); uintptr_t *q = li->second;
				// a node never allocated put in the place of the last one of the list: only its position tells
				if (c.chance(1, 3) && dist.size() == 1) { uintptr_t *tail = nullptr, *prev = nullptr; for (void *a : fr) if (!*link[a]) tail = link[a]; if (tail) for (void *a : fr) if (*link[a] == (uintptr_t) tail) prev = link[a];
					uintptr_t un = 0; for (uintptr_t bs : p->bases) for (size_t o = 0; o < p->g.S(); o += p->g.R()) if (!p->ever.count((void *) (bs + o))) un = bs + o;
					if (prev && un) { c.note("the last free-list node replaced by an item never allocated"); *prev = un + *dist.begin(); st->s = 1; rseq_mempool_destroy(p->h); st->s = 2; break; } }
				uintptr_t old = *q, nv; switch (c.below(3)) { case 0: nv = (uintptr_t) q; break; case 1: nv = old ? 0 : (uintptr_t) q; break; default: nv = (uintptr_t) &g; break; }
				c.note("free-list word of item set to %s", nv == 0 ? "NULL" : nv == (uintptr_t) q ? "itself" : "an address outside the pool");
				*q = nv; st->s = 1; rseq_mempool_destroy(p->h); st->s = 2; break; }
			}
			tl->n = c.n; 
		} catch (Fail &f) { snprintf(st->msg, sizeof st->msg, "%s", f.msg.c_str()); code = 3; }
		catch (Discard &) { code = 4; }
		tl->n = c.n; _exit(code);
	}
	int s; waitpid(pid, &s, 0);
	int stage = st->s; std::string m = st->msg; uint32_t n = tl->n; munmap(st, 4096);
	if (!WIFSIGNALED(s)) c.n = std::max(c.n, n);
	c.labelf(1, "%s", kn[kind]); if (far) c.label("misuse in a large pool"); c.label(g.cow_init() ? "COW_INIT" : "COW_ZERO");
	if (WIFEXITED(s) && WEXITSTATUS(s) == 3) c.fail("%s", m.c_str());
	if (WIFEXITED(s) && WEXITSTATUS(s) == 4) c.discard();
	if (WIFSIGNALED(s) && stage == 0) c.fail("a correct program was terminated (signal %d) before any misuse: %s", WTERMSIG(s), g.str().c_str());
	if (kind == 0) { PBT_CHECK(c, WIFEXITED(s) && WEXITSTATUS(s) == 0 && stage == 2, "a correct program was terminated: status 0x%x, %s", s, g.str().c_str()); c.nontrivial(); return; }
	c.nontrivial();
	PBT_CHECK(c, WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT, "%s was not detected (status 0x%x, stage %d) in %s", kn[kind], s, stage, g.str().c_str());
}

// ---------------------------------------------------------------- C18
// One history is executed many times: once without faults to count the
// resource requests, then with the k-th request failing.
struct HistOp { int op; uint64_t a, b; };
static void C18(Ctx &c) {
	GenOpt go; go.small_only = true; go.big_ok = false; go.max_cpus = 5;
	std::vector<Cfg> cfgs; unsigned np = 1 + (unsigned) c.below(2); for (unsigned i = 0; i < np; i++) { Cfg g = gen_cfg(c, go); if (g.S() / g.R() > 32) g.item_len = g.S() / 32; if (g.max_ranges == 1 && c.chance(2, 3)) g.max_ranges = 3; cfgs.push_back(g); }
	std::vector<HistOp> ops; while (c.more(14) && ops.size() < 40) { Ctx::SpanGuard sg(c); ops.push_back({(int) c.weighted({3, 2, 2, 3, 4, 2, 1}), c.u64(), c.u64()}); }
	bool use_set = c.chance(1, 4);
	long twofault = c.chance(1, 5) ? 1 + (long) c.below(3) : 0;
	int ferr = (int) c.below(3); static const int errs[] = { ENOMEM, EINVAL, EMFILE };
	for (auto &g : cfgs) c.note("pool: %s", g.str().c_str());
	c.note("%zu operations, set=%d, extra fault after +%ld requests", ops.size(), use_set, twofault);
	long total = 0; bool verbose = false; long grown = 0;
	auto run = [&](const std::set<long> &fail) -> void {
		begin_case(); shim::S.fail_at = fail; shim::S.fail_errno = errs[ferr];
		World w(c); struct rseq_mempool_set *set = nullptr;
		auto res = [&] { return std::make_tuple(shim::S.mapped(), shim::S.maps.size(), shim::S.fds.size(), shim::S.heap.size()); };
		auto leakcheck = [&](const decltype(res()) &b, const char *what) { auto a = res();
			if (std::get<0>(a) != std::get<0>(b) || std::get<2>(a) != std::get<2>(b) || std::get<3>(a) != std::get<3>(b)) c.fail("%s failed (request #%ld, %s) but left resources changed: mapped %zu->%zu, fds %zu->%zu, heap blocks %zu->%zu", what, *fail.begin(), shim::S.last_fault_call >= 0 ? shim::call_name[shim::S.last_fault_call] : "?", std::get<0>(b), std::get<0>(a), std::get<2>(b), std::get<2>(a), std::get<3>(b), std::get<3>(a)); };
		if (use_set) { auto b = res(); long f0 = shim::S.faults; errno = 0; set = rseq_mempool_set_create(); if (set) PBT_CHECK(c, shim::S.faults == f0, "set creation succeeded although a request failed"); if (!set) { PBT_CHECK(c, shim::S.faults > f0, "set creation failed without a fault"); PBT_CHECK(c, errno != 0, "set creation failed without errno"); leakcheck(b, "set creation"); set = rseq_mempool_set_create(); if (!set) set = rseq_mempool_set_create(); } }
		// like World::alloc but tolerating an injected fault during growth
		auto falloc = [&](Pool &p, AllocKind k) {
			bool grow; bool ok = w.should_succeed(p, grow); if (!ok || !grow) { w.alloc(p, k, k == A_INIT ? std::vector<uint8_t>(8, 0x77) : std::vector<uint8_t>()); return; }
			auto b = res(); long f0 = shim::S.faults; errno = 0; uint64_t iv = 0x7777777777777777ull;
			void *a = k == A_PLAIN ? (void *) rseq_mempool_percpu_malloc(p.h) : k == A_ZERO ? (void *) rseq_mempool_percpu_zmalloc(p.h) : (void *) rseq_mempool_percpu_malloc_init(p.h, &iv, 8);
			int e = errno; w.shim_ok();
			if (shim::S.faults == f0) { PBT_CHECK(c, a, "growth failed (errno %d) although no request failed", e); grown++; w.allocated(p, a, k, k == A_INIT ? std::vector<uint8_t>(8, 0x77) : std::vector<uint8_t>(), true); return; }
			PBT_CHECK(c, !a, "growing a pool succeeded although a request (%s) failed", shim::call_name[shim::S.last_fault_call]);
			PBT_CHECK(c, e == ENOMEM, "failed growth reported errno %d instead of ENOMEM", e);
			leakcheck(b, "growing a pool"); w.check_all("after a failed growth");
			if (verbose) c.note("growth failed cleanly"); };
		for (auto &g : cfgs) {
			for (int attempt = 0; attempt < 4; attempt++) {
				auto b = res(); long f0 = shim::S.faults;
				Pool *p = w.create(g, true); int e = errno; w.shim_ok();
				if (p) { PBT_CHECK(c, shim::S.faults == f0, "pool creation succeeded although a request (%s) failed", shim::call_name[shim::S.last_fault_call]); break; }
				PBT_CHECK(c, shim::S.faults > f0, "pool creation failed (errno %d) although no request failed", e); PBT_CHECK(c, e != 0, "pool creation failed without setting errno"); leakcheck(b, "pool creation"); w.check_all("after a failed creation"); }
		}
		for (auto &o : ops) {
			if (w.pools.empty()) break;
			Pool &p = *w.pools[o.a % w.pools.size()];
			switch (o.op) {
			case 0: falloc(p, A_PLAIN); break; case 1: falloc(p, A_ZERO); break; case 2: falloc(p, A_INIT); break;
			case 3: if (!p.live.empty()) w.free_item(p, o.b % p.live.size()); break;
			case 4: { size_t n = p.avail() + 1 + o.b % 2; AllocKind k = (AllocKind) ((o.b >> 8) % 3); for (size_t i = 0; i < n; i++) falloc(p, k); break; }
			case 5: if (!p.live.empty()) { uint64_t v = o.b; auto &it = *p.live[(o.b >> 3) % p.live.size()]; w.write(p, it, (o.b >> 20) % p.mcpus.size(), 0, 8, (uint8_t *) &v); } break;
			case 6: while (!p.live.empty()) w.free_item(p, p.live.size() - 1); break; }
		}
		w.check_all("end of history");
		if (set) { // hand the first pool over
			Pool &p = *w.pools[0]; if (p.g.robust) while (!p.live.empty()) w.free_item(p, p.live.size() - 1);
			int r = rseq_mempool_set_add_pool(set, p.h); PBT_CHECK(c, r == 0, "adding a pool to an empty set failed"); r = rseq_mempool_set_destroy(set); PBT_CHECK(c, r == 0, "set destroy failed"); w.shim_ok();
			for (auto &it : p.live) for (int cpu : p.mcpus) w.intervals.erase((uintptr_t) p.ptr(it->p, cpu));
			w.pools.erase(w.pools.begin()); }
		w.finish(); w.shim_ok();
		total = shim::S.seq;
	};
	run({}); long n = total; c.label("requests in fault-free runs", (uint64_t) n);
	// enumerate every request when there are few, otherwise an even sample
	std::vector<long> pts; if (n <= 80) for (long k = 0; k < n; k++) pts.push_back(k); else { for (long k = 0; k < 40; k++) pts.push_back(k); for (int k = 0; k < 40; k++) pts.push_back(40 + (long) c.below(n - 40)); }
	for (long k : pts) { std::set<long> f = { k }; if (twofault) f.insert(k + twofault); run(f); c.evals(1); c.labelf(1, "fault in %s", shim::S.last_fault_call >= 0 ? shim::call_name[shim::S.last_fault_call] : "none"); }
	if (grown) c.nontrivial();
	// destruction: a failing unmap must be reported, and a retry must finish the job
	{
		begin_case(); World w(c); Cfg g = cfgs[0]; Pool *p = w.create(g, false); if (!p) c.fail("creation failed");
		unsigned rg = 1 + (unsigned) c.below(3); for (unsigned i = 0; i < rg * p->g.per_range(); i++) if (!w.alloc(*p, A_PLAIN, {})) break;
		while (!p->live.empty()) w.free_item(*p, p->live.size() - 1);
		struct rseq_mempool *h = p->h; int r, e; size_t nr = p->nr_ranges;
		struct rseq_mempool_set *set = nullptr; if (c.chance(1, 3)) { set = rseq_mempool_set_create(); PBT_CHECK(c, set && rseq_mempool_set_add_pool(set, p->h) == 0, "cannot make a set");
			std::set<size_t> sizes = { g.R() }; unsigned more = (unsigned) c.below(4);
			for (unsigned k = 0; k < more; k++) { Cfg g2 = g; g2.item_len = g.S() >> c.below(5); if (!sizes.insert(g2.R()).second) continue; Pool *q = w.create(g2, false); if (!q) c.fail("creation failed"); unsigned m = (unsigned) c.below(2 * q->g.per_range() + 1); for (unsigned i = 0; i < m; i++) if (!w.alloc(*q, A_PLAIN, {})) break; while (!q->live.empty()) w.free_item(*q, q->live.size() - 1); PBT_CHECK(c, rseq_mempool_set_add_pool(set, q->h) == 0, "cannot add to a set"); nr += q->nr_ranges; }
			if (sizes.size() > 1) c.label("sets of several pools destroyed with failing unmaps"); }
		// up to 3 failing attempts, each at a generated unmap, then one with no fault: it has to finish the job
		unsigned tries = 1 + (unsigned) c.below(3);
		for (unsigned t = 0;; t++) {
			long k = t < tries ? (long) c.below(nr) : -1; shim::S.munmap_seq = 0; shim::S.munmap_failed = 0; shim::S.munmap_fail_at.clear(); if (k >= 0) shim::S.munmap_fail_at = { k };
			size_t before = shim::S.mapped(); errno = 0; r = set ? rseq_mempool_set_destroy(set) : rseq_mempool_destroy(h); e = errno; w.shim_ok();
			c.note("destroy attempt %u%s, unmap #%ld fails: returned %d, %zu of %zu bytes still mapped", t, set ? " (through a set)" : "", k, r, shim::S.mapped(), before);
			if (!shim::S.munmap_failed) break;
			PBT_CHECK(c, r == -1, "destroy returned %d although unmapping failed", r); PBT_CHECK(c, e != 0, "destroy failed without errno"); PBT_CHECK(c, !shim::S.maps.empty(), "nothing left mapped after a failed unmap");
			c.label(t ? "destroy retried with another failing unmap" : "destroy with failing unmap"); }
		PBT_CHECK(c, r == 0, "destroy failed (errno %d) although every unmap succeeded", e);
		w.shim_ok();
		PBT_CHECK(c, shim::S.maps.empty() && shim::S.heap.empty() && shim::S.fds.empty(), "resources left after destroy (%zu bytes, %zu blocks)", shim::S.mapped(), shim::S.heap.size());
		w.pools.clear();
	}
}

// ---------------------------------------------------------------- C19
// Sets whose pools hold items of very different sizes, up to several GiB: which pool serves a length, sampled content.
static void bigset(Ctx &c) {
	begin_case(); World w(c); struct rseq_mempool_set *set = rseq_mempool_set_create(); PBT_CHECK(c, set, "set creation failed");
	size_t ord = (size_t) c.range(18, 32), common = 1ull << ord; struct B { Pool *p; uintptr_t base; std::vector<std::pair<void *, uint64_t>> live; size_t cap; }; std::vector<B> in; unsigned fell = 0;
	auto put = [&](B &b, void *a) { uint64_t v = mix((uint64_t) a + in.size()) | 1; memcpy(a, &v, 8); uint64_t u = ~v; if (b.p->g.R() > 8) memcpy((char *) a + b.p->g.R() - 8, &u, 8); b.live.push_back({a, v}); };
	auto verify = [&](B &b) { for (auto &x : b.live) { uint64_t v, u = ~x.second; memcpy(&v, x.first, 8); if (b.p->g.R() > 8) memcpy(&u, (char *) x.first + b.p->g.R() - 8, 8); if (v != x.second || u != ~x.second) c.fail("an item of size %zu in a set of large pools changed", b.p->g.R()); } };
	for (unsigned k = 0, n = 1 + (unsigned) c.below(4); k < n; k++) {
		Cfg g; g.attr = true; g.set_type = true; g.stride = common; g.cpus = 1; g.policy_set = true; g.policy = (int) c.below(2); g.max_ranges = 1; g.item_len = 1ull << (c.chance(2, 3) ? ord - c.below(6) : c.range(3, ord)); if (c.coin() && g.item_len > 16) g.item_len -= c.below(g.item_len / 2);
		bool dup = false; for (auto &b : in) if (b.p->g.R() == g.R()) dup = true; if (dup) continue;
		Pool *p = w.create(g); if (!p) { if (errno == ENOMEM) c.discard(); c.fail("creating a valid pool failed with errno %d (%s)", errno, g.str().c_str()); }
		void *a = (void *) rseq_mempool_percpu_malloc(p->h); PBT_CHECK(c, a, "first allocation of a pool failed (errno %d)", errno);
		int r = rseq_mempool_set_add_pool(set, p->h); c.note("add pool#%d (item size %zu) -> %d", (int) p->id, g.R(), r); PBT_CHECK(c, r == 0, "adding the first pool of item size %zu failed (errno %d)", g.R(), errno);
		in.push_back({p, (uintptr_t) a & ~(common - 1), {}, g.S() / g.R()}); put(in.back(), a);
	}
	while (c.more(20)) { Ctx::SpanGuard sg(c);
		if (c.chance(2, 7)) { B &b = in[c.below(in.size())]; if (b.live.empty()) continue; size_t i = c.below(b.live.size()); verify(b); w.raw_free(*b.p, b.live[i].first); w.shim_ok(); b.live.erase(b.live.begin() + i); continue; }
		size_t len; switch (c.below(4)) { case 0: len = 1ull << c.below(ord + 2); break; case 1: len = c.word(); break; default: { size_t R = in[c.below(in.size())].p->g.R(); len = c.coin() ? R + c.below(3) - 1 : R / 2 + c.below(2); } }
		B *want = nullptr; bool full = false; for (auto &b : in) if (b.p->g.R() >= len) { if (b.live.size() >= b.cap) full = true; else if (!want || b.p->g.R() < want->p->g.R()) want = &b; }
		bool z = want && want->p->g.R() <= (1u << 20) && c.coin(); errno = 0; void *a = z ? (void *) rseq_mempool_set_percpu_zmalloc(set, len) : (void *) rseq_mempool_set_percpu_malloc(set, len); int e = errno; w.shim_ok();
		c.note("set %s(0x%zx) -> %s (expect pool#%d)", z ? "zmalloc" : "malloc", len, a ? "item" : "NULL", want ? (int) want->p->id : -1);
		if (!want) { PBT_CHECK(c, !a, "set of pools returned an item of length %zu although no pool fits and has space", len); PBT_CHECK(c, e == ENOMEM, "set allocation failed with errno %d instead of ENOMEM", e); continue; }
		PBT_CHECK(c, a, "set allocation of %zu bytes failed (errno %d) although pool#%d (item size %zu) fits and has space", len, e, (int) want->p->id, want->p->g.R()); if (full) fell++;
		if (((uintptr_t) a & ~(common - 1)) != want->base) c.fail("set allocation of %zu bytes was not served by pool#%d (item size %zu), the smallest with space that fits", len, (int) want->p->id, want->p->g.R());
		PBT_CHECK(c, (uintptr_t) a % want->p->g.R() == 0, "item %p is not aligned to its size %zu", a, want->p->g.R()); for (auto &x : want->live) PBT_CHECK(c, x.first != a, "item handed out twice by a set of large pools");
		if (z) { const char *q = (const char *) a; for (size_t i = 0; i < want->p->g.R(); i++) PBT_CHECK(c, !q[i], "zeroed set allocation has byte %zu nonzero", i); }
		put(*want, a); verify(*want);
	}
	for (auto &b : in) verify(b);
	c.label("set of large pools"); if (fell) c.nontrivial();
	for (auto &b : in) for (auto &x : b.live) w.raw_free(*b.p, x.first);
	int r = rseq_mempool_set_destroy(set); PBT_CHECK(c, r == 0, "set destroy failed"); w.shim_ok(); w.pools.clear(); w.finish();
}
static void C19(Ctx &c) {
	if (c.chance(1, 30)) { bigset(c); return; }
	begin_case(); World w(c); struct rseq_mempool_set *set = rseq_mempool_set_create(); PBT_CHECK(c, set, "set creation failed");
	std::vector<Pool *> in; // pools in the set
	GenOpt go; go.small_only = true; go.big_ok = false; go.max_cpus = 5;
	std::vector<std::unique_ptr<Pool>> loose_; std::vector<Pool *> loose;
	unsigned fell = 0, none = 0, busy = 0; bool nostride = true; size_t common = 1ull << (12 + c.below(6));
	// The stride given to free/ptr must match the pool; sets are used with one common stride.
	auto newpool = [&]() -> Pool * {
		Cfg g = gen_cfg(c, go); g.stride = common; (void) nostride; g.item_len = 1 + c.below(c.coin() ? 64 : common); if (c.coin()) g.item_len = 1ull << c.range(0, ilog2(common)); if (g.item_len > common) g.item_len = common;
		if (g.max_ranges == 0 && c.chance(3, 4)) g.max_ranges = 1; if (g.max_ranges > 3) g.max_ranges = 2;
		Pool *p = w.create(g, true); PBT_CHECK(c, p, "creating a valid pool failed (errno %d)", errno); return p; };
	auto of_len = [&](size_t len) { // smallest fitting pool with space, per the documentation
		Pool *best = nullptr; for (auto p : in) { bool gr; if (p->g.R() >= len && w.should_succeed(*p, gr) && (!best || p->g.R() < best->g.R())) best = p; } return best; };
	while (c.more(40)) { Ctx::SpanGuard sg(c);
		switch (c.weighted({5, 14, 8, 3, 4})) {
		case 0: { if (w.pools.size() > 8) break; Pool *p = newpool(); bool dup = false; for (auto q : in) if (q->g.R() == p->g.R()) dup = true;
			if (c.chance(1, 4)) w.alloc(*p, A_ZERO, {}); // may already hold items
			errno = 0; int r = rseq_mempool_set_add_pool(set, p->h);
			c.note("add pool#%d (item size %zu) -> %d", (int) p->id, p->g.R(), r);
			if (dup) { busy++; PBT_CHECK(c, r == -1 && errno == EBUSY, "adding a second pool of item size %zu returned %d errno %d instead of EBUSY", p->g.R(), r, errno);
				if (p->live.empty()) { auto it = w.alloc(*p, A_ZERO, {}); PBT_CHECK(c, it, "refused pool is not usable any more"); }
				size_t pi = 0; for (; pi < w.pools.size(); pi++) if (w.pools[pi].get() == p) break;
				while (!p->live.empty()) w.free_item(*p, p->live.size() - 1);
				w.destroy(pi); }
			else { PBT_CHECK(c, r == 0, "adding the first pool of item size %zu failed (errno %d)", p->g.R(), errno); in.push_back(p); }
			break; }
		case 1: { size_t len; if (!in.empty() && c.chance(2, 3)) { size_t R = in[c.below(in.size())]->g.R(); len = R + c.below(3) - 1; if (c.coin()) len = R / 2 + 1; } else if (c.chance(1, 8)) len = c.word(); else len = c.below(common + 2);
			AllocKind k = (AllocKind) c.below(3); std::vector<uint8_t> init; if (k == A_INIT) { if (len > common) len = common; uint64_t s = c.u64() | 1; init.resize(len); for (size_t i = 0; i < len; i++) init[i] = (uint8_t) (mix(s + i / 8) >> (8 * (i % 8))); }
			Pool *want = of_len(len); errno = 0; void *a; std::vector<uint8_t> ib = init; ib.push_back(0);
			bool gl = want && want->g.global;
			if (gl) a = k == A_PLAIN ? rseq_mempool_set_malloc(set, len) : k == A_ZERO ? rseq_mempool_set_zmalloc(set, len) : rseq_mempool_set_malloc_init(set, ib.data(), len);
			else a = k == A_PLAIN ? (void *) rseq_mempool_set_percpu_malloc(set, len) : k == A_ZERO ? (void *) rseq_mempool_set_percpu_zmalloc(set, len) : (void *) rseq_mempool_set_percpu_malloc_init(set, ib.data(), len);
			int e = errno; w.shim_ok();
			c.note("set %s(%zu) -> %s (expect pool#%d)", k == A_PLAIN ? "malloc" : k == A_ZERO ? "zmalloc" : "malloc_init", len, a ? "item" : "NULL", want ? (int) want->id : -1);
			if (!want) { none++; PBT_CHECK(c, !a, "set of pools returned an item of length %zu although no pool fits and has space", len); PBT_CHECK(c, e == ENOMEM, "set allocation failed with errno %d instead of ENOMEM", e); break; }
			PBT_CHECK(c, a, "set allocation of %zu bytes failed (errno %d) although pool#%d (item size %zu) fits and has space", len, e, (int) want->id, want->g.R());
			for (auto p : in) { bool gr; if (p->g.R() >= len && p->g.R() < want->g.R() && !w.should_succeed(*p, gr)) fell++; }
			// which pool served it?
			bool gr; w.should_succeed(*want, gr); uintptr_t base = (uintptr_t) a & ~(common - 1);
			bool own = want->bases.count(base); for (auto &q : w.pools) if (q.get() != want && q->bases.count(base)) c.fail("set allocation of %zu bytes was served by pool#%d (item size %zu) instead of pool#%d (item size %zu)", len, (int) q->id, q->g.R(), (int) want->id, want->g.R());
			(void) own;
			w.allocated(*want, a, k, init, gr);
			break; }
		case 2: { std::vector<Pool *> nz; for (auto p : in) if (!p->live.empty()) nz.push_back(p); if (nz.empty()) break; Pool *p = nz[c.below(nz.size())]; w.free_item(*p, c.below(p->live.size())); break; }
		case 3: { if (in.empty()) break; Pool *p = in[c.below(in.size())]; // exhaust this pool through the set
			size_t n = p->g.max_ranges ? p->g.max_ranges * p->g.per_range() - p->live.size() : 0; if (n > 600) break; c.note("exhaust pool#%d with %zu allocations", (int) p->id, n);
			for (size_t i = 0; i < n; i++) { Pool *want = of_len(p->g.R()); if (want != p) break; bool gr; w.should_succeed(*p, gr); errno = 0; void *a = (void *) rseq_mempool_set_percpu_malloc(set, p->g.R()); w.shim_ok(); PBT_CHECK(c, a, "set allocation of %zu bytes failed (errno %d) with space left in pool#%d", p->g.R(), errno, (int) p->id); w.allocated(*p, a, A_PLAIN, {}, gr); }
			break; }
		case 4: if (!in.empty()) { Pool *p = in[c.below(in.size())]; if (!p->live.empty()) gen_write(w, c, *p, *p->live[c.below(p->live.size())], false); } break;
		}
		if (!w.pools.empty()) { Pool &q = *w.pools[c.below(w.pools.size())]; if (!q.live.empty()) w.check_item(q, *q.live[c.below(q.live.size())], "after unrelated operation"); }
	}
	w.check_all("end");
	if (fell) c.label("fell through an exhausted pool"); if (none) c.label("no pool fits"); if (busy) c.label("EBUSY"); if (w.reuse) c.label("recycled");
	if (fell || busy || w.reuse) c.nontrivial();
	for (auto p : in) while (!p->live.empty()) w.free_item(*p, p->live.size() - 1);
	int r = rseq_mempool_set_destroy(set); PBT_CHECK(c, r == 0, "set destroy failed"); w.shim_ok();
	for (auto p : in) for (size_t i = 0; i < w.pools.size(); i++) if (w.pools[i].get() == p) { w.pools.erase(w.pools.begin() + i); break; }
	w.finish();
}

// ---------------------------------------------------------------- C20
static size_t c20_limit;
static void C20(Ctx &c) {
	begin_case(); World w(c);
	// Simulated address-space limit: most cases stay cheap, some allow really large pools.
	c20_limit = c.chance(1, 40) ? (4ull << 30) : (64ull << 20);
	shim::S.mmap_hook = [](size_t len) { return len <= c20_limit; };
	if (c.chance(1, 12)) { // null attribute object
		int k = (int) c.below(7); errno = 0; int r = 0;
		switch (k) { case 0: r = rseq_mempool_attr_set_init(nullptr, InitRec::cb, nullptr); break; case 1: r = rseq_mempool_attr_set_robust(nullptr); break; case 2: r = rseq_mempool_attr_set_percpu(nullptr, 4096, 1); break; case 3: r = rseq_mempool_attr_set_global(nullptr, 4096); break; case 4: r = rseq_mempool_attr_set_max_nr_ranges(nullptr, 1); break; case 5: r = rseq_mempool_attr_set_poison(nullptr, 1); break; case 6: r = rseq_mempool_attr_set_populate_policy(nullptr, RSEQ_MEMPOOL_POPULATE_COW_ZERO); break; }
		c.note("attribute setter %d on NULL -> %d", k, r); PBT_CHECK(c, r == -1 && errno == EINVAL, "attribute setter #%d on NULL returned %d errno %d", k, r, errno);
		errno = 0; r = rseq_mempool_get_max_nr_cpus(nullptr); PBT_CHECK(c, r == -1 && errno == EINVAL, "max CPU query on NULL returned %d errno %d", r, errno);
		rseq_mempool_attr_destroy(nullptr); r = rseq_mempool_destroy(nullptr); PBT_CHECK(c, r == 0, "destroying no pool returned %d", r); c.label("null arguments"); return;
	}
	// A random sequence of setters; the model keeps the last value of each.
	struct M { bool global = false; size_t stride = 0; int cpus = 0; int policy = 0; bool robust = false, poison_set = false; uintptr_t poison = 0; unsigned long maxr = 0; bool init = false; int initk = 0; } m;
	static InitRec irs[2]; irs[0] = InitRec(); irs[1] = InitRec();
	struct rseq_mempool_attr *a = c.chance(1, 12) ? nullptr : rseq_mempool_attr_create();
	auto gstride = [&]() -> size_t { switch (c.weighted({3, 4, 2, 2, 1})) { case 0: return 0; case 1: return 4096ull << c.below(8); case 2: return 1ull << c.below(64); case 3: { size_t s = 1ull << c.range(10, 20); return s + c.below(3) - 1; } default: return c.word(); } };
	auto gcpus = [&]() -> int { switch (c.weighted({5, 2, 1, 1})) { case 0: return 1 + (int) c.below(8); case 1: return 0; case 2: return -1 - (int) c.below(5); default: { static const int t[] = { INT32_MAX, INT32_MIN, (1 << 30) + 1, 1 << 28, INT32_MAX - 1, 1 << 27, 300, 1000 }; return t[c.below(8)]; } } };
	if (a) while (c.more(4)) { Ctx::SpanGuard sg(c); int r = 0;
		switch (c.below(7)) {
		case 0: m.global = false; m.stride = gstride(); m.cpus = gcpus(); r = rseq_mempool_attr_set_percpu(a, m.stride, m.cpus); c.note("set_percpu(stride=0x%zx, cpus=%d)", m.stride, m.cpus); break;
		case 1: m.global = true; m.stride = gstride(); m.cpus = 0; r = rseq_mempool_attr_set_global(a, m.stride); c.note("set_global(stride=0x%zx)", m.stride); break;
		case 2: m.robust = true; r = rseq_mempool_attr_set_robust(a); c.note("set_robust"); break;
		case 3: m.poison_set = true; m.poison = c.word(); r = rseq_mempool_attr_set_poison(a, m.poison); c.note("set_poison(0x%lx)", (unsigned long) m.poison); break;
		case 4: { static const unsigned long far[] = { 256, 65536, 65537, 1ul << 31, (1ul << 32) - 1, 1ul << 32, (1ul << 32) + 1, ~0ul }; m.maxr = c.chance(1, 4) ? far[c.below(8)] : c.below(4); } r = rseq_mempool_attr_set_max_nr_ranges(a, m.maxr); c.note("set_max_nr_ranges(%lu)", m.maxr); break;
		case 5: m.policy = c.chance(1, 4) ? (c.coin() ? 2 + (int) c.below(5) : -1 - (int) c.below(3)) : (int) c.below(2); r = rseq_mempool_attr_set_populate_policy(a, (enum rseq_mempool_populate_policy) m.policy); c.note("set_populate_policy(%d)", m.policy); break;
		case 6: m.init = true; m.initk = (int) c.below(2); m.policy = 0; r = rseq_mempool_attr_set_init(a, InitRec::cb, &irs[m.initk]); c.note("set_init"); break;
		}
		PBT_CHECK(c, r == 0 || (r == -1 && errno == EINVAL), "attribute setter returned %d errno %d", r, errno);
		if (r) { c.label("setter rejected an argument"); rseq_mempool_attr_destroy(a); return; }
	}
	size_t item; switch (c.weighted({4, 3, 2, 2})) { case 0: item = c.below(600); break; case 1: item = 1ull << c.below(64); break; case 2: item = (m.stride ? m.stride : 65536) + c.below(3) - 1; break; default: item = c.word(); break; }
	c.note("create(item_len=0x%zx)", item);
	// oracle
	size_t S = m.stride ? m.stride : 65536; int N = m.global ? 1 : (m.cpus == 0 ? rseq_get_max_nr_cpus() : m.cpus);
	bool pol_ok = m.policy == 0 || m.policy == 1;
	bool valid = pol_ok && (m.global || m.cpus >= 0) && (S & (S - 1)) == 0 && S >= 4096;
	size_t il = item < 8 ? 8 : item; valid = valid && il <= S; // S power of two => rounded item also fits
	bool cow_init = !m.global && m.policy == 0; unsigned __int128 tot = (unsigned __int128) S * (unsigned) (N > 0 ? N : 0) + (cow_init ? S : 0) + (m.robust ? S : 0) + 8192 + S;
	bool huge = valid && (tot > (unsigned __int128) c20_limit / 2 || N > 20000 /* limit on the number of mappings */); bool overflow = valid && (tot >> 63);
	errno = 0; struct rseq_mempool *h = rseq_mempool_create(c.coin() ? std::string(c.below(400), (char) 0x25).c_str() : nullptr, item, a); int e = errno; rseq_mempool_attr_destroy(a); w.shim_ok();
	c.label(!valid ? "invalid combination" : overflow ? "size not representable" : huge ? "huge" : "valid");
	if (!valid) { c.nontrivial(); PBT_CHECK(c, !h, "an invalid combination was accepted (item_len=0x%zx stride=0x%zx cpus=%d policy=%d)", item, S, N, m.policy); PBT_CHECK(c, e == EINVAL, "an invalid combination was rejected with errno %d instead of EINVAL", e); }
	if (overflow) { c.nontrivial(); PBT_CHECK(c, !h, "a pool whose total size (stride 0x%zx x %d CPUs) is not representable was created", S, N); PBT_CHECK(c, e == EINVAL || e == ENOMEM, "errno %d for a pool that cannot be represented", e); }
	if (!h) {
		if (valid && !huge) c.fail("a valid combination was rejected with errno %d (item_len=0x%zx stride=0x%zx cpus=%d policy=%d)", e, item, S, N, m.policy);
		PBT_CHECK(c, e == EINVAL || e == ENOMEM, "creation failed with errno %d", e);
		PBT_CHECK(c, shim::S.maps.empty() && shim::S.fds.empty() && shim::S.heap.empty(), "a rejected creation left resources behind"); return;
	}
	c.nontrivial();
	// the pool must behave as configured: drive it with the model
	auto p = std::make_unique<Pool>(); Cfg g; g.global = m.global; g.item_len = item; g.stride = m.stride; g.cpus = m.cpus; g.policy_set = true; g.policy = m.policy; g.robust = m.robust; g.poison_set = m.poison_set; g.poison = m.poison; g.max_ranges = m.maxr; p->g = g; p->h = h;
	World::pick_mcpus(c, *p); Pool &q = *p; w.pools.push_back(std::move(p));
	if (m.init) { InitRec &r = irs[m.initk]; PBT_CHECK(c, irs[!m.initk].calls.empty(), "the wrong init callback argument was used"); PBT_CHECK(c, (long) r.calls.size() == (m.global ? 1 : N), "init callback called %zu times for %d CPUs", r.calls.size(), N); for (auto &k : r.calls) { PBT_CHECK(c, k.len == S, "init length %zu", k.len); PBT_CHECK(c, m.global ? k.cpu == -1 : (k.cpu >= 0 && k.cpu < N), "init cpu %d", k.cpu); } }
	else PBT_CHECK(c, irs[0].calls.empty() && irs[1].calls.empty(), "an init callback that was never set was called");
	errno = 0; int nc = rseq_mempool_get_max_nr_cpus(h); if (m.global) PBT_CHECK(c, nc == -1 && errno == EINVAL, "max CPU query of a global pool returned %d errno %d", nc, errno); else PBT_CHECK(c, nc == N, "pool reports %d CPUs, configured %d", nc, N);
	if (cow_init && !huge) { // copy-on-init pools need a memory file per range; zero-page ones must not
		PBT_CHECK(c, shim::S.count[shim::C_MEMFD] >= 1 || true, "no"); }
	if (g.R() <= 65536 && q.g.per_range() <= 600 && tot < ((unsigned __int128) 1 << 28)) {
		bool far = g.max_ranges > 1500; size_t lim = g.max_ranges && !far ? g.max_ranges * g.per_range() : std::min<size_t>(3 * g.per_range(), 500);
		if (lim <= 1500) { for (size_t i = 0; i < lim; i++) w.alloc(q, i % 3 == 0 ? A_ZERO : A_PLAIN, {}); if (g.max_ranges && !far) { auto it = w.alloc(q, A_PLAIN, {}); (void) it; } c.label("capacity verified"); }
	} else if (g.R() <= (1 << 20) && tot < ((unsigned __int128) 1 << 30)) { for (int i = 0; i < 3; i++) w.alloc(q, A_ZERO, {}); }
	// argument validation of initialised allocation
	{ std::vector<uint8_t> big(std::min<size_t>(g.R() + 1, 1 << 17), 1); errno = 0; size_t live = q.live.size(); void *x = g.R() + 1 <= big.size() ? (void *) rseq_mempool_percpu_malloc_init(h, big.data(), g.R() + 1) : (void *) rseq_mempool_percpu_malloc_init(h, big.data(), (size_t) -1); PBT_CHECK(c, !x && errno == EINVAL, "initial content longer than the item returned %p errno %d", x, errno); (void) live; }
	for (auto &it : q.live) { uint64_t v = c.idx; for (size_t k = 0; k < q.mcpus.size(); k++) { v = mix(v); w.write(q, *it, k, 0, 8, (uint8_t *) &v); w.write(q, *it, k, g.R() - 1, 1, (uint8_t *) &v); } }
	w.check_all("after writing all items");
	w.finish();
}

int main(int argc, char **argv) {
	std::vector<Property> P = {
		{"C11", "case = history (create/malloc/zmalloc/malloc_init/free/write/exhaust/drain/destroy) over up to 3 pools of generated configuration, checked against a per-CPU byte model; non-trivial = recycles at least one item and makes >=3 allocations", C11, 48000, 800000, 40},
		{"C12", "case = history dominated by zeroed/initialised allocations of items recycled with different content per CPU; non-trivial = recycles an item", C12, 48000, 800000, 40},
		{"C13", "case = history of exhaustion, partial frees and refills against an exact capacity model; non-trivial = recycles an item", C13, 36000, 500000, 40},
		{"C14", "case = robust pool history in a child process ending with one misuse (or none), which must (not) terminate it; non-trivial = the misuse (or clean destroy) was reached", C14, 80000, 1500000, 40},
		{"C15", "case = history on a poisoning pool, every freed item and every plainly recycled item read back on all CPUs; non-trivial = recycles an item", C15, 48000, 800000, 40},
		{"C18", "case = one history replayed with each resource request failing in turn; evaluations counts replays; non-trivial = the history grows a pool", C18, 5000, 80000, 10},
		{"C19", "case = history on a pool set with generated pools, checked against the smallest-fit model; non-trivial = falls through an exhausted pool, is refused a duplicate, or recycles", C19, 60000, 900000, 40},
		{"C20", "case = sequence of attribute setters + creation, checked against a validity oracle and then driven with the model; non-trivial = the pool was created or the combination is invalid", C20, 80000, 1500000, 40},
		{"C24", "case = history on pools with an initialisation callback recording its calls, possibly failing at one invocation; non-trivial = recycles an item or the callback fails", C24, 40000, 600000, 40},
	};
	return main_(argc, argv, P);
}
