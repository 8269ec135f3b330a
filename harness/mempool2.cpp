// C16 (page residency), C17 (fork), C22 (NUMA placement).
#define SHIM_IMPL
#include "shim.hpp"
#include "mempool.hpp"
#include <malloc.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <linux/fs.h>
using namespace pbt;

static void begin_case() { shim::S.reset(); for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) >= 0) shim::S.foreign_fds.insert(i); }

// One history step, drawn in advance so that it can be executed in another process.
struct Step { int op; uint64_t a, b; };
static std::vector<uint8_t> mkinit(uint64_t s, size_t R) {
	size_t n; switch (s & 3) { case 0: n = R; break; case 1: n = 1 + (s >> 8) % R; break; case 2: n = std::min<size_t>(R, 8); break; default: n = (s >> 8) % (R + 1); break; }
	int mode = (int) ((s >> 2) & 3); std::vector<uint8_t> v(n); for (size_t i = 0; i < n; i++) v[i] = mode == 0 ? 0 : mode == 1 ? 0xff : mode == 2 ? (uint8_t) (mix(s + i / 8) >> (8 * (i % 8))) : (i + 1 == n ? (uint8_t) (s >> 16 | 1) : 0);
	return v;
}

// ---------------------------------------------------------------- C16
#ifndef PAGEMAP_SCAN
struct page_region { uint64_t start, end, categories; };
struct pm_scan_arg { uint64_t size, flags, start, end, walk_end, vec, vec_len, max_pages, category_inverted, category_mask, category_anyof_mask, return_mask; };
#define PAGEMAP_SCAN _IOWR('f', 16, struct pm_scan_arg)
#endif
enum { PC_FILE = 1 << 2, PC_PRESENT = 1 << 3, PC_SWAPPED = 1 << 4, PC_PFNZERO = 1 << 5 };
static int pagemap_fd = -1;
// Private (copied or anonymous, not zero-page) pages of [a,b).
static std::vector<std::pair<uintptr_t, uintptr_t>> private_pages(Ctx &c, uintptr_t a, uintptr_t b) {
	std::vector<std::pair<uintptr_t, uintptr_t>> r; std::vector<struct page_region> v(512);
	for (int pass = 0; pass < 2; pass++) for (uintptr_t at = a; at < b;) {
		struct pm_scan_arg s = {}; s.size = sizeof s; s.start = at; s.end = b; s.vec = (uint64_t) (uintptr_t) v.data(); s.vec_len = v.size();
		s.category_inverted = PC_FILE | PC_PFNZERO; s.category_mask = PC_FILE | PC_PFNZERO | (pass ? PC_SWAPPED : PC_PRESENT); s.return_mask = PC_PRESENT | PC_FILE | PC_PFNZERO | PC_SWAPPED;
		long n = ioctl(pagemap_fd, PAGEMAP_SCAN, &s); if (n < 0) { c.note("page map unavailable: errno %d", errno); c.discard(); }
		for (long i = 0; i < n; i++) r.push_back({v[i].start, v[i].end});
		if (s.walk_end <= at) break; at = s.walk_end;
	}
	return r;
}
struct Resid { // pages of each pool that may be private
	std::map<Pool *, std::set<uintptr_t>> ok; std::map<Pool *, std::set<uintptr_t>> inited;
	static uintptr_t pg(uintptr_t x) { return x & ~(uintptr_t) 4095; }
	void allow(Pool &p, const void *a, int cpu, size_t off, size_t len) { if (!len) return; uintptr_t s = (uintptr_t) p.ptr(a, cpu) + off; for (uintptr_t x = pg(s); x < s + len; x += 4096) ok[&p].insert(x); }
	bool dirty(Pool &p, const void *a, int cpu) { uintptr_t s = (uintptr_t) p.ptr(a, cpu); auto i = ok[&p].lower_bound(pg(s)); return i != ok[&p].end() && *i < s + p.g.R(); }
	void spread(Pool &p, const void *a) { for (int k = 0; k < p.g.N(); k++) if (dirty(p, a, k)) allow(p, a, k, 0, p.g.R()); }   // the library may rewrite a whole item on a CPU that has private pages of it
	void range_init(Pool &p) { if (!p.g.init || !p.ir.fill) return; for (auto b : p.bases) if (inited[&p].insert(b).second) for (int k = 0; k < p.g.N(); k++) { size_t m = std::min<size_t>(p.ir.depth, p.g.S()); for (size_t o = 0; o < m; o += 4096) ok[&p].insert(b + k * p.g.S() + o); } }
	void scan(World &w, Pool &p, const char *when) {
		range_init(p); auto &s = ok[&p];
		for (auto b : p.bases) for (auto &r : private_pages(w.c, b, b + p.g.S() * (size_t) p.g.N())) for (uintptr_t x = r.first; x < r.second; x += 4096)
			if (!s.count(x)) w.c.fail("%s: page %zu of CPU %zu of pool#%d (%s) became private although that CPU never wrote there", when, (size_t) ((x - b) % p.g.S() / 4096), (size_t) ((x - b) / p.g.S()), (int) p.id, p.g.str().c_str());
	}
};
static void C16(Ctx &c) {
	begin_case(); World w(c); Resid rs; unsigned np = 1 + (unsigned) c.below(2); bool fill = c.coin(), multi = false;
	for (unsigned i = 0; i < np; i++) { GenOpt go; go.small_only = c.coin(); Cfg g = gen_cfg(c, go); if (c.chance(1, 3)) { g.item_len = 1 + c.below(30000); if (g.S() < g.R()) g.stride = g.R() << c.below(3); }
		if (i && g.S() * (size_t) g.N() > (1ull << 31)) continue;
		while (g.R() * (size_t) g.N() > (4u << 20) && g.cpus > 2) g.cpus /= 2;
		Pool *p = w.create(g, fill); if (!p) { if (g.S() * (size_t) (g.N() + 2) > (1ull << 30)) c.discard(); c.fail("creating a valid pool failed with errno %d", errno); } if (g.R() > 4096) multi = true; c.label(g.cow_init() ? "COW_INIT" : "COW_ZERO"); if (g.init && fill) c.label("init callback writing"); if (g.init && !fill) c.label("init callback not writing"); }
	unsigned wr = 0, lib = 0, fr = 0; std::set<std::pair<Pool *, int>> writers;
	auto alloc = [&](Pool &p, AllocKind k, uint64_t s) {
		std::vector<uint8_t> in; if (k == A_INIT) in = mkinit(s, p.g.R()); auto it = w.alloc(p, k, in);
		c.note("%s pool#%d%s -> %s", k == A_PLAIN ? "malloc" : k == A_ZERO ? "zmalloc" : "malloc_init", (int) p.id, k == A_INIT ? (" len=" + std::to_string(in.size())).c_str() : "", it ? ("item#" + std::to_string(it->serial)).c_str() : "ENOMEM");
		if (!it) return; rs.range_init(p);
		if (k != A_PLAIN) { rs.spread(p, it->p); lib++; }
		if (k == A_INIT && !p.g.cow_init()) { bool nz = false; for (auto x : in) nz |= x != 0; if (nz) for (int q = 0; q < p.g.N(); q++) rs.allow(p, it->p, q, 0, in.size()); } };
	auto free_ = [&](Pool &p, size_t i) {
		void *a = p.live[i]->p; c.note("free item#%llu of pool#%d", (unsigned long long) p.live[i]->serial, (int) p.id); w.free_item(p, i); fr++;
		if (p.g.has_poison()) { rs.spread(p, a); if (!p.g.cow_init() && p.g.eff_poison()) for (int q = 0; q < p.g.N(); q++) rs.allow(p, a, q, 0, p.g.R()); }
		if (!p.g.cow_init() && !p.g.robust) rs.allow(p, a, 0, 0, 8); };   // free-list link kept in CPU 0's memory
	while (c.more(30)) {
		Ctx::SpanGuard sg(c); Pool &p = *w.pools[c.below(w.pools.size())];
		switch (c.weighted({3, 6, 6, 8, 6, 1, 1})) {
		case 0: alloc(p, A_PLAIN, 0); break; case 1: alloc(p, A_ZERO, 0); break; case 2: alloc(p, A_INIT, c.u64()); break;
		case 3: if (!p.live.empty()) free_(p, c.below(p.live.size())); break;
		case 4: if (!p.live.empty()) { auto &it = *p.live[c.below(p.live.size())]; size_t R = p.g.R(), k = c.below(p.mcpus.size()); size_t off = c.below(R), len = 1 + c.below(R - off); if (c.chance(1, 3)) off = 0, len = R; uint64_t s = c.u64(); if (c.chance(1, 6)) s = 0;
				std::vector<uint8_t> b(len); for (size_t i = 0; i < len; i++) b[i] = s ? (uint8_t) (mix(s + i / 8) >> (8 * (i % 8))) : 0;
				w.write(p, it, k, off, len, b.data()); rs.allow(p, it.p, p.mcpus[k], off, len); writers.insert({&p, p.mcpus[k]}); wr++; c.note("write item#%llu on CPU %d [%zu,+%zu)", (unsigned long long) it.serial, p.mcpus[k], off, len); } break;
		case 5: { size_t n = std::min<size_t>(p.avail(), p.g.R() * p.mcpus.size() > 4096 ? 60 : 300) + c.below(3); AllocKind k = (AllocKind) c.below(3); uint64_t s = c.u64(); for (size_t i = 0; i < n; i++) { size_t l = p.live.size(); alloc(p, k, s); if (p.live.size() == l) break; } break; }
		case 6: while (!p.live.empty()) free_(p, p.live.size() - 1); break;
		}
		rs.scan(w, p, "after operation");
	}
	for (auto &p : w.pools) rs.scan(w, *p, "at the end");
	bool idle = false; for (auto &p : w.pools) { unsigned n = 0; for (auto &x : writers) if (x.first == p.get()) n++; if (n && (int) n < p->g.N()) idle = true; }
	if (idle) c.label("histories with writing and idle CPUs"); if (w.reuse) c.label("histories recycling items"); if (w.growths) c.label("histories growing ranges"); if (multi) c.label("items larger than a page");
	if (idle && lib && fr) c.nontrivial();
	w.finish();
}

// ---------------------------------------------------------------- C17
typedef std::vector<std::pair<uintptr_t, uintptr_t>> Ext;
// Parts of ext that are mapped in this process.
static Ext mapped_in(const Ext &ext) {
	Ext r; FILE *f = fopen("/proc/self/maps", "re"); if (!f) return r; char l[512]; unsigned long a, b;
	while (fgets(l, sizeof l, f)) if (sscanf(l, "%lx-%lx", &a, &b) == 2) for (auto &e : ext) { uintptr_t s = std::max<uintptr_t>(a, e.first), t = std::min<uintptr_t>(b, e.second); if (s < t) r.push_back({s, t}); }
	fclose(f); return r;
}
struct Side { // what one process does with the pools after the fork
	World &w; Ctx &c; bool child; Ext ext, mine; std::vector<uint8_t> mpat; unsigned done = 0, destroyed = 0, overlays = 0;
	Side(World &w_, bool ch) : w(w_), c(w_.c), child(ch) {}
	const char *who() { return child ? "child" : "parent"; }
	bool usable(Pool &p) { return !child || !p.g.cow_init(); }
	void check_mine() { for (size_t i = 0; i < mine.size(); i++) { auto &m = mine[i]; auto got = mapped_in({m}); size_t t = 0; for (auto &g : got) t += g.second - g.first; if (t != m.second - m.first) c.fail("memory the child mapped at %lx (%zu bytes) after the fork was unmapped by pool destruction", (unsigned long) m.first, (size_t) (m.second - m.first));
		for (uintptr_t x = m.first; x < m.second; x += 512) if (*(uint8_t *) x != (uint8_t) (mpat[i] + (x >> 9))) c.fail("memory the child mapped at %lx after the fork was modified", (unsigned long) m.first); } }
	void resync() { Ext e(shim::S.maps.begin(), shim::S.maps.end()); shim::S.maps.clear(); for (auto &m : mapped_in(e)) shim::add(m.first, m.second); }   // the ledger keeps what is really mapped
	void step(const Step &s) {
		done++;
		if (w.pools.empty()) return;
		size_t pi = s.a % w.pools.size(); Pool &p = *w.pools[pi]; uint64_t r = mix(s.b);
		if (!usable(p)) {
			switch (s.op) {
			case 0: case 1: case 2: case 4: { // map something where the pool was
				Ext all = ext; if (all.empty()) break; auto e = all[r % all.size()]; size_t pages = (e.second - e.first) / 4096; uintptr_t at = e.first + ((r >> 8) % pages) * 4096; size_t n = 1 + (r >> 40) % 3; if (at + n * 4096 > e.second) n = (e.second - at) / 4096;
				void *q = mmap((void *) at, n * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (q == MAP_FAILED) break; if (q != (void *) at) { munmap(q, n * 4096); break; }
				for (uintptr_t x = at; x < at + n * 4096; x += 512) *(uint8_t *) x = (uint8_t) (s.b + (x >> 9)); mine.push_back({at, at + n * 4096}); mpat.push_back((uint8_t) s.b); overlays++; c.note("child maps %zu pages inside pool#%d's former address range", n, (int) p.id); break; }
			case 3: case 5: c.note("child destroys pool#%d (%zu live items at fork)", (int) p.id, p.live.size()); destroy(pi); break;
			default: break;
			}
			if (child) check_mine();
			return;
		}
		switch (s.op) {
		case 0: case 1: case 2: { AllocKind k = (AllocKind) s.op; std::vector<uint8_t> in; if (k == A_INIT) in = mkinit(r, p.g.R()); size_t n = (r >> 60) == 0 ? std::min<size_t>(p.avail(), 200) + 1 : 1; for (size_t i = 0; i < n; i++) { auto it = w.alloc(p, k, in); if (i == 0) c.note("%s: %s pool#%d x%zu -> %s", who(), k == A_PLAIN ? "malloc" : k == A_ZERO ? "zmalloc" : "malloc_init", (int) p.id, n, it ? "item" : "ENOMEM"); if (!it) break; } break; }
		case 3: if (!p.live.empty()) { c.note("%s: free item#%llu of pool#%d", who(), (unsigned long long) p.live[r % p.live.size()]->serial, (int) p.id); w.free_item(p, r % p.live.size()); } break;
		case 4: if (!p.live.empty()) { auto &it = *p.live[r % p.live.size()]; size_t R = p.g.R(), k = (r >> 20) % p.mcpus.size(), off = (r >> 33) % R, len = R - off; std::vector<uint8_t> b(len); for (size_t i = 0; i < len; i++) b[i] = (uint8_t) (mix(s.b + i / 8) >> (8 * (i % 8))); c.note("%s: write item#%llu of pool#%d on CPU %d", who(), (unsigned long long) it.serial, (int) p.id, p.mcpus[k]); w.write(p, it, k, off, len, b.data()); } break;
		case 5: if ((r & 3) == 0) { c.note("%s: destroy pool#%d", who(), (int) p.id); if (p.g.robust) while (!p.live.empty()) w.free_item(p, p.live.size() - 1); destroy(pi); } break;
		case 6: check_usable(child ? "in the child" : "in the parent"); break;
		}
		if (child) check_mine();
	}
	void destroy(size_t pi) { destroyed++; if (child && w.pools[pi]->g.cow_init()) { shim::S.track = false; errno = 0; int r = rseq_mempool_destroy(w.pools[pi]->h); shim::S.track = true; check_mine(); resync(); PBT_CHECK(c, r == 0, "destroying pool#%d in the child failed (errno %d)", (int) w.pools[pi]->id, errno); w.pools.erase(w.pools.begin() + pi); } else w.destroy(pi); }
	void check_usable(const char *when) { for (auto &p : w.pools) if (usable(*p)) for (auto &it : p->live) w.check_item(*p, *it, when); }
	void finish_child() { // destroy everything that is left; nothing of the pools may remain
		check_usable("in the child");
		while (!w.pools.empty()) { Pool &p = *w.pools.back(); if (usable(p)) while (!p.live.empty()) w.free_item(p, p.live.size() - 1); destroy(w.pools.size() - 1); check_mine(); }
		size_t left = 0; uintptr_t at = 0; for (auto &g : mapped_in(ext)) { for (uintptr_t x = g.first; x < g.second; x += 4096) { bool m = false; for (auto &k : mine) if (x >= k.first && x < k.second) m = true; if (!m) { left += 4096; at = x; } } }
		PBT_CHECK(c, !left, "%zu bytes of destroyed pools are still mapped in the child (%lx)", left, (unsigned long) at);
		PBT_CHECK(c, shim::S.heap.empty(), "%zu heap blocks of destroyed pools are still allocated in the child", shim::S.heap.size());
	}
};
struct Msg { int code; char text[900]; };
static bool rd(int fd, void *b, size_t n) { char *p = (char *) b; while (n) { ssize_t r = read(fd, p, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return false; } p += r; n -= r; } return true; }
static void wrt(int fd, const void *b, size_t n) { const char *p = (const char *) b; while (n) { ssize_t r = write(fd, p, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return; } p += r; n -= r; } }

static void C17(Ctx &c) {
	begin_case(); World w(c); unsigned np = 1 + (unsigned) c.below(3);
	for (unsigned i = 0; i < np; i++) { GenOpt go; go.small_only = true; go.big_ok = false; go.max_cpus = 6; Cfg g = gen_cfg(c, go); if (g.S() / g.R() > 48) g.item_len = g.S() / 48; Pool *p = w.create(g, true); PBT_CHECK(c, p, "creating a valid pool failed with errno %d", errno); c.label(g.cow_init() ? "COW_INIT" : "COW_ZERO"); }
	auto draw = [&] { return Step{(int) c.weighted({3, 3, 3, 4, 8, 2, 2}), c.below(64), c.u64()}; };
	Side par(w, false); while (c.more(12)) { Ctx::SpanGuard sg(c); Step s = draw(); if (s.op == 5) s.op = 1; if (c.chance(1, 5)) s.b = s.b; par.step(s); }
	if (c.chance(1, 3)) for (auto &p : w.pools) if (p->g.per_range() <= 64 && (!p->g.max_ranges || p->g.max_ranges > 1)) { size_t n = p->g.per_range() + 1; for (size_t i = 0; i < n; i++) if (!w.alloc(*p, A_ZERO, {})) break; c.note("pool#%d grown to %zu ranges", (int) p->id, p->nr_ranges); }
	if (w.pools.empty()) c.discard();
	size_t live = 0, cowinit = 0; for (auto &p : w.pools) { live += p->live.size(); cowinit += p->g.cow_init() && !p->live.empty(); }
	int mode = (int) c.weighted({8, 2, 2});   // 0 child uses/destroys pools, 1 child scribbles over all pool memory it can reach, 2 a grandchild does the work
	struct Turn { bool child; Step s; }; std::vector<Turn> turns; while (c.more(14) && turns.size() < 60) { Ctx::SpanGuard sg(c); bool ch = c.chance(3, 5); turns.push_back({ch, draw()}); }
	bool fin = c.chance(2, 3), last = c.coin();
	c.note("fork%s", mode == 1 ? " (the child will write over all pool memory it can reach)" : mode == 2 ? " twice" : "");
	int to[2], from[2]; if (pipe2(to, O_CLOEXEC) || pipe2(from, O_CLOEXEC)) c.discard();
	Ext ext(shim::S.maps.begin(), shim::S.maps.end());
	pid_t pid = fork(); if (pid < 0) { close(to[0]); close(to[1]); close(from[0]); close(from[1]); c.discard(); }
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL); close(to[1]); close(from[0]);
		if (mode == 2) { pid_t q = fork(); if (q) { close(to[0]); close(from[1]); int s; waitpid(q, &s, 0); if (WIFSIGNALED(s)) { signal(WTERMSIG(s), SIG_DFL); kill(getpid(), WTERMSIG(s)); } _exit(WEXITSTATUS(s)); } prctl(PR_SET_PDEATHSIG, SIGKILL); }
		Msg m; Side ch(w, true); ch.ext = ext; Step s; for (auto &p : w.pools) if (p->g.cow_init()) for (auto &it : p->live) for (int k : p->mcpus) w.intervals.erase((uintptr_t) p->ptr(it->p, k));   // that memory is vacated in the child
		ch.resync();

		if (mode == 1) { uint8_t junk[4096]; memset(junk, 0xd7, sizeof junk); for (auto &e : mapped_in(ext)) for (uintptr_t x = e.first; x < e.second && x < e.first + (4096ull << 10); x += 4096) { struct iovec l = {junk, 4096}, r = {(void *) x, 4096}; process_vm_writev(getpid(), &l, 1, &r, 1, 0); } }
		for (;;) { if (!rd(to[0], &s, sizeof s)) _exit(9); m.code = 0; m.text[0] = 0;
			try { if (s.op == -1) { if (mode != 1) ch.finish_child(); m.code = 2; } else if (s.op == -2) { if (mode != 1) ch.check_usable("in the child"); m.code = 2; } else if (mode != 1) ch.step(s); if (!shim::S.error.empty() && mode != 1) c.fail("the library misused a resource: %s", shim::S.error.c_str()); }
			catch (Fail &f) { m.code = 1; snprintf(m.text, sizeof m.text, "%s", f.msg.c_str()); } catch (Discard &) { m.code = 3; }
			if (m.code == 2) snprintf(m.text, sizeof m.text, "%u %u %u", ch.done, ch.destroyed, ch.overlays);
			wrt(from[1], &m, sizeof m); if (m.code) _exit(0); }
	}
	close(to[0]); close(from[1]); signal(SIGPIPE, SIG_IGN);
	std::string fail; bool disc = false; unsigned cd = 0, cdes = 0, cov = 0; bool alive = true;
	auto tell = [&](const Step &s) { if (!alive) return; Msg m; wrt(to[1], &s, sizeof s); if (!rd(from[0], &m, sizeof m)) { alive = false; int st; waitpid(pid, &st, 0); pid = 0; char b[120]; snprintf(b, sizeof b, WIFSIGNALED(st) ? "the child was killed by signal %d" : "the child ended with status %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); fail = b; return; } if (m.code == 1) { fail = std::string("in the child: ") + m.text; alive = false; } if (m.code == 3) { disc = true; alive = false; } if (m.code == 2) { sscanf(m.text, "%u %u %u", &cd, &cdes, &cov); alive = false; } };
	try {
		for (auto &t : turns) { if (!fail.empty() || disc) break; if (t.child) tell(t.s); else { Step s = t.s; par.step(s); } }
		if (fail.empty() && !disc && !last) { w.check_all("in the parent, before the child ends"); }
		if (fail.empty() && !disc) tell(Step{fin ? -1 : -2, 0, 0});
		if (fail.empty() && !disc) { w.check_all("in the parent, after the child ended"); for (auto &p : w.pools) { for (int i = 0; i < 3; i++) w.alloc(*p, (AllocKind) i, i == 2 ? std::vector<uint8_t>(p->g.R(), 0x3c) : std::vector<uint8_t>()); } w.check_all("in the parent, after further allocations"); }
	} catch (...) { if (pid) { kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); } close(to[1]); close(from[0]); throw; }
	if (pid) { close(to[1]); to[1] = -1; int st; waitpid(pid, &st, 0); } if (to[1] >= 0) close(to[1]); close(from[0]);
	if (!fail.empty()) c.fail("%s", fail.c_str()); if (disc) c.discard();
	if (cdes) c.label("child destroyed pools"); if (cov) c.label("child mapped memory in the vacated range"); if (cdes && cov && cowinit) c.label("copy-on-init pool with live items destroyed next to child mappings"); if (mode == 1) c.label("child wrote over reachable pool memory"); if (mode == 2) c.label("grandchild"); if (cowinit) c.label("live items of copy-on-init pools at fork");
	if (live && (cd || mode == 1)) c.nontrivial();
	w.finish();
}

// ---------------------------------------------------------------- C22
struct Req { std::vector<uintptr_t> pages; int pid, flags; bool nodes_ok; };
static struct Numa { std::vector<Req> reqs; std::map<int, int> node; std::vector<std::pair<long, int>> res; std::vector<int> asked; int want = 0; bool null_nodes = false; long total = 0; std::vector<int> bad_nodes; std::string err; } NU;
extern "C" {
int vp_numa_node_of_cpu(int cpu) { NU.asked.push_back(cpu); auto i = NU.node.find(cpu); if (i == NU.node.end() || i->second < 0) { errno = EINVAL; return -1; } return i->second; }
long vp_move_pages(int pid, unsigned long n, void **pages, const int *nodes, int *status, int flags) {
	Req r; r.pid = pid; r.flags = flags; r.nodes_ok = nodes != nullptr; for (unsigned long i = 0; i < n; i++) { r.pages.push_back((uintptr_t) pages[i]); if (nodes) NU.bad_nodes.push_back(nodes[i]); }
	size_t k = NU.reqs.size(); long ret = k < NU.res.size() ? NU.res[k].first : 0; if (ret > (long) n) ret = (long) n; NU.reqs.push_back(r);
	if (status) for (unsigned long i = 0; i < n; i++) status[i] = ret < 0 ? -EPERM : (long) i < ret ? -EBUSY : nodes ? nodes[i] : 0;
	if (ret < 0) { errno = NU.res[k].second; return -1; } return ret; }
long vp_mbind(void *, unsigned long, int, const unsigned long *, unsigned long, unsigned) { NU.err = "mbind called"; return 0; }
}
static int numa_cb(void *priv, void *addr, size_t len, int cpu) { auto v = (std::vector<InitCall> *) priv; v->push_back({priv, addr, len, cpu}); return rseq_mempool_range_init_numa(addr, len, cpu, NU.want); }
// Verifies that the requests from..end ask for each page of [a,a+len) exactly once, on that node.
static void check_cover(Ctx &c, size_t from, size_t to, size_t nfrom, uintptr_t a, size_t pages, int node, bool complete) {
	std::vector<bool> seen(pages, false); size_t cnt = 0, nn = nfrom;
	for (size_t q = from; q < to; q++) { auto &r = NU.reqs[q]; PBT_CHECK(c, r.pid == 0 || r.pid == getpid(), "pages of process %d were moved", r.pid); PBT_CHECK(c, r.flags == NU.want, "move request with flags %d instead of the caller's %d", r.flags, NU.want); PBT_CHECK(c, r.nodes_ok, "move request without target nodes");
		for (auto x : r.pages) { PBT_CHECK(c, x >= a && (x - a) % 4096 == 0 && (x - a) / 4096 < pages, "request %zu asks to move address %lx, outside the %zu whole pages at %lx", q, (unsigned long) x, pages, (unsigned long) a); size_t i = (x - a) / 4096; PBT_CHECK(c, !seen[i], "page %zu of %zu was requested twice", i, pages); seen[i] = true; cnt++; PBT_CHECK(c, NU.bad_nodes[nn] == node, "page %zu of %zu was sent to node %d instead of %d", i, pages, NU.bad_nodes[nn], node); nn++; } }
	if (complete && cnt != pages) { size_t i = 0; while (i < pages && seen[i]) i++; c.fail("%zu of %zu pages were never requested (first: page %zu)", pages - cnt, pages, i); }
}
static void C22(Ctx &c) {
	begin_case(); NU = Numa(); static const int fl[] = { 2, 4, 6, 1, 3, 7, 1 << 30, -1 }; NU.want = fl[c.below(8)];
	if (c.chance(3, 4)) {
		size_t pages; switch (c.weighted({3, 3, 4, 1})) { case 0: pages = c.below(20); break; case 1: pages = c.below(4200); break; case 2: pages = 4096 * (size_t) c.below(5) + c.below(5) - (c.coin() ? 0 : 2); if ((long) pages < 0) pages = 0; break; default: pages = c.below(40000); break; }
		size_t len = pages * 4096 + (c.coin() ? 0 : c.below(4096)); uintptr_t a = (1 + c.below(1 << 20)) * 4096; int cpu = (int) c.below(1000); if (c.chance(1, 10)) cpu = -1 - (int) c.below(3); int node = c.chance(1, 8) ? -1 : (int) c.below(c.coin() ? 2 : 1024); NU.node[cpu] = node; bool noflags = c.chance(1, 10); if (noflags) NU.want = 0;
		size_t batches = pages / 4096 + 2; long failat = -1; for (size_t i = 0; i < batches; i++) { switch (c.weighted({5, 2, 1})) { case 0: NU.res.push_back({0, 0}); break; case 1: NU.res.push_back({1 + (long) c.below(4096), 0}); break; default: { static const int e[] = { EPERM, ENOENT, EACCES, E2BIG, ENODEV, EFAULT, ENOMEM }; NU.res.push_back({-1, e[c.below(7)]}); if (failat < 0) failat = (long) i; break; } } }
		if (!c.chance(1, 3)) { for (auto &r : NU.res) if (r.first < 0) r = {0, 0}; failat = -1; }
		c.note("range of %zu bytes (%zu whole pages), CPU %d on node %d, flags %d, first kernel error at request %ld", len, pages, cpu, node, NU.want, failat);
		errno = 0; int ret = rseq_mempool_range_init_numa((void *) a, len, cpu, NU.want); int e = errno;
		size_t errs = 0; int ferr = 0; for (size_t q = 0; q < NU.reqs.size(); q++) if (q < NU.res.size() && NU.res[q].first < 0) { errs++; if (!ferr) ferr = NU.res[q].second; }
		PBT_CHECK(c, NU.err.empty(), "%s", NU.err.c_str());
		if (noflags) { PBT_CHECK(c, ret == -1 && e == EINVAL, "no flags: returned %d errno %d", ret, e); PBT_CHECK(c, NU.reqs.empty(), "pages were moved although no flags were given"); c.label("no flags"); }
		else if (node < 0) { PBT_CHECK(c, ret == -1, "unknown CPU: returned %d", ret); PBT_CHECK(c, NU.reqs.empty(), "pages were moved although the CPU has no node"); c.label("unknown CPU"); }
		else { for (int x : NU.asked) PBT_CHECK(c, x == cpu, "the node of CPU %d was used for CPU %d", x, cpu);
			check_cover(c, 0, NU.reqs.size(), 0, a, pages, node, !errs);
			if (errs) { PBT_CHECK(c, ret == -1, "a kernel error (errno %d) was reported as %d", ferr, ret); PBT_CHECK(c, e == ferr, "errno %d instead of the kernel's %d", e, ferr); c.label("kernel error"); } else PBT_CHECK(c, ret == 0, "returned %d although the kernel reported no error", ret);
			if (pages > 4096) c.label("more than 4096 pages"); }
		c.nontrivial(); return;
	}
	// through a pool's initialisation callback
	World w(c); GenOpt go; go.small_only = true; go.big_ok = false; go.max_cpus = 6; Cfg g = gen_cfg(c, go); g.global = false; g.init = false; if (c.chance(1, 4)) g.stride = (16ull << 20) << c.below(2); if (g.cpus == 0) g.cpus = 1 + (int) c.below(4);
	size_t per = g.S() / 4096; for (int i = 0; i < g.N(); i++) NU.node[i] = (int) c.below(8); NU.want = fl[c.below(3)];
	std::vector<InitCall> calls; struct rseq_mempool_attr *a = rseq_mempool_attr_create(); rseq_mempool_attr_set_percpu(a, g.stride, g.cpus); rseq_mempool_attr_set_init(a, numa_cb, &calls); rseq_mempool_attr_set_max_nr_ranges(a, 2); if (g.robust) rseq_mempool_attr_set_robust(a); if (g.policy_set) rseq_mempool_attr_set_populate_policy(a, (enum rseq_mempool_populate_policy) g.policy);
	bool err = c.chance(1, 4); size_t at = err ? c.below(g.N() * ((per + 4095) / 4096)) : 0; if (err) { NU.res.assign(at + 1, {0, 0}); NU.res[at] = {-1, ENOMEM}; }
	c.note("pool of %d CPUs, stride %zu, initialised on NUMA nodes%s", g.N(), g.S(), err ? ", one request refused" : ""); errno = 0; struct rseq_mempool *h = rseq_mempool_create(nullptr, g.item_len, a); rseq_mempool_attr_destroy(a); w.shim_ok();
	if (err) { PBT_CHECK(c, !h, "a pool was created although placing its memory failed"); PBT_CHECK(c, shim::S.maps.empty() && shim::S.fds.empty() && shim::S.heap.empty(), "resources leaked after placing memory failed"); c.nontrivial(); c.label("pool refused"); return; }
	PBT_CHECK(c, h, "creation failed with errno %d", errno); void *it = (void *) rseq_mempool_percpu_malloc(h); PBT_CHECK(c, it, "allocation failed"); uintptr_t base = (uintptr_t) it & ~(g.S() - 1);
	std::map<uintptr_t, int> seen; size_t nn = 0; for (auto &r : NU.reqs) for (auto x : r.pages) { int nd = NU.bad_nodes[nn++]; PBT_CHECK(c, x >= base && x < base + g.S() * g.N(), "a page outside the pool was moved"); int cpu = (int) ((x - base) / g.S()); PBT_CHECK(c, nd == NU.node[cpu], "a page of CPU %d was sent to node %d instead of %d", cpu, nd, NU.node[cpu]); PBT_CHECK(c, !seen[x]++, "a page was requested twice"); }
	PBT_CHECK(c, seen.size() == per * g.N(), "%zu of %zu pages of the pool were placed", seen.size(), per * (size_t) g.N()); c.nontrivial(); c.label("through a pool");
	rseq_mempool_percpu_free((void __rseq_percpu *) it, g.S()); PBT_CHECK(c, rseq_mempool_destroy(h) == 0, "destroy failed"); w.shim_ok();
}

static void setup() { mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, -1); prctl(PR_SET_THP_DISABLE, 1, 0, 0, 0); }
int main(int argc, char **argv) {
	std::vector<Property> P = {
		{"C16", "case = history over up to 2 pools; after every operation the kernel's page map of all CPUs of the pool is scanned and each private page must be explained by the model; non-trivial = some CPUs wrote, others stayed idle, and items were zero-/init-allocated and freed", [](Ctx &c) { if (pagemap_fd < 0) pagemap_fd = 900; static pid_t of = 0; if (of != getpid()) { of = getpid(); int f = open("/proc/self/pagemap", O_RDONLY | O_CLOEXEC); if (f < 0) c.discard(); dup3(f, 900, O_CLOEXEC); close(f); } C16(c); }, 50000, 400000, 40, 40, setup},
		{"C17", "case = pools with a history, fork, interleaved further histories in parent and child (or grandchild): allocations, frees, writes, pool destruction, foreign mappings in the vacated range, writes over everything reachable; non-trivial = items were live at fork and the child acted", C17, 50000, 400000, 20, 40, setup},
		{"C22", "case = one NUMA initialisation of a range (length across batch boundaries, CPU, node, flags, kernel result per request) or a pool initialised through it; every case is non-trivial (distinct ones counted)", C22, 40000, 600000, 40, 40, setup},
	};
	return main_(argc, argv, P);
}
