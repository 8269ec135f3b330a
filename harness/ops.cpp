// Properties of the restartable helpers: C01, C02, C03, C05, C06.
#include "step.hpp"
#include "ops.h"
#include <sys/syscall.h>
#include <sys/mman.h>
#include <setjmp.h>
using namespace pbt;

#define V(n) extern "C" const struct opvar n;
#include "variants.inc"
#undef V
static const struct opvar *const vars[] = {
#define V(n) &n,
#include "variants.inc"
#undef V
};
static const unsigned NV = sizeof(vars) / sizeof(vars[0]);
static const char *const opname[] = { "load_cbne_store", "load_cbeq_store_add_load_store", "load_add_store", "load_add_load_load_add_store", "load_cbne_store_store", "load_cbne_load_cbne_store", "load_cbne_memcpy_store" };

// ------------------------------------------------------------------ arena
static const size_t G = 256;
// Mapped above 4 GiB and across a multiple of it, so that an address computed with 32-bit arithmetic is a wrong one.
static unsigned char *map_arena() { void *p = mmap((void *) (0x612300000000ul - 4096), (G + (1 << 18) + G + 8191) & ~4095ul, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (p == MAP_FAILED) abort(); return (unsigned char *) p; }
static unsigned char *const arena_ = map_arena() + 4096 - G - 128;
static unsigned char *const arena = arena_ + G;
static size_t W = 1024;                 // active window
typedef std::vector<uint8_t> Win;
static Win snap() { return Win(arena_, arena_ + G + W + G); }
static const uint8_t *wbase() { return arena_; }

struct Model { // pseudo-code on a copy of the window
	Win m; bool bad = false;
	uint8_t *tr(const void *p, size_t n) { size_t o = (const uint8_t *) p - wbase(); if ((const uint8_t *) p < wbase() || o + n > m.size()) { bad = true; static uint8_t z[16]; return z; } return &m[o]; }
	intptr_t ld(const void *p) { intptr_t x; memcpy(&x, tr(p, 8), 8); return x; }
	void st(const void *p, intptr_t x) { memcpy(tr(p, 8), &x, 8); }
	// returns 0/1
	int run(const opargs &a, int op) {
		switch (op) {
		case OP_CBNE_STORE: if (ld(a.v) != a.expect) return 1; st(a.v, a.newv); return 0;
		case OP_CBEQ_LIST: { intptr_t r1 = ld(a.v); if (r1 == a.expect) return 1; st(a.load, r1); intptr_t r2 = ld((void *) (r1 + a.off)); st(a.v, r2); return 0; }
		case OP_ADD: st(a.v, (intptr_t) ((uintptr_t) ld(a.v) + (uintptr_t) a.count)); return 0;
		case OP_INDIRECT_ADD: { intptr_t r1 = ld(a.v) + a.off; intptr_t r2 = ld((void *) r1); st((void *) r2, (intptr_t) ((uintptr_t) ld((void *) r2) + (uintptr_t) a.count)); return 0; }
		case OP_STORE_STORE: if (ld(a.v) != a.expect) return 1; st(a.v2, a.newv2); st(a.v, a.newv); return 0;
		case OP_CBNE_CBNE: if (ld(a.v) != a.expect) return 1; if (ld(a.v2) != a.expect2) return 1; st(a.v, a.newv); return 0;
		case OP_MEMCPY: { if (ld(a.v) != a.expect) return 1; if (a.len) { uint8_t *d = tr(a.dst, a.len), *s = tr(a.src, a.len); if (!bad) memmove(d, s, a.len); } st(a.v, a.newv); return 0; }
		}
		return -99;
	}
};
// May an attempt that aborted have turned window b into window e?
static const char *abort_effect_ok(const opargs &a, int op, const Win &b, const Win &e, bool idx_ok) {
	if (b == e) return nullptr;
	if (!idx_ok) return "memory was modified although the index did not match";
	Model m; m.m = b; Win al = e; // copy allowed locations back and compare
	auto off = [&](const void *p) { return (size_t) ((const uint8_t *) p - wbase()); };
	switch (op) {
	case OP_CBEQ_LIST: { intptr_t r1 = m.ld(a.v); if (r1 == a.expect) return "an aborted attempt wrote memory although the comparison fails"; Model n; n.m = e; if (n.ld(a.load) == r1) memcpy(&al[off(a.load)], &b[off(a.load)], 8); break; }
	case OP_STORE_STORE: { if (m.ld(a.v) != a.expect) return "an aborted attempt wrote memory although the comparison fails"; Model n; n.m = e; if (n.ld(a.v2) == a.newv2) memcpy(&al[off(a.v2)], &b[off(a.v2)], 8); break; }
	case OP_MEMCPY: { if (m.ld(a.v) != a.expect) return "an aborted attempt wrote memory although the comparison fails"; for (size_t i = 0; i < a.len; i++) { size_t d = off(a.dst) + i, s = off(a.src) + i; if (e[d] == b[s]) al[d] = b[d]; } break; }
	}
	return al == b ? nullptr : "an aborted attempt modified memory other than its speculative destination";
}

// ------------------------------------------------------------------ generation
struct Case { const opvar *var; const opent *e; opargs a; int op; std::vector<intptr_t> vcand, v2cand; std::vector<intptr_t *> cells, targets; std::vector<intptr_t *> nodes; };
static intptr_t *slot(size_t i) { return (intptr_t *) arena + i; }
static void rnd_fill(Ctx &c) { uint64_t s = c.u64(); bool small = c.coin(); for (size_t i = 0; i < G + W + G; i += 8) { uint64_t x = mix(s + i); if (small) x &= 3; memcpy(arena_ + i, &x, 8); } }
static std::string astr(const Case &k) {
	char b[700]; const opargs &a = k.a; auto o = [&](const void *p) { return (long) ((const unsigned char *) p - arena); };
	snprintf(b, sizeof b, "%s via %s/%s mode=%s mo=%d cpu=%d v=@%ld expect=0x%lx v2=@%ld expect2=0x%lx newv2=0x%lx newv=0x%lx count=0x%lx off=%ld load=@%ld dst=@%ld src=@%ld len=%zu", opname[k.op], k.var->name, k.e->name, a.mode ? "mm_cid" : "cpu_id", a.mo, a.cpu, o(a.v), (long) a.expect, o(a.v2), (long) a.expect2, (long) a.newv2, (long) a.newv, (long) a.count, a.off, o(a.load), o(a.dst), o(a.src), a.len);
	return b;
}
// strict: operands do not alias (needed when effects of an abort are judged)
static Case gen_case(Ctx &c, bool strict, bool stepped, bool dyn, size_t maxlen, std::function<bool(const opent &)> filt = nullptr) {
	Case k; 
	k.var = vars[c.below(NV)];
	for (int t = 0;; t++) { k.e = &k.var->e[c.below(k.var->n)]; if (t > 200) c.discard(); if ((k.e->flags & F_NOSTEP) && stepped) continue; if (dyn != !!(k.e->flags & F_DYN)) continue; if (filt && !filt(*k.e)) continue; break; }
	k.op = k.e->op; memset(&k.a, 0, sizeof k.a); opargs &a = k.a;
	if (k.e->flags & F_NOSTEP) strict = true; // these copy an operand to the wrapper's stack and back
	W = maxlen > 64 ? (c.chance(1, 30) && maxlen > 8000 ? (1 << 18) : 16384) : 1024;
	rnd_fill(c);
	a.mo = k.e->mo; a.mode = k.e->mode;
	switch (c.weighted({3, 2, 1})) { case 0: a.cpu = (int) c.below(4); break; case 1: a.cpu = (int) c.below(256); break; default: { static const int t[] = { 65535, 1023, 4095, 8191, 0x7fffffff, 128, 127, 255 }; a.cpu = t[c.below(8)]; break; } }
	// word operands in the first quarter, buffers behind
	size_t nw = 24; std::vector<size_t> perm; for (size_t i = 0; i < nw; i++) perm.push_back(i * 2 + 4);
	for (size_t i = 0; i < 6; i++) std::swap(perm[i], perm[i + c.below(nw - i)]);
	a.v = slot(perm[0]); a.v2 = slot(perm[1]); a.load = slot(perm[2]);
	a.expect = (intptr_t) c.word(); a.expect2 = (intptr_t) c.word(); a.newv = (intptr_t) c.word(); a.newv2 = (intptr_t) c.word(); a.count = (intptr_t) c.word(); a.off = c.chance(1, 2) ? 8 * c.range(-8, 8) : (long) c.word();
	size_t half = (W - 512) / 2; size_t lm = std::min(half - 32, maxlen);
	switch (c.weighted({2, 5, 2, 2})) { case 0: a.len = 0; break; case 1: a.len = 1 + c.below(24); break; case 2: a.len = c.below(lm + 1); break; default: { size_t p = 1ull << c.below(18); a.len = std::min(lm, p + c.below(3) - 1); break; } }
	a.dst = (char *) arena + 512 + c.below(16); a.src = (char *) arena + 512 + half + c.below(16); if (c.coin()) std::swap(a.dst, a.src);
	for (auto &x : a.live) x = mix(c.idx * 31 + (&x - a.live)); a.fl[0] = 1.5 + (double) c.idx; a.fl[1] = -3.25;
	if (k.op == OP_MEMCPY && !strict && c.chance(1, 8) && a.len >= 8) { a.v = (intptr_t *) (((uintptr_t) (c.coin() ? a.dst : a.src) + 7 + c.below(a.len)) & ~7ull); } // word inside a buffer
	k.e->prep(&a);
	if (k.op == OP_MEMCPY) { // the shape may have moved a buffer next to v
		if (a.len > lm) a.len = lm; 
		auto ov = [&](const char *p, size_t n, const char *q, size_t m) { return p < q + m && q < p + n; };
		if (a.dst != nullptr && ov(a.dst, a.len, a.src, a.len)) c.discard();
		if (strict && (ov(a.dst, a.len, (char *) a.v, 8))) c.discard();
		if (a.src + a.len > (char *) arena + W || a.dst + a.len > (char *) arena + W) c.discard();
		k.e->prep(&a);
	}
	if (k.op == OP_CBEQ_LIST) { // a list: every node's link is a node or the end marker
		if (a.off % 8 || a.off < -256 || a.off > 256) a.off = 8 * c.range(-8, 8);
		k.e->prep(&a);
		unsigned nn = 2 + c.below(4); for (unsigned i = 0; i < nn; i++) { intptr_t *link = slot(64 - 32 + 32 + 36 + i * 3); k.nodes.push_back((intptr_t *) ((char *) link - a.off)); }
		auto anynode = [&](bool end) { if (end && c.chance(1, 4)) return a.expect; return (intptr_t) k.nodes[c.below(nn)]; };
		for (auto n : k.nodes) *(intptr_t *) ((char *) n + a.off) = anynode(true);
		if (!strict && c.chance(1, 6)) { switch (c.below(3)) { case 0: a.load = a.v; break; case 1: { intptr_t *ln = (intptr_t *) ((char *) k.nodes[0] + a.off); a.load = ln; break; } case 2: k.nodes[0] = (intptr_t *) ((char *) a.v - a.off); break; } k.e->prep(&a); }
		*a.v = c.chance(1, 4) ? a.expect : anynode(false);
		for (auto n : k.nodes) k.vcand.push_back((intptr_t) n); k.vcand.push_back(a.expect);
	} else if (k.op == OP_INDIRECT_ADD) {
		if (a.off % 8 || a.off < -256 || a.off > 256) a.off = 8 * c.range(-8, 8);
		k.e->prep(&a);
		unsigned nn = 2 + c.below(3); for (unsigned i = 0; i < nn; i++) { k.cells.push_back(slot(70 + i * 2)); k.targets.push_back(slot(90 + i * 2)); }
		for (auto p : k.cells) *p = (intptr_t) k.targets[c.below(nn)];
		if (!strict && c.chance(1, 6)) { if (c.coin()) *k.cells[0] = (intptr_t) a.v; else *k.cells[0] = (intptr_t) k.cells[0]; }
		for (auto p : k.cells) k.vcand.push_back((intptr_t) p - a.off);
		*a.v = k.vcand[c.below(nn)];
	} else {
		if (!strict && c.chance(1, 8)) { a.v2 = a.v; k.e->prep(&a); }
		k.vcand = { a.expect, a.expect + 1, a.expect ^ (intptr_t) (1ull << 40), a.newv };
		if (c.chance(3, 4)) *a.v = a.expect; else if (c.coin()) *a.v = a.expect ^ (intptr_t) (1ull << c.below(64));
		if (k.op == OP_CBNE_CBNE) { k.v2cand = { a.expect2, a.expect2 ^ (intptr_t) (1ull << 33), a.expect2 - 1 }; if (c.chance(3, 4)) *a.v2 = a.expect2; else if (c.coin()) *a.v2 = a.expect2 ^ (intptr_t) (1ull << c.below(64)); }
		else k.v2cand = { a.newv2, 0, -1 };
		if (!strict && c.chance(1, 12) && k.op == OP_CBNE_CBNE) a.expect = *a.v, k.e->prep(&a);
	}
	return k;
}
static int index_of(const opargs &a) { return a.mode == RSEQ_PERCPU_MM_CID ? (int) step::area.a.mm_cid : (int) step::area.a.cpu_id; }
static void set_ids(const opargs &a, int idx, int other) { if (a.mode == RSEQ_PERCPU_MM_CID) { step::area.a.mm_cid = idx; step::area.a.cpu_id = other; } else { step::area.a.cpu_id = idx; step::area.a.mm_cid = other; } step::area.a.cpu_id_start = (int) step::area.a.cpu_id < 0 ? 0 : step::area.a.cpu_id; }
static bool is_cs(uint64_t p);
static void common_checks(Ctx &c, const Case &k, const step::Regs &rg, const opargs &orig) {
	const char *d = step::regs_damage(rg); if (d) c.fail("%s (%s)", d, astr(k).c_str());
	d = step::area_damage(); if (d) c.fail("%s (%s)", d, astr(k).c_str());
	const opargs &a = k.a;
	if (a.oo_valid) {
		intptr_t w[12] = { (intptr_t) orig.v, (intptr_t) orig.v2, (intptr_t) orig.load, orig.expect, orig.expect2, orig.newv, orig.newv2, orig.count, orig.off, (intptr_t) orig.dst, (intptr_t) orig.src, (intptr_t) orig.len ^ ((intptr_t) orig.cpu << 40) };
		static const char *const nm[12] = { "v", "v2", "load", "expect", "expect2", "newv", "newv2", "count", "off", "dst", "src", "len/cpu" };
		for (int i = 0; i < 12; i++) if (a.oo[i] != w[i]) c.fail("operand variable %s changed across the call: 0x%lx became 0x%lx (%s)", nm[i], (long) w[i], (long) a.oo[i], astr(k).c_str());
	}
	if (k.e->flags & F_PRESSURE) {
		for (int i = 0; i < NLIVE; i++) if (a.liveout[i] != orig.live[i]) c.fail("live caller variable #%d changed across the call: 0x%lx became 0x%lx (%s)", i, (long) orig.live[i], (long) a.liveout[i], astr(k).c_str());
		if (a.flout[0] != orig.fl[0] || a.flout[1] != orig.fl[1]) c.fail("live floating-point variable changed across the call (%s)", astr(k).c_str());
	}
}

// ------------------------------------------------------------------ events
enum { EV_PREEMPT, EV_MIGRATE, EV_MIGRATE_BACK, EV_CID, EV_SIGNAL };
struct Event { uint64_t pos; int kind; unsigned nmut; uint64_t mut[3]; int other; const opent *ne; opargs na; };
struct Interval { Win b, e; bool ok; };
struct RunLog { std::vector<Interval> iv; int r; unsigned kaborts = 0, in_cs = 0, fired = 0; uint64_t steps = 0; const char *kerr = nullptr; bool nested_bad = false; };
static void mutate(const Case &k, uint64_t m) {
	const opargs &a = k.a; uint64_t q = m >> 8;
	switch (m & 7) {
	case 0: case 1: if (k.op != OP_INDIRECT_ADD || true) *a.v = k.vcand.empty() ? (intptr_t) q : k.vcand[q % k.vcand.size()]; break;
	case 2: if (k.op == OP_CBNE_CBNE || k.op == OP_STORE_STORE) *a.v2 = k.v2cand[q % k.v2cand.size()]; else if (k.op == OP_ADD) *a.v = (intptr_t) q; break;
	case 3: if (k.op == OP_CBEQ_LIST) { intptr_t *n = k.nodes[q % k.nodes.size()]; *(intptr_t *) ((char *) n + a.off) = k.vcand[(q >> 8) % k.vcand.size()]; } else if (k.op == OP_INDIRECT_ADD) *k.cells[q % k.cells.size()] = (intptr_t) k.targets[(q >> 8) % k.targets.size()]; else if (k.op == OP_MEMCPY && a.len) a.src[q % a.len] ^= 0x41; break;
	case 4: if (k.op == OP_CBEQ_LIST) *a.load = (intptr_t) q; else if (k.op == OP_INDIRECT_ADD) *k.targets[q % k.targets.size()] += 3; else if (k.op == OP_MEMCPY && a.len) a.dst[q % a.len] ^= 0x17; break;
	default: break;
	}
}
static Event gen_event(Ctx &c, const Case &k) {
	Event e; memset((void *) &e, 0, sizeof e); e.kind = c.weighted({3, 3, 1, 1, 2}); e.nmut = (unsigned) c.below(3); for (unsigned i = 0; i < e.nmut; i++) e.mut[i] = c.below(8) | (c.below(1 << 16) << 8);
	e.other = (int) c.below(5);
	if (e.kind == EV_SIGNAL) { // the handler runs a helper of the same kind on the same data
		for (int t = 0; t < 300; t++) { const opent &q = k.var->e[c.below(k.var->n)]; if (q.op == k.op && q.mode == k.a.mode && !(q.flags & (F_DYN | F_NOSTEP | F_ALIAS)) ) { e.ne = &q; break; } }
		if (e.ne) { e.na = k.a; e.na.mo = e.ne->mo; if (k.op == OP_CBNE_STORE || k.op == OP_CBNE_CBNE || k.op == OP_STORE_STORE) { e.na.newv = c.coin() ? k.a.expect : k.a.expect + 1; e.na.newv2 = 99; } opargs t = e.na; e.ne->prep(&t); if (k.op == OP_CBEQ_LIST || k.op == OP_INDIRECT_ADD) { if (t.off != k.a.off || t.expect != k.a.expect) e.ne = nullptr; } if (k.op == OP_MEMCPY && t.len > k.a.len) e.ne = nullptr; if (e.ne) e.na = t; }
	}
	return e;
}
static const char *const evname[] = { "preempted (same CPU)", "migrated", "migrated back", "concurrency id changed", "signal" };

// Runs the case's helper once under the given events.
static void run_events(const Case &k, opargs &a, const std::vector<Event> &evs, int want, int other, RunLog &L) {
	Interval cur; cur.b = snap(); cur.ok = index_of(a) == a.cpu; size_t next = 0;
	std::function<void(ucontext_t *)> cb = [&](ucontext_t *uc) {
		while (next < evs.size() && evs[next].pos == step::nsteps - 1) {
			const Event &ev = evs[next++]; L.fired++;
			cur.e = snap(); L.iv.push_back(cur);
			greg_t *ip = &uc->uc_mcontext.gregs[REG_RIP];
			int f = step::kernel_fixup(&step::area.a.rseq_cs, ip);
			if (f < 0) { L.kerr = step::kernel_error; step::area.a.rseq_cs = 0; }
			if (f > 0) { L.kaborts++; L.in_cs++; }
			for (unsigned i = 0; i < ev.nmut; i++) mutate(k, ev.mut[i]);
			switch (ev.kind) {
			case EV_MIGRATE: set_ids(a, ev.other == want ? want + 1 : ev.other, other); break;
			case EV_MIGRATE_BACK: set_ids(a, want, ev.other == 0 ? other : ev.other); break;
			case EV_CID: set_ids(a, index_of(a), ev.other); break;
			case EV_SIGNAL: if (ev.ne && index_of(a) >= 0) { opargs n = ev.na; n.cpu = index_of(a); auto save = step::on_step; step::on_step = nullptr; if (k.op == OP_CBNE_STORE || k.op == OP_CBNE_CBNE || k.op == OP_STORE_STORE || k.op == OP_MEMCPY) n.expect = *n.v; n.expect2 = *n.v2; int nr = ev.ne->fn(&n); if (nr == -1) L.nested_bad = true; step::on_step = save; f = step::kernel_fixup(&step::area.a.rseq_cs, ip); if (f > 0) L.kerr = "return from the signal handler landed in a critical section"; else if (f < 0) { L.kerr = step::kernel_error; step::area.a.rseq_cs = 0; } } break;
			}
			cur = Interval(); cur.b = snap(); cur.ok = index_of(a) == a.cpu;
		}
	};
	step::Regs rg; L.r = step::call(k.e->fn, &a, rg, &cb); L.steps = step::nsteps;
	cur.e = snap(); L.iv.push_back(cur);
	step::area.a.rseq_cs = 0;
	const char *d = step::regs_damage(rg); if (d && !L.kerr) L.kerr = d;
}
static void judge(Ctx &c, const Case &k, const opargs &a, RunLog &L, const std::vector<Event> &evs) {
	std::string where; if (c.rendering || true) { for (auto &e : evs) { char b[100]; snprintf(b, sizeof b, " [%s after instruction %llu]", evname[e.kind], (unsigned long long) e.pos); where += b; } }
	std::string s = astr(k) + where;
	if (L.kerr) c.fail("%s: %s", L.kerr, s.c_str());
	if (L.nested_bad) c.fail("a helper run from a signal handler on the right index reported abort: %s", s.c_str());
	const char *d = step::area_damage(); if (d) c.fail("%s: %s", d, s.c_str());
	int r = L.r;
	if (r != 0 && r != 1 && r != -1) c.fail("returned %d: %s", r, s.c_str());
	if (L.kaborts && r != -1) c.fail("returned %d although it was interrupted inside the sequence: %s", r, s.c_str());
	if (r == -1) {
		bool reason = L.kaborts > 0; for (auto &i : L.iv) { if (!i.ok) reason = true; const char *m = abort_effect_ok(a, k.op, i.b, i.e, i.ok); if (m) c.fail("%s: %s", m, s.c_str()); }
		if (!reason) c.fail("reported abort although it was never interrupted inside the sequence and the index matched: %s", s.c_str());
		return;
	}
	std::string why = "no instant explains the result";
	for (size_t q = 0; q < L.iv.size(); q++) {
		bool others = true; for (size_t j = 0; j < L.iv.size(); j++) if (j != q && L.iv[j].b != L.iv[j].e) others = false;
		if (!others || !L.iv[q].ok) continue;
		Model m; m.m = L.iv[q].b; int mr = m.run(a, k.op);
		if (m.bad) c.fail("internal: model address out of window: %s", s.c_str());
		if (mr == r && m.m == L.iv[q].e) return;
	}
	c.fail("returned %d, but at no instant while it was on the requested index would the operation have given this result and these memory changes: %s", r, s.c_str());
}

static void C01(Ctx &c) {
	step::install_area(); Case k = gen_case(c, true, true, c.chance(1, 10), 40);
	if (k.e->flags & F_DYN) { k.a.mode = (int) c.below(2); k.a.mo = (k.op == OP_STORE_STORE || k.op == OP_MEMCPY) && c.coin() ? RSEQ_MO_RELEASE : RSEQ_MO_RELAXED; }
	int other = (int) c.below(8); if (other == k.a.cpu) other++;
	bool mism = c.chance(1, 12); int start = mism ? (k.a.cpu == 3 ? 2 : 3) : k.a.cpu;
	Win init = snap();
	auto reset = [&] { memcpy(arena_, init.data(), init.size()); step::install_area(); set_ids(k.a, start, other); };
	reset(); RunLog dry; opargs a0 = k.a; run_events(k, a0, {}, k.a.cpu, other, dry); judge(c, k, a0, dry, {});
	uint64_t n = dry.steps;
	c.labelf(1, "%s", opname[k.op]); c.label(k.var->compare_twice ? "compare-twice builds" : "plain builds"); c.label(k.a.mode ? "mm_cid" : "cpu_id");
	c.note("%s%s", astr(k).c_str(), mism ? " (starts on another index)" : "");
	if (c.chance(1, 3)) { // the same event at every instruction boundary
		Event ev = gen_event(c, k); c.note("event at each of %llu boundaries: %s, %u changes by others", (unsigned long long) n, evname[ev.kind], ev.nmut);
		uint64_t stridep = n > 120 ? n / 80 : 1;
		for (uint64_t p = 0; p < n; p++) { if (p > 30 && p + 30 < n && p % stridep) continue; ev.pos = p; reset(); RunLog L; opargs a = k.a; std::vector<Event> v = { ev }; run_events(k, a, v, k.a.cpu, other, L); judge(c, k, a, L, v); c.evals(1); if (L.in_cs) { c.nontrivial(); c.label("interruptions inside a sequence", L.in_cs); } c.label("interruptions", L.fired); }
	} else {
		unsigned ne = 1 + c.below(4); std::vector<Event> v; for (unsigned i = 0; i < ne; i++) { Ctx::SpanGuard sg(c); Event e = gen_event(c, k); e.pos = c.below(n); v.push_back(e); c.note("after instruction %llu: %s, %u changes by others", (unsigned long long) e.pos, evname[e.kind], e.nmut); }
		std::stable_sort(v.begin(), v.end(), [](const Event &x, const Event &y) { return x.pos < y.pos; });
		reset(); RunLog L; opargs a = k.a; run_events(k, a, v, k.a.cpu, other, L); judge(c, k, a, L, v); c.evals(1);
		if (L.in_cs) { c.nontrivial(); c.label("interruptions inside a sequence", L.in_cs); } c.label("interruptions", L.fired);
	}
}

// Copies larger than the memory behind the buffers: the copy has to run into the
// inaccessible part, whatever order it goes in, before anything is committed.
static sigjmp_buf far_jb; static void *far_addr;
static void far_fault(int, siginfo_t *si, void *) { far_addr = si->si_addr; siglongjmp(far_jb, 1); }
static void far_copy(Ctx &c, Case &k, int other) {
	static const size_t R = 1ull << 33, P = 4096; static char *reg[2];
	if (!reg[0]) for (auto &r : reg) { r = (char *) mmap(nullptr, R + P, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (r == MAP_FAILED) { r = nullptr; c.discard(); } mprotect(r, P, PROT_READ | PROT_WRITE); }
	opargs &a = k.a; size_t low = c.below(2) ? c.below(40) : c.below(5000);
	size_t len = c.weighted({2, 1}) == 0 ? (1ull << c.range(13, 32)) * (1 + c.below(2)) + low : (c.u64() & (R - 1)); if (len < 2 * P) len += 2 * P; if (len > R) len = R;
	char *d = reg[0] + P - 1 - c.below(300), *s = reg[1] + P - 1 - c.below(300); bool match = !c.chance(1, 4);
	a.len = len; a.dst = d; a.src = s; if (!match && *a.v == a.expect) a.expect ^= 1ull << c.below(64); else if (match) *a.v = a.expect;
	k.e->prep(&a); if (a.len != len || a.dst != d || a.src != s || (*a.v == a.expect) != match) c.discard();
	memset(reg[0], 0x11, P); memset(reg[1], 0x22, P); set_ids(a, a.cpu, other); c.note("buffers end after %ld and %ld bytes: %s", (long) (reg[0] + P - d), (long) (reg[1] + P - s), astr(k).c_str());
	Win before = snap(); struct sigaction sa = {}, os, ob; sa.sa_sigaction = far_fault; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigemptyset(&sa.sa_mask); sigaction(SIGSEGV, &sa, &os); sigaction(SIGBUS, &sa, &ob);
	far_addr = nullptr; volatile int r = 99; bool f = sigsetjmp(far_jb, 1) != 0; if (!f) { step::Regs rg; r = step::call(k.e->fn, &a, rg, nullptr); }
	sigaction(SIGSEGV, &os, nullptr); sigaction(SIGBUS, &ob, nullptr); c.nontrivial(); c.label(match ? "copies beyond the memory behind the buffers" : "copies of any length not started");
	if (match && !f) c.fail("returned %d without copying %zu bytes: %s", r, len, astr(k).c_str());
	if (match) { char *x = (char *) far_addr; if (!(x >= d && x < d + len) && !(x >= s && x < s + len)) c.fail("accessed %p, outside the %zu bytes at %p and %p: %s", far_addr, len, (void *) d, (void *) s, astr(k).c_str()); for (char *p = reg[0]; p < reg[0] + P; p++) if (*p != 0x11 && (p < d || *p != 0x22)) c.fail("wrote a byte that is not part of the copy: %s", astr(k).c_str()); }
	else { if (f) c.fail("accessed %p although the comparison fails: %s", far_addr, astr(k).c_str()); if (r != 1) c.fail("returned %d, pseudo-code says 1: %s", r, astr(k).c_str()); for (char *p = reg[0]; p < reg[0] + P; p++) if (*p != 0x11) c.fail("wrote to the destination although the comparison fails: %s", astr(k).c_str()); }
	if (snap() != before) c.fail("changed memory without having copied: %s", astr(k).c_str());
}

static void C02(Ctx &c) {
	step::install_area(); bool dyn = c.chance(1, 12);
	Case k = gen_case(c, false, false, dyn, c.chance(1, 8) ? (1 << 17) : 300);
	if (dyn) { k.a.mode = (int) c.below(2); k.a.mo = (k.op == OP_STORE_STORE || k.op == OP_MEMCPY) && c.coin() ? RSEQ_MO_RELEASE : RSEQ_MO_RELAXED; }
	int other = (int) c.below(300); if (other == k.a.cpu) other = k.a.cpu + 1;
	set_ids(k.a, k.a.cpu, other); c.note("%s", astr(k).c_str());
	if (k.op == OP_MEMCPY && !(k.e->flags & (F_MEM | F_NOSTEP)) && c.chance(1, 5)) { far_copy(c, k, other); return; }
	Model m; m.m = snap(); Win before = m.m; bool mem = k.e->flags & F_MEM;
	if (mem) { // the wrapper itself stores the initial values, just before the call
		opargs &a = k.a; a.pre = *a.v; a.pre2 = *a.v2; a.presrc = *a.src; a.tgt = slot(3); if (k.op == OP_INDIRECT_ADD) { intptr_t *cell = (intptr_t *) (*a.v + a.off); if (cell == a.v2 || (char *) cell == a.src) c.discard(); a.tgt = *(intptr_t **) cell; } }
	int want = m.run(k.a, k.op); if (m.bad) c.discard();
	if (mem) { *k.a.v = ~k.a.pre; *k.a.v2 = ~k.a.pre2; *k.a.src ^= 0x5a; }
	opargs orig = k.a; step::Regs rg; int r = step::call(k.e->fn, &k.a, rg, nullptr);
	c.labelf(1, "%s", opname[k.op]); c.labelf(1, "result %d", want); if (k.e->flags & F_ALIAS) c.label("operands sharing a value"); if (k.op == OP_MEMCPY && !k.a.len) c.label("zero-length copies"); if (k.op == OP_MEMCPY && k.a.len > 4096) c.label("copies above 4 KiB");
	c.nontrivial();
	if (r != want) c.fail("returned %d, pseudo-code says %d: %s", r, want, astr(k).c_str());
	Win after = snap();
	if (after != m.m) { size_t i = 0; while (after[i] == m.m[i]) i++; c.fail("memory byte @%ld is 0x%02x, pseudo-code says 0x%02x (was 0x%02x): %s", (long) i - (long) G, after[i], m.m[i], before[i], astr(k).c_str()); }
	if (mem) { c.label("memory accessed by the caller around the call"); const opargs &a = k.a; struct { const char *n; intptr_t got, now; } t[] = { {"the word", a.q0, *a.v}, {"the second word", a.q1, *a.v2}, {"the loaded-value slot", a.q2, *a.load}, {"the indirect word", a.q3, *a.tgt}, {"the copy destination", a.qd, *a.dst}, {"the copy source", a.qe, *a.src} };
		for (auto &x : t) if (x.got != x.now) c.fail("the caller reading %s right after the call sees 0x%lx, memory holds 0x%lx: %s", x.n, (long) x.got, (long) x.now, astr(k).c_str()); }
	const char *d = step::area_damage(); if (d) c.fail("%s: %s", d, astr(k).c_str());
	(void) orig; (void) is_cs;
}

static void C03(Ctx &c) {
	step::install_area(); bool dyn = c.chance(1, 2); Case k = gen_case(c, false, false, dyn, 64, [](const opent &e) { return !(e.flags & F_MEM); });
	opargs &a = k.a; bool supported = true;
	if (dyn) {
		static const int mos[] = { RSEQ_MO_RELAXED, RSEQ_MO_CONSUME, RSEQ_MO_ACQUIRE, RSEQ_MO_RELEASE, RSEQ_MO_ACQ_REL, RSEQ_MO_SEQ_CST };
		a.mo = c.chance(1, 6) ? (int) c.word() : mos[c.below(6)]; a.mode = c.chance(1, 3) ? (c.coin() ? 2 + (int) c.below(6) : (int) c.word()) : (int) c.below(2);
		bool mo_ok = a.mo == RSEQ_MO_RELAXED || ((k.op == OP_STORE_STORE || k.op == OP_MEMCPY) && a.mo == RSEQ_MO_RELEASE);
		supported = mo_ok && (a.mode == 0 || a.mode == 1);
	}
	int st = c.weighted({3, 3, 1, 1}); // registered/match, registered/mismatch, never registered, registration failed
	int idx, other = (int) c.below(64); static const char *const sn[] = { "registered, index matches", "registered, index differs", "never registered", "registration failed" };
	auto wild = [&]() -> int { switch (c.weighted({2, 2, 3, 2})) { case 0: return (int) c.below(300); case 1: return -1 - (int) c.below(5); case 2: return (int) c.word(); default: return (int) (0x80000000u >> c.below(31)); } };
	idx = (int) c.below(300);
	if (st == 0) { a.cpu = idx; if (other == idx) other++; }
	else if (st == 1) { switch (c.weighted({2, 2, 2, 2})) { case 0: a.cpu = wild(); break; case 1: a.cpu = other; break; case 2: a.cpu = idx ^ (1 << c.below(32)); break; default: a.cpu = idx + (c.coin() ? 1 : -1); break; } if (a.cpu == idx) a.cpu = idx ^ 0x100; }
	else { a.cpu = c.chance(1, 3) ? 0 : wild(); }
	if (k.e->flags & F_ALIAS) k.e->prep(&a);
	Model chk; chk.m = snap(); int want = chk.run(a, k.op); if (chk.bad && st == 0) c.discard();
	if (st <= 1) set_ids(a, idx, other);
	else { step::area.a.cpu_id = st == 2 ? -1 : -2; step::area.a.cpu_id_start = 0; step::area.a.mm_cid = 0; }
	c.note("%s, ordering %d, mode %d: %s", sn[st], a.mo, a.mode, astr(k).c_str());
	Win before = snap(); step::Regs rg;
	if (st == 0) { Model m; m.m = before; want = m.run(a, k.op); int r = step::call(k.e->fn, &a, rg, nullptr);
		if (supported) { c.label("supported, index matches"); if (r != want) c.fail("a supported combination on the matching index returned %d instead of %d: %s", r, want, astr(k).c_str()); if (snap() != m.m) c.fail("wrong memory effect: %s", astr(k).c_str()); }
		else { c.nontrivial(); c.label("unsupported ordering or mode"); if (r != -1) c.fail("unsupported ordering %d / mode %d returned %d instead of failure: %s", a.mo, a.mode, r, astr(k).c_str()); if (snap() != before) c.fail("unsupported ordering %d / mode %d modified memory: %s", a.mo, a.mode, astr(k).c_str()); }
		return;
	}
	c.nontrivial();
	// Known findings: the value the kernel or the library leaves in the area of an unregistered thread is taken for a match.
	if (st >= 2 && supported && a.mode == RSEQ_PERCPU_MM_CID && a.cpu == 0 && c.known("unregistered-mm_cid-0")) return;
	if (st >= 2 && supported && a.mode == RSEQ_PERCPU_CPU_ID && a.cpu == (st == 2 ? -1 : -2) && c.known("unregistered-cpu-sentinel")) return;
	if (st >= 2 && chk.bad) c.discard();
	int r = step::call(k.e->fn, &a, rg, nullptr);
	c.label(sn[st]);
	if (r != -1) c.fail("%s, but the helper returned %d: index %d, mode %d, ordering %d: %s", sn[st], r, a.cpu, a.mode, a.mo, astr(k).c_str());
	if (snap() != before) c.fail("%s, but the helper modified memory: %s", sn[st], astr(k).c_str());
	const char *d = step::area_damage(); if (d) c.fail("%s: %s", d, astr(k).c_str());
}

static void C06(Ctx &c) {
	step::install_area(); bool pr = c.chance(2, 3);
	Case k = gen_case(c, true, true, false, 24, [&](const opent &e) { return pr ? (e.flags & F_PRESSURE) != 0 : strstr(e.name, "_oo_") || (e.flags & F_ALIAS); });
	int other = (int) c.below(8); if (other == k.a.cpu) other++;
	bool mism = c.chance(1, 6); int start = mism ? (k.a.cpu == 3 ? 2 : 3) : k.a.cpu;
	Win init = snap(); auto reset = [&] { memcpy(arena_, init.data(), init.size()); step::install_area(); set_ids(k.a, start, other); };
	c.note("%s%s", astr(k).c_str(), mism ? " (index does not match)" : "");
	opargs orig = k.a;
	auto once = [&](uint64_t pos) { // abort injected before instruction pos
		reset(); k.a = orig; step::Regs rg; bool hit = false; const char *err = nullptr;
		std::function<void(ucontext_t *)> cb = [&](ucontext_t *uc) { if (step::nsteps - 1 == pos) { int f = step::kernel_fixup(&step::area.a.rseq_cs, &uc->uc_mcontext.gregs[REG_RIP]); if (f > 0) hit = true; if (f < 0) err = step::kernel_error; } };
		int r = step::call(k.e->fn, &k.a, rg, pos == UINT64_MAX ? nullptr : &cb); uint64_t n = step::nsteps;
		if (err) c.fail("%s: %s", err, astr(k).c_str());
		step::area.a.rseq_cs = 0; common_checks(c, k, rg, orig);
		c.evals(1); c.labelf(1, "exit path %s", hit ? "abort" : r == 0 ? "success" : r == 1 ? "mismatch" : "index mismatch"); if (hit) c.nontrivial();
		return n; };
	once(UINT64_MAX); uint64_t n = 0;
	{ reset(); k.a = orig; step::Regs rg; std::function<void(ucontext_t *)> cb = [&](ucontext_t *) {}; step::call(k.e->fn, &k.a, rg, &cb); n = step::nsteps; common_checks(c, k, rg, orig); }
	uint64_t tot = std::min<uint64_t>(n, 200), from = n > 200 ? c.below(n - 200) : 0;
	for (uint64_t p = 0; p < tot; p++) once(from + p);
}

// ------------------------------------------------------------------ C05
struct Tables { const uint64_t *ptrs; size_t nptr; const uint64_t *ex; size_t nex; };
extern "C" { extern const uint64_t __start___rseq_cs_ptr_array[], __stop___rseq_cs_ptr_array[], __start___rseq_exit_point_array[], __stop___rseq_exit_point_array[]; extern const char __start___rseq_cs[], __stop___rseq_cs[]; extern const char __executable_start[], etext[]; }
static bool is_cs(uint64_t p) { return p >= (uint64_t) __start___rseq_cs && p < (uint64_t) __stop___rseq_cs; }
static std::set<uint64_t> listed; static std::multimap<uint64_t, uint64_t> exits; static std::string static_err; static size_t n_desc;
static void c05_init() {
	for (auto p = __start___rseq_cs_ptr_array; p < __stop___rseq_cs_ptr_array; p++) listed.insert(*p);
	for (auto p = __start___rseq_exit_point_array; p + 1 < __stop___rseq_exit_point_array; p += 2) exits.insert({p[0], p[1]});
	n_desc = listed.size();
}
static int sys_rseq_flag(void *p, uint32_t len, int flags, uint32_t sig) { return (int) syscall(SYS_rseq, p, len, flags, sig); }
static volatile uintptr_t bp_addr; static volatile unsigned char bp_orig; static volatile int bp_hits; static volatile uintptr_t bp_ip;
static void bp_trap(int, siginfo_t *, void *u) { ucontext_t *uc = (ucontext_t *) u; bp_hits = bp_hits + 1; bp_ip = (uintptr_t) uc->uc_mcontext.gregs[REG_RIP]; *(volatile unsigned char *) bp_addr = bp_orig; if (bp_ip == bp_addr + 1) uc->uc_mcontext.gregs[REG_RIP] = (greg_t) bp_addr; }
// A changed pointer may lead the helper to an unmapped address: the run ends there.
static void cut_segv(int, siginfo_t *, void *u) { ucontext_t *uc = (ucontext_t *) u; uc->uc_mcontext.gregs[REG_RIP] = (greg_t) (uintptr_t) step::vp_tramp_ret; uc->uc_mcontext.gregs[REG_RSP] = (greg_t) step::vp_tramp_rsp; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; }
static void C05(Ctx &c) {
	step::install_area();
	Case k = gen_case(c, true, true, false, 12); int other = k.a.cpu + 1; set_ids(k.a, k.a.cpu, other);
	Win init = snap(); c.note("%s", astr(k).c_str());
	auto reset = [&] { memcpy(arena_, init.data(), init.size()); step::install_area(); set_ids(k.a, k.a.cpu, other); };
	bool mism = c.chance(1, 8); if (mism) set_ids(k.a, k.a.cpu + 1, other);
	// 1. stepped run: follow the descriptor the helper publishes
	std::vector<std::pair<uint64_t, Win>> tr; std::vector<uint64_t> csv; opargs a = k.a; step::Regs rg;
	std::function<void(ucontext_t *)> cb = [&](ucontext_t *uc) { tr.push_back({(uint64_t) uc->uc_mcontext.gregs[REG_RIP], snap()}); csv.push_back(step::area.a.rseq_cs); };
	int r = step::call(k.e->fn, &a, rg, &cb);
	uint64_t d = 0; for (auto x : csv) if (x) d = x;
	std::string s = astr(k);
	if (!d) c.fail("no descriptor was ever published: %s", s.c_str());
	c.nontrivial(); c.label("executions followed instruction by instruction");
	if (!listed.count(d)) c.fail("the published descriptor is not listed in the descriptor pointer table: %s", s.c_str());
	if (d % 32) c.fail("the descriptor is not 32-byte aligned: %s", s.c_str());
	const step::KernelCs *cs = (const step::KernelCs *) d;
	if (cs->version || cs->flags) c.fail("descriptor has version %u flags %u: %s", cs->version, cs->flags, s.c_str());
	if (!cs->post_commit_offset) c.fail("descriptor has an empty range: %s", s.c_str());
	uint64_t b = cs->start_ip, e = b + cs->post_commit_offset;
	if (b < (uint64_t) __executable_start || e > (uint64_t) etext) c.fail("descriptor range is outside the program text: %s", s.c_str());
	if (cs->abort_ip >= b && cs->abort_ip < e) c.fail("abort handler inside the range: %s", s.c_str());
	uint32_t sig; memcpy(&sig, (void *) (cs->abort_ip - 4), 4); if (sig != RSEQ_SIG) c.fail("abort handler not preceded by the signature: %s", s.c_str());
	if (memcmp((void *) (cs->abort_ip - 7), "\x0f\xb9\x3d", 3)) c.label("signature not shown as ud1");
	auto in = [&](uint64_t ip) { return ip >= b && ip < e; };
	// entry only at the start, exits only to commit / abort / listed points; commit is the last instruction
	bool committed = false;
	for (size_t i = 1; i < tr.size(); i++) {
		bool was = in(tr[i - 1].first), is = in(tr[i].first);
		if (!was && is && tr[i].first != b) c.fail("the range is entered in the middle: %s", s.c_str());
		if (!was && is && csv[i] != d) c.fail("the range is entered without its descriptor being published: %s", s.c_str());
		if (was && !is && tr[i].first != e && tr[i].first != cs->abort_ip) { bool ok = false; auto q = exits.equal_range(b); for (auto x = q.first; x != q.second; ++x) if (x->second == tr[i].first) ok = true; if (!ok) c.fail("the sequence is left towards an address that is not a listed exit point: %s", s.c_str()); c.label("exit points verified"); }
		if (was && tr[i].first == e) { committed = true; c.label("commits verified"); }
		if (!was && tr[i].second != tr[i - 1].second && !(tr[i - 1].first >= e && false)) { c.fail("memory of the operation is modified by an instruction outside the range: %s", s.c_str()); }
	}
	{ Model m; m.m = tr[0].second; (void) m; }
	if (r == 0 && !committed) c.fail("reported success without passing the end of its range: %s", s.c_str());
	if (r != 0 && committed) c.fail("reported %d after passing the end of its range: %s", r, s.c_str());
	// the committing store is the last instruction of the range: no change of the committed word before
	if (r == 0) { intptr_t *cw = k.op == OP_INDIRECT_ADD ? *(intptr_t **) (*(intptr_t *) &init[(unsigned char *) k.a.v - arena_] + k.a.off) : k.a.v; size_t o = (unsigned char *) cw - arena_; for (size_t i = 1; i < tr.size(); i++) if (in(tr[i - 1].first) && tr[i].first != e && memcmp(&tr[i].second[o], &tr[i - 1].second[o], 8)) c.fail("the committed word changes before the last instruction of the range: %s", s.c_str()); }
	// a build that compares twice leaves its range by further exits when a value changes between the comparisons; the run is
	// cut off where it leaves the range, as what follows is the report of a bug
	if (k.var->compare_twice && c.coin()) {
		reset(); if (mism) set_ids(k.a, k.a.cpu + 1, other);
		int pk = (int) c.below(3); uint64_t at = 1 + c.below(30), nin = 0, prev = 0; bool stray = false, left = false; opargs pa = k.a; step::Regs prg;
		c.note("%s changed after instruction %llu of the sequence", pk == 0 ? "the word" : pk == 1 ? "the index" : "the second word", (unsigned long long) at);
		std::function<void(ucontext_t *)> pcb = [&](ucontext_t *uc) {
			uint64_t ip = (uint64_t) uc->uc_mcontext.gregs[REG_RIP];
			if (in(ip) && ++nin == at) { if (pk == 0) { if (k.op == OP_CBEQ_LIST) *k.a.v = k.a.expect; else *k.a.v ^= 4; } else if (pk == 1) { if (k.a.mode == RSEQ_PERCPU_MM_CID) step::area.a.mm_cid ^= 1; else step::area.a.cpu_id ^= 1; } else *k.a.v2 ^= 8; }
			if (in(prev) && !in(ip)) { left = true; if (ip != e && ip != cs->abort_ip) { stray = true; auto q = exits.equal_range(b); for (auto x = q.first; x != q.second; ++x) if (x->second == ip) stray = false; } uc->uc_mcontext.gregs[REG_RIP] = (greg_t) (uintptr_t) step::vp_tramp_ret; uc->uc_mcontext.gregs[REG_RSP] = (greg_t) step::vp_tramp_rsp; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; }
			prev = ip; };
		struct sigaction sg = {}, old1, old2; sg.sa_sigaction = cut_segv; sg.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGSEGV, &sg, &old1); sigaction(SIGBUS, &sg, &old2);
		step::call(k.e->fn, &pa, prg, &pcb); c.evals(1); sigaction(SIGSEGV, &old1, nullptr); sigaction(SIGBUS, &old2, nullptr);
		if (stray) c.fail("the sequence is left towards an address that is not a listed exit point when a value changes between its comparisons: %s", s.c_str());
		if (left && nin >= at) c.label("values changed between comparisons");
		reset(); if (mism) set_ids(k.a, k.a.cpu + 1, other);
	}
	{ *(volatile uint64_t *) &step::area.a.rseq_cs = d; rseq_prepare_unload(); if (*(volatile uint64_t *) &step::area.a.rseq_cs) c.fail("preparing for unload left a descriptor reference"); }
	// 2. the real kernel: interrupt a registered thread at an instruction of the sequence
	std::vector<uint64_t> ips; std::set<uint64_t> seen; for (auto &t : tr) if (in(t.first) && seen.insert(t.first).second) ips.push_back(t.first);
	if (ips.empty() || mism) return;
	uint64_t at = ips[c.below(ips.size())]; c.note("kernel interruption at range offset %llu", (unsigned long long) (at - b));
	alignas(32) static __thread unsigned char real[64];
	memset(real, 0, sizeof real); ((step::Area *) 0, *(int32_t *) (real + 4)) = -1;
	if (sys_rseq_flag(real, 32, 0, RSEQ_SIG)) { c.label("kernel registration unavailable"); return; }
	rseq_offset = (ptrdiff_t) ((char *) real - (char *) __builtin_thread_pointer());
	struct sigaction sa = {}, old; sa.sa_sigaction = bp_trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGTRAP, &sa, &old);
	uintptr_t pg = at & ~4095ul; mprotect((void *) pg, 8192, PROT_READ | PROT_WRITE | PROT_EXEC);
	bool done = false; std::string bad;
	for (int t = 0; t < 20 && !done; t++) {
		memcpy(arena_, init.data(), init.size()); a = k.a; a.cpu = k.a.mode == RSEQ_PERCPU_MM_CID ? (int) *(volatile uint32_t *) (real + 24) : (int) *(volatile uint32_t *) (real + 4);
		opargs aa = k.a; aa.cpu = a.cpu; if (k.e->flags & F_ALIAS) { if (strstr(k.e->name, "_cpu_") || strstr(k.e->name, "_idx_")) break; }
		bp_addr = at; bp_orig = *(unsigned char *) at; bp_hits = 0; *(volatile unsigned char *) at = 0xcc;
		Win pre = snap(); r = step::call(k.e->fn, &a, rg, nullptr); *(volatile unsigned char *) at = bp_orig;
		if (!bp_hits) continue; // migrated meanwhile
		done = true;
		if (bp_ip != cs->abort_ip) bad = "the kernel interrupted the sequence but did not redirect it to the abort handler";
		else if (r != -1) bad = "interrupted by the kernel inside the sequence but did not report abort";
		else { const char *m = abort_effect_ok(k.a, k.op, pre, snap(), true); if (m) bad = m; }
	}
	mprotect((void *) pg, 8192, PROT_READ | PROT_EXEC); sigaction(SIGTRAP, &old, nullptr);
	memset(real + 8, 0, 8);
	if (sys_rseq_flag(real, 32, 1, RSEQ_SIG)) c.label("kernel unregistration refused");
	step::install_area();
	if (!bad.empty()) c.fail("%s (offset %llu): %s", bad.c_str(), (unsigned long long) (at - b), s.c_str());
	if (done) { c.evals(1); c.label("interruptions by the real kernel"); }
}
// Static part: all descriptors of all builds, once per run (case 0 of each batch is cheap enough to do it always).
static void C05_all(Ctx &c) {
	if (c.idx % 64 == 0) {
		for (uint64_t d : listed) {
			if (!is_cs(d) || d % 32) c.fail("descriptor pointer table holds 0x%llx, not an aligned descriptor", (unsigned long long) d);
			const step::KernelCs *cs = (const step::KernelCs *) d; uint32_t sig; memcpy(&sig, (void *) (cs->abort_ip - 4), 4);
			if (cs->version || cs->flags || !cs->post_commit_offset || cs->start_ip < (uint64_t) __executable_start || cs->start_ip + cs->post_commit_offset > (uint64_t) etext || cs->abort_ip - cs->start_ip < cs->post_commit_offset || sig != RSEQ_SIG) c.fail("malformed descriptor: version %u flags %u start 0x%llx length %llu abort 0x%llx signature 0x%x", cs->version, cs->flags, (unsigned long long) cs->start_ip, (unsigned long long) cs->post_commit_offset, (unsigned long long) cs->abort_ip, sig);
		}
		size_t room = (__stop___rseq_cs - __start___rseq_cs) / 32; if (room != listed.size()) c.fail("%zu descriptors are emitted but %zu are listed in the pointer table", room, listed.size());
		std::set<uint64_t> starts; for (uint64_t d : listed) starts.insert(((const step::KernelCs *) d)->start_ip);
		for (auto &x : exits) if (!starts.count(x.first)) c.fail("an exit point is attached to 0x%llx, which starts no critical section", (unsigned long long) x.first);
		for (auto &x : exits) { auto it = starts.find(x.first); (void) it; const step::KernelCs *cs = nullptr; for (uint64_t d : listed) if (((const step::KernelCs *) d)->start_ip == x.first) { cs = (const step::KernelCs *) d; break; } if (cs && x.second >= cs->start_ip && x.second < cs->start_ip + cs->post_commit_offset) c.fail("an exit point lies inside its critical section"); }
		c.label("descriptors decoded", listed.size()); c.evals(listed.size());
	}
	C05(c);
}

int main(int argc, char **argv) {
	setenv("X", "1", 1);
	auto ini = [] { step::init(); c05_init(); };
	std::vector<Property> P = {
		{"C01", "case = (helper, build variant, shape, operands, memory) x interruption events (kind, instruction boundary, changes made by others, nested helper in a signal handler); a third of the cases sweep one event over every boundary, evaluations counts executions; non-trivial = an interruption fell inside the critical section", C01, 14000, 900000, 100, 40, ini},
		{"C02", "case = one uninterrupted helper call with generated operands and memory in one of the compiled variants, compared with the pseudo-code byte for byte; every completed case is non-trivial", C02, 4000000, 60000000, 4000, 40, ini},
		{"C03", "case = registration state x index x mode x ordering x operands; non-trivial = an index mismatch, an unregistered thread or an unsupported combination", C03, 1200000, 15000000, 4000, 40, ini},
		{"C05", "case = one helper execution followed instruction by instruction against its descriptor and exit tables, plus one interruption of a really registered thread by the real kernel at a chosen instruction; every completed case is non-trivial", C05_all, 18000, 400000, 100, 40, ini},
		{"C06", "case = helper shape keeping operands and up to 14+2 other values live, with an abort injected before every instruction in turn; non-trivial = the abort path was taken", C06, 1300, 120000, 20, 40, ini},
	};
	return main_(argc, argv, P);
}
