// The helpers, accessors and barriers of the other 64-bit architectures (C25-C28):
// cross-compiled guest programs (xguest.c) executed in interpreters (xisa.hpp) with
// the interruptions, the kernel's rules and the pseudo-code of the native checks.
#include "../engine/pbt.hpp"
#include "xisa.hpp"
#include "xguest.h"
#include <memory>
using namespace pbt;
using xisa::Mach;

extern "C" { ptrdiff_t rseq_offset; unsigned int rseq_size, rseq_flags; }
extern "C" const struct opvar xvar; // the same table, compiled for the host: names and operand preparation
static const char *const opname[] = { "load_cbne_store", "load_cbeq_store_add_load_store", "load_add_store", "load_add_load_load_add_store", "load_cbne_store_store", "load_cbne_load_cbne_store", "load_cbne_memcpy_store" };
enum { MO_RELAXED = 0, MO_RELEASE = 3, MODE_CPU = 0, MODE_CID = 1 };

// ------------------------------------------------------------------ guests
struct XE { std::string name; int op, mo, mode, flags; uint64_t fn; void (*prep)(opargs *); };
struct OE { std::string name; int kind; unsigned size; uint64_t fn; };
struct Sec { uint64_t a, n; };
struct Guest {
	std::string name, arch; std::vector<uint8_t> img; uint64_t base = 0; bool be = false, ct = false; std::unique_ptr<Mach> m; std::map<std::string, uint64_t> sym; std::map<std::string, Sec> sec; std::vector<Sec> code;
	std::vector<XE> ents; std::vector<OE> ords; uint32_t sig = 0;
	std::set<uint64_t> listed; std::multimap<uint64_t, uint64_t> exits;
	uint64_t g(uint64_t a, size_t n) { return m->peek(a, n); }
	std::string str(uint64_t a) { std::string s; for (; g(a, 1); a++) s += (char) g(a, 1); return s; }
};
static std::vector<Guest *> guests;
#define B(n) extern "C" const unsigned char blob_##n[], blob_end_##n[];
#include "xblobs.inc"
#undef B
static const struct { const char *name; const unsigned char *b, *e; } blobs[] = {
#define B(n) { #n, blob_##n, blob_end_##n },
#include "xblobs.inc"
#undef B
};
static Mach *new_mach(const std::string &arch, bool be) {
	Mach *m = nullptr;
	if (arch == "aarch64" || arch == "aarch64_be") m = new xisa::A64; else if (arch == "riscv64") m = new xisa::RV; else if (arch == "powerpc64" || arch == "powerpc64le") m = new xisa::PPC; else if (arch == "loongarch64") m = new xisa::LA; else if (arch == "mips64" || arch == "mips64el") m = new xisa::MIPS; else if (arch == "s390x") { m = new xisa::S390; m->tso = true; }
	if (m) m->be = be; return m;
}
// Guest-visible memory besides the program: host addresses are used as guest addresses.
static const size_t G = 256;
alignas(4096) static unsigned char arena_[G + 16384 + G];
static unsigned char *const arena = arena_ + G;
static size_t W = 1024;
alignas(64) static unsigned char gargs[2][1024]; alignas(4096) static unsigned char gstack[1 << 16];
struct alignas(64) Area { unsigned char pre[64]; unsigned char a[64]; unsigned char post[64]; };
static Area area; static uint64_t tp_val;
enum { A_START = 0, A_CPU = 4, A_CS = 8, A_FLAGS = 16, A_NODE = 20, A_CID = 24, A_PAD = 28 };

static Guest *load(const char *name, const unsigned char *f, size_t) {
	Guest *q = new Guest; q->name = name; q->arch = q->name.substr(0, q->name.find("__")); bool be = q->be = f[5] == 2; auto g = [&](size_t o, size_t n) { return Mach::get(f + o, n, be); };
	q->ct = q->name.find("ct") != std::string::npos;
	q->m.reset(new_mach(q->arch, be)); if (!q->m) return nullptr; Mach &m = *q->m;
	uint64_t ph = g(32, 8), sh = g(40, 8); unsigned pn = (unsigned) g(56, 2), sn = (unsigned) g(60, 2), ss = (unsigned) g(62, 2); uint64_t lo = ~0ull, hi = 0;
	for (unsigned i = 0; i < pn; i++) { size_t o = ph + 56 * i; if (g(o, 4) != 1) continue; uint64_t va = g(o + 16, 8), ms = g(o + 40, 8); lo = std::min(lo, va); hi = std::max(hi, va + ms); }
	q->base = lo; q->img.assign(hi - lo + 64, 0);
	for (unsigned i = 0; i < pn; i++) { size_t o = ph + 56 * i; if (g(o, 4) != 1) continue; memcpy(&q->img[g(o + 16, 8) - lo], f + g(o + 8, 8), g(o + 32, 8)); }
	uint64_t so = g(sh + 64 * ss + 24, 8);
	for (unsigned i = 0; i < sn; i++) { size_t o = sh + 64 * i; std::string nm = (const char *) f + so + g(o, 4); q->sec[nm] = { g(o + 16, 8), g(o + 32, 8) }; if (g(o + 8, 8) & 4) q->code.push_back({ g(o + 16, 8), g(o + 32, 8) });
		if (g(o + 4, 4) == 2) { uint64_t st = g(sh + 64 * g(o + 40, 4) + 24, 8), n = g(o + 32, 8) / 24; for (uint64_t k = 0; k < n; k++) { size_t e = g(o + 24, 8) + 24 * k; q->sym[(const char *) f + st + g(e, 4)] = g(e + 8, 8); } } }
	m.seg = { { q->base, q->img.size(), q->img.data(), false }, { (uint64_t) arena_, sizeof arena_, arena_, true }, { (uint64_t) gargs, sizeof gargs, gargs[0], true }, { (uint64_t) gstack, sizeof gstack, gstack, true }, { (uint64_t) &area, sizeof area, (uint8_t *) &area, true } };
	m.toc = q->sym.count(".TOC.") ? q->sym[".TOC."] : q->sym.count("__global_pointer$") ? q->sym["__global_pointer$"] : 0;
	q->sig = (uint32_t) q->g(q->sym["vp_sig"], 4);
	std::map<std::string, const opent *> host; for (int i = 0; i < xvar.n; i++) host[xvar.e[i].name] = &xvar.e[i];
	uint64_t v = q->sym["xvar"], e = q->g(v + 16, 8); int n = (int) q->g(v + 24, 4);
	for (int i = 0; i < n; i++, e += 40) { XE x; x.name = q->str(q->g(e, 8)); x.op = (int) q->g(e + 8, 4); x.mo = (int) q->g(e + 12, 4); x.mode = (int) q->g(e + 16, 4); x.flags = (int) q->g(e + 20, 4); x.fn = q->g(e + 32, 8); auto h = host.find(x.name); if (h == host.end()) continue; x.prep = h->second->prep; q->ents.push_back(x); }
	v = q->sym["vp_ord"]; e = q->g(v, 8); n = (int) q->g(v + 8, 8); for (int i = 0; i < n; i++, e += 32) q->ords.push_back({ q->str(q->g(e, 8)), (int) q->g(e + 8, 8), (unsigned) q->g(e + 16, 8), q->g(e + 24, 8) });
	Sec s = q->sec["__rseq_cs_ptr_array"]; for (uint64_t a = s.a; a + 8 <= s.a + s.n; a += 8) q->listed.insert(q->g(a, 8));
	s = q->sec["__rseq_exit_point_array"]; for (uint64_t a = s.a; a + 16 <= s.a + s.n; a += 16) q->exits.insert({ q->g(a, 8), q->g(a + 8, 8) });
	return q;
}
static void init() { for (auto &b : blobs) { Guest *g = load(b.name, b.b, b.e - b.b); if (g && !g->sec[".branch_lt"].n) guests.push_back(g); } } // no linker-inserted branches between a sequence and its handlers

// ------------------------------------------------------------------ memory in the guest's byte order
static Guest *cur;
static uint64_t rd(const void *p, size_t n = 8) { return Mach::get((const uint8_t *) p, n, cur->be); }
static void wr(void *p, uint64_t v, size_t n = 8) { Mach::put((uint8_t *) p, n, v, cur->be); }
static intptr_t rw(const void *p) { return (intptr_t) rd(p); }
typedef std::vector<uint8_t> Win;
static Win snap() { return Win(arena_, arena_ + G + W + G); }
static uint32_t fld(int o) { return (uint32_t) rd(area.a + o, 4); }
static void install_area(Ctx &) {
	memset(&area, 0xc3, sizeof area); for (int o : { A_START, A_CPU, A_FLAGS, A_CID }) wr(area.a + o, 0, 4); wr(area.a + A_CS, 0); wr(area.a + A_NODE, 0x77, 4);
}
static void set_tp(Guest *g, int64_t off) { tp_val = (uint64_t) area.a - (uint64_t) off; g->m->set_tp(tp_val); g->m->poke(g->sym["rseq_offset"], 8, (uint64_t) off); g->m->poke(g->sym["rseq_size"], 4, 32); }
static const char *area_damage() {
	for (unsigned char b : area.pre) if (b != 0xc3) return "memory before the thread area was modified";
	for (unsigned char b : area.post) if (b != 0xc3) return "memory after the thread area was modified";
	for (int i = A_PAD; i < 64; i++) if (area.a[i] != 0xc3) return "fields beyond the known thread area were modified";
	if (fld(A_NODE) != 0x77 || fld(A_FLAGS)) return "kernel-owned fields of the thread area were modified";
	return nullptr;
}
static const char *kernel_error;
static bool in_code(uint64_t a) { for (auto &s : cur->code) if (a >= s.a && a < s.a + s.n) return true; return false; }
static bool in_image(uint64_t a, size_t n) { return a >= cur->base && a + n <= cur->base + cur->img.size() && a + n > a; }
struct Cs { uint32_t version, flags; uint64_t start, len, abort; };
static Cs cs_at(uint64_t d) { return { (uint32_t) cur->g(d, 4), (uint32_t) cur->g(d + 4, 4), cur->g(d + 8, 8), cur->g(d + 16, 8), cur->g(d + 24, 8) }; }
static int kernel_fixup(uint64_t *ip) {
	uint64_t d = rd(area.a + A_CS); if (!d) return 0;
	auto err = [](const char *s) { kernel_error = s; return -1; };
	if (!in_image(d, 32)) return err("the published descriptor pointer does not point to a descriptor");
	Cs cs = cs_at(d);
	if (cs.version) return err("descriptor version not 0");
	if (!in_image(cs.start, 4) || !in_image(cs.start, cs.len) || !in_image(cs.abort - 4, 8)) return err("descriptor range outside the program");
	if (cs.abort - cs.start < cs.len) return err("abort handler inside the critical section");
	if ((uint32_t) cur->g(cs.abort - 4, 4) != cur->sig) return err("abort handler is not preceded by the signature");
	wr(area.a + A_CS, 0);
	if (*ip - cs.start >= cs.len) return 0;
	if (cs.flags) return err("descriptor flags not 0");
	*ip = cs.abort; return 1;
}

#define FIELDS(F) F(v) F(v2) F(load) F(expect) F(expect2) F(newv) F(newv2) F(count) F(off) F(dst) F(src) F(len) F(cpu) F(mo) F(mode) F(oo_valid) F(pre) F(pre2) F(q0) F(q1) F(q2) F(q3) F(presrc) F(qd) F(qe) F(tgt)
static void to_guest(const opargs &a, unsigned char *b) {
	memset(b, 0, sizeof(opargs));
#define F(f) { uint64_t t = 0; memcpy(&t, &a.f, sizeof a.f); wr(b + offsetof(opargs, f), t, sizeof a.f); }
	FIELDS(F)
#undef F
	for (int i = 0; i < NLIVE; i++) wr(b + offsetof(opargs, live) + 8 * i, a.live[i]);
}
static void from_guest(opargs &a, const unsigned char *b) {
#define F(f) { uint64_t t = rd(b + offsetof(opargs, f), sizeof a.f); memcpy((void *) &a.f, &t, sizeof a.f); }
	FIELDS(F)
#undef F
	for (int i = 0; i < NLIVE; i++) a.liveout[i] = rd(b + offsetof(opargs, liveout) + 8 * i);
	for (int i = 0; i < 12; i++) a.oo[i] = (intptr_t) rd(b + offsetof(opargs, oo) + 8 * i);
}
static const uint64_t RET = 0x7ead0000;
static const uint64_t MAXSTEP = 400000;
struct Runaway {};
// Runs fn(arg) in the current guest; cb before each instruction.
static uint64_t nsteps;
static uint64_t call_raw(uint64_t fn, void *arg, uint64_t sp, const std::function<void()> &cb) {
	Mach &m = *cur->m; nsteps = 0; m.enter(fn, (uint64_t) arg, sp, RET);
	while (m.pc != RET) { if (++nsteps > MAXSTEP) throw Runaway(); if (cb) { cb(); if (m.pc == RET) break; } uint64_t q = rd(area.a + A_CS); if (q && m.pc - q < 32) throw xisa::Fault{ m.pc, m.pc, "execution runs into the published descriptor" }; m.step(); }
	return m.ret();
}
static uint64_t top() { return (uint64_t) gstack + sizeof gstack - 4096; }
struct Out { int r; const char *dmg; };
static Out call(const XE &e, opargs &a, const std::function<void()> &cb, int depth = 0) {
	to_guest(a, gargs[depth]); uint64_t sp = depth ? top() - 24576 : top(); Out o; o.r = (int) (uint32_t) call_raw(e.fn, gargs[depth], sp, cb); o.dmg = cur->m->saved_damage(); from_guest(a, gargs[depth]); return o;
}

// ------------------------------------------------------------------ model
struct Model {
	Win m; bool bad = false;
	uint8_t *tr(const void *p, size_t n) { size_t o = (const uint8_t *) p - arena_; if ((const uint8_t *) p < arena_ || o + n > m.size()) { bad = true; static uint8_t z[64]; return z; } return &m[o]; }
	intptr_t ld(const void *p) { return rw(tr(p, 8)); }
	void st(const void *p, intptr_t x) { wr(tr(p, 8), (uint64_t) x); }
	int run(const opargs &a, int op) {
		switch (op) {
		case OP_CBNE_STORE: if (ld(a.v) != a.expect) return 1; st(a.v, a.newv); return 0;
		case OP_CBEQ_LIST: { intptr_t r1 = ld(a.v); if (r1 == a.expect) return 1; st(a.load, r1); intptr_t r2 = ld((void *) (r1 + a.off)); st(a.v, r2); return 0; }
		case OP_ADD: st(a.v, (intptr_t) ((uintptr_t) ld(a.v) + (uintptr_t) a.count)); return 0;
		case OP_STORE_STORE: if (ld(a.v) != a.expect) return 1; st(a.v2, a.newv2); st(a.v, a.newv); return 0;
		case OP_CBNE_CBNE: if (ld(a.v) != a.expect) return 1; if (ld(a.v2) != a.expect2) return 1; st(a.v, a.newv); return 0;
		case OP_MEMCPY: { if (ld(a.v) != a.expect) return 1; if (a.len) { uint8_t *d = tr(a.dst, a.len), *s = tr(a.src, a.len); if (!bad) memmove(d, s, a.len); } st(a.v, a.newv); return 0; }
		}
		bad = true; return -99;
	}
};
static const char *abort_effect_ok(const opargs &a, int op, const Win &b, const Win &e, bool idx_ok) {
	if (b == e) return nullptr;
	if (!idx_ok) return "memory was modified although the index did not match";
	Model m; m.m = b; Win al = e; auto off = [&](const void *p) { return (size_t) ((const uint8_t *) p - arena_); };
	switch (op) {
	case OP_CBEQ_LIST: { intptr_t r1 = m.ld(a.v); if (r1 == a.expect) return "an aborted attempt wrote memory although the comparison fails"; Model n; n.m = e; if (n.ld(a.load) == r1) memcpy(&al[off(a.load)], &b[off(a.load)], 8); break; }
	case OP_STORE_STORE: { if (m.ld(a.v) != a.expect) return "an aborted attempt wrote memory although the comparison fails"; Model n; n.m = e; if (n.ld(a.v2) == a.newv2) memcpy(&al[off(a.v2)], &b[off(a.v2)], 8); break; }
	case OP_MEMCPY: { if (m.ld(a.v) != a.expect) return "an aborted attempt wrote memory although the comparison fails"; for (size_t i = 0; i < a.len; i++) { size_t d = off(a.dst) + i, s = off(a.src) + i; if (e[d] == b[s]) al[d] = b[d]; } break; }
	}
	return al == b ? nullptr : "an aborted attempt modified memory other than its speculative destination";
}

// ------------------------------------------------------------------ generation
struct Case { const XE *e; opargs a; int op; std::vector<intptr_t> vcand, v2cand; std::vector<intptr_t *> nodes; };
static intptr_t *slot(size_t i) { return (intptr_t *) arena + i; }
static std::string astr(const Case &k) {
	char b[700]; const opargs &a = k.a; auto o = [&](const void *p) { return (long) ((const unsigned char *) p - arena); };
	snprintf(b, sizeof b, "%s via %s/%s mode=%s mo=%d cpu=%d v=@%ld expect=0x%lx v2=@%ld expect2=0x%lx newv2=0x%lx newv=0x%lx count=0x%lx off=%ld load=@%ld dst=@%ld src=@%ld len=%zu", opname[k.op], cur->name.c_str(), k.e->name.c_str(), a.mode ? "mm_cid" : "cpu_id", a.mo, a.cpu, o(a.v), (long) a.expect, o(a.v2), (long) a.expect2, (long) a.newv2, (long) a.newv, (long) a.count, a.off, o(a.load), o(a.dst), o(a.src), a.len);
	return b;
}
typedef bool Pred(const XE &), OPred(const OE &);
// Guests that have a fitting entry, so that few cases are discarded; computed once per predicate.
static void pick_guest(Ctx &c, Pred *p = nullptr, OPred *op = nullptr) {
	static std::map<std::pair<Pred *, OPred *>, std::vector<Guest *>> memo; auto &g = memo[{ p, op }]; if (g.empty()) for (auto *q : guests) { bool ok = !p && !op; if (p) for (auto &e : q->ents) if (p(e)) ok = true; if (op) for (auto &o : q->ords) if (op(o)) ok = true; if (ok) g.push_back(q); }
	if (g.empty()) c.discard(); cur = g[c.below(g.size())]; install_area(c); static const int64_t offs[] = { 64, -64, 0x120, -0x1000, 0x7fff8, -0x123456780ll }; set_tp(cur, offs[c.below(6)]); }
static Case gen_case(Ctx &c, bool strict, bool stepped, bool dyn, size_t maxlen, std::function<bool(const XE &)> filt = nullptr) {
	Case k; if (cur->ents.empty()) c.discard();
	if (dyn) { bool any = false; for (auto &e : cur->ents) if (e.flags & F_DYN) any = true; dyn = any; }
	for (int t = 0;; t++) { k.e = &cur->ents[c.below(cur->ents.size())]; if (t > 300) c.discard(); if ((k.e->flags & F_NOSTEP) && stepped) continue; if (dyn != !!(k.e->flags & F_DYN)) continue; if (filt && !filt(*k.e)) continue; break; }
	k.op = k.e->op; memset(&k.a, 0, sizeof k.a); opargs &a = k.a; if (k.e->flags & F_NOSTEP) strict = true;
	W = maxlen > 64 ? 16384 : 1024; { uint64_t s = c.u64(); bool small = c.coin(); for (size_t i = 0; i < G + W + G; i += 8) { uint64_t x = mix(s + i); if (small) x &= 3; wr(arena_ + i, x); } }
	a.mo = k.e->mo; a.mode = k.e->mode;
	switch (c.weighted({3, 2, 1})) { case 0: a.cpu = (int) c.below(4); break; case 1: a.cpu = (int) c.below(256); break; default: { static const int t[] = { 65535, 1023, 4095, 8191, 0x7fffffff, 128, 127, 255 }; a.cpu = t[c.below(8)]; break; } }
	size_t nw = 24; std::vector<size_t> perm; for (size_t i = 0; i < nw; i++) perm.push_back(i * 2 + 4); for (size_t i = 0; i < 6; i++) std::swap(perm[i], perm[i + c.below(nw - i)]);
	a.v = slot(perm[0]); a.v2 = slot(perm[1]); a.load = slot(perm[2]);
	a.expect = (intptr_t) c.word(); a.expect2 = (intptr_t) c.word(); a.newv = (intptr_t) c.word(); a.newv2 = (intptr_t) c.word(); a.count = (intptr_t) c.word(); a.off = c.coin() ? 8 * c.range(-8, 8) : (long) c.word();
	size_t half = (W - 512) / 2, lm = std::min(half - 32, maxlen);
	switch (c.weighted({2, 5, 2, 2})) { case 0: a.len = 0; break; case 1: a.len = 1 + c.below(24); break; case 2: a.len = c.below(lm + 1); break; default: { size_t p = 1ull << c.below(12); a.len = std::min(lm, p + c.below(3) - 1); break; } }
	a.dst = (char *) arena + 512 + c.below(16); a.src = (char *) arena + 512 + half + c.below(16); if (c.coin()) std::swap(a.dst, a.src);
	for (auto &x : a.live) x = mix(c.idx * 31 + (&x - a.live));
	if (k.op == OP_MEMCPY && !strict && c.chance(1, 8) && a.len >= 8) a.v = (intptr_t *) (((uintptr_t) (c.coin() ? a.dst : a.src) + 7 + c.below(a.len)) & ~7ull);
	k.e->prep(&a);
	if (k.op == OP_MEMCPY) {
		if (a.len > lm) a.len = lm; auto ov = [&](const char *p, size_t n, const char *q, size_t m) { return p < q + m && q < p + n; };
		if (ov(a.dst, a.len, a.src, a.len)) c.discard(); if (strict && ov(a.dst, a.len, (char *) a.v, 8)) c.discard();
		if (a.src + a.len > (char *) arena + W || a.dst + a.len > (char *) arena + W) c.discard();
		k.e->prep(&a);
	}
	if (k.op == OP_CBEQ_LIST) {
		if (a.off % 8 || a.off < -256 || a.off > 256) a.off = 8 * c.range(-8, 8);
		k.e->prep(&a); unsigned nn = 2 + (unsigned) c.below(4); for (unsigned i = 0; i < nn; i++) k.nodes.push_back((intptr_t *) ((char *) slot(100 + i * 3) - a.off));
		auto any = [&](bool end) { if (end && c.chance(1, 4)) return a.expect; return (intptr_t) k.nodes[c.below(nn)]; };
		for (auto n : k.nodes) wr((char *) n + a.off, (uint64_t) any(true));
		if (!strict && c.chance(1, 6)) { switch (c.below(3)) { case 0: a.load = a.v; break; case 1: a.load = (intptr_t *) ((char *) k.nodes[0] + a.off); break; case 2: k.nodes[0] = (intptr_t *) ((char *) a.v - a.off); break; } k.e->prep(&a); }
		wr(a.v, (uint64_t) (c.chance(1, 4) ? a.expect : any(false)));
		for (auto n : k.nodes) k.vcand.push_back((intptr_t) n); k.vcand.push_back(a.expect);
	} else {
		if (!strict && c.chance(1, 8)) { a.v2 = a.v; k.e->prep(&a); }
		k.vcand = { a.expect, a.expect + 1, a.expect ^ (intptr_t) (1ull << 40), a.newv };
		if (c.chance(3, 4)) wr(a.v, (uint64_t) a.expect); else if (c.coin()) wr(a.v, (uint64_t) a.expect ^ (1ull << c.below(64)));
		if (k.op == OP_CBNE_CBNE) { k.v2cand = { a.expect2, a.expect2 ^ (intptr_t) (1ull << 33), a.expect2 - 1 }; if (c.chance(3, 4)) wr(a.v2, (uint64_t) a.expect2); else if (c.coin()) wr(a.v2, (uint64_t) a.expect2 ^ (1ull << c.below(64))); }
		else k.v2cand = { a.newv2, 0, -1 };
	}
	return k;
}
static int index_of(const opargs &a) { return (int) fld(a.mode == MODE_CID ? A_CID : A_CPU); }
static void set_ids(const opargs &a, int idx, int other) { bool cid = a.mode == MODE_CID; wr(area.a + (cid ? A_CID : A_CPU), (uint32_t) idx, 4); wr(area.a + (cid ? A_CPU : A_CID), (uint32_t) other, 4); int cp = (int) fld(A_CPU); wr(area.a + A_START, cp < 0 ? 0 : (uint32_t) cp, 4); }
static void common_checks(Ctx &c, const Case &k, const opargs &a, const opargs &orig, const char *dmg) {
	if (dmg) c.fail("%s (%s)", dmg, astr(k).c_str());
	const char *d = area_damage(); if (d) c.fail("%s (%s)", d, astr(k).c_str());
	if (a.oo_valid) {
		intptr_t w[12] = { (intptr_t) orig.v, (intptr_t) orig.v2, (intptr_t) orig.load, orig.expect, orig.expect2, orig.newv, orig.newv2, orig.count, orig.off, (intptr_t) orig.dst, (intptr_t) orig.src, (intptr_t) orig.len ^ ((intptr_t) orig.cpu << 40) };
		static const char *const nm[12] = { "v", "v2", "load", "expect", "expect2", "newv", "newv2", "count", "off", "dst", "src", "len/cpu" };
		for (int i = 0; i < 12; i++) if (a.oo[i] != w[i]) c.fail("operand variable %s changed across the call: 0x%lx became 0x%lx (%s)", nm[i], (long) w[i], (long) a.oo[i], astr(k).c_str());
	}
	if (k.e->flags & F_PRESSURE) for (int i = 0; i < NLIVE; i++) if (a.liveout[i] != orig.live[i]) c.fail("live caller variable #%d changed across the call: 0x%lx became 0x%lx (%s)", i, (long) orig.live[i], (long) a.liveout[i], astr(k).c_str());
}
// What the code under test did wrong at machine level, or nothing decided.
template<class F> static void guarded(Ctx &c, F f, const std::function<std::string()> &what) {
	try { f(); }
	catch (const xisa::Unsupported &u) { cur->m->log = nullptr; c.label("executions using an instruction the interpreter does not know (undecided)"); if (getenv("VP_XDEBUG")) fprintf(stderr, "unsupported %s pc=%llx w=%llx\n", cur->name.c_str(), (unsigned long long) u.pc, (unsigned long long) u.w); c.discard(); }
	catch (const xisa::Fault &x) { cur->m->log = nullptr;
		// Known finding: in position independent MIPS code the helpers load the descriptor address through $28, which the compiler need not have set up.
		if (cur->arch.compare(0, 4, "mips") == 0 && cur->name.find("pic") != std::string::npos && in_code(x.pc) && (cur->g(x.pc, 4) >> 21 & 31) == 28 && c.known("mips-pic-gp")) c.discard();
		c.fail("%s (address 0x%llx) by the instruction at 0x%llx: %s", x.why, (unsigned long long) x.addr, (unsigned long long) x.pc, what().c_str()); }
	catch (const Runaway &) { cur->m->log = nullptr; c.fail("does not terminate: %s", what().c_str()); }
}

// ------------------------------------------------------------------ C25: interruptions
enum { EV_PREEMPT, EV_MIGRATE, EV_MIGRATE_BACK, EV_CID, EV_SIGNAL };
struct Event { uint64_t pos; int kind; unsigned nmut; uint64_t mut[3]; int other; const XE *ne; opargs na; };
struct Interval { Win b, e; bool ok; };
struct RunLog { std::vector<Interval> iv; int r; unsigned kaborts = 0, fired = 0; uint64_t steps = 0; const char *kerr = nullptr; bool nested_bad = false; };
static void mutate(const Case &k, uint64_t m) {
	const opargs &a = k.a; uint64_t q = m >> 8;
	switch (m & 7) {
	case 0: case 1: wr(a.v, (uint64_t) k.vcand[q % k.vcand.size()]); break;
	case 2: if (k.op == OP_CBNE_CBNE || k.op == OP_STORE_STORE) wr(a.v2, (uint64_t) k.v2cand[q % k.v2cand.size()]); else if (k.op == OP_ADD) wr(a.v, q); break;
	case 3: if (k.op == OP_CBEQ_LIST) { intptr_t *n = k.nodes[q % k.nodes.size()]; wr((char *) n + a.off, (uint64_t) k.vcand[(q >> 8) % k.vcand.size()]); } else if (k.op == OP_MEMCPY && a.len) a.src[q % a.len] ^= 0x41; break;
	case 4: if (k.op == OP_CBEQ_LIST) wr(a.load, q); else if (k.op == OP_MEMCPY && a.len) a.dst[q % a.len] ^= 0x17; break;
	default: break;
	}
}
static Event gen_event(Ctx &c, const Case &k) {
	Event e; memset((void *) &e, 0, sizeof e); e.kind = (int) c.weighted({3, 3, 1, 1, 2}); e.nmut = (unsigned) c.below(3); for (unsigned i = 0; i < e.nmut; i++) e.mut[i] = c.below(8) | (c.below(1 << 16) << 8);
	e.other = (int) c.below(5);
	if (e.kind == EV_SIGNAL) {
		for (int t = 0; t < 300; t++) { const XE &q = cur->ents[c.below(cur->ents.size())]; if (q.op == k.op && q.mode == k.a.mode && !(q.flags & (F_DYN | F_NOSTEP | F_ALIAS))) { e.ne = &q; break; } }
		if (e.ne) { e.na = k.a; e.na.mo = e.ne->mo; if (k.op == OP_CBNE_STORE || k.op == OP_CBNE_CBNE || k.op == OP_STORE_STORE) { e.na.newv = c.coin() ? k.a.expect : k.a.expect + 1; e.na.newv2 = 99; } opargs t = e.na; e.ne->prep(&t); if (k.op == OP_CBEQ_LIST && (t.off != k.a.off || t.expect != k.a.expect)) e.ne = nullptr; if (k.op == OP_MEMCPY && t.len > k.a.len) e.ne = nullptr; if (e.ne) e.na = t; }
	}
	return e;
}
static const char *const evname[] = { "preempted (same CPU)", "migrated", "migrated back", "concurrency id changed", "signal" };
static void run_events(const Case &k, opargs &a, const std::vector<Event> &evs, int want, int other, RunLog &L) {
	Interval iv; iv.b = snap(); iv.ok = index_of(a) == a.cpu; size_t next = 0; Mach &m = *cur->m;
	std::function<void()> cb = [&] {
		while (next < evs.size() && evs[next].pos == nsteps - 1) {
			const Event &ev = evs[next++]; L.fired++; iv.e = snap(); L.iv.push_back(iv);
			int f = kernel_fixup(&m.pc); if (f < 0) { L.kerr = kernel_error; wr(area.a + A_CS, 0); } if (f > 0) L.kaborts++;
			for (unsigned i = 0; i < ev.nmut; i++) mutate(k, ev.mut[i]);
			switch (ev.kind) {
			case EV_MIGRATE: set_ids(a, ev.other == want ? want + 1 : ev.other, other); break;
			case EV_MIGRATE_BACK: set_ids(a, want, ev.other == 0 ? other : ev.other); break;
			case EV_CID: set_ids(a, index_of(a), ev.other); break;
			case EV_SIGNAL: if (ev.ne && index_of(a) >= 0) { opargs n = ev.na; n.cpu = index_of(a); if (k.op == OP_CBNE_STORE || k.op == OP_CBNE_CBNE || k.op == OP_STORE_STORE || k.op == OP_MEMCPY) n.expect = rw(n.v); n.expect2 = rw(n.v2);
				auto s = m.save(); uint64_t ns = nsteps; Out o = call(*ev.ne, n, nullptr, 1); m.restore(s); nsteps = ns; if (o.r == -1) L.nested_bad = true;
				f = kernel_fixup(&m.pc); if (f > 0) L.kerr = "return from the signal handler landed in a critical section"; else if (f < 0) { L.kerr = kernel_error; wr(area.a + A_CS, 0); } } break;
			}
			iv = Interval(); iv.b = snap(); iv.ok = index_of(a) == a.cpu;
		}
	};
	Out o = call(*k.e, a, cb); L.r = o.r; L.steps = nsteps; iv.e = snap(); L.iv.push_back(iv); wr(area.a + A_CS, 0); if (o.dmg && !L.kerr) L.kerr = o.dmg;
}
static void judge(Ctx &c, const Case &k, const opargs &a, RunLog &L, const std::vector<Event> &evs) {
	std::string s = astr(k); for (auto &e : evs) { char b[100]; snprintf(b, sizeof b, " [%s after instruction %llu]", evname[e.kind], (unsigned long long) e.pos); s += b; }
	if (L.kerr) c.fail("%s: %s", L.kerr, s.c_str());
	if (L.nested_bad) c.fail("a helper run from a signal handler on the right index reported abort: %s", s.c_str());
	common_checks(c, k, a, k.a, nullptr);
	int r = L.r; if (r != 0 && r != 1 && r != -1) c.fail("returned %d: %s", r, s.c_str());
	if (L.kaborts && r != -1) c.fail("returned %d although it was interrupted inside the sequence: %s", r, s.c_str());
	if (r == -1) {
		bool reason = L.kaborts > 0; for (auto &i : L.iv) { if (!i.ok) reason = true; const char *m = abort_effect_ok(k.a, k.op, i.b, i.e, i.ok); if (m) c.fail("%s: %s", m, s.c_str()); }
		if (!reason) c.fail("reported abort although it was never interrupted inside the sequence and the index matched: %s", s.c_str());
		return;
	}
	for (size_t q = 0; q < L.iv.size(); q++) {
		bool others = true; for (size_t j = 0; j < L.iv.size(); j++) if (j != q && L.iv[j].b != L.iv[j].e) others = false;
		if (!others || !L.iv[q].ok) continue;
		Model m; m.m = L.iv[q].b; int mr = m.run(k.a, k.op); if (m.bad) c.discard();
		if (mr == r && m.m == L.iv[q].e) return;
	}
	c.fail("returned %d, but at no instant while it was on the requested index would the operation have given this result and these memory changes: %s", r, s.c_str());
}
static void dynset(Ctx &c, Case &k) { if (k.e->flags & F_DYN) { k.a.mode = (int) c.below(2); k.a.mo = (k.op == OP_STORE_STORE || k.op == OP_MEMCPY) && c.coin() ? MO_RELEASE : MO_RELAXED; } }
static bool p_step(const XE &e) { return !(e.flags & (F_NOSTEP | F_DYN)); }
static bool p_static(const XE &e) { return !(e.flags & F_DYN); }
static bool o_access(const OE &o) { return o.kind < O_CPU; }
static bool o_query(const OE &o) { return o.kind >= O_CPU; }
static bool p_rel(const XE &e) { return !(e.flags & (F_DYN | F_ALIAS)) && (e.op == OP_STORE_STORE || e.op == OP_MEMCPY) && e.mo == MO_RELEASE; }
static void C25(Ctx &c) {
	pick_guest(c, p_step); Case k = gen_case(c, true, true, c.chance(1, 12), 40); dynset(c, k);
	int other = (int) c.below(8); if (other == k.a.cpu) other++;
	bool mism = c.chance(1, 12); int start = mism ? (k.a.cpu == 3 ? 2 : 3) : k.a.cpu; Win ini = snap();
	auto reset = [&] { memcpy(arena_, ini.data(), ini.size()); install_area(c); set_ids(k.a, start, other); };
	c.note("%s%s", astr(k).c_str(), mism ? " (starts on another index)" : "");
	guarded(c, [&] {
		reset(); RunLog dry; opargs a0 = k.a; run_events(k, a0, {}, k.a.cpu, other, dry); judge(c, k, a0, dry, {}); uint64_t n = dry.steps;
		c.labelf(1, "%s", cur->arch.c_str()); c.labelf(1, "%s", opname[k.op]);
		auto one = [&](const std::vector<Event> &v) { reset(); RunLog L; opargs a = k.a; run_events(k, a, v, k.a.cpu, other, L); judge(c, k, a, L, v); c.evals(1); if (L.kaborts) { c.nontrivial(); c.label("interruptions inside a sequence", L.kaborts); } c.label("interruptions", L.fired); };
		if (c.chance(1, 3)) { Event ev = gen_event(c, k); c.note("event at each of %llu boundaries: %s, %u changes by others", (unsigned long long) n, evname[ev.kind], ev.nmut); uint64_t st = n > 200 ? n / 150 : 1; for (uint64_t p = 0; p < n; p++) { if (p > 60 && p + 40 < n && p % st) continue; ev.pos = p; one({ ev }); } }
		else { unsigned ne = 1 + (unsigned) c.below(4); std::vector<Event> v; for (unsigned i = 0; i < ne; i++) { Ctx::SpanGuard sg(c); Event e = gen_event(c, k); e.pos = c.below(n); v.push_back(e); c.note("after instruction %llu: %s, %u changes by others", (unsigned long long) e.pos, evname[e.kind], e.nmut); }
			std::stable_sort(v.begin(), v.end(), [](const Event &x, const Event &y) { return x.pos < y.pos; }); one(v); }
	}, [&] { return astr(k); });
}

// ------------------------------------------------------------------ C26: uninterrupted calls
static void queries(Ctx &c) {
	std::vector<const OE *> q; for (auto &o : cur->ords) if (o.kind >= O_CPU) q.push_back(&o); if (q.empty()) c.discard(); const OE &o = *q[c.below(q.size())];
	uint32_t v[4] = { (uint32_t) c.word(), (uint32_t) c.word(), (uint32_t) c.word(), (uint32_t) c.word() }; wr(area.a + A_START, v[0], 4); wr(area.a + A_CPU, v[1], 4); wr(area.a + A_NODE, v[2], 4); wr(area.a + A_CID, v[3], 4); uint64_t cs = c.u64(); wr(area.a + A_CS, cs); Area before = area;
	memset(gargs[0], 0, sizeof gargs[0]); c.note("%s on %s with start %d cpu %d node %d cid %d", o.name.c_str(), cur->name.c_str(), v[0], v[1], v[2], v[3]);
	guarded(c, [&] { call_raw(o.fn, gargs[0], top(), nullptr); }, [&] { return o.name + " on " + cur->name; });
	int64_t out = rw(gargs[0] + offsetof(ordargs, out)), want = (int32_t) (o.kind == O_CPU ? v[1] : o.kind == O_CID ? v[3] : o.kind == O_NODE ? v[2] : v[0]);
	c.nontrivial(); c.label("thread area queries");
	if (o.kind == O_UNLOAD) { if (rd(area.a + A_CS)) c.fail("preparing for unload left 0x%llx in the descriptor pointer on %s", (unsigned long long) rd(area.a + A_CS), cur->name.c_str()); wr(area.a + A_CS, cs); }
	else if (out != want) c.fail("%s on %s returned %lld, the thread area holds %lld", o.name.c_str(), cur->name.c_str(), (long long) out, (long long) want);
	if (memcmp(&before, &area, sizeof area)) c.fail("%s on %s modified the thread area", o.name.c_str(), cur->name.c_str());
	if (const char *d = cur->m->saved_damage()) c.fail("%s: %s on %s", d, o.name.c_str(), cur->name.c_str());
}
static void C26(Ctx &c) {
	if (c.chance(1, 25)) { pick_guest(c, nullptr, o_query); queries(c); return; }
	pick_guest(c, p_static);
	bool dyn = c.chance(1, 5); Case k = gen_case(c, false, false, dyn, c.chance(1, 8) ? 7000 : 300); opargs &a = k.a; bool supported = true;
	if (k.e->flags & F_DYN) { if (c.coin()) dynset(c, k); else { a.mo = c.chance(1, 6) ? (int) c.word() : (int) c.below(6); a.mode = c.chance(1, 3) ? (c.coin() ? 2 + (int) c.below(6) : (int) c.word()) : (int) c.below(2); supported = (a.mo == MO_RELAXED || ((k.op == OP_STORE_STORE || k.op == OP_MEMCPY) && a.mo == MO_RELEASE)) && (a.mode == 0 || a.mode == 1); } }
	int other = (int) c.below(300); if (other == a.cpu) other = a.cpu == 0x7fffffff ? 5 : a.cpu + 1; bool match = !c.chance(1, 4); int idx = a.cpu; bool mem = k.e->flags & F_MEM;
	if (!match) { if (mem) c.discard(); switch (c.weighted({2, 2, 2, 2})) { case 0: idx = (int) c.word(); break; case 1: idx = other; break; case 2: idx = a.cpu ^ (1 << c.below(32)); break; default: idx = a.cpu + (c.coin() ? 1u : -1u); break; } if (idx == a.cpu) idx = a.cpu ^ 0x100; if (idx < 0) idx &= 0x7fffffff; if (idx == a.cpu) c.discard(); }
	set_ids(a, idx, other); c.note("%s%s", astr(k).c_str(), match ? "" : " (index differs)");
	Model m; m.m = snap(); Win before = m.m;
	if (mem) { a.pre = rw(a.v); a.pre2 = rw(a.v2); a.presrc = *a.src; a.tgt = slot(3); }
	int want = m.run(a, k.op); if (m.bad) c.discard(); bool run = match && supported; if (!run) { want = -1; m.m = before; }
	if (mem) { wr(a.v, ~(uint64_t) a.pre); wr(a.v2, ~(uint64_t) a.pre2); *a.src ^= 0x5a; }
	opargs out = a; Out o{}; guarded(c, [&] { o = call(*k.e, out, nullptr); }, [&] { return astr(k); });
	c.labelf(1, "%s", cur->arch.c_str()); c.labelf(1, "%s", opname[k.op]); c.labelf(1, "result %d", want); c.nontrivial();
	if (o.r != want) c.fail("returned %d, %s says %d: %s", o.r, run ? "pseudo-code" : match ? "the interface (unsupported ordering or mode)" : "the interface (index differs)", want, astr(k).c_str());
	Win after = snap();
	if (after != m.m) { size_t i = 0; while (after[i] == m.m[i]) i++; c.fail("memory byte @%ld is 0x%02x, expected 0x%02x (was 0x%02x): %s", (long) i - (long) G, after[i], m.m[i], before[i], astr(k).c_str()); }
	if (mem) { c.label("memory accessed by the caller around the call"); struct { const char *n; intptr_t got, now; } t[] = { {"the word", out.q0, rw(a.v)}, {"the second word", out.q1, rw(a.v2)}, {"the loaded-value slot", out.q2, rw(a.load)}, {"the copy destination", out.qd, *a.dst}, {"the copy source", out.qe, *a.src} };
		for (auto &x : t) if (x.got != x.now) c.fail("the caller reading %s right after the call sees 0x%lx, memory holds 0x%lx: %s", x.n, (long) x.got, (long) x.now, astr(k).c_str()); }
	wr(area.a + A_CS, 0); common_checks(c, k, out, a, o.dmg);
}

// ------------------------------------------------------------------ C27: descriptors and tables
static uint32_t abi_sig(const std::string &a) { return a == "aarch64" ? 0xd428bc00u : a == "aarch64_be" ? 0x00bc28d4u : a == "riscv64" ? 0xf1401073u : a == "s390x" ? 0xb2ff0fffu : a == "loongarch64" ? 0x002a0010u : a == "mips64" || a == "mips64el" ? 0x0350000du : 0x0fe5000bu; }
static void C27(Ctx &c) {
	pick_guest(c, p_step); const char *gn = cur->name.c_str();
	if (c.idx % 16 == 0) {
		if (cur->sig != abi_sig(cur->arch)) c.fail("%s: the signature is 0x%x, C libraries register 0x%x", gn, cur->sig, abi_sig(cur->arch));
		Sec cs = cur->sec["__rseq_cs"]; std::map<uint64_t, Cs> st;
		for (uint64_t d : cur->listed) { if (d < cs.a || d + 32 > cs.a + cs.n || d % 32) c.fail("%s: the descriptor pointer table holds 0x%llx, not an aligned descriptor", gn, (unsigned long long) d); Cs q = cs_at(d); st[q.start] = q;
			if (q.version || q.flags || !q.len || !in_code(q.start) || !in_code(q.start + q.len - 1) || !in_code(q.abort) || q.abort - q.start < q.len || (uint32_t) cur->g(q.abort - 4, 4) != cur->sig) c.fail("%s: malformed descriptor: version %u flags %u start 0x%llx length %llu abort 0x%llx signature 0x%x", gn, q.version, q.flags, (unsigned long long) q.start, (unsigned long long) q.len, (unsigned long long) q.abort, (unsigned) cur->g(q.abort - 4, 4)); }
		if (cs.n / 32 != cur->listed.size() || cs.n % 32) c.fail("%s: %llu descriptors are emitted but %zu are listed in the pointer table", gn, (unsigned long long) cs.n / 32, cur->listed.size());
		for (auto &x : cur->exits) { auto it = st.find(x.first); if (it == st.end()) c.fail("%s: an exit point is attached to 0x%llx, which starts no critical section", gn, (unsigned long long) x.first); if (x.second - it->second.start < it->second.len) c.fail("%s: an exit point lies inside its critical section", gn); }
		c.label("descriptors decoded", cur->listed.size()); c.evals(cur->listed.size());
	}
	Case k = gen_case(c, true, true, false, 12); int other = k.a.cpu + 1; bool mism = c.chance(1, 8); set_ids(k.a, mism ? (k.a.cpu == 0x7fffffff ? 1 : k.a.cpu + 1) : k.a.cpu, other); c.note("%s%s", astr(k).c_str(), mism ? " (index differs)" : "");
	Win ini = snap(); struct P { uint64_t pc, cs; Win w; }; std::vector<P> tr; opargs a = k.a; Out o{}; std::vector<xisa::Acc> log; cur->m->log = &log;
	// the second comparisons fail only when memory changes between them and the first ones
	bool pert = cur->ct && c.chance(1, 3); uint64_t at = 1 + c.below(24), ninr = 0; int pk = (int) c.below(3); if (pert) c.note("%s changed after instruction %llu of the sequence", pk == 0 ? "the word" : pk == 1 ? "the index" : "the second word", (unsigned long long) at);
	auto cb = [&] {
		if (pert) { uint64_t q = rd(area.a + A_CS); if (q && in_image(q, 32)) { Cs x = cs_at(q); if (cur->m->pc - x.start < x.len && ++ninr == at) { if (pk == 0) wr(a.v, k.op == OP_CBEQ_LIST ? (uint64_t) a.expect : rd(a.v) ^ 4); else if (pk == 1) { int f = a.mode == MODE_CID ? A_CID : A_CPU; wr(area.a + f, fld(f) ^ 1, 4); } else wr(a.v2, rd(a.v2) ^ 8); } } }
		tr.push_back({ cur->m->pc, rd(area.a + A_CS), snap() }); };
	if (pert) { bool died = false; try { o = call(*k.e, a, cb); } catch (const xisa::Fault &) { died = true; } catch (const xisa::Unsupported &) { cur->m->log = nullptr; c.discard(); } catch (const Runaway &) { died = true; } if (died) c.label("second comparisons failed"); }
	else guarded(c, [&] { o = call(*k.e, a, cb); }, [&] { return astr(k); });
	cur->m->log = nullptr;
	int r = o.r; if (!pert) tr.push_back({ RET, rd(area.a + A_CS), snap() }); uint64_t d = 0; for (auto &x : tr) if (x.cs) d = x.cs; std::string s = astr(k);
	if (!d) c.fail("no descriptor was ever published: %s", s.c_str());
	c.nontrivial(); c.labelf(1, "%s", cur->arch.c_str()); c.labelf(1, "%s", opname[k.op]);
	if (!cur->listed.count(d)) { // some architectures publish a copy of the listed descriptor, placed near the code
		Cs k = cs_at(d); bool same = false; for (uint64_t l : cur->listed) { Cs q = cs_at(l); if (q.start == k.start && q.len == k.len && q.abort == k.abort && q.version == k.version && q.flags == k.flags) same = true; }
		if (!same || d % 32) c.fail("the published descriptor is not listed in the descriptor pointer table: %s", s.c_str()); c.label("copies of listed descriptors published"); }
	for (auto &x : log) if (x.kind == xisa::ST && x.addr < (uint64_t) area.a + A_CS + 8 && x.addr + x.size > (uint64_t) area.a + A_CS && (x.addr != (uint64_t) area.a + A_CS || x.size != 8)) c.fail("the descriptor pointer is not published by a single 8-byte store: %s", s.c_str());
	Cs cs = cs_at(d); uint64_t b = cs.start, e = b + cs.len; auto in = [&](uint64_t ip) { return ip >= b && ip < e; }; bool committed = false;
	for (size_t i = 1; i < tr.size(); i++) {
		bool was = in(tr[i - 1].pc), is = in(tr[i].pc);
		if (!was && is && tr[i].pc != b) c.fail("the range is entered in the middle: %s", s.c_str());
		if (!was && is && tr[i].cs != d) c.fail("the range is entered without its descriptor being published: %s", s.c_str());
		if (was && !is && tr[i].pc != e && tr[i].pc != cs.abort) { bool ok = false; auto q = cur->exits.equal_range(b); for (auto x = q.first; x != q.second; ++x) if (x->second == tr[i].pc) ok = true; if (!ok) c.fail("the sequence is left towards an address that is not a listed exit point: %s", s.c_str()); c.label("exit points verified"); }
		if (was && tr[i].pc == e) { committed = true; c.label("commits verified"); }
		if (pert) continue;
		if (!was && tr[i].w != tr[i - 1].w) c.fail("memory of the operation is modified by an instruction outside the range: %s", s.c_str());
	}
	if (pert) { wr(area.a + A_CS, 0); return; }
	if (r == 0 && !committed) c.fail("reported success without passing the end of its range: %s", s.c_str());
	if (r != 0 && committed) c.fail("reported %d after passing the end of its range: %s", r, s.c_str());
	if (r == 0) { size_t w = (unsigned char *) k.a.v - arena_; for (size_t i = 1; i < tr.size(); i++) if (in(tr[i - 1].pc) && tr[i].pc != e && memcmp(&tr[i].w[w], &tr[i - 1].w[w], 8)) c.fail("the committed word changes before the last instruction of the range: %s", s.c_str()); }
	wr(area.a + A_CS, 0); (void) ini;
}

// ------------------------------------------------------------------ C28: ordering
struct Ord { // which of the logged accesses must every observer see before which others
	std::vector<xisa::Acc> ev; std::vector<std::vector<char>> m;
	Ord(const std::vector<xisa::Acc> &log, bool tso) : ev(log) {
		size_t n = ev.size(); m.assign(n, std::vector<char>(n, 0));
		for (size_t i = 0; i < n; i++) if (ev[i].kind != xisa::BAR) { int mask = 0; for (size_t j = i + 1; j < n; j++) {
			if (ev[j].kind == xisa::BAR) { mask |= ev[j].mask; continue; } bool li = ev[i].kind == xisa::LD, lj = ev[j].kind == xisa::LD; int bit = li ? (lj ? xisa::RR : xisa::RW) : (lj ? xisa::WR : xisa::WW);
			bool o = (mask & bit) || (li && ev[i].sync) || (!lj && ev[j].sync) || (tso && !(!li && lj)); m[i][j] = o; } }
		for (size_t k = 0; k < n; k++) for (size_t i = 0; i < k; i++) if (m[i][k]) for (size_t j = k + 1; j < n; j++) if (m[k][j]) m[i][j] = 1;
	}
};
static void accessors(Ctx &c) {
	std::vector<const OE *> q; for (auto &o : cur->ords) if (o.kind < O_CPU) q.push_back(&o); if (q.empty()) c.discard(); const OE &o = *q[c.below(q.size())]; unsigned sz = o.size;
	memset(arena_, 0x5c, G + 1024); unsigned char *p = arena + 64 * (1 + c.below(4)) + sz * c.below(8), *r = arena + 512 + 64 * c.below(3) + sz * c.below(8); uint64_t msk = sz == 8 ? ~0ull : (1ull << 8 * sz) - 1;
	uint64_t iv = c.word() & msk, iw = c.word() & msk, val = c.word(), val2 = c.word(); if (o.kind == O_CTRL && c.chance(3, 4) && !iv) iv = 1; wr(p, iv, sz); wr(r, iw, sz); memset(gargs[0], 0, sizeof gargs[0]);
	wr(gargs[0] + offsetof(ordargs, p), (uint64_t) p); wr(gargs[0] + offsetof(ordargs, q), (uint64_t) r); wr(gargs[0] + offsetof(ordargs, val), val); wr(gargs[0] + offsetof(ordargs, val2), val2);
	std::string s = o.name + " on " + cur->name; c.note("%s, values 0x%llx 0x%llx, operands 0x%llx 0x%llx", s.c_str(), (unsigned long long) iv, (unsigned long long) iw, (unsigned long long) val, (unsigned long long) val2);
	Win before(arena_, arena_ + G + 1024); std::vector<xisa::Acc> all; cur->m->log = &all; guarded(c, [&] { call_raw(o.fn, gargs[0], top(), nullptr); }, [&] { return s; }); cur->m->log = nullptr;
	auto out = [&](size_t f) { return rd(gargs[0] + f); }; bool sgn = o.name[o.name.size() - 2] == 's'; auto ext = [&](uint64_t x) { x &= msk; return sgn && sz < 8 ? (uint64_t) xisa::sx(x, 8 * (int) sz) : x; };
	struct { bool st1, st2; } k; k.st1 = o.kind == O_MB_SL || o.kind == O_MB_SS || o.kind == O_WMB || o.kind == O_REL_S || o.kind == O_WR; k.st2 = o.kind == O_MB_SS || o.kind == O_MB_LS || o.kind == O_WMB || o.kind == O_ACQ_S || o.kind == O_REL_S || o.kind == O_REL_L;
	bool two = o.kind != O_RD && o.kind != O_WR; bool taken = o.kind != O_CTRL || iv; std::vector<xisa::Acc> log; for (auto &x : all) { bool on = x.kind == xisa::BAR; if (x.addr < (uint64_t) arena_ + sizeof arena_ && x.addr + x.size > (uint64_t) arena_) on = true; if (on) log.push_back(x); }
	std::vector<size_t> P, R; for (size_t i = 0; i < log.size(); i++) if (log[i].kind != xisa::BAR) { if (log[i].addr < (uint64_t) p + sz && log[i].addr + log[i].size > (uint64_t) p) P.push_back(i); else if (log[i].addr < (uint64_t) r + sz && log[i].addr + log[i].size > (uint64_t) r) R.push_back(i); else c.fail("an access to memory that is no operand: %s", s.c_str()); }
	c.nontrivial(); c.labelf(1, "%s", cur->arch.c_str()); c.labelf(1, "%s", o.name.substr(0, o.name.size() - 3).c_str());
	size_t np = two ? 1 : 2, nr = two && taken ? 1 : 0; if (P.size() != np || R.size() != nr) c.fail("%zu and %zu accesses to the two variables instead of %zu and %zu: %s", P.size(), R.size(), np, nr, s.c_str());
	for (auto *V : { &P, &R }) for (size_t i : *V) { auto &x = log[i]; if (x.size != sz || (x.addr != (uint64_t) p && x.addr != (uint64_t) r)) c.fail("the variable is not accessed as a whole at once: %s", s.c_str()); if ((x.kind == xisa::ST) != (V == &P ? k.st1 : k.st2)) c.fail("a load instead of a store or the reverse: %s", s.c_str()); }
	// values
	uint64_t wp = o.kind == O_WR ? val2 & msk : k.st1 ? val & msk : iv, wq = k.st2 ? val2 & msk : iw; Win want = before; wr(&want[p - arena_], wp, sz); wr(&want[r - arena_], wq, sz); if (Win(arena_, arena_ + G + 1024) != want) c.fail("memory holds 0x%llx and 0x%llx instead of 0x%llx and 0x%llx: %s", (unsigned long long) rd(p, sz), (unsigned long long) rd(r, sz), (unsigned long long) wp, (unsigned long long) wq, s.c_str());
	uint64_t eo, eo2; bool ho = false, ho2 = false; switch (o.kind) { case O_MB_SL: ho = true; break; case O_MB_LL: case O_RMB: case O_ACQ_L: case O_RD: ho = ho2 = true; break; case O_MB_LS: case O_ACQ_S: case O_REL_L: ho2 = true; break; case O_CTRL: ho = taken; break; }
	eo = ext(o.kind == O_RD ? iv : iw); eo2 = ext(iv); if (ho && out(offsetof(ordargs, out)) != eo) c.fail("delivered 0x%llx instead of 0x%llx: %s", (unsigned long long) out(offsetof(ordargs, out)), (unsigned long long) eo, s.c_str()); if (ho2 && out(offsetof(ordargs, out2)) != eo2) c.fail("delivered 0x%llx instead of 0x%llx: %s", (unsigned long long) out(offsetof(ordargs, out2)), (unsigned long long) eo2, s.c_str());
	if (two && taken) { Ord od(log, cur->m->tso); if (R[0] < P[0] || !od.m[P[0]][R[0]]) c.fail("the two accesses are not ordered: %s", s.c_str()); c.label("orderings verified"); }
	if (const char *d = cur->m->saved_damage()) c.fail("%s: %s", d, s.c_str());
}
static void C28(Ctx &c) {
	if (c.coin()) { pick_guest(c, nullptr, o_access); accessors(c); return; }
	pick_guest(c, p_rel);
	// a release helper's committing store comes after everything the caller did before and after its own speculative stores
	Case k = gen_case(c, true, false, false, 64, [](const XE &e) { return (e.op == OP_STORE_STORE || e.op == OP_MEMCPY) && e.mo == MO_RELEASE && !(e.flags & F_ALIAS); });
	opargs &a = k.a; wr(a.v, (uint64_t) a.expect); int other = a.cpu == 0x7fffffff ? 1 : a.cpu + 1; set_ids(a, a.cpu, other); bool mem = k.e->flags & F_MEM; if (mem) { a.pre = a.expect; a.pre2 = rw(a.v2); a.presrc = *a.src; a.tgt = slot(3); }
	c.note("%s", astr(k).c_str()); std::vector<xisa::Acc> all; cur->m->log = &all; opargs out = a; Out o{}; guarded(c, [&] { o = call(*k.e, out, nullptr); }, [&] { return astr(k); }); cur->m->log = nullptr;
	if (o.r != 0) c.fail("returned %d on the matching index: %s", o.r, astr(k).c_str());
	std::vector<xisa::Acc> log; for (auto &x : all) if (x.kind == xisa::BAR || (x.addr < (uint64_t) arena_ + sizeof arena_ && x.addr + x.size > (uint64_t) arena_)) log.push_back(x);
	size_t fin = SIZE_MAX; for (size_t i = 0; i < log.size(); i++) if (log[i].kind == xisa::ST && log[i].addr == (uint64_t) a.v) fin = i; if (fin == SIZE_MAX || log[fin].size != 8) c.fail("no single committing store: %s", astr(k).c_str());
	Ord od(log, cur->m->tso); unsigned n = 0; for (size_t i = 0; i < fin; i++) if (log[i].kind != xisa::BAR && log[i].addr != (uint64_t) a.v) { n++; if (!od.m[i][fin]) c.fail("the committing store is not ordered after the earlier %s at @%ld: %s", log[i].kind == xisa::LD ? "load" : "store", (long) (log[i].addr - (uint64_t) arena), astr(k).c_str()); }
	c.nontrivial(); c.labelf(1, "%s", cur->arch.c_str()); c.labelf(1, "%s (release)", opname[k.op]); c.label("orderings verified", n);
}

int main(int argc, char **argv) {
	std::vector<Property> P = {
		{"C25", "case = (architecture, build, helper shape, operands, memory) x interruption events at instruction boundaries of the interpreted guest; a third of the cases sweep one event over the boundaries, evaluations counts executions; non-trivial = an interruption fell inside the critical section", C25, 200000, 6000000, 200, 40, init},
		{"C26", "case = one uninterrupted helper call or thread area query on one of the architectures, compared with the pseudo-code byte for byte (index match or mismatch, supported or unsupported ordering); every completed case is non-trivial", C26, 500000, 20000000, 1000, 40, init},
		{"C27", "case = one helper execution followed instruction by instruction against its descriptor and exit tables (every 16th case decodes all tables of one build); every completed case is non-trivial", C27, 700000, 20000000, 300, 40, init},
		{"C28", "case = one barrier or accessor wrapper (sizes 1-8, signed and unsigned) or one release helper, all memory accesses and barriers logged and the architecture's ordering relation computed; every completed case is non-trivial", C28, 1500000, 40000000, 1000, 40, init},
	};
	return main_(argc, argv, P);
}
