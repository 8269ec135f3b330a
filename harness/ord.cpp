// C23: ordering and once-only accessors.  Programs are generated, compiled with a generated compiler and
// optimisation level, and executed with every access to the shared page trapped; hardware litmus tests for the full barrier.
#include "../engine/pbt.hpp"
#include <csignal>
#include <dlfcn.h>
#include <pthread.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>
#include <fcntl.h>
#include <cstring>
#include <map>
#include <set>
using namespace pbt;
extern char **environ;

enum K { RD, WR, LA, SR, MB, RMB, WMB, BAR, PL, PS, LOOP, SPIN, VOIDRD, CTRL };
struct Ty { const char *name; unsigned size; int kind; /* 0 int 1 bool 2 float 3 double 4 pointer */ bool sgn; };
static const Ty TY[] = { {"char", 1, 0, true}, {"signed char", 1, 0, true}, {"unsigned char", 1, 0, false}, {"short", 2, 0, true}, {"unsigned short", 2, 0, false}, {"int", 4, 0, true}, {"unsigned int", 4, 0, false}, {"long", 8, 0, true}, {"unsigned long", 8, 0, false}, {"long long", 8, 0, true}, {"unsigned long long", 8, 0, false}, {"void *", 8, 4, false}, {"float", 4, 2, true}, {"double", 8, 3, true}, {"_Bool", 1, 1, false}, {"int *", 8, 4, false} };
struct Op { int k; unsigned v = 0; uint64_t val = 0; unsigned n = 1; int slot = -1, side = -1; bool wide = false; int ver = 0; int first = -1, last = -1; };
static const unsigned NA = 4, NL = 2, NS = 2, NV = NA + NL + NS;   // once-only variables, plain variables only read, plain variables only written
struct Ev { int v; bool wr; uint64_t snap[NS]; uint64_t after; };
static char *W; static size_t WLEN = 4096; static Ev LOG[256]; static volatile int NEV; static volatile bool over, stepping; static int cur; static unsigned vsize[NV];
static std::vector<uint64_t> script[NA]; static size_t spos[NA];
static uint64_t peek(unsigned v) { uint64_t x = 0; memcpy(&x, W + 64 + 128 * v, vsize[v]); return x; }
static void poke(unsigned v, uint64_t x) { memcpy(W + 64 + 128 * v, &x, vsize[v]); }
static void on_segv(int, siginfo_t *si, void *uc) {
	ucontext_t *u = (ucontext_t *) uc; char *a = (char *) si->si_addr;
	if (a < W || a >= W + WLEN || stepping) { signal(SIGSEGV, SIG_DFL); return; }
	mprotect(W, WLEN, PROT_READ | PROT_WRITE); size_t off = a - W; int v = -1; if (off >= 64 && (off - 64) / 128 < NV && (off - 64) % 128 < vsize[(off - 64) / 128]) v = (int) ((off - 64) / 128);
	bool wr = u->uc_mcontext.gregs[REG_ERR] & 2; cur = -1;
	if (v < 0 || v < (int) NA) { if (NEV >= 120) { over = true; } else { Ev &e = LOG[NEV]; cur = NEV; e.v = v; e.wr = wr; for (unsigned s = 0; s < NS; s++) e.snap[s] = peek(NA + NL + s); NEV = NEV + 1;
		for (unsigned l = 0; l < NL; l++) poke(NA + l, (uint64_t) NEV); if (v >= 0 && !wr && spos[v] < script[v].size()) poke((unsigned) v, script[v][spos[v]++]); } }
	stepping = true; u->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
static void on_trap(int, siginfo_t *, void *uc) { ucontext_t *u = (ucontext_t *) uc; u->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; if (cur >= 0 && LOG[cur].v >= 0) LOG[cur].after = peek((unsigned) LOG[cur].v); mprotect(W, WLEN, PROT_NONE); stepping = false; }

static uint64_t genval(Ctx &c, const Ty &t) {
	if (t.kind == 1) return c.below(2); if (t.kind == 2) { float f = (float) (int32_t) c.below(1 << 20) - (1 << 19); uint32_t x; memcpy(&x, &f, 4); return x; } if (t.kind == 3) { double d = (double) (int64_t) c.below(1ull << 40) - (1ll << 39); uint64_t x; memcpy(&x, &d, 8); return x; }
	uint64_t x = c.word(); return t.size == 8 ? x : x & ((1ull << (8 * t.size)) - 1);
}
static std::string lit(const Ty &t, uint64_t x) { // an expression of type t with that bit pattern
	char b[200]; if (t.kind == 2) { float f; uint32_t y = (uint32_t) x; memcpy(&f, &y, 4); snprintf(b, sizeof b, "(float) %.1f", (double) f); } else if (t.kind == 3) { double d; memcpy(&d, &x, 8); snprintf(b, sizeof b, "%.1f", d); } else if (t.kind == 1) snprintf(b, sizeof b, "%d", (int) x); else snprintf(b, sizeof b, "(%s) 0x%llxull", t.name, (unsigned long long) x); return b; }
static uint64_t widen(const Ty &t, uint64_t x) { if (t.kind == 0 && t.sgn && t.size < 8) { unsigned s = 64 - 8 * t.size; return (uint64_t) ((int64_t) (x << s) >> s); } return x; }
static const struct { const char *cc; bool cxx; } CC[] = { {"gcc", false}, {"clang", false}, {"g++", true}, {"clang++", true} };
static const char *const OPT[] = { "-O2", "-O3", "-O1", "-Os", "-O0" };
static std::string scratch() { static std::string d; if (d.empty()) { const char *e = getenv("VP_ORD_DIR"); d = e ? e : "."; } return d; }

static bool is_rd(int k) { return k == RD || k == LA || k == LOOP || k == SPIN || k == VOIDRD || k == PL || k == CTRL; }
static bool is_wr(int k) { return k == WR || k == SR || k == PS; }
static bool is_bar(int k) { return k == MB || k == RMB || k == WMB || k == BAR; }
static bool is_ev(int k) { return !is_bar(k) && k != PL && k != PS; }
static bool ordered(const std::vector<Op> &P, size_t i, size_t j) { // i before j in the program; must i be performed first?
	int a = P[i].k, b = P[j].k; if (is_ev(a) && is_ev(b)) { if (P[i].v == P[j].v) return true; if (a != LA && a != SR && b != LA && b != SR) return true; }
	if (a == LA || b == SR) return true;
	for (size_t k = i + 1; k < j; k++) { int q = P[k].k; if (q == MB || q == BAR) return true; if (q == RMB && is_rd(a) && is_rd(b)) return true; if (q == WMB && is_wr(a) && is_wr(b)) return true; }
	return false;
}
static bool compile(const std::string &src, const std::string &so, const char *cc, const char *opt, const std::vector<std::string> &extra) {
	std::vector<std::string> a = { cc, opt, "-w", "-g0", "-fPIC", "-shared", "-o", so, src }; for (auto &e : extra) a.push_back(e);
	const char *inc = getenv("VP_INC"); std::string cur_; for (const char *q = inc ? inc : ""; ; q++) { if (*q == '\n' || !*q) { if (!cur_.empty()) a.push_back(cur_); cur_.clear(); if (!*q) break; } else cur_ += *q; }
	std::vector<char *> av; for (auto &s : a) av.push_back((char *) s.c_str()); av.push_back(nullptr);
	pid_t p; posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); int r = posix_spawnp(&p, cc, &fa, nullptr, av.data(), environ); posix_spawn_file_actions_destroy(&fa); if (r) return false; int s; waitpid(p, &s, 0); return WIFEXITED(s) && WEXITSTATUS(s) == 0;
}
struct Built { void *h = nullptr; std::string src, so; ~Built() { if (h) dlclose(h); unlink(src.c_str()); unlink(so.c_str()); } };
static void build(Ctx &c, Built &b, const std::string &text, unsigned cc, const char *opt, std::vector<std::string> extra = {}) {
	static unsigned ctr; char n[64]; snprintf(n, sizeof n, "/p%d-%u", (int) getpid(), ctr++); b.src = scratch() + n + (CC[cc].cxx ? ".cpp" : ".c"); b.so = scratch() + n + ".so";
	FILE *f = fopen(b.src.c_str(), "we"); if (!f) c.discard(); fputs(text.c_str(), f); fclose(f);
	if (!compile(b.src, b.so, CC[cc].cc, opt, extra)) c.fail("a valid use of the accessors does not compile with %s %s", CC[cc].cc, opt);
	b.h = dlopen(b.so.c_str(), RTLD_NOW | RTLD_LOCAL); if (!b.h) { c.note("dlopen: %s", dlerror()); c.discard(); }
}

static void program(Ctx &c) {
	unsigned cc = (unsigned) c.weighted({4, 4, 1, 1}); const char *opt = OPT[c.below(5)]; bool ptr = c.coin(), cxx = CC[cc].cxx;
	const Ty *vt[NV]; bool vol[NV]; for (unsigned i = 0; i < NV; i++) { vt[i] = &TY[i < NA ? c.below(16) : c.below(11)]; vol[i] = i < NA && c.chance(1, 4); vsize[i] = vt[i]->size; }
	auto tname = [&](unsigned v) { std::string s = vt[v]->name; if (s == "_Bool" && cxx) s = "bool"; return s; };
	std::vector<Op> P; unsigned nev = 0; int slots = 0; int ver[NS] = {};
	while (c.more(9) && P.size() < 24) { Ctx::SpanGuard g(c); Op o; o.k = (int) c.weighted({3, 3, 4, 4, 1, 1, 1, 1, 6, 6, 1, 1, 1, 1}); 
		if (is_ev(o.k)) { o.v = (unsigned) c.below(NA); const Ty &t = *vt[o.v]; if ((o.k == LOOP || o.k == SPIN || o.k == CTRL) && t.kind != 0) o.k = RD; o.val = genval(c, t); if (o.k == LOOP || o.k == SPIN) { o.n = 1 + (unsigned) c.below(4); } if (o.k == CTRL) { o.n = 1; if (!o.val) o.val = 1; o.side = (int) c.below(NL); } else if (c.chance(1, 4) && o.k != LOOP && o.k != SPIN) o.side = 0; o.wide = t.kind == 0 && c.coin(); nev += o.n; }
		else if (o.k == PL) o.v = (unsigned) c.below(NL); else if (o.k == PS) { o.v = (unsigned) c.below(NS); if (ver[o.v] >= 100) continue; o.ver = ++ver[o.v]; }
		if (is_rd(o.k) && o.k != VOIDRD && o.k != SPIN) o.slot = slots++; if (o.k == CTRL) { o.wide = false; slots++; } if (is_ev(o.k) && o.k != CTRL && o.side == 0) o.side = slots++; P.push_back(o); if (nev > 90) break; }
	// source text
	std::string s = "#include <rseq/rseq.h>\n#include <string.h>\nstruct W {\n\tchar pad0[64];\n"; char b[512];
	for (unsigned i = 0; i < NV; i++) { snprintf(b, sizeof b, "\tunion { %s%s x; char pad[128]; } v%u;\n", tname(i).c_str(), vol[i] ? " volatile" : "", i); s += b; }
	s += "\tchar tail[4096 - 64 - 128 * 8];\n};\n"; if (cxx) s += "extern \"C\" {\n"; s += ptr ? "" : "struct W w __attribute__((aligned(4096)));\n"; s += ptr ? "void prog(struct W *p, unsigned long long *R) {\n" : "void prog(struct W *unused, unsigned long long *R) {\n"; const char *acc = ptr ? "p->v" : "w.v";
	for (auto &o : P) { std::string T = is_bar(o.k) ? "" : tname(o.k == PL ? NA + o.v : o.k == PS ? NA + NL + o.v : o.v); unsigned vn = o.k == PL ? NA + o.v : o.k == PS ? NA + NL + o.v : o.v; snprintf(b, sizeof b, "%s%u.x", acc, vn); std::string L = b; std::string A = "&" + L, V = o.k == WR || o.k == SR ? lit(*vt[vn], o.val) : ""; if ((o.k == WR || o.k == SR) && vt[vn]->kind == 1 && cxx) V = o.val ? "true" : "false";
		if (o.k == SR && o.side >= 0) { snprintf(b, sizeof b, "(R[%d]++, %s)", o.side, V.c_str()); V = b; } if (o.k == LA && o.side >= 0) { snprintf(b, sizeof b, "(R[%d]++, %s)", o.side, A.c_str()); A = b; } if (o.k == RD && o.side >= 0) { snprintf(b, sizeof b, "*(R[%d]++, %s)", o.side, A.c_str()); L = b; } if (o.k == WR && o.side >= 0) { snprintf(b, sizeof b, "(R[%d]++, %s)", o.side, V.c_str()); V = b; }
		auto get = [&](const std::string &e) { char q[700]; if (o.wide) snprintf(q, sizeof q, "\tR[%d] = (unsigned long long) (long long) %s;\n", o.slot, e.c_str()); else snprintf(q, sizeof q, "\t{ %s t = %s; memcpy(&R[%d], &t, sizeof t); }\n", T.c_str(), e.c_str(), o.slot); return std::string(q); };
		switch (o.k) {
		case RD: s += get("RSEQ_READ_ONCE(" + L + ")"); break; case LA: s += get("rseq_smp_load_acquire(" + A + ")"); break; case PL: s += get(L); break;
		case WR: s += "\tRSEQ_WRITE_ONCE(" + L + ", " + V + ");\n"; break; case SR: s += "\trseq_smp_store_release(" + A + ", " + V + ");\n"; break;
		case PS: snprintf(b, sizeof b, "\t%s = %d;\n", L.c_str(), o.ver); s += b; break; case MB: s += "\trseq_smp_mb();\n"; break; case RMB: s += "\trseq_smp_rmb();\n"; break; case WMB: s += "\trseq_smp_wmb();\n"; break; case BAR: s += "\trseq_barrier();\n"; break;
		case LOOP: snprintf(b, sizeof b, "\t{ unsigned long long q = 0; for (int j = 0; j < %u; j++) q += (unsigned long long) (long long) RSEQ_READ_ONCE(%s); R[%d] = q; }\n", o.n, L.c_str(), o.slot); s += b; break;
		case SPIN: snprintf(b, sizeof b, "\twhile ((%s) RSEQ_READ_ONCE(%s) != %s) ;\n", T.c_str(), L.c_str(), lit(*vt[vn], o.val).c_str()); s += b; break; case VOIDRD: s += "\t(void) RSEQ_READ_ONCE(" + L + ");\n"; break;
		case CTRL: snprintf(b, sizeof b, "\tif (RSEQ_READ_ONCE(%s)) { rseq_smp_acquire__after_ctrl_dep(); %s t = %s%u.x; memcpy(&R[%d], &t, sizeof t); }\n", L.c_str(), tname(NA + o.side).c_str(), acc, NA + o.side, o.slot); s += b; break;
		} }
	s += "}\n"; if (cxx) s += "}\n"; c.note("%s %s, %s:\n%s", CC[cc].cc, opt, ptr ? "through a pointer" : "global object", s.c_str() + s.find("void prog"));
	if (!nev) { c.label("programs without a shared access"); return; }
	Built bt; build(c, bt, s, cc, opt); auto fn = (void (*)(void *, unsigned long long *)) dlsym(bt.h, "prog"); char *wp; static char *own; if (!own) own = (char *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); wp = ptr ? own : (char *) dlsym(bt.h, "w"); PBT_CHECK(c, fn && wp, "symbols missing");
	for (unsigned round = 0; round < 2; round++) {
		uint64_t seed = c.u64(); W = wp; memset(W, 0xee, 4096); for (unsigned i = 0; i < NV; i++) poke(i, 0); NEV = 0; over = false; stepping = false; for (unsigned i = 0; i < NA; i++) { script[i].clear(); spos[i] = 0; }
		Rng r; r.seed(seed | 1); auto rv = [&](const Ty &t) -> uint64_t { uint64_t x = mix(seed = mix(seed + 0x9e37)); if (t.kind == 1) return x & 1; if (t.kind == 2) { float f = (float) (int32_t) (x & 0xfffff); uint32_t y; memcpy(&y, &f, 4); return y; } if (t.kind == 3) { double d = (double) (x & 0xffffffffffull); uint64_t y; memcpy(&y, &d, 8); return y; } return t.size == 8 ? x : x & ((1ull << (8 * t.size)) - 1); };
		std::vector<std::vector<uint64_t>> rvals(P.size());
		for (size_t i = 0; i < P.size(); i++) { Op &o = P[i]; if (!is_ev(o.k) || is_wr(o.k)) continue; const Ty &t = *vt[o.v]; for (unsigned j = 0; j < o.n; j++) { uint64_t x = rv(t); if (o.k == SPIN) x = j + 1 == o.n ? o.val : (x == o.val ? x ^ 1 : x); if (o.k == CTRL && !x) x = 1; rvals[i].push_back(x); script[o.v].push_back(x); } }
		static unsigned long long R[128]; memset(R, 0, sizeof R); struct sigaction sa = {}, o1, o2; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sa.sa_sigaction = on_segv; sigaction(SIGSEGV, &sa, &o1); sa.sa_sigaction = on_trap; sigaction(SIGTRAP, &sa, &o2);
		mprotect(W, WLEN, PROT_NONE); fn(W, R); mprotect(W, WLEN, PROT_READ | PROT_WRITE); sigaction(SIGSEGV, &o1, nullptr); sigaction(SIGTRAP, &o2, nullptr);
		PBT_CHECK(c, !over, "more accesses than the program makes");
		// match events with operations
		for (int e = 0; e < NEV; e++) PBT_CHECK(c, LOG[e].v >= 0, "an access touches bytes outside every variable");
		for (unsigned v = 0; v < NA; v++) for (int wr = 0; wr < 2; wr++) { std::vector<int> ev; for (int e = 0; e < NEV; e++) if (LOG[e].v == (int) v && LOG[e].wr == (bool) wr) ev.push_back(e); size_t need = 0; for (auto &o : P) if (is_ev(o.k) && o.v == v && is_wr(o.k) == (bool) wr) need += o.n;
			PBT_CHECK(c, ev.size() == need, "variable v%u (%s) was %s %zu times, the program does it %zu times", v, vt[v]->name, wr ? "written" : "read", ev.size(), need); size_t at = 0; for (auto &o : P) if (is_ev(o.k) && o.v == v && is_wr(o.k) == (bool) wr) { o.first = ev[at]; at += o.n; o.last = ev[at - 1]; } }
		for (size_t i = 0; i < P.size(); i++) { auto &o = P[i]; const Ty *t = is_ev(o.k) ? vt[o.v] : nullptr; std::string nm = t ? t->name : "";
			if (o.k == RD || o.k == LA) { uint64_t x = o.wide ? widen(*t, rvals[i][0]) : rvals[i][0]; PBT_CHECK(c, R[o.slot] == x, "operation %zu: reading a %s returned 0x%llx, memory held 0x%llx", i, nm.c_str(), R[o.slot], (unsigned long long) x); }
			if (o.k == LOOP) { uint64_t x = 0; for (auto y : rvals[i]) x += widen(*t, y); PBT_CHECK(c, R[o.slot] == x, "operation %zu: repeated reads of a %s returned a wrong sum", i, nm.c_str()); }
			if (is_wr(o.k) && is_ev(o.k)) PBT_CHECK(c, LOG[o.first].after == o.val, "operation %zu: storing 0x%llx to a %s left 0x%llx", i, (unsigned long long) o.val, nm.c_str(), (unsigned long long) LOG[o.first].after);
			if (is_ev(o.k) && o.k != CTRL && o.side >= 0) PBT_CHECK(c, R[o.side] == (o.k == VOIDRD ? 0 : 1), "operation %zu: an argument was evaluated %llu times", i, R[o.side]);
			if (o.k == CTRL) { uint64_t x = R[o.slot] ; PBT_CHECK(c, x >= (uint64_t) o.last + 1, "operation %zu: a read after an acquire control dependency saw a value older than the acquire (version %llu, acquire at %d)", i, (unsigned long long) x, o.last + 1); } }
		for (size_t i = 0; i < P.size(); i++) for (size_t j = i + 1; j < P.size(); j++) { auto &a = P[i], &z = P[j]; if (is_bar(a.k) || is_bar(z.k) || !ordered(P, i, j)) continue;
			if (is_ev(a.k) && is_ev(z.k)) PBT_CHECK(c, a.last < z.first, "operation %zu was performed after operation %zu", i, j);
			else if (a.k == PS && is_ev(z.k)) PBT_CHECK(c, LOG[z.first].snap[a.v] >= (uint64_t) a.ver, "the plain store of operation %zu was not visible when operation %zu was performed", i, j);
			else if (is_ev(a.k) && z.k == PS) PBT_CHECK(c, LOG[a.last].snap[z.v] < (uint64_t) z.ver, "the plain store of operation %zu was visible before operation %zu was performed", j, i);
			else if (a.k == PL && is_ev(z.k)) PBT_CHECK(c, R[a.slot] <= (uint64_t) z.first, "the plain read of operation %zu was performed after operation %zu", i, j);
			else if (is_ev(a.k) && z.k == PL) PBT_CHECK(c, R[z.slot] >= (uint64_t) a.last + 1, "the plain read of operation %zu was performed before operation %zu", j, i); }
		// neighbours intact, final plain values
		for (size_t o = 0; o < 4096; o++) { bool in = o >= 64 && (o - 64) / 128 < NV && (o - 64) % 128 < vsize[(o - 64) / 128]; if (!in) PBT_CHECK(c, (uint8_t) W[o] == 0xee, "a byte next to a variable was modified (offset %zu)", o); }
		for (unsigned q = 0; q < NS; q++) PBT_CHECK(c, peek(NA + NL + q) == (uint64_t) ver[q], "a plain store was lost");
	}
	unsigned pl = 0, sync = 0; for (auto &o : P) { if (o.k == PL || o.k == PS) pl++; if (o.k == LA || o.k == SR || is_bar(o.k)) sync++; } if (pl && sync) { c.nontrivial(); c.label("programs mixing plain and ordered accesses"); } c.labelf(1, "%s", CC[cc].cc); c.labelf(1, "%s", opt);
}

// Store buffering on the real hardware: the full barrier must forbid both threads reading the old value.
struct alignas(128) Line { volatile long x; char pad[120]; };
struct SB { Line x, y, a, b, junk[16]; volatile long stop; volatile long r0, r1; volatile long turn0, turn1; long iters; };
static void litmus(Ctx &c) {
	unsigned cc = (unsigned) c.weighted({4, 4, 1, 1}); const char *opt = OPT[c.below(5)]; bool cxx = CC[cc].cxx; unsigned junk = (unsigned) c.below(9); bool rel = c.coin(), acq = c.coin(); unsigned d0 = (unsigned) c.below(30), d1 = (unsigned) c.below(30);
	std::string s = "#include <rseq/rseq.h>\n"; if (cxx) s += "extern \"C\" {\n"; char b[800]; std::string j; for (unsigned i = 0; i < junk; i++) { snprintf(b, sizeof b, "\tRSEQ_WRITE_ONCE(j[%u], v);\n", i * 16); j += b; }
	snprintf(b, sizeof b, "long sb(long *mine, long *other, long v, long *j) {\n%s\t%s;\n\trseq_smp_mb();\n\treturn %s;\n}\n", j.c_str(), rel ? "rseq_smp_store_release(mine, v)" : "RSEQ_WRITE_ONCE(*mine, v)", acq ? "rseq_smp_load_acquire(other)" : "RSEQ_READ_ONCE(*other)"); s += b; if (cxx) s += "}\n";
	c.note("%s %s, two threads on different CPUs:\n%s", CC[cc].cc, opt, b); Built bt; build(c, bt, s, cc, opt); static long (*sb)(long *, long *, long, long *); sb = (long (*)(long *, long *, long, long *)) dlsym(bt.h, "sb"); PBT_CHECK(c, sb, "symbol missing");
	static SB *m; if (!m) m = (SB *) mmap(nullptr, sizeof(SB) + 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void *) m, 0, sizeof *m); m->iters = 4000;
	struct Arg { int who; unsigned d; long done; long *res; }; static std::vector<long> res[2]; res[0].assign(m->iters, -1); res[1].assign(m->iters, -1);
	auto body = [](void *p) -> void * { Arg *a = (Arg *) p; uint64_t t0 = now_ns(); long n = m->iters; long *mine = (long *) (a->who ? &m->y.x : &m->x.x), *other = (long *) (a->who ? &m->x.x : &m->y.x); static Line jk[2][20]; uint64_t rs = 88172645463325252ull + a->who;
		for (long i = 1; i <= n; i++) { __atomic_store_n(a->who ? &m->b.x : &m->a.x, i, __ATOMIC_SEQ_CST); unsigned sp = 0; while (__atomic_load_n(a->who ? &m->a.x : &m->b.x, __ATOMIC_ACQUIRE) < i) { if (++sp > 2000) { sched_yield(); if (now_ns() - t0 > 80000000ull || m->stop) { m->stop = 1; return nullptr; } } }
			rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; for (unsigned k = 0; k < (a->d ? rs % a->d : 0); k++) __asm__ volatile("pause" ::: "memory"); long r = sb(mine, other, i, (long *) jk[a->who]); res[a->who][i - 1] = r; a->done = i; }
		return nullptr; };
	Arg A0 = {0, d0, 0, nullptr}, A1 = {1, d1, 0, nullptr}; cpu_set_t all; sched_getaffinity(0, sizeof all, &all); int cpus[2], nc = 0; unsigned skip = (unsigned) c.below(8); std::vector<int> av; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all)) av.push_back(i); for (unsigned i = 0; i < av.size() && nc < 2; i++) cpus[nc++] = av[(i * (1 + skip % 3) + skip) % av.size()]; if (nc < 2 || cpus[0] == cpus[1]) { c.label("litmus without two CPUs"); return; }
	pthread_t t0, t1; pthread_create(&t0, nullptr, body, &A0); pthread_create(&t1, nullptr, body, &A1); cpu_set_t s1; CPU_ZERO(&s1); CPU_SET(cpus[0], &s1); pthread_setaffinity_np(t0, sizeof s1, &s1); CPU_ZERO(&s1); CPU_SET(cpus[1], &s1); pthread_setaffinity_np(t1, sizeof s1, &s1); pthread_join(t0, nullptr); pthread_join(t1, nullptr);
	long n = std::min(A0.done, A1.done), both = 0, mixed = 0; for (long i = 0; i < n; i++) { bool o0 = res[0][i] < i + 1, o1 = res[1][i] < i + 1; if (o0 && o1) both++; if (o0 != o1) mixed++; }
	PBT_CHECK(c, both == 0, "in %ld of %ld rounds both threads stored, executed the full barrier, and read the value from before the other's store", both, n);
	c.label("litmus rounds", n); c.label("litmus rounds with interesting overlap", mixed); if (n > 500) c.nontrivial();
}
static void C23(Ctx &c) { if (c.chance(1, 6)) litmus(c); else program(c); }
int main(int argc, char **argv) {
	std::vector<Property> P = {
		{"C23", "case = a generated straight-line program of once-only, acquire, release, barrier and plain accesses over 8 typed variables, compiled by a generated compiler and level and executed with every shared access trapped (order, count, value), or a store-buffering litmus run on two CPUs; non-trivial = mixes plain and ordered accesses, or a litmus run of >500 rounds", C23, 1400, 60000, 20, 40},
	};
	return main_(argc, argv, P);
}
