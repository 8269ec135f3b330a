// Interpreters for the user-mode integer subset of the other 64-bit
// architectures that compilers emit around the helpers.  Every decoder throws
// Unsupported for anything it does not know exactly; such a run decides nothing.
#pragma once
#include <stdint.h>
#include <string.h>
#include <vector>
#include <string>

namespace xisa {
struct Unsupported { uint64_t pc; uint64_t w; };
struct Fault { uint64_t pc, addr; const char *why; };
enum { RR = 1, RW = 2, WR = 4, WW = 8, ALL = 15 };
enum { LD, ST, BAR };
struct Acc { uint8_t kind, size, mask; bool sync; uint64_t pc, addr, val; size_t insn; };
struct Seg { uint64_t base; size_t len; uint8_t *p; bool w; };

static inline int64_t sx(uint64_t v, int bits) { return (int64_t) (v << (64 - bits)) >> (64 - bits); }

struct Mach {
	std::vector<Seg> seg; bool be = false, tso = false; uint64_t pc = 0; std::vector<Acc> *log = nullptr; size_t n = 0;
	uint64_t ipc = 0; // address of the instruction being executed
	uint8_t *at(uint64_t a, size_t len, bool w) { for (auto &s : seg) if (a >= s.base && a - s.base + len <= s.len && a - s.base < s.len) { if (w && !s.w) break; return s.p + (a - s.base); } throw Fault{ipc, a, w ? "write to memory it must not write" : "read of unmapped memory"}; }
	static uint64_t get(const uint8_t *p, size_t n, bool be) { uint64_t v = 0; for (size_t i = 0; i < n; i++) v |= (uint64_t) p[be ? n - 1 - i : i] << (8 * i); return v; }
	static void put(uint8_t *p, size_t n, uint64_t v, bool be) { for (size_t i = 0; i < n; i++) p[be ? n - 1 - i : i] = (uint8_t) (v >> (8 * i)); }
	uint64_t peek(uint64_t a, size_t n) { return get(at(a, n, false), n, be); }
	void poke(uint64_t a, size_t n, uint64_t v) { put(at(a, n, false), n, v, be); }
	uint64_t ld(uint64_t a, size_t n, bool sync = false) { uint64_t v = get(at(a, n, false), n, be); if (log) log->push_back({LD, (uint8_t) n, 0, sync, ipc, a, v, this->n}); return v; }
	void st(uint64_t a, size_t n, uint64_t v, bool sync = false) { put(at(a, n, true), n, v, be); if (log) log->push_back({ST, (uint8_t) n, 0, sync, ipc, a, v, this->n}); }
	void bar(int m) { if (log) log->push_back({BAR, 0, (uint8_t) m, false, ipc, 0, 0, this->n}); }
	uint32_t code32(bool b) { return (uint32_t) get(at(pc, 4, false), 4, b); }
	[[noreturn]] void uns(uint64_t w) { throw Unsupported{ipc, w}; }
	[[noreturn]] void trap() { throw Fault{ipc, ipc, "executed a trapping instruction"}; }
	virtual ~Mach() {}
	void step() { ipc = pc; n++; exec(); }
	virtual void exec() = 0;
	virtual void enter(uint64_t fn, uint64_t arg, uint64_t sp, uint64_t ret) = 0;
	virtual void set_tp(uint64_t) = 0;
	virtual uint64_t ret() = 0;
	virtual std::vector<uint64_t> save() = 0;
	virtual void restore(const std::vector<uint64_t> &) = 0;
	virtual const char *saved_damage() = 0; // callee-saved state after a return
	uint64_t toc = 0;
	static uint64_t pat(int i) { return 0x5ca1ab1e00000000ull * 1 + 0x1111u * (unsigned) i + ((uint64_t) i << 56); }
	std::string dmg;
	const char *bad(const char *nm, int i) { dmg = std::string("callee-saved register ") + nm + std::to_string(i) + " was not preserved"; return dmg.c_str(); }
};

// ------------------------------------------------------------------ AArch64
struct A64 : Mach {
	uint64_t x[32] = {}, sp = 0, tp = 0; uint8_t v[32][16] = {}; bool N = 0, Z = 0, C = 0, V = 0; uint64_t sp0 = 0;
	uint64_t R(int i) { return i == 31 ? 0 : x[i]; } uint64_t RS(int i) { return i == 31 ? sp : x[i]; }
	void W(int i, uint64_t q, bool sf = true) { if (i != 31) x[i] = sf ? q : (uint32_t) q; } void WS(int i, uint64_t q, bool sf = true) { if (!sf) q = (uint32_t) q; if (i == 31) sp = q; else x[i] = q; }
	bool cond(int c) { bool r; switch (c >> 1) { case 0: r = Z; break; case 1: r = C; break; case 2: r = N; break; case 3: r = V; break; case 4: r = C && !Z; break; case 5: r = N == V; break; case 6: r = N == V && !Z; break; default: return true; } return (c & 1) ? !r : r; }
	uint64_t addc(uint64_t a, uint64_t b, int ci, bool sf, bool S) {
		if (sf) { unsigned __int128 u = (unsigned __int128) a + b + ci; uint64_t r = (uint64_t) u; if (S) { N = r >> 63; Z = !r; C = (u >> 64) & 1; V = ((a ^ r) & (b ^ r)) >> 63; } return r; }
		uint64_t u = (uint64_t) (uint32_t) a + (uint32_t) b + ci; uint32_t r = (uint32_t) u; if (S) { N = r >> 31; Z = !r; C = u >> 32 & 1; V = (((uint32_t) a ^ r) & ((uint32_t) b ^ r)) >> 31; } return r; }
	static uint64_t shift(uint64_t q, int ty, int am, bool sf) { if (!sf) q = (uint32_t) q; int b = sf ? 64 : 32; if (!am) return q; switch (ty) { case 0: q <<= am; break; case 1: q >>= am; break; case 2: q = sf ? (uint64_t) ((int64_t) q >> am) : (uint32_t) ((int32_t) q >> am); break; default: q = q >> am | q << (b - am); } return sf ? q : (uint32_t) q; }
	static uint64_t extend(uint64_t q, int o) { switch (o) { case 0: return (uint8_t) q; case 1: return (uint16_t) q; case 2: return (uint32_t) q; case 3: return q; case 4: return (uint64_t) (int8_t) q; case 5: return (uint64_t) (int16_t) q; case 6: return (uint64_t) (int32_t) q; default: return q; } }
	bool bitmask(int n, int imms, int immr, bool sf, uint64_t &out, uint64_t *tm = nullptr) { (void) tm; int len = -1; unsigned q = (unsigned) n << 6 | (~imms & 63); for (int i = 6; i >= 0; i--) if (q >> i & 1) { len = i; break; } if (len < 1) return false; int e = 1 << len, lv = e - 1, s = imms & lv, r = immr & lv; if (s == lv) return false; uint64_t w = (2ull << s) - 1; if (s == 63) w = ~0ull; if (r) { w = w >> r | w << (e - r); } if (e < 64) w &= (1ull << e) - 1; uint64_t o = 0; for (int i = 0; i < 64; i += e) o |= w << i; out = sf ? o : (uint32_t) o; return true; }
	void exec() override {
		uint32_t w = code32(false); uint64_t next = pc + 4; int rd = w & 31, rn = w >> 5 & 31, rm = w >> 16 & 31; bool sf = w >> 31;
		if ((w & 0x1f000000) == 0x10000000) { int64_t im = sx((w >> 5 & 0x7ffff) << 2 | (w >> 29 & 3), 21); W(rd, sf ? (pc & ~0xfffull) + (uint64_t) (im * 4096) : pc + (uint64_t) im); }
		else if ((w & 0x1f800000) == 0x11000000) { uint64_t im = w >> 10 & 0xfff; if (w >> 22 & 1) im <<= 12; bool S = w >> 29 & 1, sub = w >> 30 & 1; uint64_t r = sub ? addc(RS(rn), ~im, 1, sf, S) : addc(RS(rn), im, 0, sf, S); if (S) W(rd, r, sf); else WS(rd, r, sf); }
		else if ((w & 0x1f800000) == 0x12000000) { uint64_t im; if (!bitmask(w >> 22 & 1, w >> 10 & 63, w >> 16 & 63, sf, im)) uns(w); uint64_t a = R(rn), r; int o = w >> 29 & 3; r = o == 1 ? a | im : o == 2 ? a ^ im : a & im; if (!sf) r = (uint32_t) r; if (o == 3) { N = sf ? r >> 63 : r >> 31; Z = !r; C = V = 0; W(rd, r, sf); } else WS(rd, r, sf); }
		else if ((w & 0x1f800000) == 0x12800000) { int o = w >> 29 & 3, hw = w >> 21 & 3; uint64_t im = (uint64_t) (w >> 5 & 0xffff) << (16 * hw); if (o == 0) W(rd, ~im, sf); else if (o == 2) W(rd, im, sf); else if (o == 3) W(rd, (R(rd) & ~(0xffffull << (16 * hw))) | im, sf); else uns(w); }
		else if ((w & 0x1f800000) == 0x13000000) { int o = w >> 29 & 3, r = w >> 16 & 63, s = w >> 10 & 63, b = sf ? 64 : 32; uint64_t a = R(rn); if (!sf) a = (uint32_t) a; if (r >= b || s >= b) uns(w); uint64_t res, d = R(rd);
			if (s >= r) { int len = s - r + 1; uint64_t m = len == 64 ? ~0ull : (1ull << len) - 1; uint64_t f = a >> r & m; if (o == 0) res = (uint64_t) sx(f, len); else if (o == 2) res = f; else if (o == 1) res = (d & ~m) | f; else uns(w); }
			else { int len = s + 1, pos = b - r; uint64_t m = len == 64 ? ~0ull : (1ull << len) - 1; uint64_t f = a & m; if (o == 0) res = (uint64_t) sx(f, len) << pos; else if (o == 2) res = f << pos; else if (o == 1) res = (d & ~(m << pos)) | f << pos; else uns(w); }
			W(rd, res, sf); }
		else if ((w & 0x1f000000) == 0x0a000000) { uint64_t b = shift(R(rm), w >> 22 & 3, w >> 10 & 63, sf), a = R(rn), r; if (w >> 21 & 1) b = ~b; int o = w >> 29 & 3; r = o == 1 ? a | b : o == 2 ? a ^ b : a & b; if (!sf) r = (uint32_t) r; if (o == 3) { N = sf ? r >> 63 : r >> 31; Z = !r; C = V = 0; } W(rd, r, sf); }
		else if ((w & 0x1f200000) == 0x0b000000) { if ((w >> 22 & 3) == 3) uns(w); uint64_t b = shift(R(rm), w >> 22 & 3, w >> 10 & 63, sf); bool S = w >> 29 & 1, sub = w >> 30 & 1; W(rd, sub ? addc(R(rn), ~b, 1, sf, S) : addc(R(rn), b, 0, sf, S), sf); }
		else if ((w & 0x1fe00000) == 0x0b200000) { uint64_t b = extend(R(rm), w >> 13 & 7) << (w >> 10 & 7); bool S = w >> 29 & 1, sub = w >> 30 & 1; uint64_t r = sub ? addc(RS(rn), ~b, 1, sf, S) : addc(RS(rn), b, 0, sf, S); if (S) W(rd, r, sf); else WS(rd, r, sf); }
		else if ((w & 0x3fe00000) == 0x1a800000) { bool c = cond(w >> 12 & 15); uint64_t b = R(rm); if (!c) { if (w >> 30 & 1) b = ~b; if (w >> 10 & 1) b++; } W(rd, c ? R(rn) : b, sf); if (w >> 11 & 1) uns(w); }
		else if ((w & 0x3fe00000) == 0x3a400000) { if (cond(w >> 12 & 15)) { uint64_t b = (w >> 11 & 1) ? (uint64_t) rm : R(rm); if (w >> 30 & 1) addc(R(rn), ~b, 1, sf, true); else addc(R(rn), b, 0, sf, true); } else { N = w >> 3 & 1; Z = w >> 2 & 1; C = w >> 1 & 1; V = w & 1; } }
		else if ((w & 0x7fe0f000) == 0x1ac02000) { int ty = w >> 10 & 3; W(rd, shift(R(rn), ty, (int) (R(rm) & (sf ? 63 : 31)), sf), sf); }
		else if ((w & 0x7fe00000) == 0x1b000000) { uint64_t p = R(rn) * R(rm), a = R(w >> 10 & 31); W(rd, (w >> 15 & 1) ? a - p : a + p, sf); }
		else if ((w & 0x7e000000) == 0x34000000) { uint64_t q = R(rd); if (!sf) q = (uint32_t) q; if ((q != 0) == (w >> 24 & 1)) next = pc + (uint64_t) (sx(w >> 5 & 0x7ffff, 19) * 4); }
		else if ((w & 0x7e000000) == 0x36000000) { int b = (w >> 31) << 5 | (w >> 19 & 31); if ((R(rd) >> b & 1) == (w >> 24 & 1)) next = pc + (uint64_t) (sx(w >> 5 & 0x3fff, 14) * 4); }
		else if ((w & 0x7c000000) == 0x14000000) { if (sf) x[30] = pc + 4; next = pc + (uint64_t) (sx(w & 0x3ffffff, 26) * 4); }
		else if ((w & 0xff000010) == 0x54000000) { if (cond(w & 15)) next = pc + (uint64_t) (sx(w >> 5 & 0x7ffff, 19) * 4); }
		else if ((w & 0xfffffc1f) == 0xd61f0000 || (w & 0xfffffc1f) == 0xd65f0000) next = R(rn);
		else if ((w & 0xfffffc1f) == 0xd63f0000) { next = R(rn); x[30] = pc + 4; }
		else if ((w & 0xfffff01f) == 0xd503201f) { }
		else if ((w & 0xfffff0ff) == 0xd50330bf || (w & 0xfffff0ff) == 0xd503309f) { int m = w >> 8 & 15, k = m & 3, dom = m >> 2; if (dom == 1) { } else bar(k == 3 ? ALL : k == 1 ? RR | RW : k == 2 ? WW : 0); }
		else if ((w & 0xfffff0ff) == 0xd50330df) bar(RR | RW);
		else if ((w & 0xffffffe0) == 0xd53bd040) W(rd, tp);
		else if ((w & 0xffe0001f) == 0xd4200000) trap();
		else if ((w & 0x3ffffc00) == 0x08dffc00) { int s = 1 << (w >> 30); W(rd, ld(RS(rn), s, true)); }
		else if ((w & 0x3ffffc00) == 0x38bfc000) { int s = 1 << (w >> 30); W(rd, ld(RS(rn), s, true)); }
		else if ((w & 0x3ffffc00) == 0x089ffc00) { int s = 1 << (w >> 30); st(RS(rn), s, R(rd), true); }
		else if ((w & 0x3a000000) == 0x28000000) { bool vv = w >> 26 & 1, L = w >> 22 & 1; int o = w >> 30, mode = w >> 23 & 3, rt2 = w >> 10 & 31; int s = vv ? 4 << o : (o & 2) ? 8 : 4; if (o == 3 || (!vv && o == 1 && !L)) uns(w); int64_t im = sx(w >> 15 & 127, 7) * s; uint64_t b = RS(rn), a = mode == 1 ? b : b + (uint64_t) im;
			if (vv) { for (int k = 0; k < 2; k++) { int r = k ? rt2 : rd; if (L) vld(r, a + k * s, s); else vst(r, a + k * s, s); } }
			else if (L) { uint64_t p = ld(a, s), q = ld(a + s, s); if (o == 1) { p = (uint64_t) sx(p, 32); q = (uint64_t) sx(q, 32); } W(rd, p); W(rt2, q); } else { st(a, s, R(rd)); st(a + s, s, R(rt2)); }
			if (mode == 1 || mode == 3) WS(rn, b + (uint64_t) im); }
		else if ((w & 0x3b000000) == 0x39000000) { int s = w >> 30; bool vv = w >> 26 & 1; int o = w >> 22 & 3; if (vv && (o & 2)) s = 4; mem(w, vv, o, s, RS(rn) + ((uint64_t) (w >> 10 & 0xfff) << s)); }
		else if ((w & 0x3b200000) == 0x38000000) { int s = w >> 30; bool vv = w >> 26 & 1; int o = w >> 22 & 3, mode = w >> 10 & 3; if (vv && (o & 2)) s = 4; if (mode == 2) uns(w); int64_t im = sx(w >> 12 & 0x1ff, 9); uint64_t b = RS(rn); if (mode == 1) { mem(w, vv, o, s, b); WS(rn, b + (uint64_t) im); } else { mem(w, vv, o, s, b + (uint64_t) im); if (mode == 3) WS(rn, b + (uint64_t) im); } }
		else if ((w & 0x3b200c00) == 0x38200800) { int s = w >> 30; bool vv = w >> 26 & 1; int o = w >> 22 & 3, ex = w >> 13 & 7; if (vv && (o & 2)) s = 4; if (!(ex & 2)) uns(w); mem(w, vv, o, s, RS(rn) + (extend(R(rm), ex) << ((w >> 12 & 1) ? s : 0))); }
		else if ((w & 0xbf000000) == 0x18000000) { uint64_t a = pc + (uint64_t) (sx(w >> 5 & 0x7ffff, 19) * 4); W(rd, ld(a, (w >> 30 & 1) ? 8 : 4)); }
		else if ((w & 0xffffffe0) == 0x6f00e400 || (w & 0xffffffe0) == 0x2f00e400) memset(v[rd], 0, 16);
		else uns(w);
		pc = next;
	}
	void vld(int r, uint64_t a, int s) { memset(v[r], 0, 16); memcpy(v[r], at(a, s, false), s); if (log) log->push_back({LD, (uint8_t) s, 0, false, ipc, a, 0, n}); }
	void vst(int r, uint64_t a, int s) { memcpy(at(a, s, true), v[r], s); if (log) log->push_back({ST, (uint8_t) s, 0, false, ipc, a, 0, n}); }
	void mem(uint32_t w, bool vv, int o, int s, uint64_t a) { int rt = w & 31, b = 1 << s; if (vv) { if (o & 1) vld(rt, a, b); else vst(rt, a, b); return; } if (o == 0) st(a, b, R(rt)); else if (o == 1) W(rt, ld(a, b)); else { if (s == 3) { if (o == 2) return; uns(w); } int64_t q = sx(ld(a, b), 8 * b); W(rt, (uint64_t) q, o == 2); } }
	void enter(uint64_t fn, uint64_t arg, uint64_t s, uint64_t r) override { for (int i = 0; i < 31; i++) x[i] = pat(i); x[0] = arg; x[30] = r; sp = sp0 = s; pc = fn; }
	void set_tp(uint64_t t) override { tp = t; }
	uint64_t ret() override { return x[0]; }
	std::vector<uint64_t> save() override { std::vector<uint64_t> q(x, x + 32); q.push_back(sp); q.push_back(pc); q.push_back(N | Z << 1 | C << 2 | V << 3); q.push_back(sp0); for (auto &i : v) { uint64_t t[2]; memcpy(t, i, 16); q.push_back(t[0]); q.push_back(t[1]); } return q; }
	void restore(const std::vector<uint64_t> &q) override { for (int i = 0; i < 32; i++) x[i] = q[i]; sp = q[32]; pc = q[33]; N = q[34] & 1; Z = q[34] >> 1 & 1; C = q[34] >> 2 & 1; V = q[34] >> 3 & 1; sp0 = q[35]; for (int i = 0; i < 32; i++) memcpy(v[i], &q[36 + 2 * i], 16); }
	const char *saved_damage() override { for (int i = 19; i <= 29; i++) if (x[i] != pat(i)) return bad("x", i); return sp != sp0 ? "the stack pointer was not preserved" : nullptr; }
};

// ------------------------------------------------------------------ RISC-V (RV64IMC)
struct RV : Mach {
	uint64_t x[32] = {}, sp0 = 0;
	void W(int i, uint64_t q) { if (i) x[i] = q; }
	void branch(int f, uint64_t a, uint64_t b, uint64_t t, uint64_t &next, uint32_t w) { bool k; switch (f) { case 0: k = a == b; break; case 1: k = a != b; break; case 4: k = (int64_t) a < (int64_t) b; break; case 5: k = (int64_t) a >= (int64_t) b; break; case 6: k = a < b; break; case 7: k = a >= b; break; default: uns(w); } if (k) next = t; }
	void exec() override {
		uint32_t h = (uint32_t) get(at(pc, 2, false), 2, false);
		if ((h & 3) != 3) { comp(h); return; }
		uint32_t w = code32(false); uint64_t next = pc + 4; int op = w & 127, rd = w >> 7 & 31, f3 = w >> 12 & 7, r1 = w >> 15 & 31, r2 = w >> 20 & 31, f7 = w >> 25; uint64_t a = x[r1], b = x[r2]; int64_t I = sx(w >> 20, 12);
		switch (op) {
		case 0x37: W(rd, (uint64_t) (int64_t) (int32_t) (w & 0xfffff000)); break;
		case 0x17: W(rd, pc + (uint64_t) (int64_t) (int32_t) (w & 0xfffff000)); break;
		case 0x6f: { int64_t im = sx((w >> 31) << 20 | (w >> 12 & 255) << 12 | (w >> 20 & 1) << 11 | (w >> 21 & 1023) << 1, 21); W(rd, pc + 4); next = pc + (uint64_t) im; break; }
		case 0x67: if (f3) uns(w); next = (a + (uint64_t) I) & ~1ull; W(rd, pc + 4); break;
		case 0x63: branch(f3, a, b, pc + (uint64_t) sx((w >> 31) << 12 | (w >> 7 & 1) << 11 | (w >> 25 & 63) << 5 | (w >> 8 & 15) << 1, 13), next, w); break;
		case 0x03: { uint64_t t = a + (uint64_t) I; switch (f3) { case 0: W(rd, (uint64_t) sx(ld(t, 1), 8)); break; case 1: W(rd, (uint64_t) sx(ld(t, 2), 16)); break; case 2: W(rd, (uint64_t) sx(ld(t, 4), 32)); break; case 3: W(rd, ld(t, 8)); break; case 4: W(rd, ld(t, 1)); break; case 5: W(rd, ld(t, 2)); break; case 6: W(rd, ld(t, 4)); break; default: uns(w); } break; }
		case 0x23: { uint64_t t = a + (uint64_t) sx((w >> 25) << 5 | (w >> 7 & 31), 12); if (f3 > 3) uns(w); st(t, 1 << f3, b); break; }
		case 0x13: { int sh = w >> 20 & 63; switch (f3) { case 0: W(rd, a + (uint64_t) I); break; case 1: if (w >> 26) uns(w); W(rd, a << sh); break; case 2: W(rd, (int64_t) a < I); break; case 3: W(rd, a < (uint64_t) I); break; case 4: W(rd, a ^ (uint64_t) I); break; case 5: if ((w >> 26) == 0) W(rd, a >> sh); else if ((w >> 26) == 16) W(rd, (uint64_t) ((int64_t) a >> sh)); else uns(w); break; case 6: W(rd, a | (uint64_t) I); break; case 7: W(rd, a & (uint64_t) I); break; } break; }
		case 0x1b: { int sh = w >> 20 & 31; if (f3 == 0) W(rd, (uint64_t) (int64_t) (int32_t) (a + (uint64_t) I)); else if (f3 == 1 && f7 == 0) W(rd, (uint64_t) (int64_t) (int32_t) ((uint32_t) a << sh)); else if (f3 == 5 && f7 == 0) W(rd, (uint64_t) (int64_t) (int32_t) ((uint32_t) a >> sh)); else if (f3 == 5 && f7 == 32) W(rd, (uint64_t) (int64_t) ((int32_t) a >> sh)); else uns(w); break; }
		case 0x33: { if (f7 == 1) { if (f3 == 0) { W(rd, a * b); break; } uns(w); } if (f7 != 0 && !(f7 == 32 && (f3 == 0 || f3 == 5))) uns(w); switch (f3) { case 0: W(rd, f7 ? a - b : a + b); break; case 1: W(rd, a << (b & 63)); break; case 2: W(rd, (int64_t) a < (int64_t) b); break; case 3: W(rd, a < b); break; case 4: W(rd, a ^ b); break; case 5: W(rd, f7 ? (uint64_t) ((int64_t) a >> (b & 63)) : a >> (b & 63)); break; case 6: W(rd, a | b); break; case 7: W(rd, a & b); break; } break; }
		case 0x3b: { uint32_t r; if (f3 == 0 && f7 == 0) r = (uint32_t) (a + b); else if (f3 == 0 && f7 == 32) r = (uint32_t) (a - b); else if (f3 == 0 && f7 == 1) r = (uint32_t) (a * b); else if (f3 == 1 && f7 == 0) r = (uint32_t) a << (b & 31); else if (f3 == 5 && f7 == 0) r = (uint32_t) a >> (b & 31); else if (f3 == 5 && f7 == 32) r = (uint32_t) ((int32_t) a >> (b & 31)); else uns(w); W(rd, (uint64_t) (int64_t) (int32_t) r); break; }
		case 0x0f: if (f3 == 0) { int p = w >> 24 & 15, s = w >> 20 & 15; bool pr = p & 2, pw = p & 1, sr = s & 2, sw = s & 1; int m = (pr && sr ? RR : 0) | (pr && sw ? RW : 0) | (pw && sr ? WR : 0) | (pw && sw ? WW : 0); if ((w >> 28) == 8) m &= ~WR; bar(m); } else uns(w); break;
		case 0x73: if (w == 0x00100073 || w == 0xf1401073) trap(); uns(w);
		default: uns(w);
		}
		pc = next;
	}
	void comp(uint32_t h) {
		uint64_t next = pc + 2; int q = h & 3, f = h >> 13, rd = h >> 7 & 31, rs = h >> 2 & 31, p = (h >> 2 & 7) + 8, d = (h >> 7 & 7) + 8; int64_t im6 = sx((h >> 12 & 1) << 5 | (h >> 2 & 31), 6); if (!h) trap();
		uint64_t uw = (h >> 10 & 7) << 3 | (h >> 6 & 1) << 2 | (h >> 5 & 1) << 6, ud = (h >> 10 & 7) << 3 | (h >> 5 & 3) << 6;
		int64_t jo = sx((h >> 12 & 1) << 11 | (h >> 11 & 1) << 4 | (h >> 9 & 3) << 8 | (h >> 8 & 1) << 10 | (h >> 7 & 1) << 6 | (h >> 6 & 1) << 7 | (h >> 3 & 7) << 1 | (h >> 2 & 1) << 5, 12), bo = sx((h >> 12 & 1) << 8 | (h >> 10 & 3) << 3 | (h >> 5 & 3) << 6 | (h >> 3 & 3) << 1 | (h >> 2 & 1) << 5, 9);
		if (q == 0) switch (f) { case 0: { uint64_t im = (h >> 11 & 3) << 4 | (h >> 7 & 15) << 6 | (h >> 6 & 1) << 2 | (h >> 5 & 1) << 3; if (!im) uns(h); x[p] = x[2] + im; break; } case 2: x[p] = (uint64_t) sx(ld(x[d] + uw, 4), 32); break; case 3: x[p] = ld(x[d] + ud, 8); break; case 6: st(x[d] + uw, 4, x[p]); break; case 7: st(x[d] + ud, 8, x[p]); break; default: uns(h); }
		else if (q == 1) switch (f) {
			case 0: W(rd, x[rd] + (uint64_t) im6); break; case 1: if (!rd) uns(h); x[rd] = (uint64_t) (int64_t) (int32_t) (x[rd] + (uint64_t) im6); break; case 2: W(rd, (uint64_t) im6); break;
			case 3: if (rd == 2) { int64_t im = sx((h >> 12 & 1) << 9 | (h >> 6 & 1) << 4 | (h >> 5 & 1) << 6 | (h >> 3 & 3) << 7 | (h >> 2 & 1) << 5, 10); x[2] += (uint64_t) im; } else W(rd, (uint64_t) (im6 * 4096)); break;
			case 4: { int k = h >> 10 & 3, sh = (h >> 12 & 1) << 5 | (h >> 2 & 31); if (k == 0) x[d] >>= sh; else if (k == 1) x[d] = (uint64_t) ((int64_t) x[d] >> sh); else if (k == 2) x[d] &= (uint64_t) im6; else { int z = (h >> 12 & 1) << 2 | (h >> 5 & 3); switch (z) { case 0: x[d] -= x[p]; break; case 1: x[d] ^= x[p]; break; case 2: x[d] |= x[p]; break; case 3: x[d] &= x[p]; break; case 4: x[d] = (uint64_t) (int64_t) (int32_t) (x[d] - x[p]); break; case 5: x[d] = (uint64_t) (int64_t) (int32_t) (x[d] + x[p]); break; default: uns(h); } } break; }
			case 5: next = pc + (uint64_t) jo; break; case 6: if (!x[d]) next = pc + (uint64_t) bo; break; default: if (x[d]) next = pc + (uint64_t) bo; break; }
		else switch (f) {
			case 0: W(rd, x[rd] << ((h >> 12 & 1) << 5 | (h >> 2 & 31))); break;
			case 2: W(rd, (uint64_t) sx(ld(x[2] + ((h >> 12 & 1) << 5 | (h >> 4 & 7) << 2 | (h >> 2 & 3) << 6), 4), 32)); break; case 3: W(rd, ld(x[2] + ((h >> 12 & 1) << 5 | (h >> 5 & 3) << 3 | (h >> 2 & 7) << 6), 8)); break;
			case 4: if (!(h >> 12 & 1)) { if (!rs) next = x[rd] & ~1ull; else W(rd, x[rs]); } else { if (!rd && !rs) trap(); if (!rs) { next = x[rd] & ~1ull; x[1] = pc + 2; } else W(rd, x[rd] + x[rs]); } break;
			case 6: st(x[2] + ((h >> 9 & 15) << 2 | (h >> 7 & 3) << 6), 4, x[rs]); break; case 7: st(x[2] + ((h >> 10 & 7) << 3 | (h >> 7 & 7) << 6), 8, x[rs]); break; default: uns(h); }
		pc = next;
	}
	uint64_t tp_ = 0;
	void enter(uint64_t fn, uint64_t arg, uint64_t s, uint64_t r) override { for (int i = 1; i < 32; i++) x[i] = pat(i); x[4] = tp_; x[3] = toc; x[10] = arg; x[1] = r; x[2] = sp0 = s; pc = fn; }
	void set_tp(uint64_t t) override { tp_ = t; }
	uint64_t ret() override { return x[10]; }
	std::vector<uint64_t> save() override { std::vector<uint64_t> q(x, x + 32); q.push_back(pc); q.push_back(sp0); return q; }
	void restore(const std::vector<uint64_t> &q) override { for (int i = 0; i < 32; i++) x[i] = q[i]; pc = q[32]; sp0 = q[33]; }
	const char *saved_damage() override { for (int i : {8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27}) if (x[i] != pat(i)) return bad("x", i); if (x[4] != tp_) return "the thread pointer was not preserved"; return x[2] != sp0 ? "the stack pointer was not preserved" : nullptr; }
};

// ------------------------------------------------------------------ PowerPC 64
struct PPC : Mach {
	uint64_t r[32] = {}, lr = 0, ctr = 0, sp0 = 0, tp_ = 0; uint32_t cr = 0; bool ca = 0;
	uint64_t sum(uint64_t a, uint64_t b, bool c) { uint64_t q = a + b, z = q + c; ca = q < a || z < q; return z; }
	void cmp(int f, int64_t a, int64_t b) { int v = a < b ? 8 : a > b ? 4 : 2; setcr(f, v); } void cmpu(int f, uint64_t a, uint64_t b) { int v = a < b ? 8 : a > b ? 4 : 2; setcr(f, v); }
	void setcr(int f, int v) { cr = (cr & ~(15u << (28 - 4 * f))) | (uint32_t) v << (28 - 4 * f); }
	bool bit(int i) { return cr >> (31 - i) & 1; } void setbit(int i, bool v) { cr = (cr & ~(1u << (31 - i))) | (uint32_t) v << (31 - i); }
	static uint64_t rotl(uint64_t v, int n) { return n ? v << n | v >> (64 - n) : v; }
	static uint64_t mask(int b, int e) { uint64_t m; if (b <= e) { m = (~0ull >> b) & (e == 63 ? ~0ull : ~0ull << (63 - e)); } else m = (~0ull >> b) | (~0ull << (63 - e)); return m; }
	void bc(int bo, int bi, uint64_t t, uint64_t &next) { bool ok = true; if (!(bo & 4)) { ctr--; ok = (ctr != 0) != ((bo >> 1) & 1); } if (!(bo & 16)) ok = ok && bit(bi) == (bo >> 3 & 1); if (ok) next = t; }
	void exec() override {
		uint32_t w = code32(be); uint64_t next = pc + 4; int op = w >> 26, D = w >> 21 & 31, A = w >> 16 & 31, B = w >> 11 & 31; int64_t si = sx(w & 0xffff, 16); uint64_t ui = w & 0xffff; bool rc = w & 1; uint64_t a0 = A ? r[A] : 0;
		auto dot = [&](uint64_t v) { if (rc) cmp(0, (int64_t) v, 0); };
		auto upd = [&](uint64_t ea) { if (!A) uns(w); r[A] = ea; };
		switch (op) {
		case 14: r[D] = a0 + (uint64_t) si; break; case 15: r[D] = a0 + (uint64_t) (si * 65536); break;
		case 12: case 13: { uint64_t s = r[A]; r[D] = s + (uint64_t) si; ca = r[D] < s; if (op == 13) cmp(0, (int64_t) r[D], 0); break; }
		case 8: { uint64_t s = r[A]; r[D] = (uint64_t) si - s; ca = (uint64_t) si >= s; break; } case 7: r[D] = r[A] * (uint64_t) si; break;
		case 24: r[A] = r[D] | ui; break; case 25: r[A] = r[D] | ui << 16; break; case 26: r[A] = r[D] ^ ui; break; case 27: r[A] = r[D] ^ ui << 16; break; case 28: r[A] = r[D] & ui; cmp(0, (int64_t) r[A], 0); break; case 29: r[A] = r[D] & ui << 16; cmp(0, (int64_t) r[A], 0); break;
		case 11: if (D & 1) cmp(D >> 2, (int64_t) r[A], si); else cmp(D >> 2, (int32_t) r[A], si); break; case 10: if (D & 1) cmpu(D >> 2, r[A], ui); else cmpu(D >> 2, (uint32_t) r[A], ui); break;
		case 18: { int64_t li = sx(w & 0x3fffffc, 26); if (w & 2) uns(w); next = pc + (uint64_t) li; if (w & 1) lr = pc + 4; break; }
		case 16: { if (w & 2) uns(w); uint64_t t = pc + (uint64_t) sx(w & 0xfffc, 16); if (w & 1) lr = pc + 4; bc(D, A, t, next); break; }
		case 19: { int x = w >> 1 & 1023; if (x == 16) { uint64_t t = lr & ~3ull; if (w & 1) lr = pc + 4; bc(D, A, t, next); } else if (x == 528) { uint64_t t = ctr & ~3ull; if (w & 1) lr = pc + 4; bc(D, A, t, next); } else if (x == 150) bar(RR | RW); else if (x == 0) setcr(D >> 2, cr >> (28 - 4 * (A >> 2)) & 15);
			else { bool p = bit(A), q = bit(B), z; switch (x) { case 257: z = p && q; break; case 449: z = p || q; break; case 193: z = p != q; break; case 33: z = !(p || q); break; case 289: z = p == q; break; case 129: z = p && !q; break; case 417: z = p || !q; break; case 225: z = !(p && q); break; default: uns(w); } setbit(D, z); } break; }
		case 32: r[D] = ld(a0 + (uint64_t) si, 4); break; case 33: { uint64_t e = r[A] + (uint64_t) si; r[D] = ld(e, 4); upd(e); break; } case 34: r[D] = ld(a0 + (uint64_t) si, 1); break; case 35: { uint64_t e = r[A] + (uint64_t) si; uint64_t q = ld(e, 1); upd(e); r[D] = q; break; }
		case 36: st(a0 + (uint64_t) si, 4, r[D]); break; case 37: { uint64_t e = r[A] + (uint64_t) si; st(e, 4, r[D]); upd(e); break; } case 38: st(a0 + (uint64_t) si, 1, r[D]); break; case 39: { uint64_t e = r[A] + (uint64_t) si; st(e, 1, r[D]); upd(e); break; }
		case 40: r[D] = ld(a0 + (uint64_t) si, 2); break; case 42: r[D] = (uint64_t) sx(ld(a0 + (uint64_t) si, 2), 16); break; case 44: st(a0 + (uint64_t) si, 2, r[D]); break; case 45: { uint64_t e = r[A] + (uint64_t) si; st(e, 2, r[D]); upd(e); break; }
		case 58: { int64_t ds = sx(w & 0xfffc, 16); switch (w & 3) { case 0: r[D] = ld(a0 + (uint64_t) ds, 8); break; case 1: { uint64_t e = r[A] + (uint64_t) ds; uint64_t q = ld(e, 8); upd(e); r[D] = q; break; } case 2: r[D] = (uint64_t) sx(ld(a0 + (uint64_t) ds, 4), 32); break; default: uns(w); } break; }
		case 62: { int64_t ds = sx(w & 0xfffc, 16); switch (w & 3) { case 0: st(a0 + (uint64_t) ds, 8, r[D]); break; case 1: { uint64_t e = r[A] + (uint64_t) ds; st(e, 8, r[D]); upd(e); break; } default: uns(w); } break; }
		case 3: case 2: trap();
		case 20: case 21: { int sh = B, mb = w >> 6 & 31, me = w >> 1 & 31; uint32_t s = (uint32_t) r[D]; s = sh ? s << sh | s >> (32 - sh) : s; uint64_t rot = (uint64_t) s << 32 | s; uint64_t m = mask(mb + 32, me + 32); if (op == 20) r[A] = (rot & m) | (r[A] & ~m); else r[A] = rot & m; dot(r[A]); break; }
		case 30: { int sh = B | (w >> 1 & 1) << 5, mb = (w >> 6 & 31) | (w >> 5 & 1) << 5; uint64_t v; switch (w >> 2 & 7) { case 0: v = rotl(r[D], sh) & mask(mb, 63); break; case 1: v = rotl(r[D], sh) & mask(0, mb); break; case 2: v = rotl(r[D], sh) & mask(mb, 63 - sh); break; case 3: { uint64_t m = mask(mb, 63 - sh); v = (rotl(r[D], sh) & m) | (r[A] & ~m); break; } case 4: if (w >> 1 & 1) uns(w); v = rotl(r[D], r[B] & 63) & mask(mb, 63); break; default: uns(w); } r[A] = v; dot(v); break; }
		case 31: { int x = w >> 1 & 1023; uint64_t ea = a0 + r[B]; switch (x) {
			case 0: if (D & 1) cmp(D >> 2, (int64_t) r[A], (int64_t) r[B]); else cmp(D >> 2, (int32_t) r[A], (int32_t) r[B]); break; case 32: if (D & 1) cmpu(D >> 2, r[A], r[B]); else cmpu(D >> 2, (uint32_t) r[A], (uint32_t) r[B]); break;
			case 266: r[D] = r[A] + r[B]; dot(r[D]); break; case 40: r[D] = r[B] - r[A]; dot(r[D]); break; case 104: r[D] = 0 - r[A]; dot(r[D]); break; case 233: r[D] = r[A] * r[B]; dot(r[D]); break; case 235: r[D] = (uint64_t) ((int64_t) (int32_t) r[A] * (int32_t) r[B]); dot(r[D]); break;
			case 28: r[A] = r[D] & r[B]; dot(r[A]); break; case 60: r[A] = r[D] & ~r[B]; dot(r[A]); break; case 444: r[A] = r[D] | r[B]; dot(r[A]); break; case 412: r[A] = r[D] | ~r[B]; dot(r[A]); break; case 124: r[A] = ~(r[D] | r[B]); dot(r[A]); break; case 316: r[A] = r[D] ^ r[B]; dot(r[A]); break; case 284: r[A] = ~(r[D] ^ r[B]); dot(r[A]); break; case 476: r[A] = ~(r[D] & r[B]); dot(r[A]); break;
			case 986: r[A] = (uint64_t) (int64_t) (int32_t) r[D]; dot(r[A]); break; case 922: r[A] = (uint64_t) (int64_t) (int16_t) r[D]; dot(r[A]); break; case 954: r[A] = (uint64_t) (int64_t) (int8_t) r[D]; dot(r[A]); break;
			case 26: r[A] = (uint32_t) r[D] ? (uint64_t) __builtin_clz((uint32_t) r[D]) : 32; dot(r[A]); break; case 58: r[A] = r[D] ? (uint64_t) __builtin_clzll(r[D]) : 64; dot(r[A]); break;
			case 27: r[A] = (r[B] & 64) ? 0 : r[D] << (r[B] & 63); dot(r[A]); break; case 539: r[A] = (r[B] & 64) ? 0 : r[D] >> (r[B] & 63); dot(r[A]); break; case 24: r[A] = (r[B] & 32) ? 0 : (uint32_t) ((uint32_t) r[D] << (r[B] & 31)); dot(r[A]); break; case 536: r[A] = (r[B] & 32) ? 0 : (uint32_t) r[D] >> (r[B] & 31); dot(r[A]); break;
			case 792: { int sh = r[B] & 63; int32_t v = (int32_t) r[D]; int k = sh > 31 ? 31 : sh; ca = v < 0 && (sh > 31 || (v & ((1u << k) - 1))); r[A] = (uint64_t) (int64_t) (v >> k); dot(r[A]); break; } case 794: { int sh = r[B] & 127; int64_t v = (int64_t) r[D]; int k = sh > 63 ? 63 : sh; ca = v < 0 && (sh > 63 || (v & ((1ull << k) - 1))); r[A] = (uint64_t) (v >> k); dot(r[A]); break; }
			case 8: r[D] = sum(~r[A], r[B], 1); dot(r[D]); break; case 136: r[D] = sum(~r[A], r[B], ca); dot(r[D]); break; case 10: r[D] = sum(r[A], r[B], 0); dot(r[D]); break; case 138: r[D] = sum(r[A], r[B], ca); dot(r[D]); break; case 202: r[D] = sum(r[A], 0, ca); dot(r[D]); break; case 234: r[D] = sum(r[A], ~0ull, ca); dot(r[D]); break; case 200: r[D] = sum(~r[A], 0, ca); dot(r[D]); break; case 232: r[D] = sum(~r[A], ~0ull, ca); dot(r[D]); break;
			case 824: { int32_t v = (int32_t) r[D]; ca = v < 0 && (v & ((1u << B) - 1)); r[A] = (uint64_t) (int64_t) (v >> B); dot(r[A]); break; } case 826: case 827: { int sh = B | (w >> 1 & 1) << 5; ca = (int64_t) r[D] < 0 && (r[D] & ((1ull << sh) - 1)); r[A] = (uint64_t) ((int64_t) r[D] >> sh); dot(r[A]); break; }
			case 21: r[D] = ld(ea, 8); break; case 23: r[D] = ld(ea, 4); break; case 87: r[D] = ld(ea, 1); break; case 279: r[D] = ld(ea, 2); break; case 341: r[D] = (uint64_t) sx(ld(ea, 4), 32); break; case 343: r[D] = (uint64_t) sx(ld(ea, 2), 16); break;
			case 53: { uint64_t q = ld(ea, 8); upd(ea); r[D] = q; break; } case 55: { uint64_t q = ld(ea, 4); upd(ea); r[D] = q; break; } case 119: { uint64_t q = ld(ea, 1); upd(ea); r[D] = q; break; }
			case 149: st(ea, 8, r[D]); break; case 151: st(ea, 4, r[D]); break; case 215: st(ea, 1, r[D]); break; case 407: st(ea, 2, r[D]); break; case 181: st(ea, 8, r[D]); upd(ea); break; case 183: st(ea, 4, r[D]); upd(ea); break; case 247: st(ea, 1, r[D]); upd(ea); break;
			case 339: case 371: { int s = A | B << 5; if (x == 371) uns(w); if (s == 8) r[D] = lr; else if (s == 9) r[D] = ctr; else uns(w); break; } case 467: { int s = A | B << 5; if (s == 8) lr = r[D]; else if (s == 9) ctr = r[D]; else uns(w); break; }
			case 19: if (w >> 20 & 1) { int f = w >> 12 & 255; uint32_t m = 0; for (int i = 0; i < 8; i++) if (f >> (7 - i) & 1) m |= 15u << (28 - 4 * i); r[D] = cr & m; } else r[D] = cr; break; case 144: { int f = w >> 12 & 255; uint32_t m = 0; for (int i = 0; i < 8; i++) if (f >> (7 - i) & 1) m |= 15u << (28 - 4 * i); cr = (cr & ~m) | ((uint32_t) r[D] & m); break; }
			case 598: { int L = w >> 21 & 3; if (L == 0) bar(ALL); else if (L == 1) bar(RR | RW | WW); else if (L == 2) bar(ALL); else uns(w); break; } case 854: bar(WW); break;
			case 4: case 68: trap();
			default: if ((x & 31) == 15) { r[D] = bit(w >> 6 & 31) ? a0 : r[B]; break; } uns(w); } break; }
		default: uns(w);
		}
		pc = next;
	}
	void enter(uint64_t fn, uint64_t arg, uint64_t s, uint64_t ra) override { for (int i = 0; i < 32; i++) r[i] = pat(i); r[3] = arg; r[1] = sp0 = s; r[2] = toc; r[12] = fn; r[13] = tp_; lr = ra; ctr = pat(40); cr = 0x24824248; pc = fn; }
	void set_tp(uint64_t t) override { tp_ = t; }
	uint64_t ret() override { return r[3]; }
	std::vector<uint64_t> save() override { std::vector<uint64_t> q(r, r + 32); q.push_back(pc); q.push_back(lr); q.push_back(ctr); q.push_back(cr); q.push_back(sp0); q.push_back(ca); return q; }
	void restore(const std::vector<uint64_t> &q) override { for (int i = 0; i < 32; i++) r[i] = q[i]; pc = q[32]; lr = q[33]; ctr = q[34]; cr = (uint32_t) q[35]; sp0 = q[36]; ca = q[37]; }
	const char *saved_damage() override { for (int i = 14; i < 32; i++) if (r[i] != pat(i)) return bad("r", i); if (r[13] != tp_) return "the thread pointer was not preserved"; if ((cr & 0x00fff000) != (0x24824248 & 0x00fff000)) return "a callee-saved condition field was not preserved"; return r[1] != sp0 ? "the stack pointer was not preserved" : nullptr; }
};
} // namespace xisa
#include "xisa2.hpp"
