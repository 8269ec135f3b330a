// Interpreters, continued: LoongArch 64 and MIPS 64 (see xisa.hpp).
#pragma once
namespace xisa {
// ------------------------------------------------------------------ LoongArch 64
struct LA : Mach {
	uint64_t x[32] = {}, sp0 = 0, tp_ = 0;
	void W(int i, uint64_t q) { if (i) x[i] = q; } void W32(int i, uint64_t q) { W(i, (uint64_t) (int64_t) (int32_t) q); }
	void exec() override {
		uint32_t w = code32(false); uint64_t next = pc + 4; int rd = w & 31, rj = w >> 5 & 31, rk = w >> 10 & 31; uint64_t a = x[rj], b = x[rk], d = x[rd];
		int64_t i12 = sx(w >> 10 & 0xfff, 12), i16 = sx(w >> 10 & 0xffff, 16) * 4, i21 = sx((w & 31) << 16 | (w >> 10 & 0xffff), 21) * 4, i26 = sx((w & 0x3ff) << 16 | (w >> 10 & 0xffff), 26) * 4, i20 = sx(w >> 5 & 0xfffff, 20); uint64_t u12 = w >> 10 & 0xfff; int u5 = w >> 10 & 31, u6 = w >> 10 & 63;
		auto at12 = [&] { return a + (uint64_t) i12; };
		switch (w >> 26) {
		case 0x10: if (!a) next = pc + (uint64_t) i21; break;
		case 0x11: if (a) next = pc + (uint64_t) i21; break;
		case 0x13: next = a + (uint64_t) i16; W(rd, pc + 4); break;
		case 0x14: next = pc + (uint64_t) i26; break;
		case 0x15: next = pc + (uint64_t) i26; x[1] = pc + 4; break;
		case 0x16: if (a == d) next = pc + (uint64_t) i16; break;
		case 0x17: if (a != d) next = pc + (uint64_t) i16; break;
		case 0x18: if ((int64_t) a < (int64_t) d) next = pc + (uint64_t) i16; break;
		case 0x19: if ((int64_t) a >= (int64_t) d) next = pc + (uint64_t) i16; break;
		case 0x1a: if (a < d) next = pc + (uint64_t) i16; break;
		case 0x1b: if (a >= d) next = pc + (uint64_t) i16; break;
		case 0x04: W(rd, a + (uint64_t) (sx(w >> 10 & 0xffff, 16) * 65536)); break; // addu16i.d
		case 0x05: if (w >> 25 & 1) W(rd, (d & 0xffffffff) | (uint64_t) i20 << 32); else W(rd, (uint64_t) (i20 * 4096)); break;
		case 0x06: if (w >> 25 & 1) W(rd, (pc & ~0xfffull) + (uint64_t) (i20 * 4096)); else W(rd, pc + (uint64_t) (i20 * 4)); break;
		case 0x07: if (w >> 25 & 1) W(rd, pc + (uint64_t) (i20 * 262144)); else W(rd, pc + (uint64_t) (i20 * 4096)); break;
		case 0x09: { uint64_t t = a + (uint64_t) (sx(w >> 10 & 0x3fff, 14) * 4); switch (w >> 24 & 3) { case 0: W32(rd, ld(t, 4)); break; case 1: st(t, 4, d); break; case 2: W(rd, ld(t, 8)); break; default: st(t, 8, d); } break; }
		case 0x0a: switch (w >> 22 & 15) { case 0: W(rd, (uint64_t) sx(ld(at12(), 1), 8)); break; case 1: W(rd, (uint64_t) sx(ld(at12(), 2), 16)); break; case 2: W32(rd, ld(at12(), 4)); break; case 3: W(rd, ld(at12(), 8)); break;
			case 4: st(at12(), 1, d); break; case 5: st(at12(), 2, d); break; case 6: st(at12(), 4, d); break; case 7: st(at12(), 8, d); break; case 8: W(rd, ld(at12(), 1)); break; case 9: W(rd, ld(at12(), 2)); break; case 10: W(rd, ld(at12(), 4)); break; default: uns(w); } break;
		case 0x0e: { uint64_t t = a + b; switch (w >> 15 & 0x7ff) { case 0x00: W(rd, (uint64_t) sx(ld(t, 1), 8)); break; case 0x08: W(rd, (uint64_t) sx(ld(t, 2), 16)); break; case 0x10: W32(rd, ld(t, 4)); break; case 0x18: W(rd, ld(t, 8)); break;
			case 0x20: st(t, 1, d); break; case 0x28: st(t, 2, d); break; case 0x30: st(t, 4, d); break; case 0x38: st(t, 8, d); break; case 0x40: W(rd, ld(t, 1)); break; case 0x48: W(rd, ld(t, 2)); break; case 0x50: W(rd, ld(t, 4)); break;
			case 0xe4: { int h = w & 0x7fff; if (h == 0) bar(ALL); else if (h == 0x700) { } else if (h < 0x20) { bool pr = !(h & 8), pw = !(h & 4), sr = !(h & 2), sw = !(h & 1); bar((pr && sr ? RR : 0) | (pr && sw ? RW : 0) | (pw && sr ? WR : 0) | (pw && sw ? WW : 0)); } else uns(w); break; }
			case 0xe5: break; default: uns(w); } break; }
		case 0x00: switch (w >> 22 & 15) {
			case 8: W(rd, (int64_t) a < i12); break; case 9: W(rd, a < (uint64_t) i12); break; case 10: W32(rd, a + (uint64_t) i12); break; case 11: W(rd, a + (uint64_t) i12); break; case 12: W(rd, (a & 0xfffffffffffffull) | u12 << 52); break; case 13: W(rd, a & u12); break; case 14: W(rd, a | u12); break; case 15: W(rd, a ^ u12); break;
			case 2: case 3: { int msb = w >> 16 & 63, lsb = w >> 10 & 63; if (msb < lsb) uns(w); int n = msb - lsb + 1; uint64_t m = n == 64 ? ~0ull : (1ull << n) - 1; if (w >> 22 & 1) W(rd, a >> lsb & m); else W(rd, (d & ~(m << lsb)) | (a & m) << lsb); break; }
			case 1: if (w >> 21 & 1) { int msb = w >> 16 & 31, lsb = w >> 10 & 31; if (msb < lsb) uns(w); uint32_t m = msb - lsb == 31 ? ~0u : (1u << (msb - lsb + 1)) - 1; if (w >> 15 & 1) W32(rd, (uint32_t) a >> lsb & m); else W32(rd, ((uint32_t) d & ~(m << lsb)) | ((uint32_t) a & m) << lsb); }
				else switch (w >> 16 & 31) { case 0: if (!(w >> 15 & 1)) uns(w); W32(rd, (uint32_t) a << u5); break; case 1: W(rd, a << u6); break; case 4: if (!(w >> 15 & 1)) uns(w); W32(rd, (uint32_t) a >> u5); break; case 5: W(rd, a >> u6); break; case 8: if (!(w >> 15 & 1)) uns(w); W32(rd, (uint32_t) ((int32_t) a >> u5)); break; case 9: W(rd, (uint64_t) ((int64_t) a >> u6)); break;
				case 0xc: if (!(w >> 15 & 1)) uns(w); { uint32_t q = (uint32_t) a; W32(rd, u5 ? q >> u5 | q << (32 - u5) : q); } break; case 0xd: W(rd, u6 ? a >> u6 | a << (64 - u6) : a); break; default: uns(w); }
				break;
			case 0: { int o = w >> 15 & 0x7f; switch (o) {
				case 0x00: switch (w >> 10 & 31) { case 0x16: W(rd, (uint64_t) (int64_t) (int16_t) a); break; case 0x17: W(rd, (uint64_t) (int64_t) (int8_t) a); break; default: uns(w); } break;
				case 0x08: case 0x09: case 0x0a: case 0x0b: W32(rd, (uint32_t) ((uint32_t) a << ((o & 3) + 1)) + (uint32_t) b); break;
				case 0x0c: case 0x0d: case 0x0e: case 0x0f: W(rd, (uint32_t) ((uint32_t) ((uint32_t) a << ((o & 3) + 1)) + (uint32_t) b)); break;
				case 0x58: case 0x59: case 0x5a: case 0x5b: W(rd, (a << ((o & 3) + 1)) + b); break;
				case 0x20: W32(rd, a + b); break; case 0x21: W(rd, a + b); break; case 0x22: W32(rd, a - b); break; case 0x23: W(rd, a - b); break; case 0x24: W(rd, (int64_t) a < (int64_t) b); break; case 0x25: W(rd, a < b); break;
				case 0x26: W(rd, b ? a : 0); break; case 0x27: W(rd, b ? 0 : a); break; case 0x28: W(rd, ~(a | b)); break; case 0x29: W(rd, a & b); break; case 0x2a: W(rd, a | b); break; case 0x2b: W(rd, a ^ b); break; case 0x2c: W(rd, a | ~b); break; case 0x2d: W(rd, a & ~b); break;
				case 0x2e: W32(rd, (uint32_t) a << (b & 31)); break; case 0x2f: W32(rd, (uint32_t) a >> (b & 31)); break; case 0x30: W32(rd, (uint32_t) ((int32_t) a >> (b & 31))); break; case 0x31: W(rd, a << (b & 63)); break; case 0x32: W(rd, a >> (b & 63)); break; case 0x33: W(rd, (uint64_t) ((int64_t) a >> (b & 63))); break;
				case 0x36: { uint32_t q = (uint32_t) a; int s = b & 31; W32(rd, s ? q >> s | q << (32 - s) : q); break; } case 0x37: { int s = b & 63; W(rd, s ? a >> s | a << (64 - s) : a); break; }
				case 0x38: W32(rd, (uint32_t) a * (uint32_t) b); break; case 0x39: W32(rd, (uint64_t) ((int64_t) (int32_t) a * (int32_t) b) >> 32); break; case 0x3a: W32(rd, (uint64_t) (uint32_t) a * (uint32_t) b >> 32); break; case 0x3b: W(rd, a * b); break;
				case 0x3e: W(rd, (uint64_t) ((int64_t) (int32_t) a * (int32_t) b)); break; case 0x3f: W(rd, (uint64_t) (uint32_t) a * (uint32_t) b); break;
				case 0x54: trap(); // break
				default: uns(w); } break; }
			default: uns(w); } break;
		default: uns(w);
		}
		pc = next;
	}
	void enter(uint64_t fn, uint64_t arg, uint64_t s, uint64_t r) override { for (int i = 1; i < 32; i++) x[i] = pat(i); x[2] = tp_; x[4] = arg; x[1] = r; x[3] = sp0 = s; pc = fn; }
	void set_tp(uint64_t t) override { tp_ = t; }
	uint64_t ret() override { return x[4]; }
	std::vector<uint64_t> save() override { std::vector<uint64_t> q(x, x + 32); q.push_back(pc); q.push_back(sp0); return q; }
	void restore(const std::vector<uint64_t> &q) override { for (int i = 0; i < 32; i++) x[i] = q[i]; pc = q[32]; sp0 = q[33]; }
	const char *saved_damage() override { for (int i = 21; i < 32; i++) if (x[i] != pat(i)) return bad("r", i); if (x[2] != tp_) return "the thread pointer was not preserved"; return x[3] != sp0 ? "the stack pointer was not preserved" : nullptr; }
};

// ------------------------------------------------------------------ MIPS 64 (release 2, n64, a branch and its delay slot are one step)
struct MIPS : Mach {
	uint64_t x[32] = {}, hi = 0, lo = 0, sp0 = 0, tp_ = 0; bool slot = false;
	void W(int i, uint64_t q) { if (i) x[i] = q; } void W32(int i, uint64_t q) { W(i, (uint64_t) (int64_t) (int32_t) q); }
	void exec() override { uint64_t t; bool likely = false; int k = one(t, likely); if (k == 0) { pc += 4; return; } // 0 plain, 1 taken, 2 not taken
		uint64_t b = pc; if (k == 2 && likely) { pc = b + 8; return; } pc = b + 4; ipc = pc; uint64_t u; bool l; slot = true; int r = one(u, l); slot = false; if (r) uns(0); pc = k == 1 ? t : b + 8; }
	// decodes the instruction at pc; branches only report their target
	int one(uint64_t &tgt, bool &likely) {
		uint32_t w = code32(be); int op = w >> 26, rs = w >> 21 & 31, rt = w >> 16 & 31, rd = w >> 11 & 31, sa = w >> 6 & 31, fn = w & 63; uint64_t a = x[rs], b = x[rt], ui = w & 0xffff; int64_t si = sx(w & 0xffff, 16); uint64_t br = pc + 4 + (uint64_t) (si * 4); likely = false;
		auto take = [&](bool c) { tgt = br; return c ? 1 : 2; }; uint64_t ea = a + (uint64_t) si;
		switch (op) {
		case 0: switch (fn) {
			case 0: W32(rd, (uint32_t) b << sa); break; case 2: if (rs == 1) { uint32_t q = (uint32_t) b; W32(rd, sa ? q >> sa | q << (32 - sa) : q); } else if (rs) uns(w); else W32(rd, (uint32_t) b >> sa); break; case 3: W32(rd, (uint32_t) ((int32_t) b >> sa)); break;
			case 4: W32(rd, (uint32_t) b << (a & 31)); break; case 6: if (sa) uns(w); W32(rd, (uint32_t) b >> (a & 31)); break; case 7: W32(rd, (uint32_t) ((int32_t) b >> (a & 31))); break;
			case 8: tgt = a; return 1; case 9: { uint64_t t = a; W(rd, pc + 8); tgt = t; return 1; }
			case 10: if (!b) W(rd, a); break; case 11: if (b) W(rd, a); break;
			case 13: trap(); case 15: bar(sa == 0 ? ALL : sa == 4 ? WW : sa == 0x10 ? ALL : sa == 0x11 ? RR | RW : sa == 0x12 ? RW | WW : sa == 0x13 ? RR : 0); break;
			case 16: W(rd, hi); break; case 17: hi = a; break; case 18: W(rd, lo); break; case 19: lo = a; break;
			case 20: W(rd, b << (a & 63)); break; case 22: if (sa) uns(w); W(rd, b >> (a & 63)); break; case 23: W(rd, (uint64_t) ((int64_t) b >> (a & 63))); break;
			case 24: { int64_t p = (int64_t) (int32_t) a * (int32_t) b; lo = (uint64_t) (int64_t) (int32_t) p; hi = (uint64_t) (p >> 32); break; } case 25: { uint64_t p = (uint64_t) (uint32_t) a * (uint32_t) b; lo = (uint64_t) (int64_t) (int32_t) p; hi = (uint64_t) (int64_t) (int32_t) (p >> 32); break; }
			case 28: { __int128 p = (__int128) (int64_t) a * (int64_t) b; lo = (uint64_t) p; hi = (uint64_t) (p >> 64); break; } case 29: { unsigned __int128 p = (unsigned __int128) a * b; lo = (uint64_t) p; hi = (uint64_t) (p >> 64); break; }
			case 33: W32(rd, a + b); break; case 35: W32(rd, a - b); break; case 36: W(rd, a & b); break; case 37: W(rd, a | b); break; case 38: W(rd, a ^ b); break; case 39: W(rd, ~(a | b)); break;
			case 42: W(rd, (int64_t) a < (int64_t) b); break; case 43: W(rd, a < b); break; case 45: W(rd, a + b); break; case 47: W(rd, a - b); break;
			case 52: if (a == b) trap(); break; case 54: if (a != b) trap(); break;
			case 56: W(rd, b << sa); break; case 58: if (rs == 1) W(rd, sa ? b >> sa | b << (64 - sa) : b); else if (rs) uns(w); else W(rd, b >> sa); break; case 59: W(rd, (uint64_t) ((int64_t) b >> sa)); break; case 60: W(rd, b << (sa + 32)); break; case 62: if (rs == 1) W(rd, b >> (sa + 32) | (sa ? b << (32 - sa) : b << 32)); else if (rs) uns(w); else W(rd, b >> (sa + 32)); break; case 63: W(rd, (uint64_t) ((int64_t) b >> (sa + 32))); break;
			default: uns(w); } break;
		case 1: switch (rt) { case 0: return take((int64_t) a < 0); case 1: return take((int64_t) a >= 0); case 16: { bool c = (int64_t) a < 0; x[31] = pc + 8; return take(c); } case 17: { bool c = (int64_t) a >= 0; x[31] = pc + 8; return take(c); } default: uns(w); } break;
		case 2: tgt = ((pc + 4) & ~0xfffffffull) | (w & 0x3ffffff) << 2; return 1; case 3: tgt = ((pc + 4) & ~0xfffffffull) | (w & 0x3ffffff) << 2; x[31] = pc + 8; return 1;
		case 4: return take(a == b); case 5: return take(a != b); case 6: return take((int64_t) a <= 0); case 7: return take((int64_t) a > 0);
		case 20: likely = true; return take(a == b); case 21: likely = true; return take(a != b);
		case 9: W32(rt, a + (uint64_t) si); break; case 25: W(rt, a + (uint64_t) si); break; case 10: W(rt, (int64_t) a < si); break; case 11: W(rt, a < (uint64_t) si); break;
		case 12: W(rt, a & ui); break; case 13: W(rt, a | ui); break; case 14: W(rt, a ^ ui); break; case 15: if (rs) uns(w); W(rt, (uint64_t) (si * 65536)); break;
		case 28: if (fn == 2) W32(rd, (uint32_t) a * (uint32_t) b); else if (fn == 32) W(rd, (uint32_t) a ? (uint64_t) __builtin_clz((uint32_t) a) : 32); else if (fn == 36) W(rd, a ? (uint64_t) __builtin_clzll(a) : 64); else uns(w); break;
		case 31: switch (fn) {
			case 0: { int n = rd + 1; if (sa + n > 32) uns(w); W32(rt, (uint32_t) a >> sa & (n == 32 ? ~0u : (1u << n) - 1)); break; }
			case 1: case 2: case 3: { int p = fn == 2 ? sa + 32 : sa, n = fn == 1 ? rd + 33 : rd + 1; if (p + n > 64) uns(w); W(rt, a >> p & (n == 64 ? ~0ull : (1ull << n) - 1)); break; }
			case 4: { int n = rd - sa + 1; if (n < 1) uns(w); uint32_t m = n == 32 ? ~0u : (1u << n) - 1; W32(rt, ((uint32_t) b & ~(m << sa)) | ((uint32_t) a & m) << sa); break; }
			case 5: case 6: case 7: { int p = fn == 6 ? sa + 32 : sa, e = fn == 7 ? rd : rd + 32, n = e - p + 1; if (n < 1) uns(w); uint64_t m = n == 64 ? ~0ull : (1ull << n) - 1; W(rt, (b & ~(m << p)) | (a & m) << p); break; }
			case 32: switch (sa) { case 16: W(rd, (uint64_t) (int64_t) (int8_t) b); break; case 24: W(rd, (uint64_t) (int64_t) (int16_t) b); break; case 2: W32(rd, ((uint32_t) b & 0xff00ff) << 8 | ((uint32_t) b >> 8 & 0xff00ff)); break; default: uns(w); } break;
			case 59: if (rd == 29 && !rs) W(rt, tp_); else uns(w); break;
			default: uns(w); } break;
		case 32: W(rt, (uint64_t) sx(ld(ea, 1), 8)); break; case 33: W(rt, (uint64_t) sx(lda(ea, 2), 16)); break; case 35: W32(rt, lda(ea, 4)); break; case 36: W(rt, ld(ea, 1)); break; case 37: W(rt, lda(ea, 2)); break; case 39: W(rt, lda(ea, 4)); break; case 55: W(rt, lda(ea, 8)); break;
		case 40: st(ea, 1, b); break; case 41: sta(ea, 2, b); break; case 43: sta(ea, 4, b); break; case 63: sta(ea, 8, b); break;
		case 51: break; // pref
		default: uns(w);
		}
		return 0;
	}
	uint64_t lda(uint64_t a, size_t n) { if (a & (n - 1)) throw Fault{ipc, a, "unaligned load"}; return ld(a, n); }
	void sta(uint64_t a, size_t n, uint64_t v) { if (a & (n - 1)) throw Fault{ipc, a, "unaligned store"}; st(a, n, v); }
	void enter(uint64_t fn, uint64_t arg, uint64_t s, uint64_t r) override { for (int i = 1; i < 32; i++) x[i] = pat(i); hi = pat(33); lo = pat(34); x[4] = arg; x[25] = fn; x[31] = r; x[29] = sp0 = s; pc = fn; }
	void set_tp(uint64_t t) override { tp_ = t; }
	uint64_t ret() override { return x[2]; }
	std::vector<uint64_t> save() override { std::vector<uint64_t> q(x, x + 32); q.push_back(pc); q.push_back(sp0); q.push_back(hi); q.push_back(lo); return q; }
	void restore(const std::vector<uint64_t> &q) override { for (int i = 0; i < 32; i++) x[i] = q[i]; pc = q[32]; sp0 = q[33]; hi = q[34]; lo = q[35]; }
	const char *saved_damage() override { for (int i : {16, 17, 18, 19, 20, 21, 22, 23, 28, 30}) if (x[i] != pat(i)) return bad("$", i); return x[29] != sp0 ? "the stack pointer was not preserved" : nullptr; }
};
} // namespace xisa
