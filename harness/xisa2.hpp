// s390x, LoongArch and MIPS interpreters (see xisa.hpp).
#pragma once
namespace xisa {
// ------------------------------------------------------------------ s390x
struct S390 : Mach {
	uint64_t r[16] = {}, sp0 = 0; uint32_t ar[16] = {}; int cc = 0;
	void W32(int i, uint64_t v) { r[i] = (r[i] & ~0xffffffffull) | (uint32_t) v; }
	void cmp(int64_t a, int64_t b) { cc = a == b ? 0 : a < b ? 1 : 2; } void cmpl(uint64_t a, uint64_t b) { cc = a == b ? 0 : a < b ? 1 : 2; }
	int64_t s32(int i) { return (int32_t) r[i]; } uint64_t u32(int i) { return (uint32_t) r[i]; }
	uint64_t add64(uint64_t a, uint64_t b) { int64_t q; bool o = __builtin_add_overflow((int64_t) a, (int64_t) b, &q); cc = o ? 3 : q == 0 ? 0 : q < 0 ? 1 : 2; return (uint64_t) q; }
	uint64_t sub64(uint64_t a, uint64_t b) { int64_t q; bool o = __builtin_sub_overflow((int64_t) a, (int64_t) b, &q); cc = o ? 3 : q == 0 ? 0 : q < 0 ? 1 : 2; return (uint64_t) q; }
	uint32_t add32(uint32_t a, uint32_t b) { int32_t q; bool o = __builtin_add_overflow((int32_t) a, (int32_t) b, &q); cc = o ? 3 : q == 0 ? 0 : q < 0 ? 1 : 2; return (uint32_t) q; }
	uint32_t sub32(uint32_t a, uint32_t b) { int32_t q; bool o = __builtin_sub_overflow((int32_t) a, (int32_t) b, &q); cc = o ? 3 : q == 0 ? 0 : q < 0 ? 1 : 2; return (uint32_t) q; }
	uint64_t addl(uint64_t a, uint64_t b) { uint64_t q = a + b; bool c = q < a; cc = (q ? 1 : 0) + (c ? 2 : 0); return q; } uint64_t subl(uint64_t a, uint64_t b) { uint64_t q = a - b; cc = a < b ? 1 : q ? 3 : 2; return q; }
	uint32_t addl32(uint32_t a, uint32_t b) { uint32_t q = a + b; bool c = q < a; cc = (q ? 1 : 0) + (c ? 2 : 0); return q; } uint32_t subl32(uint32_t a, uint32_t b) { uint32_t q = a - b; cc = a < b ? 1 : q ? 3 : 2; return q; }
	void lt(int64_t v) { cc = v == 0 ? 0 : v < 0 ? 1 : 2; }
	bool cond(int m) { return m >> (3 - cc) & 1; }
	static bool condc(int m, int c) { return m >> (3 - c) & 1; }
	uint64_t lg(uint64_t v) { cc = v ? 1 : 0; return v; }
	void exec() override {
		const uint8_t *q = at(pc, 2, false); int op = q[0]; size_t len = op < 0x40 ? 2 : op < 0xc0 ? 4 : 6; q = at(pc, len, false); uint64_t next = pc + len; uint64_t w = get(q, len, true);
		int r1 = q[1] >> 4, r2 = q[1] & 15;
		auto BD = [&](int b, uint64_t d) { return (b ? r[b] : 0) + d; };
		auto rel = [&](int64_t h) { return pc + (uint64_t) (h * 2); };
		if (len == 2) switch (op) {
			case 0x18: W32(r1, r[r2]); break; case 0x12: W32(r1, r[r2]); lt(s32(r1)); break; case 0x13: W32(r1, sub32(0, (uint32_t) r[r2])); break; case 0x1a: W32(r1, add32(r[r1], r[r2])); break; case 0x1b: W32(r1, sub32(r[r1], r[r2])); break; case 0x1e: W32(r1, addl32(r[r1], r[r2])); break; case 0x1f: W32(r1, subl32(r[r1], r[r2])); break; case 0x19: cmp(s32(r1), s32(r2)); break; case 0x15: cmpl(u32(r1), u32(r2)); break;
			case 0x14: W32(r1, lg(u32(r1) & u32(r2))); break; case 0x16: W32(r1, lg(u32(r1) | u32(r2))); break; case 0x17: W32(r1, lg(u32(r1) ^ u32(r2))); break;
			case 0x07: if (!r2) { if (r1 == 15 || r1 == 14) bar(ALL); } else if (cond(r1)) next = r[r2]; break;
			case 0x0d: { uint64_t t = r[r2]; r[r1] = pc + 2; if (r2) next = t; break; }
			default: if (op == 0) trap(); uns(w); }
		else if (len == 4) {
			int b = q[2] >> 4; uint64_t d = (uint64_t) (q[2] & 15) << 8 | q[3]; int64_t i16 = (int16_t) (q[2] << 8 | q[3]); uint64_t u16 = (uint16_t) i16; uint64_t rx = BD(r2, 0) + BD(b, d);
			switch (op) {
			case 0x58: W32(r1, ld(rx, 4)); break; case 0x50: st(rx, 4, r[r1]); break; case 0x41: r[r1] = rx; break; case 0x59: cmp(s32(r1), sx(ld(rx, 4), 32)); break; case 0x55: cmpl(u32(r1), ld(rx, 4)); break; case 0x5a: W32(r1, add32(r[r1], ld(rx, 4))); break; case 0x5b: W32(r1, sub32(r[r1], ld(rx, 4))); break;
			case 0x43: r[r1] = (r[r1] & ~0xffull) | ld(rx, 1); break; case 0x42: st(rx, 1, r[r1]); break; case 0x40: st(rx, 2, r[r1]); break; case 0x48: W32(r1, (uint64_t) sx(ld(rx, 2), 16)); break; case 0x49: cmp(s32(r1), sx(ld(rx, 2), 16)); break;
			case 0x54: W32(r1, lg(u32(r1) & ld(rx, 4))); break; case 0x56: W32(r1, lg(u32(r1) | ld(rx, 4))); break; case 0x57: W32(r1, lg(u32(r1) ^ ld(rx, 4))); break;
			case 0x47: if (cond(r1)) { if (!r2 && !b) uns(w); next = rx; } break;
			case 0x89: W32(r1, (uint64_t) (uint32_t) r[r1] << (BD(b, d) & 63)); break; case 0x88: W32(r1, (uint64_t) (uint32_t) r[r1] >> (BD(b, d) & 63)); break; case 0x8a: { int s = BD(b, d) & 63; int64_t v = s32(r1) >> s; W32(r1, (uint64_t) v); lt(v); break; }
			case 0x92: st(BD(b, d), 1, q[1]); break; case 0x95: cmpl(ld(BD(b, d), 1), q[1]); break; case 0x94: { uint64_t v = lg(ld(BD(b, d), 1) & q[1]); st(BD(b, d), 1, v); break; } case 0x97: { uint64_t v = lg(ld(BD(b, d), 1) ^ q[1]); st(BD(b, d), 1, v); break; } case 0x96: { uint64_t v = lg(ld(BD(b, d), 1) | q[1]); st(BD(b, d), 1, v); break; } case 0x91: { uint64_t v = ld(BD(b, d), 1) & q[1]; cc = !v ? 0 : v == q[1] ? 3 : 1; break; }
			case 0xa7: switch (r2) { case 0: case 1: { uint64_t v = (r2 == 1 ? r[r1] & 0xffff : r[r1] >> 16 & 0xffff) & u16; if (!v) cc = 0; else if (v == u16) cc = 3; else { int hb = 63 - __builtin_clzll(u16); cc = (v >> hb & 1) ? 2 : 1; } break; }
				case 4: if (cond(r1)) next = rel(i16); break; case 5: r[r1] = pc + 4; next = rel(i16); break; case 6: W32(r1, (uint64_t) (u32(r1) - 1)); if (u32(r1)) next = rel(i16); break; case 7: if (--r[r1]) next = rel(i16); break;
				case 8: W32(r1, (uint64_t) i16); break; case 9: r[r1] = (uint64_t) i16; break; case 10: W32(r1, add32(r[r1], i16)); break; case 11: r[r1] = add64(r[r1], (uint64_t) i16); break; case 12: W32(r1, (uint64_t) (s32(r1) * i16)); break; case 13: r[r1] *= (uint64_t) i16; break; case 14: cmp(s32(r1), i16); break; case 15: cmp((int64_t) r[r1], i16); break; default: uns(w); } break;
			case 0xa5: { int k = r2 & 3, sh = 48 - 16 * k; uint64_t f = u16 << sh; switch (r2 >> 2) { case 0: r[r1] = (r[r1] & ~(0xffffull << sh)) | f; break; case 1: { uint64_t v = r[r1] & (f | ~(0xffffull << sh)); r[r1] = v; cc = (v >> sh & 0xffff) ? 1 : 0; break; } case 2: r[r1] |= f; cc = (r[r1] >> sh & 0xffff) ? 1 : 0; break; default: r[r1] = f; } break; }
			case 0xb2: { int x = q[1], a = q[3] >> 4, c = q[3] & 15; if (x == 0x4f) W32(a, ar[c]); else if (x == 0x22) r[a] = (r[a] & ~0xff000000ull) | (uint64_t) cc << 28; else if (x == 0x52) W32(a, (uint32_t) r[a] * (uint32_t) r[c]); else if (x == 0xff) trap(); else uns(w); break; }
			case 0xb9: { int x = q[1], a = q[3] >> 4, c = q[3] & 15, k = q[2] >> 4; switch (x) {
				case 0x04: r[a] = r[c]; break; case 0x02: r[a] = r[c]; lt((int64_t) r[a]); break; case 0x03: r[a] = sub64(0, r[c]); break; case 0x08: r[a] = add64(r[a], r[c]); break; case 0x09: r[a] = sub64(r[a], r[c]); break; case 0x0a: r[a] = addl(r[a], r[c]); break; case 0x0b: r[a] = subl(r[a], r[c]); break; case 0x18: r[a] = add64(r[a], (uint64_t) s32(c)); break; case 0x19: r[a] = sub64(r[a], (uint64_t) s32(c)); break; case 0x1a: r[a] = addl(r[a], u32(c)); break; case 0x1b: r[a] = subl(r[a], u32(c)); break; case 0x13: r[a] = sub64(0, (uint64_t) s32(c)); break;
				case 0x14: r[a] = (uint64_t) s32(c); break; case 0x12: r[a] = (uint64_t) s32(c); lt((int64_t) r[a]); break; case 0x16: r[a] = u32(c); break; case 0x20: cmp((int64_t) r[a], (int64_t) r[c]); break; case 0x21: cmpl(r[a], r[c]); break; case 0x30: cmp((int64_t) r[a], s32(c)); break; case 0x31: cmpl(r[a], u32(c)); break;
				case 0x80: r[a] = lg(r[a] & r[c]); break; case 0x81: r[a] = lg(r[a] | r[c]); break; case 0x82: r[a] = lg(r[a] ^ r[c]); break; case 0x84: r[a] = (uint8_t) r[c]; break; case 0x85: r[a] = (uint16_t) r[c]; break; case 0x94: W32(a, (uint8_t) r[c]); break; case 0x95: W32(a, (uint16_t) r[c]); break; case 0x06: r[a] = (uint64_t) (int64_t) (int8_t) r[c]; break; case 0x07: r[a] = (uint64_t) (int64_t) (int16_t) r[c]; break; case 0x26: W32(a, (uint64_t) (int64_t) (int8_t) r[c]); break; case 0x27: W32(a, (uint64_t) (int64_t) (int16_t) r[c]); break; case 0x0c: r[a] *= r[c]; break;
				case 0xe8: r[a] = add64(r[c], r[k]); break; case 0xe9: r[a] = sub64(r[c], r[k]); break; case 0xf8: W32(a, add32(r[c], r[k])); break; case 0xf9: W32(a, sub32(r[c], r[k])); break; case 0xea: r[a] = addl(r[c], r[k]); break; case 0xeb: r[a] = subl(r[c], r[k]); break; case 0xe4: r[a] = lg(r[c] & r[k]); break; case 0xe6: r[a] = lg(r[c] | r[k]); break; case 0xe7: r[a] = lg(r[c] ^ r[k]); break; case 0xf4: W32(a, lg(u32(c) & u32(k))); break; case 0xf6: W32(a, lg(u32(c) | u32(k))); break; case 0xf7: W32(a, lg(u32(c) ^ u32(k))); break;
				case 0xe2: if (cond(k)) r[a] = r[c]; break; case 0xf2: if (cond(k)) W32(a, r[c]); break; default: uns(w); } break; }
			default: uns(w); } }
		else {
			int64_t i32 = (int32_t) ((uint32_t) q[2] << 24 | q[3] << 16 | q[4] << 8 | q[5]); uint64_t u = (uint32_t) i32;
			switch (op) {
			case 0xc0: switch (r2) { case 0: r[r1] = rel(i32); break; case 1: r[r1] = (uint64_t) i32; break; case 4: if (cond(r1)) next = rel(i32); break; case 5: r[r1] = pc + 6; next = rel(i32); break; case 6: r[r1] ^= u << 32; cc = (r[r1] >> 32) ? 1 : 0; break; case 7: r[r1] ^= u; cc = u32(r1) ? 1 : 0; break; case 8: r[r1] = (uint32_t) r[r1] | u << 32; break; case 9: W32(r1, u); break; case 10: r[r1] &= u << 32 | 0xffffffffu; cc = (r[r1] >> 32) ? 1 : 0; break; case 11: r[r1] &= 0xffffffff00000000ull | u; cc = u32(r1) ? 1 : 0; break; case 12: r[r1] |= u << 32; cc = (r[r1] >> 32) ? 1 : 0; break; case 13: r[r1] |= u; cc = u32(r1) ? 1 : 0; break; case 14: r[r1] = u << 32; break; case 15: r[r1] = u; break; default: uns(w); } break;
			case 0xc2: switch (r2) { case 0: r[r1] *= (uint64_t) i32; break; case 1: W32(r1, (uint32_t) r[r1] * (uint32_t) i32); break; case 4: r[r1] = subl(r[r1], u); break; case 5: W32(r1, subl32(r[r1], u)); break; case 8: r[r1] = add64(r[r1], (uint64_t) i32); break; case 9: W32(r1, add32(r[r1], i32)); break; case 10: r[r1] = addl(r[r1], u); break; case 11: W32(r1, addl32(r[r1], u)); break; case 12: cmp((int64_t) r[r1], i32); break; case 13: cmp(s32(r1), i32); break; case 14: cmpl(r[r1], u); break; case 15: cmpl(u32(r1), u); break; default: uns(w); } break;
			case 0xc4: switch (r2) { case 8: r[r1] = ld(rel(i32), 8); break; case 13: W32(r1, ld(rel(i32), 4)); break; case 11: st(rel(i32), 8, r[r1]); break; case 15: st(rel(i32), 4, r[r1]); break; case 12: r[r1] = (uint64_t) sx(ld(rel(i32), 4), 32); break; case 14: r[r1] = ld(rel(i32), 4); break; default: uns(w); } break;
			case 0xc6: switch (r2) { case 8: cmp((int64_t) r[r1], (int64_t) ld(rel(i32), 8)); break; case 13: cmp(s32(r1), sx(ld(rel(i32), 4), 32)); break; case 10: cmpl(r[r1], ld(rel(i32), 8)); break; case 15: cmpl(u32(r1), ld(rel(i32), 4)); break; default: uns(w); } break;
			case 0xe3: { int b = q[2] >> 4; int64_t d = sx((uint64_t) q[4] << 12 | (uint64_t) (q[2] & 15) << 8 | q[3], 20); uint64_t e = BD(r2, 0) + BD(b, (uint64_t) d); switch (q[5]) {
				case 0x04: r[r1] = ld(e, 8); break; case 0x24: st(e, 8, r[r1]); break; case 0x14: r[r1] = (uint64_t) sx(ld(e, 4), 32); break; case 0x16: r[r1] = ld(e, 4); break; case 0x58: W32(r1, ld(e, 4)); break; case 0x50: st(e, 4, r[r1]); break; case 0x71: r[r1] = e; break; case 0x20: cmp((int64_t) r[r1], (int64_t) ld(e, 8)); break; case 0x21: cmpl(r[r1], ld(e, 8)); break; case 0x30: cmp((int64_t) r[r1], sx(ld(e, 4), 32)); break; case 0x31: cmpl(r[r1], ld(e, 4)); break; case 0x59: cmp(s32(r1), sx(ld(e, 4), 32)); break; case 0x55: cmpl(u32(r1), ld(e, 4)); break;
				case 0x08: r[r1] = add64(r[r1], ld(e, 8)); break; case 0x09: r[r1] = sub64(r[r1], ld(e, 8)); break; case 0x0a: r[r1] = addl(r[r1], ld(e, 8)); break; case 0x0b: r[r1] = subl(r[r1], ld(e, 8)); break; case 0x18: r[r1] = add64(r[r1], (uint64_t) sx(ld(e, 4), 32)); break; case 0x5a: W32(r1, add32(r[r1], ld(e, 4))); break; case 0x5b: W32(r1, sub32(r[r1], ld(e, 4))); break;
				case 0x90: r[r1] = ld(e, 1); break; case 0x91: r[r1] = ld(e, 2); break; case 0x94: W32(r1, ld(e, 1)); break; case 0x95: W32(r1, ld(e, 2)); break; case 0x76: W32(r1, (uint64_t) sx(ld(e, 1), 8)); break; case 0x77: r[r1] = (uint64_t) sx(ld(e, 1), 8); break; case 0x78: W32(r1, (uint64_t) sx(ld(e, 2), 16)); break; case 0x15: r[r1] = (uint64_t) sx(ld(e, 2), 16); break; case 0x72: st(e, 1, r[r1]); break; case 0x70: st(e, 2, r[r1]); break; case 0x73: r[r1] = (r[r1] & ~0xffull) | ld(e, 1); break;
				case 0x80: r[r1] = lg(r[r1] & ld(e, 8)); break; case 0x81: r[r1] = lg(r[r1] | ld(e, 8)); break; case 0x82: r[r1] = lg(r[r1] ^ ld(e, 8)); break; case 0x02: r[r1] = ld(e, 8); lt((int64_t) r[r1]); break; case 0x12: W32(r1, ld(e, 4)); lt(s32(r1)); break; case 0x32: r[r1] = (uint64_t) sx(ld(e, 4), 32); lt((int64_t) r[r1]); break; default: uns(w); } break; }
			case 0xeb: { int b = q[2] >> 4; int64_t d = sx((uint64_t) q[4] << 12 | (uint64_t) (q[2] & 15) << 8 | q[3], 20); uint64_t e = BD(b, (uint64_t) d); switch (q[5]) {
				case 0x04: for (int i = r1, k = 0;; i = (i + 1) & 15, k++) { r[i] = ld(e + 8 * k, 8); if (i == r2) break; } break; case 0x24: for (int i = r1, k = 0;; i = (i + 1) & 15, k++) { st(e + 8 * k, 8, r[i]); if (i == r2) break; } break;
				case 0x0d: r[r1] = r[r2] << (e & 63); break; case 0x0c: r[r1] = r[r2] >> (e & 63); break; case 0x0a: r[r1] = (uint64_t) ((int64_t) r[r2] >> (e & 63)); lt((int64_t) r[r1]); break; case 0xdf: W32(r1, u32(r2) << (e & 63)); break; case 0xde: W32(r1, u32(r2) >> (e & 63)); break; case 0xdc: W32(r1, (uint64_t) (s32(r2) >> (e & 63))); lt(s32(r1)); break;
				case 0x7a: { uint64_t v = add64(ld(e, 8), (uint64_t) (int64_t) (int8_t) q[1]); st(e, 8, v); break; } case 0x6a: { uint64_t v = add32(ld(e, 4), (int8_t) q[1]); st(e, 4, v); break; } case 0x52: st(e, 1, q[1]); break; case 0x55: cmpl(ld(e, 1), q[1]); break; case 0x51: { uint64_t v = ld(e, 1) & q[1]; cc = !v ? 0 : v == q[1] ? 3 : 1; break; }
				case 0xe2: if (cond(r2)) r[r1] = ld(e, 8); break; case 0xf2: if (cond(r2)) W32(r1, ld(e, 4)); break; case 0xe3: if (cond(r2)) st(e, 8, r[r1]); break; case 0xf3: if (cond(r2)) st(e, 4, r[r1]); break; default: uns(w); } break; }
			case 0xe5: { int b = q[2] >> 4; uint64_t e = BD(b, (uint64_t) (q[2] & 15) << 8 | q[3]); int64_t i16 = (int16_t) (q[4] << 8 | q[5]); switch (q[1]) { case 0x44: st(e, 2, (uint64_t) i16); break; case 0x4c: st(e, 4, (uint64_t) i16); break; case 0x48: st(e, 8, (uint64_t) i16); break; case 0x54: cmp(sx(ld(e, 2), 16), i16); break; case 0x5c: cmp(sx(ld(e, 4), 32), i16); break; case 0x58: cmp((int64_t) ld(e, 8), i16); break; case 0x5d: cmpl(ld(e, 4), (uint16_t) i16); break; case 0x59: cmpl(ld(e, 8), (uint16_t) i16); break; case 0x55: cmpl(ld(e, 2), (uint16_t) i16); break; default: uns(w); } break; }
			case 0xec: { int64_t ri = (int16_t) (q[2] << 8 | q[3]); int m = q[4] >> 4; auto cj = [&](bool lt_, bool eq) { int c = eq ? 0 : lt_ ? 1 : 2; if (condc(m, c)) next = rel(ri); }; auto ci = [&](bool lt_, bool eq) { int c = eq ? 0 : lt_ ? 1 : 2; if (condc(r2, c)) next = rel(ri); }; int64_t i8 = (int8_t) q[4]; uint64_t u8 = q[4]; switch (q[5]) {
				case 0x64: cj((int64_t) r[r1] < (int64_t) r[r2], r[r1] == r[r2]); break; case 0x65: cj(r[r1] < r[r2], r[r1] == r[r2]); break; case 0x76: cj(s32(r1) < s32(r2), s32(r1) == s32(r2)); break; case 0x77: cj(u32(r1) < u32(r2), u32(r1) == u32(r2)); break;
				case 0x7c: ci((int64_t) r[r1] < i8, (int64_t) r[r1] == i8); break; case 0x7d: ci(r[r1] < u8, r[r1] == u8); break; case 0x7e: ci(s32(r1) < i8, s32(r1) == i8); break; case 0x7f: ci(u32(r1) < u8, u32(r1) == u8); break;
				case 0xd8: W32(r1, add32(r[r2], ri)); break; case 0xd9: r[r1] = add64(r[r2], (uint64_t) ri); break; case 0x42: if (cond(r2)) W32(r1, (uint64_t) ri); break; case 0x46: if (cond(r2)) r[r1] = (uint64_t) ri; break;
				case 0x54: case 0x56: case 0x57: { int s = q[2] & 63, e = q[3] & 63, rot = q[4] & 63; bool t = q[2] & 128; uint64_t v = rot ? r[r2] << rot | r[r2] >> (64 - rot) : r[r2]; uint64_t mk = s <= e ? ((~0ull >> s) & (~0ull << (63 - e))) : ((~0ull >> s) | (~0ull << (63 - e))); uint64_t x = (q[5] == 0x54 ? r[r1] & v : q[5] == 0x56 ? r[r1] | v : r[r1] ^ v) & mk; cc = x ? 1 : 0; if (!t) r[r1] = x | (r[r1] & ~mk); break; }
				case 0xfc: case 0xfd: case 0xfe: case 0xff: { uint64_t to = BD(q[2] >> 4, (uint64_t) (q[2] & 15) << 8 | q[3]); int c = q[5] == 0xfc ? ((int64_t) r[r1] == i8 ? 0 : (int64_t) r[r1] < i8 ? 1 : 2) : q[5] == 0xfd ? (r[r1] == u8 ? 0 : r[r1] < u8 ? 1 : 2) : q[5] == 0xfe ? (s32(r1) == i8 ? 0 : s32(r1) < i8 ? 1 : 2) : (u32(r1) == u8 ? 0 : u32(r1) < u8 ? 1 : 2); if (condc(r2, c)) next = to; break; }
				case 0xe4: case 0xe5: case 0xf6: case 0xf7: { uint64_t to = BD(q[2] >> 4, (uint64_t) (q[2] & 15) << 8 | q[3]); bool l = q[5] == 0xe4 ? (int64_t) r[r1] < (int64_t) r[r2] : q[5] == 0xe5 ? r[r1] < r[r2] : q[5] == 0xf6 ? s32(r1) < s32(r2) : u32(r1) < u32(r2), eq = q[5] < 0xf0 ? r[r1] == r[r2] : u32(r1) == u32(r2); if (condc(m, eq ? 0 : l ? 1 : 2)) next = to; break; }
				case 0x55: case 0x59: { int s = q[2] & 63, e = q[3] & 63, rot = q[4] & 63; bool z = q[3] & 128; uint64_t v = rot ? r[r2] << rot | r[r2] >> (64 - rot) : r[r2]; uint64_t mk = s <= e ? ((~0ull >> s) & (~0ull << (63 - e))) : ((~0ull >> s) | (~0ull << (63 - e))); r[r1] = (v & mk) | (z ? 0 : r[r1] & ~mk); if (q[5] == 0x55) lt((int64_t) r[r1]); break; }
				default: uns(w); } break; }
			case 0xd2: { int n = q[1] + 1; uint64_t d = BD(q[2] >> 4, (uint64_t) (q[2] & 15) << 8 | q[3]), s = BD(q[4] >> 4, (uint64_t) (q[4] & 15) << 8 | q[5]); for (int i = 0; i < n; i++) { uint8_t v = *at(s + i, 1, false); *at(d + i, 1, true) = v; } if (log) { log->push_back({LD, (uint8_t) n, 0, false, ipc, s, 0, this->n}); log->push_back({ST, (uint8_t) n, 0, false, ipc, d, 0, this->n}); } break; }
			default: uns(w); } }
		pc = next;
	}
	void enter(uint64_t fn, uint64_t arg, uint64_t s, uint64_t ra) override { for (int i = 0; i < 16; i++) r[i] = pat(i); r[2] = arg; r[14] = ra; r[15] = sp0 = s; cc = 3; pc = fn; }
	void set_tp(uint64_t t) override { ar[0] = (uint32_t) (t >> 32); ar[1] = (uint32_t) t; }
	uint64_t ret() override { return r[2]; }
	std::vector<uint64_t> save() override { std::vector<uint64_t> q(r, r + 16); q.push_back(pc); q.push_back(cc); q.push_back(sp0); return q; }
	void restore(const std::vector<uint64_t> &q) override { for (int i = 0; i < 16; i++) r[i] = q[i]; pc = q[16]; cc = (int) q[17]; sp0 = q[18]; }
	const char *saved_damage() override { for (int i = 6; i <= 13; i++) if (r[i] != pat(i)) return bad("r", i); return r[15] != sp0 ? "the stack pointer was not preserved" : nullptr; }
};
} // namespace xisa
#include "xisa3.hpp"
