#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <fstream>
#include <iterator>
#include "../../harness/xisa.hpp"
using namespace std; using xisa::Mach;
extern "C" uint64_t (*const ftab[])(uint8_t *), (*const ftab_be[])(uint8_t *);
static Mach *new_mach(const std::string &arch, bool be) {
	Mach *m = nullptr;
	if (arch == "aarch64" || arch == "aarch64_be") m = new xisa::A64; else if (arch == "riscv64") m = new xisa::RV; else if (arch == "powerpc64" || arch == "powerpc64le") m = new xisa::PPC; else if (arch == "loongarch64") m = new xisa::LA; else if (arch.substr(0, 4) == "mips") m = new xisa::MIPS; else m = new xisa::S390;
	m->be = be; return m; }
alignas(4096) static uint8_t mem[4096], stk[65536];
static uint64_t rs = 88172645463325252ull; static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
int main(int ac, char **av) {
	int N = atoi(av[1]); map<string,int> unsup; long runs = 0, bad = 0, uns = 0;
	for (int ai = 2; ai < ac; ai++) {
		string fn = av[ai], arch = fn.substr(0, fn.find("__")); ifstream is(fn, ios::binary); vector<uint8_t> F((istreambuf_iterator<char>(is)), {}); if (F.empty()) { printf("no %s\n", av[ai]); continue; } const uint8_t *f = F.data(); bool be = f[5] == 2; auto g = [&](size_t o, size_t n) { return Mach::get(f + o, n, be); };
		unique_ptr<Mach> mp(new_mach(arch, be)); Mach &m = *mp;
		uint64_t ph = g(32, 8), sh = g(40, 8); unsigned pn = g(56, 2), sn = g(60, 2); uint64_t lo = ~0ull, hi = 0;
		for (unsigned i = 0; i < pn; i++) { size_t o = ph + 56 * i; if (g(o, 4) != 1) continue; uint64_t va = g(o + 16, 8), ms = g(o + 40, 8); lo = min(lo, va); hi = max(hi, va + ms); }
		vector<uint8_t> img(hi - lo + 64); for (unsigned i = 0; i < pn; i++) { size_t o = ph + 56 * i; if (g(o, 4) != 1) continue; memcpy(&img[g(o + 16, 8) - lo], f + g(o + 8, 8), g(o + 32, 8)); }
		map<string, uint64_t> sym;
		for (unsigned i = 0; i < sn; i++) { size_t o = sh + 64 * i; if (g(o + 4, 4) == 2) { uint64_t st = g(sh + 64 * g(o + 40, 4) + 24, 8), n = g(o + 32, 8) / 24; for (uint64_t k = 0; k < n; k++) { size_t e = g(o + 24, 8) + 24 * k; sym[(const char *) f + st + g(e, 4)] = g(e + 8, 8); } } }
		m.seg = { { lo, img.size(), img.data(), false }, { (uint64_t) mem, sizeof mem, mem, true }, { (uint64_t) stk, sizeof stk, stk, true } };
		m.toc = sym.count(".TOC.") ? sym[".TOC."] : sym.count("__global_pointer$") ? sym["__global_pointer$"] : 0;
		uint64_t t = sym["ftab"];
		for (int i = 0; i < N; i++) for (int rep = 0; rep < 6; rep++) {
			uint8_t ref[512]; uint64_t w[64]; for (auto &x : w) { x = rnd(); int k = rnd() % 6; if (k == 0) x &= 0xff; if (k == 1) x = (int64_t) (int32_t) x; if (k == 2) x &= 7; if (k == 3) x = ~0ull << (x & 63); }
			// the functions are endian-sensitive only through byte accesses; skip exact comparison for mixed sizes on BE by byte-swapping nothing
			memset(mem, 0, sizeof mem); memset(ref, 0, sizeof ref);
			memcpy(ref, w, 512); memcpy(mem, w, 512);
			uint64_t want = 0, got = 0; uint8_t refout[512];
			memcpy(refout, ref, 512); want = (be ? ftab_be : ftab)[i](refout);
			try { m.enter(m.peek(t + 8 * i, 8), (uint64_t) mem, (uint64_t) stk + 60000, 0x7ead0000); long n = 0; while (m.pc != 0x7ead0000 && n++ < 200000) m.step(); if (n >= 200000) { printf("%s f%d runaway\n", av[ai], i); bad++; break; } got = m.ret(); }
			catch (const xisa::Unsupported &u) { char b[64]; snprintf(b, 64, "%s %llx", arch.c_str(), (unsigned long long) u.w); unsup[b]++; uns++; break; }
			catch (const xisa::Fault &x) { printf("%s f%d fault %s %llx pc %llx\n", av[ai], i, x.why, (unsigned long long) x.addr, (unsigned long long) x.pc); bad++; break; }
			runs++; const char *d = m.saved_damage(); if (d) { printf("%s f%d damage %s\n", av[ai], i, d); bad++; break; }
			if ((got != want || memcmp(refout, mem, 512))) { printf("%s f%d got %llx want %llx mem %s\n", av[ai], i, (unsigned long long) got, (unsigned long long) want, memcmp(refout, mem, 512) ? "differs" : "same"); bad++; break; }

		}
	}
	printf("runs %ld bad %ld unsupported %ld\n", runs, bad, uns); for (auto &x : unsup) printf("  %s x%d\n", x.first.c_str(), x.second); return bad != 0;
}
