// Minimal property-based testing engine (choice-sequence based, as in Hypothesis).
//
// A case is a pure function of a finite sequence of choices; the sequence is
// drawn from a PRNG seeded by (VERIF_SEED, property, case number), recorded as
// it is consumed, shrunk by deleting / lowering choices, and stored in the
// replay file.  Cases run in forked workers so that a crash, an abort or a hang
// of the code under test is an observation, not the end of the run.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
#include <algorithm>
#include <atomic>
#include <stdexcept>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sched.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>

namespace pbt {

static const unsigned MAXC = 1u << 16;          // choices per case
static const unsigned MAXW = 16;
static const unsigned HT = 1u << 22;            // distinct-case table
static const unsigned MAXLAB = 256;

enum Kind { K_NONE = 0, K_FAIL = 1, K_CRASH = 2, K_HANG = 3, K_INCONCLUSIVE = 4 };

struct WorkerShm {
	std::atomic<uint64_t> case_idx;
	std::atomic<uint64_t> start_ns;         // 0: idle
	std::atomic<uint32_t> nchoices;
	std::atomic<int> kind;
	std::atomic<int> done;
	uint64_t next_idx;
	uint64_t choices[MAXC];
	char msg[4096];
};
struct Shm {
	WorkerShm w[MAXW];
	std::atomic<uint64_t> evaluations, nontrivial, distinct, inconclusive;
	std::atomic<int> stop;
	std::atomic<int> lablock;
	unsigned nlab;
	struct { char name[96]; std::atomic<uint64_t> n; } lab[MAXLAB];
	std::atomic<uint64_t> ht[HT];
	// rendering of one case
	char render[1 << 16];
};

inline uint64_t now_ns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
inline uint64_t hash_str(const char *s) { uint64_t h = 1469598103934665603ull; for (; *s; s++) h = (h ^ (unsigned char) *s) * 1099511628211ull; return h; }

struct Fail { std::string msg; };
struct Discard {};

struct Rng {
	uint64_t s[4];
	void seed(uint64_t x) { for (int i = 0; i < 4; i++) s[i] = x = mix(x); }
	static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
	uint64_t next() { uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
};

struct Span { uint32_t a, b; };

struct Ctx {
	// --- choice source
	Rng rng; bool replaying = false;
	const uint64_t *rep = nullptr; uint32_t nrep = 0;
	WorkerShm *w = nullptr;
	uint32_t n = 0;
	std::vector<Span> spans; std::vector<uint32_t> spanstack;
	bool track_spans = false;
	// --- reporting
	bool rendering = false; std::string out; size_t outcap = 60000;
	Shm *shm = nullptr; bool is_nontrivial = false; bool quiet = false;
	uint64_t extra_eval = 0; uint64_t idx = 0;
	std::string tier;

	// A choice in [0, m).  0 is the simplest value.
	uint64_t below(uint64_t m) {
		uint64_t v;
		if (m <= 1) return 0;
		if (replaying) { v = n < nrep ? rep[n] : 0; if (v >= m) v = m - 1; }
		else v = rng.next() % m;
		if (n < MAXC) w->choices[n] = v;
		n++; w->nchoices.store(n < MAXC ? n : MAXC, std::memory_order_relaxed);
		if (n > MAXC) throw Discard();
		return v;
	}
	uint64_t u64() { uint64_t v; if (replaying) v = n < nrep ? rep[n] : 0; else v = rng.next();
		if (n < MAXC) w->choices[n] = v;
		n++; w->nchoices.store(n < MAXC ? n : MAXC, std::memory_order_relaxed);
		if (n > MAXC) throw Discard();
		return v; }
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo) + 1); }
	bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }  // 0 => false
	bool coin() { return below(2); }
	template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	template<class T, size_t N> const T &pick(const T (&v)[N]) { return v[below(N)]; }
	// weighted pick, index
	int weighted(std::initializer_list<unsigned> ws) { unsigned t = 0; for (auto x : ws) t += x; uint64_t r = below(t); int i = 0; for (auto x : ws) { if (r < x) return i; r -= x; i++; } return i - 1; }
	// interesting machine word
	uint64_t word() {
		switch (weighted({4, 3, 3, 3, 2, 4})) {
		case 0: return below(16);
		case 1: return (uint64_t) 0 - below(17);
		case 2: { uint64_t b = below(64); uint64_t v = 1ull << b; int d = (int) below(3); return d == 0 ? v : d == 1 ? v - 1 : v + 1; }
		case 3: { static const uint64_t t[] = { 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffff80000000ull, 0xffffffff7fffffffull, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x0101010101010101ull, 0xdeadbeefcafebabeull }; return t[below(12)]; }
		case 4: return below(1ull << 32);
		default: return u64();
		}
	}
	void span_begin() { if (track_spans) spanstack.push_back(n); }
	void span_end() { if (track_spans) { uint32_t a = spanstack.back(); spanstack.pop_back(); if (n > a) spans.push_back({a, n}); } }
	struct SpanGuard { Ctx &c; SpanGuard(Ctx &c_) : c(c_) { c.span_begin(); } ~SpanGuard() { c.span_end(); } };
	// continue flag for repeated elements: expected length ~ avg
	bool more(unsigned avg) { return below(avg + 1) != 0; }

	// --- reporting
	void note(const char *f, ...) __attribute__((format(printf, 2, 3))) {
		if (!rendering || out.size() > outcap) return;
		char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
		out += b; out += '\n';
		if (shm) { size_t l = std::min(out.size(), sizeof(shm->render) - 1); memcpy(shm->render, out.data(), l); shm->render[l] = 0; }
	}
	[[noreturn]] void fail(const char *f, ...) __attribute__((format(printf, 2, 3))) {
		char b[3000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
		throw Fail{b};
	}
	[[noreturn]] void discard() { throw Discard(); }
	void nontrivial() { is_nontrivial = true; }
	void label(const char *name, uint64_t k = 1) {
		if (quiet) return;
		for (unsigned i = 0; i < shm->nlab; i++) if (!strcmp(shm->lab[i].name, name)) { shm->lab[i].n += k; return; }
		while (shm->lablock.exchange(1)) sched_yield();
		unsigned i; for (i = 0; i < shm->nlab; i++) if (!strcmp(shm->lab[i].name, name)) break;
		if (i == shm->nlab && i < MAXLAB) { snprintf(shm->lab[i].name, 96, "%s", name); shm->nlab = i + 1; }
		shm->lablock = 0;
		if (i < MAXLAB) shm->lab[i].n += k;
	}
	void labelf(uint64_t k, const char *f, ...) __attribute__((format(printf, 3, 4))) { char b[96]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); label(b, k); }
	// A listed known finding: counted, not reported (VP_KNOWN holds the keys of known-findings.txt).
	bool known(const char *key) {
		const char *l = getenv("VP_KNOWN"); if (!l) return false;
		size_t n = strlen(key); for (const char *q = l; (q = strstr(q, key)); q++) if ((q == l || q[-1] == ',') && (q[n] == 0 || q[n] == ',')) { labelf(1, "known finding %s", key); return true; }
		return false;
	}
	void evals(uint64_t k) { extra_eval += k; }
};

#define PBT_CHECK(c, cond, ...) do { if (!(cond)) (c).fail(__VA_ARGS__); } while (0)

struct Property {
	const char *id;                 // e.g. "C11"
	const char *rule;               // how cases are made, what is non-trivial
	std::function<void(Ctx &)> fn;
	uint64_t quick, thorough;       // number of cases
	unsigned batch = 1;             // cases per forked child (1 = full isolation)
	unsigned timeout_s = 40;        // per case
	std::function<void()> init = nullptr;    // once in the parent
	unsigned workers = 8;
};

struct Options { uint64_t seed = 1; std::string tier = "quick", out, replay, replay_dir = ".", prop; uint64_t cases = 0; int workers = 8; bool verbose = false; int64_t only = -1; uint64_t from = 0; double scale = 1; };

inline std::string jesc(const std::string &s) {
	std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

struct Outcome { int kind = K_NONE; std::string msg; std::vector<uint64_t> choices; std::vector<Span> spans; std::string render; bool nontrivial = false; };

class Runner {
public:
	Property &p; Options &o; Shm *shm;
	Runner(Property &p_, Options &o_) : p(p_), o(o_) {
		shm = (Shm *) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (shm == MAP_FAILED) { perror("mmap"); exit(2); }
	}
	void seed(Ctx &c, uint64_t idx) { c.rng.seed(mix(o.seed * 0x9e3779b97f4a7c15ull + hash_str(p.id)) ^ mix(idx + 77)); c.idx = idx; }

	// Executes one case in this process.
	int exec(Ctx &c, std::string &msg) {
		try { p.fn(c); return K_NONE; }
		catch (Fail &f) { msg = f.msg; return K_FAIL; }
		catch (Discard &) { msg = "discarded"; return K_INCONCLUSIVE; }
		catch (std::exception &e) { msg = std::string("exception: ") + e.what(); return K_FAIL; }
	}
	void child_setup(int wi) {
		(void) wi;
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
		if (!o.verbose) { int fd = open("/dev/null", O_WRONLY | O_CLOEXEC); if (fd >= 0) { dup2(fd, 2); close(fd); } }
	}
	void batch_child(int wi, uint64_t first, uint64_t count, uint64_t stride) {
		child_setup(wi);
		WorkerShm &w = shm->w[wi];
		for (uint64_t k = 0; k < count; k++) {
			uint64_t idx = first + k * stride;
			if (shm->stop) break;
			Ctx c; c.w = &w; c.shm = shm; c.tier = o.tier; seed(c, idx);
			w.nchoices = 0; w.case_idx = idx; w.kind = K_NONE;
			w.start_ns = now_ns();
			std::string msg; int kd = exec(c, msg);
			w.start_ns = 0;
			shm->evaluations += 1 + c.extra_eval;
			if (kd == K_FAIL) { snprintf(w.msg, sizeof w.msg, "%s", msg.c_str()); w.kind = K_FAIL; _exit(1); }
			if (kd == K_INCONCLUSIVE) shm->inconclusive++;
			if (kd == K_NONE && c.is_nontrivial) {
				shm->nontrivial++;
				uint64_t h = 0x1234567; uint32_t nn = w.nchoices;
				for (uint32_t i = 0; i < nn; i++) h = mix(h ^ w.choices[i]);
				if (!h) h = 1;
				for (uint32_t i = 0; i < 64; i++) { auto &e = shm->ht[(h + i) % HT]; uint64_t z = 0; if (e.compare_exchange_strong(z, h)) { shm->distinct++; break; } if (z == h) break; }
			}
			w.next_idx = idx + stride;
		}
		_exit(0);
	}
	// Runs one case in a fresh child, from choices (or generated if choices==nullptr).
	Outcome run_isolated(const std::vector<uint64_t> *ch, uint64_t idx, bool render, unsigned tmo) {
		Outcome r; WorkerShm &w = shm->w[MAXW - 1];
		w.nchoices = 0; w.kind = K_NONE; w.start_ns = 0; shm->render[0] = 0;
		struct SpanBuf { uint32_t n; uint32_t nt; Span s[8192]; };
		static SpanBuf *sb = (SpanBuf *) mmap(nullptr, sizeof(SpanBuf), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		sb->n = 0; sb->nt = 0;
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			child_setup(MAXW - 1);
			Ctx c; c.w = &w; c.shm = shm; c.quiet = true; c.tier = o.tier; c.rendering = render; c.track_spans = true; seed(c, idx);
			if (ch) { c.replaying = true; c.rep = ch->data(); c.nrep = ch->size(); }
			std::string msg; int kd = exec(c, msg);
			if (kd == K_FAIL) snprintf(w.msg, sizeof w.msg, "%s", msg.c_str());
			sb->n = std::min<size_t>(c.spans.size(), 8192); for (unsigned i = 0; i < sb->n; i++) sb->s[i] = c.spans[i];
			sb->nt = c.is_nontrivial;
			w.kind = kd; _exit(kd == K_FAIL ? 1 : 0);
		}
		int st = 0; uint64_t t0 = now_ns(); bool hung = false; unsigned spin = 0;
		for (;;) { pid_t q = waitpid(pid, &st, WNOHANG); if (q == pid) break; if (q < 0 && errno != EINTR) break;
			if (now_ns() - t0 > tmo * 1000000000ull) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
			usleep(spin++ < 100 ? 100 : 2000); }
		r.choices.assign(w.choices, w.choices + std::min<uint32_t>(w.nchoices, MAXC));
		r.spans.assign(sb->s, sb->s + sb->n); r.nontrivial = sb->nt;
		if (hung) { r.kind = K_HANG; r.msg = "did not terminate"; }
		else if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGKILL) { r.kind = K_INCONCLUSIVE; r.msg = "killed"; } else { r.kind = K_CRASH; r.msg = std::string("process died: ") + strsignal(WTERMSIG(st)); } }
		else if (w.kind == K_FAIL) { r.kind = K_FAIL; r.msg = w.msg; }
		else if (w.kind == K_INCONCLUSIVE) r.kind = K_INCONCLUSIVE;
		else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) { r.kind = K_CRASH; char b[64]; snprintf(b, 64, "process exited with status %d", WEXITSTATUS(st)); r.msg = b; }
		r.render = shm->render;
		return r;
	}
	// Runs cases first, first+stride, ... last in one fresh child, as a batch does.
	Outcome run_batch(uint64_t first, uint64_t stride, uint64_t last, unsigned tmo) {
		Outcome r; WorkerShm &w = shm->w[MAXW - 1];
		w.nchoices = 0; w.kind = K_NONE; w.start_ns = 0; w.case_idx = first;
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			child_setup(MAXW - 1);
			for (uint64_t idx = first; idx <= last; idx += stride) {
				Ctx c; c.w = &w; c.shm = shm; c.quiet = true; c.tier = o.tier; seed(c, idx);
				w.nchoices = 0; w.case_idx = idx; w.start_ns = now_ns();
				std::string msg; int kd = exec(c, msg);
				w.start_ns = 0;
				if (kd == K_FAIL) { snprintf(w.msg, sizeof w.msg, "%s", msg.c_str()); w.kind = K_FAIL; _exit(1); }
			}
			_exit(0);
		}
		int st = 0; bool hung = false; unsigned spin = 0;
		for (;;) { pid_t q = waitpid(pid, &st, WNOHANG); if (q == pid) break; if (q < 0 && errno != EINTR) break;
			uint64_t s = w.start_ns; if (s && now_ns() > s && now_ns() - s > tmo * 1000000000ull) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
			usleep(spin++ < 100 ? 100 : 2000); }
		if (hung) { r.kind = K_HANG; r.msg = "did not terminate"; }
		else if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGKILL) { r.kind = K_INCONCLUSIVE; r.msg = "killed"; } else { r.kind = K_CRASH; r.msg = std::string("process died: ") + strsignal(WTERMSIG(st)); } }
		else if (w.kind == K_FAIL) { r.kind = K_FAIL; r.msg = w.msg; }
		else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) { r.kind = K_CRASH; r.msg = "unexpected exit of the case process"; }
		return r;
	}
	static bool bad(const Outcome &r) { return r.kind == K_FAIL || r.kind == K_CRASH || r.kind == K_HANG; }

	Outcome shrink(Outcome best, unsigned budget_s, unsigned tmo) {
		uint64_t t0 = now_ns(); unsigned tries = 0;
		auto over = [&] { return (now_ns() - t0) > budget_s * 1000000000ull || tries > 4000; };
		auto less = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) { if (a.size() != b.size()) return a.size() < b.size(); return a < b; };
		auto attempt = [&](std::vector<uint64_t> c) -> bool {
			tries++;
			Outcome r = run_isolated(&c, 0, false, tmo);
			if (!bad(r)) return false;
			if (!less(r.choices, best.choices) && !less(c, best.choices)) return false;
			if (!less(r.choices, best.choices)) r.choices = c;
			best = r; return true;
		};
		bool progress = true;
		while (progress && !over()) {
			progress = false;
			// delete spans, largest first
			{
				bool again = true;
				while (again && !over()) {
					again = false;
					auto sp = best.spans; std::sort(sp.begin(), sp.end(), [](const Span &x, const Span &y) { return x.b - x.a > y.b - y.a; });
					for (auto &s : sp) { if (over()) break; if (s.b > best.choices.size()) continue;
						std::vector<uint64_t> c(best.choices.begin(), best.choices.begin() + s.a); c.insert(c.end(), best.choices.begin() + s.b, best.choices.end());
						if (attempt(c)) { progress = again = true; break; } }
				}
			}
			// delete chunks
			for (size_t len = 32; len >= 1 && !over(); len /= 2)
				for (size_t i = 0; i + len <= best.choices.size() && !over();) {
					std::vector<uint64_t> c(best.choices.begin(), best.choices.begin() + i); c.insert(c.end(), best.choices.begin() + i + len, best.choices.end());
					if (attempt(c)) progress = true; else i += len; }
			// lower values
			for (size_t i = 0; i < best.choices.size() && !over(); i++) {
				if (!best.choices[i]) continue;
				auto c = best.choices; c[i] = 0; if (attempt(c)) { progress = true; continue; }
				uint64_t lo = 0, hi = best.choices.size() > i ? best.choices[i] : 0;
				for (int k = 0; k < 12 && hi > lo + 1 && !over() && i < best.choices.size(); k++) { uint64_t m = lo + (hi - lo) / 2; c = best.choices; c[i] = m; if (attempt(c)) { progress = true; hi = m; } else lo = m; }
				if (i < best.choices.size() && best.choices[i] > 0) { c = best.choices; c[i]--; if (attempt(c)) progress = true; }
			}
		}
		return best;
	}

	int run() {
		uint64_t t0 = now_ns();
		uint64_t total = o.cases ? o.cases : (o.tier == "thorough" ? p.thorough : p.quick);
		total = (uint64_t) (total * o.scale); if (!total) total = 1;
		int W = std::min<int>(o.workers, p.workers); if (W > (int) MAXW - 1) W = MAXW - 1;
		std::vector<pid_t> pids(W, -1); std::vector<uint64_t> next(W), bfirst(W, 0);
		for (int i = 0; i < W; i++) next[i] = o.from + i;
		std::vector<Outcome> fails; std::vector<uint64_t> failidx;
		uint64_t end = o.from + total; unsigned unrepro = 0; std::string unrepro_msg;
		bool finished = false; Outcome final; uint64_t final_idx = 0, fail_first = 0, batch_first = 0; bool batch_mode = false;
		if (o.only >= 0) { Outcome r = run_isolated(nullptr, o.only, true, p.timeout_s); printf("%s\nresult kind=%d %s\n", r.render.c_str(), r.kind, r.msg.c_str()); return bad(r) ? 1 : 0; }
		while (!finished) {
			bool any = false;
			for (int i = 0; i < W; i++) {
				WorkerShm &w = shm->w[i];
				if (pids[i] < 0) {
					if (next[i] >= end) continue;
					uint64_t left = (end - next[i] + W - 1) / W; uint64_t cnt = std::min<uint64_t>(left, p.batch);
					w.kind = K_NONE; w.start_ns = 0; w.next_idx = next[i]; w.nchoices = 0;
					fflush(stdout);
					pid_t pid = fork();
					if (pid == 0) { batch_child(i, next[i], cnt, W); }
					if (pid < 0) { usleep(1000); any = true; continue; }
					pids[i] = pid; bfirst[i] = next[i]; any = true; continue;
				}
				any = true;
				int st; pid_t q = waitpid(pids[i], &st, WNOHANG);
				bool hung = false;
				if (q == 0) { uint64_t s = w.start_ns; if (s && now_ns() - s > p.timeout_s * 1000000000ull) { kill(pids[i], SIGKILL); waitpid(pids[i], &st, 0); hung = true; } else continue; }
				pids[i] = -1;
				Outcome r;
				if (hung) { r.kind = K_HANG; r.msg = "did not terminate"; }
				else if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGKILL) { shm->inconclusive++; next[i] = w.next_idx + W; continue; } r.kind = K_CRASH; r.msg = std::string("process died: ") + strsignal(WTERMSIG(st)); }
				else if (w.kind == K_FAIL) { r.kind = K_FAIL; r.msg = w.msg; }
				else if (WEXITSTATUS(st)) { r.kind = K_CRASH; r.msg = "unexpected exit of the case process"; }
				next[i] = w.next_idx;
				if (bad(r)) {
					if (r.kind != K_FAIL) shm->evaluations++;
					r.choices.assign(w.choices, w.choices + std::min<uint32_t>(w.nchoices, MAXC));
					fails.push_back(r); failidx.push_back(w.case_idx); fail_first = bfirst[i]; next[i] = w.case_idx + W; finished = true; break;
				}
			}
			if (finished) {
				// confirm in fresh processes, with the machine otherwise idle: three more failures are needed
				// (one, at the full time limit, for a hang).  A failure that needs the cases which ran
				// before it in the same process is confirmed the same way by re-running those cases.
				shm->stop = 1;
				for (int i = 0; i < W; i++) if (pids[i] > 0) { kill(pids[i], SIGKILL); waitpid(pids[i], nullptr, 0); pids[i] = -1; next[i] = shm->w[i].next_idx; }
				shm->stop = 0;
				Outcome r = fails.back(); uint64_t idx = failidx.back(); bool ok = true; Outcome rr;
				for (int k = 0; k < (rr.kind == K_HANG ? 1 : 3) && ok; k++) { rr = run_isolated(nullptr, idx, false, p.timeout_s); ok = bad(rr); }
				if (!ok && fail_first < idx) {
					ok = true; for (int k = 0; k < (rr.kind == K_HANG ? 1 : 3) && ok; k++) { rr = run_batch(fail_first, W, idx, p.timeout_s); ok = bad(rr); }
					if (ok) { batch_mode = true; batch_first = fail_first; }
				}
				if (!ok) { unrepro++; unrepro_msg = r.msg; fprintf(stderr, "note: case %llu failed once (%s) but did not reproduce; not reported\n", (unsigned long long) idx, r.msg.c_str()); finished = false; if (unrepro > 20) { end = 0; } continue; }
				final = rr; final_idx = idx;
				break;
			}
			if (!any) break;
			usleep(200);
		}
		bool violated = finished; std::string replay_path;
		if (violated) {
			Outcome orig = final;
			bool hang = final.kind == K_HANG; Outcome s = final;
			if (batch_mode) {
				// shrink the batch: the shortest suffix (in cases) that still fails
				uint64_t bt0 = now_ns(), lo = 1, hi = (final_idx - batch_first) / W;   // cases kept before the failing one
				while (!hang && lo < hi && now_ns() - bt0 < 60ull * 1000000000ull) { uint64_t m = lo + (hi - lo) / 2; bool b = true; for (int k = 0; k < 2 && b; k++) b = bad(run_batch(final_idx - m * W, W, final_idx, p.timeout_s)); if (b) hi = m; else lo = m + 1; }
				batch_first = final_idx - hi * W;
			} else s = shrink(final, hang ? 40 : o.tier == "thorough" ? 120 : 45, hang ? 6 : std::min(p.timeout_s, 20u));
			bool ok = true; for (int k = 0; k < (hang ? 1 : 3) && ok && !batch_mode; k++) ok = bad(run_isolated(&s.choices, 0, false, p.timeout_s));
			if (!ok) s = orig;
			Outcome r = batch_mode ? run_isolated(nullptr, final_idx, true, p.timeout_s) : run_isolated(&s.choices, 0, true, hang ? 6 : p.timeout_s); if (!r.render.empty()) s.render = r.render; if (bad(r)) s.msg = r.msg;
			char nm[256]; snprintf(nm, sizeof nm, "%s/%s-seed%llu-case%llu.replay", o.replay_dir.c_str(), p.id, (unsigned long long) o.seed, (unsigned long long) final_idx);
			replay_path = nm;
			FILE *f = fopen(nm, "w"); if (f) { fprintf(f, "# property %s, seed %llu, case %llu, shrunk to %zu choices\n# failure: ", p.id, (unsigned long long) o.seed, (unsigned long long) final_idx, s.choices.size());
				for (char ch : s.msg) { fputc(ch, f); if (ch == '\n') fputs("# ", f); } fputs("\n#\n", f);
				std::string line; for (char ch : s.render) { if (ch == '\n') { fprintf(f, "# %s\n", line.c_str()); line.clear(); } else line += ch; }
				if (batch_mode) fprintf(f, "# needs the cases before it in the same process\nbatch %llu %llu %d %llu\n", (unsigned long long) o.seed, (unsigned long long) batch_first, W, (unsigned long long) final_idx);
				else { fprintf(f, "choices"); for (auto v : s.choices) fprintf(f, " %llu", (unsigned long long) v); fputc('\n', f); } fclose(f); }
			printf("failure: %s\n%s", s.msg.c_str(), s.render.c_str());
			printf("REPLAY %s\n", nm);
			final = s;
		}
		// samples: render a few cases, preferring non-trivial ones
		std::vector<std::string> samples; unsigned tried = 0;
		for (uint64_t k = 0; k < 40 && samples.size() < 3 && now_ns() - t0 < 800ull * 1000000000ull && !violated; k++) { uint64_t idx = o.from + (k * 7919) % total; Outcome r = run_isolated(nullptr, idx, true, p.timeout_s); tried++; if (r.nontrivial || k >= 36) { std::string t = r.render; if (t.size() > 3000) { t.resize(3000); t += "..."; } samples.push_back(t); } }
		double wall = (now_ns() - t0) / 1e9;
		FILE *f = o.out.empty() ? nullptr : fopen(o.out.c_str(), "w");
		if (f) {
			fprintf(f, "{\"property\":\"%s\",\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"inconclusive\":%llu,\"unreproduced\":%u,\"violations\":%d,\"wall_s\":%.2f,\"rule\":\"%s\",\"replay\":\"%s\",\"message\":\"%s\",\"labels\":{", p.id, (unsigned long long) shm->evaluations.load(), (unsigned long long) shm->nontrivial.load(), (unsigned long long) shm->distinct.load(), (unsigned long long) shm->inconclusive.load(), unrepro, violated ? 1 : 0, wall, jesc(p.rule).c_str(), jesc(replay_path).c_str(), jesc(final.msg).c_str());
			for (unsigned i = 0; i < shm->nlab; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", jesc(shm->lab[i].name).c_str(), (unsigned long long) shm->lab[i].n.load());
			fprintf(f, "},\"samples\":["); for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str()); fprintf(f, "]}\n"); fclose(f);
		}
		printf("%s: %llu evaluations, %llu distinct non-trivial, %llu inconclusive, %u unreproduced, %.1f s%s\n", p.id, (unsigned long long) shm->evaluations.load(), (unsigned long long) shm->distinct.load(), (unsigned long long) shm->inconclusive.load(), unrepro, wall, violated ? ", VIOLATED" : "");
		return violated ? 1 : 0;
	}
	int replay() {
		FILE *f = fopen(o.replay.c_str(), "r"); if (!f) { perror(o.replay.c_str()); return 2; }
		std::vector<uint64_t> ch; char *line = nullptr; size_t cap = 0; unsigned long long bs, bf, bl; int bw = 0;
		while (getline(&line, &cap, f) > 0) if (sscanf(line, "batch %llu %llu %d %llu", &bs, &bf, &bw, &bl) == 4) continue; else if (!strncmp(line, "choices", 7)) { char *q = line + 7; for (;;) { char *e; unsigned long long v = strtoull(q, &e, 10); if (e == q) break; ch.push_back(v); q = e; } }
		fclose(f);
		Outcome r;
		if (bw > 0) { o.seed = bs; r = run_batch(bf, bw, bl, p.timeout_s); }
		else r = run_isolated(&ch, 0, true, p.timeout_s);
		printf("%sresult: %s\n", r.render.c_str(), bad(r) ? r.msg.c_str() : r.kind == K_INCONCLUSIVE ? "inconclusive" : "property held on this case");
		return bad(r) ? 1 : 0;
	}
};

inline int main_(int argc, char **argv, std::vector<Property> props) {
	Options o; const char *e = getenv("VERIF_SEED"); if (e) o.seed = strtoull(e, nullptr, 0); e = getenv("VERIF_TIER"); if (e && *e) o.tier = e;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto val = [&] { return i + 1 < argc ? argv[++i] : (char *) ""; };
		if (a == "--seed") o.seed = strtoull(val(), nullptr, 0); else if (a == "--tier") o.tier = val(); else if (a == "--out") o.out = val(); else if (a == "--replay") o.replay = val(); else if (a == "--replay-dir") o.replay_dir = val(); else if (a == "--prop") o.prop = val(); else if (a == "--cases") o.cases = strtoull(val(), nullptr, 0); else if (a == "--workers") o.workers = atoi(val()); else if (a == "-v") o.verbose = true; else if (a == "--only") o.only = atoll(val()); else if (a == "--from") o.from = strtoull(val(), nullptr, 0); else if (a == "--scale") o.scale = atof(val());
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
	}
	for (auto &p : props) if (o.prop.empty() || o.prop == p.id) { if (p.init) p.init(); Runner r(p, o); return o.replay.empty() ? r.run() : r.replay(); }
	fprintf(stderr, "no such property\n"); return 2;
}

} // namespace pbt
