// C09: detection of the number of possible CPUs, with generated system files, directories and faults.
#include "evsched.hpp"
#include <rseq/rseq.h>
#include <rseq/mempool.h>
#include <dirent.h>
#include <fcntl.h>
using namespace pbt;

static const char *const POSSIBLE = "/sys/devices/system/cpu/possible", *const CPUDIR = "/sys/devices/system/cpu";
struct DEnt { std::string name; unsigned char type; };
static struct Env {
	bool list_open = true; std::string list; long fail_after = -1; int fail_errno = EIO; std::vector<unsigned> chunks; unsigned eintr = 0; bool close_fails = false;
	bool dir_open = true; std::vector<DEnt> ents; long conf = 4;
	bool used = false; std::string odd;
} E;
struct File { size_t pos = 0, k = 0; unsigned intr = 0; bool open = false; };
static File F[8]; static const int FD0 = 700; static int open_files, open_dirs;
static int fopen_(const char *p, int flags) { at_call(); E.used = true; if (!strcmp(p, POSSIBLE)) { if (!E.list_open) { errno = ENOENT; return -1; } for (int i = 0; i < 8; i++) if (!F[i].open) { F[i] = File(); F[i].open = true; F[i].intr = E.eintr; open_files++; return FD0 + i; } errno = EMFILE; return -1; } (void) flags; E.odd = p; errno = ENOENT; return -1; }
static ssize_t fread_(int i, void *b, size_t n) {
	at_call(); File &f = F[i]; if (!n) return 0;
	if (f.intr && (f.k & 1) == 0) { f.k++; f.intr--; errno = EINTR; return -1; } f.k++;
	if (E.fail_after >= 0 && (long) f.pos >= E.fail_after) { errno = E.fail_errno; return -1; }
	size_t l = E.list.size() - f.pos; if (l > n) l = n; if (!E.chunks.empty()) { size_t m = E.chunks[f.k % E.chunks.size()]; if (l > m) l = m; } if (E.fail_after >= 0 && (long) (f.pos + l) > E.fail_after) l = (size_t) E.fail_after - f.pos;
	if (!l && f.pos < E.list.size() && E.fail_after >= 0) { errno = E.fail_errno; return -1; }
	memcpy(b, E.list.data() + f.pos, l); f.pos += l; return (ssize_t) l;
}
static int fclose_(int i) { at_call(); F[i].open = false; open_files--; if (E.close_fails) { errno = EIO; return -1; } return 0; }
struct Dir { size_t pos; struct dirent d; };
extern "C" {
int vp_open(const char *p, int fl, ...) { return fopen_(p, fl); }
int vp_open64(const char *p, int fl, ...) { return fopen_(p, fl); }
int vp_openat(int, const char *p, int fl, ...) { return fopen_(p, fl); }
ssize_t vp_read(int fd, void *b, size_t n) { if (fd < FD0 || fd >= FD0 + 8 || !F[fd - FD0].open) { errno = EBADF; return -1; } return fread_(fd - FD0, b, n); }
int vp_close(int fd) { if (fd < FD0 || fd >= FD0 + 8 || !F[fd - FD0].open) { E.odd = "close of a descriptor that is not open"; errno = EBADF; return -1; } return fclose_(fd - FD0); }
static ssize_t ck_read(void *c, char *b, size_t n) { return fread_((int) (intptr_t) c, b, n); }
static int ck_close(void *c) { return fclose_((int) (intptr_t) c); }
FILE *vp_fopen(const char *p, const char *) { int fd = fopen_(p, 0); if (fd < 0) return nullptr; cookie_io_functions_t io = { ck_read, nullptr, nullptr, ck_close }; return fopencookie((void *) (intptr_t) (fd - FD0), "r", io); }
FILE *vp_fopen64(const char *p, const char *m) { return vp_fopen(p, m); }
DIR *vp_opendir(const char *p) { at_call(); E.used = true; if (strcmp(p, CPUDIR) && strcmp(p, "/sys/devices/system/cpu/")) { E.odd = p; errno = ENOENT; return nullptr; } if (!E.dir_open) { errno = EACCES; return nullptr; } open_dirs++; Dir *d = new Dir(); d->pos = 0; return (DIR *) d; }
struct dirent *vp_readdir(DIR *x) { Dir *d = (Dir *) x; if (d->pos >= E.ents.size()) return nullptr; auto &e = E.ents[d->pos++]; memset(&d->d, 0, sizeof d->d); d->d.d_type = e.type; snprintf(d->d.d_name, sizeof d->d.d_name, "%s", e.name.c_str()); return &d->d; }
struct dirent64 *vp_readdir64(DIR *x) { return (struct dirent64 *) vp_readdir(x); }
int vp_closedir(DIR *x) { delete (Dir *) x; open_dirs--; if (E.close_fails) { errno = EBADF; return -1; } return 0; }
void vp_abort(void) { if (sched::self) bad("detection terminated the process (abort)"); abort(); }
void vp___assert_fail(const char *x, const char *f, unsigned l, const char *fn) { if (sched::self) bad("detection terminated the process (assertion %s)", x); __assert_fail(x, f, l, fn); }
long vp_sysconf(int n) { at_call(); if (n == _SC_NPROCESSORS_ONLN) return E.conf > 1 ? E.conf - 1 : E.conf; if (n != _SC_NPROCESSORS_CONF) return sysconf(n); E.used = true; if (E.conf == -1) errno = EINVAL; return E.conf; }
int vp_get_nprocs_conf(void) { return (int) E.conf; }
int vp_get_nprocs(void) { return (int) (E.conf > 1 ? E.conf - 1 : E.conf); }
}

// Writes a sorted list of CPU numbers the way the kernel may (ranges or singles, with or without newline).
static std::string gen_list(Ctx &c, long &top) {
	std::string s; unsigned groups = 1 + (unsigned) c.below(c.chance(1, 8) ? 1500 : 5); size_t lim = 4094 - c.below(4); long at = c.chance(1, 4) ? (long) c.below(70) : 0; char b[64]; top = -1; long step = c.chance(1, 6) ? 100000 : c.chance(1, 3) ? 1000 : 9;
	for (unsigned i = 0; i < groups; i++) { long a = at + (i ? 1 + (long) c.below(step) : 0), z = c.coin() ? a + (long) c.below(step) : a; if (z > 2000000000) break; int l; if (z == a) l = snprintf(b, sizeof b, "%s%ld", i ? "," : "", a); else l = snprintf(b, sizeof b, "%s%ld-%ld", i ? "," : "", a, z); if (s.size() + l > lim) break; s += b; top = z; at = z + 1; }
	if (!c.chance(1, 5)) s += '\n'; return s;
}
struct Want { long list = -1, dir = -1; };   // highest CPU of a readable list / of the directories
static Want gen_env(Ctx &c) {
	Want w; E = Env(); E.list_open = !c.chance(1, 6);
	switch (c.weighted({6, 1, 1, 1})) {
	case 0: E.list = gen_list(c, w.list); break;
	case 1: E.list = ""; break;
	case 2: { static const char *const g[] = { "\n", "garbage\n", ",\n", "-\n", "0-\n", "0,\n", "(null)\n", "x3\n", "99999999999999999999999\n", "0-4294967295\n", "0-18446744073709551615\n" }; E.list = g[c.below(11)]; break; }
	default: { E.list = gen_list(c, w.list); E.fail_after = (long) c.below(E.list.size()); E.fail_errno = c.coin() ? EIO : EAGAIN; w.list = -1; break; }
	}
	if (!E.list_open) w.list = -1;
	if (c.coin()) { unsigned n = 1 + (unsigned) c.below(4); for (unsigned i = 0; i < n; i++) E.chunks.push_back(1 + (unsigned) c.below(c.coin() ? 3 : 300)); }
	E.eintr = c.chance(1, 3) ? (unsigned) c.below(6) : 0; E.close_fails = c.chance(1, 12);
	E.dir_open = !c.chance(1, 6); unsigned n = (unsigned) c.below(12);
	for (unsigned i = 0; i < n; i++) { char b[80]; switch (c.weighted({6, 1, 1, 1, 1, 1})) {
		case 0: { long v = c.chance(1, 5) ? (long) c.below(2000000000) : (long) c.below(200); snprintf(b, sizeof b, "cpu%ld", v); E.ents.push_back({b, DT_DIR}); if (v > w.dir) w.dir = v; break; }
		case 1: snprintf(b, sizeof b, "cpu%u", 500 + (unsigned) c.below(5000)); E.ents.push_back({b, DT_REG}); break;
		case 2: { static const char *const d[] = { "cpufreq", "cpuidle", "cpu", ".", "..", "power", "hotplug", "cpux7" }; E.ents.push_back({d[c.below(8)], DT_DIR}); break; }
		case 3: snprintf(b, sizeof b, "cpu%u%s", 300 + (unsigned) c.below(9000), c.coin() ? "x" : ".old"); E.ents.push_back({b, DT_DIR}); break;
		case 4: snprintf(b, sizeof b, "%scpu%u", c.coin() ? "x" : "v", 300 + (unsigned) c.below(9000)); E.ents.push_back({b, DT_DIR}); break;
		default: snprintf(b, sizeof b, "CPU%u", 300 + (unsigned) c.below(9000)); E.ents.push_back({b, DT_DIR}); break; } }
	bool tiny = c.chance(1, 6); if (tiny) { E.ents.clear(); w.dir = -1; if (c.coin()) E.ents.push_back({"cpu", DT_DIR}); if (c.coin()) { long v = (long) c.below(2); E.ents.push_back({v ? "cpu1" : "cpu0", DT_DIR}); w.dir = v; } }
	if (!E.dir_open) w.dir = -1;
	E.conf = c.chance(1, tiny ? 2 : 5) ? (c.coin() ? -1 : 0) : 1 + (long) c.below(c.chance(1, 5) ? 100000 : 64);
	std::string ents; for (auto &e : E.ents) ents += " " + e.name + (e.type == DT_DIR ? "/" : "");
	std::string l = E.list.size() > 200 ? E.list.substr(0, 100) + "..." + E.list.substr(E.list.size() - 60) : E.list; if (!l.empty() && l.back() == '\n') l.back() = '$';
	c.note("possible list %s\"%s\" (%zu bytes%s, %u interruptions%s); directory%s:%s; configured processors %ld", E.list_open ? "" : "unreadable ", l.c_str(), E.list.size(), E.chunks.empty() ? "" : ", short reads", E.eintr, E.fail_after >= 0 ? ", read error" : "", E.dir_open ? "" : " unreadable", ents.c_str(), E.conf);
	return w;
}
static long expect(const Want &w) { if (w.list >= 0) return w.list + 1; long r = E.conf; if (w.dir + 1 > r) r = w.dir + 1; return r < 1 ? 0 : r; }
static void C09(Ctx &c) {
	unsigned n = 1 + (unsigned) c.below(4), zero = 0, fb = 0; long known = 0;
	for (unsigned i = 0; i < n; i++) {
		Ctx::SpanGuard g(c); Want w = gen_env(c); if (!known && c.chance(1, 4)) { E.list_open = false; w.list = -1; if (c.coin()) { E.dir_open = false; w.dir = -1; E.conf = -(long) c.below(2); c.note("(every source fails)"); } }
		long e = known ? known : expect(w); if (!known && w.list < 0 && e) fb++;
		int got; unsigned reps = 1 + (unsigned) c.below(2); for (unsigned k = 0; k < reps; k++) { got = rseq_get_max_nr_cpus(); if (got != e) c.fail("detected %d CPUs, expected %ld%s (list \"%s\", highest directory %ld, configured %ld)", got, e, known ? ", the value found before" : "", E.list.substr(0, 80).c_str(), w.dir, E.conf); }
		PBT_CHECK(c, open_files == 0 && open_dirs == 0, "detection left %d files and %d directories open", open_files, open_dirs);
		PBT_CHECK(c, E.odd.empty(), "unexpected access: %s", E.odd.c_str());
		if (!known) { known = e; if (!e) zero++; }
		if (c.chance(1, 4)) { // pools created with automatic detection
			struct rseq_mempool_attr *a = rseq_mempool_attr_create(); rseq_mempool_attr_set_percpu(a, 4096, 0); errno = 0; struct rseq_mempool *p = e <= 600 ? rseq_mempool_create("vp", 64, a) : nullptr; int er = errno; rseq_mempool_attr_destroy(a);
			if (e == 0) { PBT_CHECK(c, !p, "a pool was created although no CPU count could be detected"); PBT_CHECK(c, er == EINVAL, "pool creation failed with errno %d instead of EINVAL when no CPU count could be detected", er); }
			else if (e <= 600) { PBT_CHECK(c, p, "creating a pool for %ld CPUs failed, errno %d", e, er); int m = rseq_mempool_get_max_nr_cpus(p); PBT_CHECK(c, m == e, "a pool with automatic detection has %d CPUs, expected %ld", m, e); rseq_mempool_destroy(p); c.label("pools created"); }
		}
	}
	c.nontrivial(); c.label("all sources failed", zero); c.label("fallback used", fb); c.label("calls after the value was known", n - 1);
}
// Several threads asking at the same time, with thread switches inside the detection.
static void C09conc(Ctx &c) {
	Want w = gen_env(c); if (c.chance(1, 3)) { E.list_open = false; w.list = -1; } long e = expect(w); int n = 2 + (int) c.below(3); unsigned reps[8]; for (int t = 0; t < n; t++) { reps[t] = 1 + (unsigned) c.below(3); c.note("thread %d asks %u times", t, reps[t]); }
	gen_schedule(c, n, c.chance(1, 3) ? 15 : c.coin() ? 80 : 400); sched::max_steps = 300000; std::vector<std::function<void()>> b;
	for (int t = 0; t < n; t++) b.push_back([t, e, &reps] { for (unsigned k = 0; k < reps[t]; k++) { int got = (int) sched::call((long (*)(void *)) rseq_get_max_nr_cpus, (void *) nullptr); if (got != e) bad("thread %d detected %d CPUs, expected %ld (list \"%s\", configured %ld)", t, got, e, E.list.substr(0, 80).c_str(), E.conf); } });
	int first = (int) c.below(n); if (!sched::run(b, first)) c.discard();
	PBT_CHECK(c, open_files == 0 && open_dirs == 0, "detection left %d files and %d directories open", open_files, open_dirs);
	if (n_mid) c.nontrivial(); c.label("thread switches inside the detection", n_mid);
}
int main(int argc, char **argv) {
	std::vector<Property> P = {
		{"C09", "case = 1-4 successive environments (possible list, read chunking, interruptions and errors, CPU directory with decoys, configured-processor count), the first usable one fixing the answer; every case is non-trivial (distinct environments counted)", C09, 60000, 3000000, 1, 30},
		{"C09conc", "case = one environment and 2-4 threads asking for the CPU count at the same time, with generated thread switches inside the detection; non-trivial = a switch happened inside it", C09conc, 8000, 400000, 1, 40, [] { sched::init(); }},
	};
	return main_(argc, argv, P);
}
