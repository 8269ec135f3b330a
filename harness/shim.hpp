// Stand-ins for the libc calls made by the library's objects (their references
// are renamed with objcopy, so the harness itself uses the real functions).
// They account for every resource the library acquires and can fail the n-th
// request.  Calls this shim does not know simply go to libc.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cstddef>
#include <cstdint>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>

namespace shim {

enum Call { C_MMAP, C_MADVISE, C_MEMFD, C_FTRUNCATE, C_CALLOC, C_MALLOC, C_STRDUP, C_MUNMAP, C_CLOSE, C_N };
static const char *const call_name[] = { "mmap", "madvise", "memfd_create", "ftruncate", "calloc", "malloc", "strdup", "munmap", "close" };

struct State {
	bool track = true;
	std::map<uintptr_t, uintptr_t> maps;    // owned [start,end)
	std::map<void *, size_t> heap;
	std::set<int> fds, foreign_fds;         // opened by the library / by others before the case
	std::string error;                      // first misuse of a resource call
	// fault injection: the k-th (0-based) request among the enabled kinds fails
	long seq = 0;                           // requests seen
	std::set<long> fail_at; int fail_errno = ENOMEM;
	long munmap_seq = 0; std::set<long> munmap_fail_at; long munmap_failed = 0;
	long faults = 0; int last_fault_call = -1;
	long count[C_N] = {};
	bool (*mmap_hook)(size_t len) = nullptr;
	void reset() { *this = State(); }
	size_t mapped() const { size_t t = 0; for (auto &m : maps) t += m.second - m.first; return t; }
};
extern State S;

} // namespace shim

#ifdef SHIM_IMPL
namespace shim {
State S;
static void misuse(const char *f, ...) { if (!S.error.empty()) return; char b[256]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); S.error = b; }
static bool inject(Call c) {
	S.count[c]++;
	if (c == C_CLOSE) return false;
	if (c == C_MUNMAP) { long k = S.munmap_seq++; if (S.munmap_fail_at.count(k)) { S.munmap_failed++; errno = ENOMEM; return true; } return false; }
	long k = S.seq++;
	if (S.fail_at.count(k)) { S.faults++; S.last_fault_call = c; errno = S.fail_errno; return true; }
	return false;
}
static bool owned(uintptr_t a, uintptr_t b) { // [a,b) fully owned
	while (a < b) { auto it = S.maps.upper_bound(a); if (it == S.maps.begin()) return false; --it; if (it->second <= a) return false; a = it->second; }
	return true;
}
static bool touches(uintptr_t a, uintptr_t b) { auto it = S.maps.lower_bound(b); if (it == S.maps.begin()) return false; --it; return it->second > a; }
static void add(uintptr_t a, uintptr_t b) {
	auto it = S.maps.lower_bound(a);
	if (it != S.maps.begin()) { auto p = std::prev(it); if (p->second == a) { a = p->first; S.maps.erase(p); } }
	it = S.maps.find(b); if (it != S.maps.end()) { b = it->second; S.maps.erase(it); }
	S.maps[a] = b;
}
static void del(uintptr_t a, uintptr_t b) {
	for (;;) {
		auto it = S.maps.lower_bound(b); if (it == S.maps.begin()) return; --it;
		if (it->second <= a) return;
		uintptr_t s = it->first, e = it->second; S.maps.erase(it);
		if (s < a) S.maps[s] = a;
		if (e > b) S.maps[b] = e;
		if (s <= a) return;
	}
}
static uintptr_t up(uintptr_t x) { return (x + 4095) & ~(uintptr_t) 4095; }
}
extern "C" {
using namespace shim;
void *vp_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
	if (inject(C_MMAP)) return MAP_FAILED;
	if ((flags & MAP_FIXED) && S.track && !owned((uintptr_t) addr, up((uintptr_t) addr + len))) misuse("mmap(MAP_FIXED) over memory it does not own: %p+%zx", addr, len);
	if ((flags & MAP_FIXED) && S.track && !owned((uintptr_t) addr, up((uintptr_t) addr + len))) { errno = EINVAL; return MAP_FAILED; }
	if (S.mmap_hook && !S.mmap_hook(len)) { errno = ENOMEM; return MAP_FAILED; }
	void *p = mmap(addr, len, prot, flags, fd, off);
	if (p != MAP_FAILED && S.track && !(flags & MAP_FIXED)) add((uintptr_t) p, up((uintptr_t) p + len));
	return p;
}
void *vp_mmap64(void *a, size_t l, int p, int f, int fd, off_t o) { return vp_mmap(a, l, p, f, fd, o); }
int vp_munmap(void *addr, size_t len) {
	if (inject(C_MUNMAP)) return -1;
	if (S.track) {
		if (!owned((uintptr_t) addr, up((uintptr_t) addr + len))) { misuse("munmap of memory it does not own: %p+%zx", addr, len); errno = EINVAL; return -1; }
	}
	int r = munmap(addr, len);
	if (!r && S.track) del((uintptr_t) addr, up((uintptr_t) addr + len));
	return r;
}
int vp_madvise(void *addr, size_t len, int adv) {
	if (inject(C_MADVISE)) return -1;
	if (S.track && len && !owned((uintptr_t) addr, up((uintptr_t) addr + len))) misuse("madvise on memory it does not own: %p+%zx", addr, len);
	return madvise(addr, len, adv);
}
int vp_mprotect(void *addr, size_t len, int prot) {
	if (S.track && len && !owned((uintptr_t) addr, up((uintptr_t) addr + len))) misuse("mprotect on memory it does not own: %p+%zx", addr, len);
	return mprotect(addr, len, prot);
}
void *vp_mremap(void *addr, size_t ol, size_t nl, int flags, ...) { // not used today
	void *p = mremap(addr, ol, nl, flags); if (p != MAP_FAILED && S.track) { del((uintptr_t) addr, up((uintptr_t) addr + ol)); add((uintptr_t) p, up((uintptr_t) p + nl)); } return p; }
int vp_memfd_create(const char *name, unsigned flags) { if (inject(C_MEMFD)) return -1; int fd = memfd_create(name, flags); if (fd >= 0) S.fds.insert(fd); return fd; }
int vp_ftruncate(int fd, off_t l) { if (inject(C_FTRUNCATE)) return -1; if (S.foreign_fds.count(fd)) misuse("ftruncate of foreign fd %d", fd); return ftruncate(fd, l); }
int vp_ftruncate64(int fd, off_t l) { return vp_ftruncate(fd, l); }
int vp_open(const char *p, int fl, ...) { int m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } int fd = open(p, fl, m); if (fd >= 0) S.fds.insert(fd); return fd; }
int vp_open64(const char *p, int fl, ...) { int m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } int fd = open(p, fl, m); if (fd >= 0) S.fds.insert(fd); return fd; }
int vp_close(int fd) { inject(C_CLOSE); if (!S.fds.count(fd) && (fd < 0 || S.foreign_fds.count(fd))) { misuse("close of fd %d it does not own", fd); errno = EBADF; return -1; } S.fds.erase(fd); return close(fd); }
void *vp_calloc(size_t n, size_t m) { if (inject(C_CALLOC)) return nullptr; void *p = calloc(n, m); if (p) S.heap[p] = n * m; return p; }
void *vp_malloc(size_t n) { if (inject(C_MALLOC)) return nullptr; void *p = malloc(n); if (p) { memset(p, 0xa5, n); S.heap[p] = n; } return p; }
void *vp_aligned_alloc(size_t a, size_t n) { if (inject(C_MALLOC)) return nullptr; void *p = aligned_alloc(a, n); if (p) { memset(p, 0xa5, n); S.heap[p] = n; } return p; }
int vp_posix_memalign(void **r, size_t a, size_t n) { if (inject(C_MALLOC)) return ENOMEM; int e = posix_memalign(r, a, n); if (!e) { memset(*r, 0xa5, n); S.heap[*r] = n; } return e; }
void *vp_realloc(void *q, size_t n) { if (inject(C_MALLOC)) return nullptr; void *p = realloc(q, n); if (p) { S.heap.erase(q); S.heap[p] = n; } return p; }
void *vp_reallocarray(void *q, size_t n, size_t m) { return vp_realloc(q, n * m); }
char *vp_strdup(const char *s) { if (inject(C_STRDUP)) return nullptr; char *p = strdup(s); if (p) S.heap[p] = strlen(s) + 1; return p; }
char *vp_strndup(const char *s, size_t n) { if (inject(C_STRDUP)) return nullptr; char *p = strndup(s, n); if (p) S.heap[p] = strlen(p) + 1; return p; }
void vp_free(void *p) { if (!p) return; if (S.heap.count(p)) { memset(p, 0x5a, S.heap[p]); S.heap.erase(p); } free(p); }
}
#endif
