#include "interpose.hpp"
#include <errno.h>
#include <new>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
namespace seam {
Out& out() { static Out o; return o; }
static ssize_t cookie_write(void*, const char* b, size_t n) {
	auto& o = out(); u64 c = o.calls++;
	bool fail = c >= o.fail_from; for (u64 f : o.fail_at) fail |= f == c;
	if (((c < o.fail_from && fail) || c == o.fail_from) && o.partial && n > 1) { o.shortw++; o.data.append(b, n / 2); return n / 2; }
	if (fail) { o.failed++; errno = EIO; return 0; }
	o.data.append(b, n); return n;
}
static FILE* g_real = nullptr; static FILE* g_cookie = nullptr;
void install_stdout(int bufmode, size_t bufsize) {
	if (!g_real) g_real = stdout;
	if (g_cookie) { auto& o = out(); o.fail_from = ~0ull; o.fail_at.clear(); clearerr(g_cookie); fclose(g_cookie); }
	out() = Out{};
	cookie_io_functions_t f{}; f.write = cookie_write; g_cookie = fopencookie(nullptr, "w", f);
	setvbuf(g_cookie, nullptr, bufmode == 0 ? _IONBF : bufmode == 2 ? _IOLBF : _IOFBF, bufsize);
	stdout = g_cookie;
}
std::string take() { if (stdout == g_cookie && g_cookie) fflush(g_cookie); std::string s; s.swap(out().data); return s; }
Hook g_hook{}; static Alloc g_alloc; Alloc& alloc() { return g_alloc; }
void alloc_reset() { u32 e = g_alloc.epoch + 1; g_alloc = Alloc{}; g_alloc.epoch = e; }
struct Head { u64 size; u32 epoch; u32 pad; };
static_assert(sizeof(Head) == 16);
#ifdef SIM_RACE // there every access is checked
static void fill(void*, size_t, int) {}
#else // what a program reads without having written it is the same in every run, and not zero
static void fill(void* p, size_t n, int c) { constexpr size_t E = 1 << 14; if (n <= 2 * E) memset(p, c, n); else { memset(p, c, E); memset((char*)p + n - E, c, E); } __asm__ volatile("" : : "r"(p) : "memory"); }
#endif
static void* take_mem(size_t size, size_t align, bool nothrow) {
	auto& a = g_alloc;
	if (a.on && a.failing(size)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
	if (g_hook.fail && g_hook.fail(size)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
	size_t off = align > 16 ? align : 16; char* raw;
	if (align > 16) { void* q = nullptr; if (size > ~0ull - 2 * off || posix_memalign(&q, align, size + off)) q = nullptr; raw = (char*)q; } else raw = size > ~0ull - 64 ? nullptr : (char*)malloc(size + off);
	if (!raw) { if (nothrow) return nullptr; throw std::bad_alloc(); }
	Head* h = (Head*)(raw + off) - 1; h->size = size; h->epoch = a.on ? a.epoch : ~0u;
	if (a.on) { a.live++; a.live_bytes += size; }
	fill(raw + off, size, 0xa5); if (g_hook.alloc) g_hook.alloc(raw + off, size);
	return raw + off;
}
static void give_mem(void* p, size_t align) {
	if (!p) return; Head* h = (Head*)p - 1; auto& a = g_alloc;
	if (h->epoch == a.epoch) { a.live--; a.live_bytes -= h->size; }
	h->epoch = ~0u; fill(p, h->size, 0xdb); if (g_hook.free && g_hook.free(p, h->size, __builtin_return_address(0))) return;
	free((char*)p - (align > 16 ? align : 16));
}
// mappings
struct M { char* p; size_t n; u32 epoch; }; static M g_maps[256]; static M g_prot[16]; static u64 g_protn;
void protect_map(void* p, size_t n) { for (auto& m : g_prot) if (!m.p) { m = {(char*)p, n, 0}; return; } }
void unprotect_maps() { for (auto& m : g_prot) m = {}; g_protn = 0; }
u64 protected_unmaps() { return g_protn; }
static Clock g_clock; Clock& clock() { return g_clock; }
} // namespace seam
using namespace seam;
void* operator new(size_t n) { return take_mem(n, 16, false); }
void* operator new[](size_t n) { return take_mem(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take_mem(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take_mem(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return take_mem(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return take_mem(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return take_mem(n, (size_t)a, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return take_mem(n, (size_t)a, true); }
void operator delete(void* p) noexcept { give_mem(p, 16); }
void operator delete[](void* p) noexcept { give_mem(p, 16); }
void operator delete(void* p, size_t) noexcept { give_mem(p, 16); }
void operator delete[](void* p, size_t) noexcept { give_mem(p, 16); }
void operator delete(void* p, std::align_val_t a) noexcept { give_mem(p, (size_t)a); }
void operator delete[](void* p, std::align_val_t a) noexcept { give_mem(p, (size_t)a); }
void operator delete(void* p, size_t, std::align_val_t a) noexcept { give_mem(p, (size_t)a); }
void operator delete[](void* p, size_t, std::align_val_t a) noexcept { give_mem(p, (size_t)a); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give_mem(p, 16); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give_mem(p, 16); }
extern "C" {
void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) noexcept {
	auto& a = g_alloc; bool mine = a.on && (flags & MAP_ANONYMOUS);
	if (mine && a.failing(len)) { errno = ENOMEM; return MAP_FAILED; }
	if (g_hook.fail && (flags & MAP_ANONYMOUS) && g_hook.fail(len)) { errno = ENOMEM; return MAP_FAILED; }
	void* p = (void*)syscall(SYS_mmap, addr, len, prot, flags, fd, off); if (g_hook.map && p != MAP_FAILED) g_hook.map(p, len);
	if (mine && p != MAP_FAILED) { a.maps++; a.map_bytes += len; for (auto& m : g_maps) if (!m.p) { m = {(char*)p, len, a.epoch}; break; } }
	return p;
}
void* mmap64(void* addr, size_t len, int prot, int flags, int fd, off_t off) noexcept { return mmap(addr, len, prot, flags, fd, off); }
int munmap(void* p, size_t len) noexcept {
	auto& a = g_alloc; if (g_hook.unmap && g_hook.unmap(p, len)) return 0;
	for (auto& m : g_prot) if (m.p && (char*)p < m.p + m.n && m.p < (char*)p + len) { g_protn++; return 0; }
	for (auto& m : g_maps) if (m.p && m.p == p) { if (m.epoch == a.epoch) { a.maps--; a.map_bytes -= m.n; if (len != m.n) a.bad_unmaps++; } m = {}; return syscall(SYS_munmap, p, len); }
	if (a.on) a.bad_unmaps++;
	return syscall(SYS_munmap, p, len);
}
#ifdef SIM_RACE // what the host's libc writes counts as written by the calling thread
void sim_libc_writes(void*, size_t, void*);
#define WRITES(p) sim_libc_writes(p, sizeof *p, __builtin_return_address(0))
#else
#define WRITES(p) ((void)0)
#endif
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
	WRITES(ts);
	auto& c = g_clock; if (!c.on) return syscall(SYS_clock_gettime, id, ts);
	c.calls++; for (auto& e : c.now) e.second += c.step;
	auto it = c.now.find(id);
	if (it == c.now.end() || c.fail.count(id)) { c.log.push_back({(int)id, 0, true}); errno = EINVAL; return -1; }
	c.log.push_back({(int)id, it->second, false});
	i64 s = it->second / 1000000000, n = it->second % 1000000000; if (n < 0) { n += 1000000000; s--; }
	ts->tv_sec = s; ts->tv_nsec = n; return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
	WRITES(tv);
	auto& c = g_clock; if (!c.on) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
	c.calls++; for (auto& e : c.now) e.second += c.step;
	if (c.tod_fail) { c.log.push_back({-1, 0, true}); errno = EINVAL; return -1; }
	i64 v = c.now[CLOCK_REALTIME]; c.log.push_back({-1, v, false}); i64 s = v / 1000000000, n = v % 1000000000; if (n < 0) { n += 1000000000; s--; }
	tv->tv_sec = s; tv->tv_usec = n / 1000; return 0;
}
}
