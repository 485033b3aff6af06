// See race_rt.hpp. This file is not instrumented and uses no C++ library templates, which would be shared with instrumented code.
#include "race_rt.hpp"
#include "interpose.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <new>
extern "C" char __data_start, _end;
namespace race {
typedef uint32_t u32; typedef uint64_t u64; typedef uint8_t u8;
struct Slot { u32 wc, wp, rc, rp; u8 wm, wf, rm, rf; };   // clock, pc, byte mask, flags
enum { ATOMIC = 1, FREED = 2, ALLOC = 4 };
struct Cell { Slot s[THREADS]; };
struct VC { u32 c[THREADS]; };
static Report* R; static const Step* steps; static size_t nsteps, step; static u64 left; static bool left_all; static bool on = false;
static int nthreads, cur = -1; static int sem[THREADS]; enum St { RUN, BLOCKED, DONE }; static St st[THREADS]; static const void* waits[THREADS];
static VC vc[THREADS]; static thread_local int tid = -1; static thread_local int quiet = 0; static int64_t af_nth[THREADS], af_count[THREADS]; static bool af_hit[THREADS];
static uintptr_t stack_lo[THREADS], stack_hi[THREADS];
static int ready;
static void futex_wait(int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void down(int* a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) futex_wait(a, 0); __atomic_store_n(a, 0, __ATOMIC_RELAXED); }
static void up(int* a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); futex_wake(a); }
[[noreturn]] static void stop(const char* cls, const char* msg, u64 p1, u64 p2) { on = false; if (R && !R->failed) { R->failed = 1; strncpy(R->cls, cls, 39); strncpy(R->msg, msg, 399); R->pc[0] = p1; R->pc[1] = p2; } _exit(77); }
void fail(const char* cls, const char* msg) { stop(cls, msg, 0, 0); }
Quiet::Quiet() { quiet++; } Quiet::~Quiet() { quiet--; }
// ---- which thread runs
static u64 mixh(u64 a, u64 b) { u64 z = (a ^ b * 0x9E3779B97F4A7C15ull) + 0x7F4A7C15; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; return z ^ (z >> 27); }
static int pick(bool advance) { // the next thread to run; the current one may be unable to
	if (advance) while (step < nsteps) { const Step& s = steps[step++]; int t = s.thread % nthreads; if (st[t] != RUN || !s.count) continue; left = s.count; left_all = s.all; return t; }
	left = ~0ull; left_all = true; if (cur >= 0 && st[cur] == RUN) return cur;
	for (int t = 0; t < nthreads; t++) if (st[t] == RUN) return t;
	return -1;
}
static void run(int t, u64 pc) { // hand over to t
	if (t == cur) return; int me = cur; R->switches++; R->trace = mixh(R->trace, pc * 8 + t); cur = t; up(&sem[t]); if (st[me] != DONE) down(&sem[me]);
}
static void point(bool shared, u64 pc) {
	R->points++; R->shared_points += shared; if (R->points > 40000000) fail("no-progress", "the threads do not come to an end");
	if (left == ~0ull || !(shared || left_all)) return;
	if (--left == 0) { int t = pick(true); if (t >= 0 && t != cur) { R->preempted_in_lib++; run(t, pc); } }
}
static void block(const void* obj, u64 pc) { // wait until obj changes hands
	int me = cur; st[me] = BLOCKED; waits[me] = obj; R->blocked++; int t = pick(true);
	if (t < 0) { char b[200]; snprintf(b, sizeof b, "every thread waits for another one (thread %d last)", me); stop("deadlock", b, pc, 0); }
	run(t, pc);
}
static void wake(const void* obj) { for (int t = 0; t < nthreads; t++) if (st[t] == BLOCKED && waits[t] == obj) st[t] = RUN; }
void init(Report* r, const Step* s, size_t n, int threads) { R = r; steps = s; nsteps = n; step = 0; nthreads = threads; cur = -1; ready = 0; for (int t = 0; t < threads; t++) { st[t] = RUN; sem[t] = 0; af_nth[t] = -1; for (int k = 0; k < THREADS; k++) vc[t].c[k] = 0; vc[t].c[t] = 1; } }
void begin_thread(int t) {
	pthread_attr_t a; if (!pthread_getattr_np(pthread_self(), &a)) { void* p; size_t n; pthread_attr_getstack(&a, &p, &n); stack_lo[t] = (uintptr_t)p; stack_hi[t] = (uintptr_t)p + n; pthread_attr_destroy(&a); }
	__atomic_fetch_add(&ready, 1, __ATOMIC_RELEASE); futex_wake(&ready); down(&sem[t]); tid = t;
}
void go() { for (;;) { int v = __atomic_load_n(&ready, __ATOMIC_ACQUIRE); if (v >= nthreads) break; futex_wait(&ready, v); } on = true; cur = -1; int t = pick(true); cur = t; up(&sem[t]); }
void end_thread() { int me = tid; tid = -1; st[me] = DONE; int t = pick(true); if (t >= 0) { run(t, 1); return; } for (int k = 0; k < nthreads; k++) if (st[k] == BLOCKED) stop("deadlock", "a thread waits for a lock that ended threads hold", 0, 0); on = false; }
void finished() { on = false; }
// ---- shadow memory
struct Page { u64 no; Cell* cells; };
static const u64 NPAGES = 1 << 16; static Page* pages; static Cell* pool; static u64 pool_used; static const u64 POOL = 24000; // shadow pages
static thread_local Page last;
static Cell* cells_of(u64 page, bool make) {
	if (last.cells && last.no == page) return last.cells;
	if (!pages) { pages = (Page*)syscall(SYS_mmap, nullptr, NPAGES * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); pool = (Cell*)syscall(SYS_mmap, nullptr, POOL * 512 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (pages == MAP_FAILED || pool == MAP_FAILED) { perror("shadow"); _exit(3); } }
	u64 h = (page * 0x9E3779B97F4A7C15ull) >> 48; for (;; h = (h + 1) & (NPAGES - 1)) { if (pages[h].cells && pages[h].no == page) break; if (!pages[h].cells) { if (!make || pool_used >= POOL) return nullptr; pages[h] = {page, pool + 512 * pool_used++}; break; } }
	last = pages[h]; return last.cells;
}
static void clear_range(u64 a, u64 n) { if (n > (1 << 16)) n = 1 << 16; for (u64 x = a & ~7ull; x < a + n; x += 8) if (Cell* c = cells_of(x >> 12, false)) memset(&c[(x >> 3) & 511], 0, sizeof(Cell)); }
static void report(const char* what, bool w, bool pw, u64 a, int other, u64 pc, u64 ppc) { char b[300]; snprintf(b, sizeof b, "%s: %s by thread %d and %s by thread %d", what, w ? "a write" : "a read", tid, pw ? "a write" : "a read", other); stop(what[0] == 'u' ? "use-after-free" : "data-race", b, pc, ppc); }
static inline bool access(u64 a, u64 n, bool write, u8 flags, u64 pc) { // whether another thread has touched it
	bool shared = false; const int me = tid; VC& v = vc[me];
	while (n) {
		u64 off = a & 7, k = n < 8 - off ? n : 8 - off; u8 mask = u8(((1u << k) - 1) << off); Cell* c = cells_of(a >> 12, true); if (!c) return true; c += (a >> 3) & 511;
		for (int t = 0; t < THREADS; t++) { Slot& s = c->s[t];
			if (s.wf & FREED && s.wm & mask) report("use of freed memory", write, true, a, t, pc, s.wp);
			if (t == me || !(s.wc | s.rc)) continue; shared = true;
			if (s.wm & mask && s.wc > v.c[t] && !(s.wf & ATOMIC && flags & ATOMIC)) report("accesses that are not ordered", write, true, a, t, pc, s.wp);
			if (write && s.rm & mask && s.rc > v.c[t] && !(s.rf & ATOMIC && flags & ATOMIC)) report("accesses that are not ordered", write, false, a, t, pc, s.rp); }
		Slot& s = c->s[me]; if (write) { s.wc = v.c[me]; s.wp = u32(pc); s.wm = mask; s.wf = flags; } else { s.rc = v.c[me]; s.rp = u32(pc); s.rm = mask; s.rf = flags; }
		a += k; n -= k;
	}
	return shared;
}
static inline bool active() { return on && tid >= 0 && !quiet; }
static inline bool global(u64 a) { return a >= (u64)&__data_start && a < (u64)&_end; }
static void mem(u64 a, u64 n, bool write, u64 pc) {
	if (!active() || !n) return; if (a >= stack_lo[tid] && a < stack_hi[tid]) return; if (n > (1 << 15)) n = 1 << 15;
	bool sh = global(a); if (!sh) { Cell* c = cells_of(a >> 12, false); if (c) { c += (a >> 3) & 511; for (int t = 0; t < THREADS; t++) sh |= t != tid && (c->s[t].wc | c->s[t].rc); } }
	point(sh, pc); access(a, n, write, 0, pc); // first the choice who runs, then the access
}
// ---- happens-before through locks and atomics
struct Obj { const void* a; int kind; int owner; int readers; int depth; VC v; }; static Obj objs[4096];
static Obj& obj(const void* a, int kind) { u64 h = ((u64)a * 0x9E3779B97F4A7C15ull + kind * 77) >> 52; for (int i = 0; i < 4096; i++, h = (h + 1) & 4095) { if (objs[h].a == a && objs[h].kind == kind) return objs[h]; if (!objs[h].a) { objs[h] = Obj{a, kind, -1, 0, 0, {}}; return objs[h]; } } fail("harness", "too many locks"); }
static void acquire(const VC& o) { for (int k = 0; k < THREADS; k++) if (o.c[k] > vc[tid].c[k]) vc[tid].c[k] = o.c[k]; }
static void release(VC& o, bool join) { for (int k = 0; k < THREADS; k++) if (!join || vc[tid].c[k] > o.c[k]) o.c[k] = vc[tid].c[k]; vc[tid].c[tid]++; }
static VC fence_vc;
enum { MUTEX = 1, RW, ONCE, ATOM, GUARD };
static void atomic_pre(const volatile void* p, int n, bool write, u64 pc) { R->atomics++; point(true, pc); access((u64)p, n, write, ATOMIC, pc); }
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void hb(const volatile void* p, int mo, bool load, bool store) { // p's neighbours in the same 8 bytes share its clock
	Obj& o = obj((const void*)((u64)p & ~7ull), ATOM); if (load && acq(mo)) acquire(o.v); if (store) { if (rel(mo)) release(o.v, true); else if (!load && (u64)p % 8 == 0) {} }
}
// ---- allocation
static bool on_fail(size_t) { if (!active()) return false; R->allocs++; point(true, 2); int64_t& n = af_nth[tid]; if (n < 0) return false; if (n > 0) { n--; return false; } if (af_count[tid] <= 0) { n = -1; return false; } af_count[tid]--; af_hit[tid] = true; R->failed_allocs++; return true; }
static void on_alloc(void* p, size_t n) { if (!on || tid < 0) return; clear_range((u64)p, n); if (!quiet) for (u64 a = (u64)p & ~7ull, e = (u64)p + (n < 4096 ? n : 4096); a < e; a += 8) { Cell* c = cells_of(a >> 12, true); if (!c) break; Slot& s = c[(a >> 3) & 511].s[tid]; s.wc = vc[tid].c[tid]; s.wp = 2; s.wm = 0xff; s.wf = ALLOC; } }
static bool on_free(void* p, size_t n, void* pc) { // memory is never reused while the threads run
	if (!on || tid < 0) return false; if (quiet) return true; point(true, (u64)pc); if (n > (1 << 16)) n = 1 << 16; access((u64)p, n, true, 0, (u64)pc);
	for (u64 a = (u64)p & ~7ull; a < (u64)p + n; a += 8) if (Cell* c = cells_of(a >> 12, true)) c[(a >> 3) & 511].s[tid].wf |= FREED;
	return true; }
static void on_map(void* p, size_t n) { if (on && tid >= 0) clear_range((u64)p, n); }
static bool on_unmap(void* p, size_t n) { if (!on || tid < 0) return false; point(true, 3); syscall(SYS_mprotect, p, n, PROT_NONE); return true; } // a later access faults
void fail_alloc(int64_t nth, int64_t count) { af_nth[tid] = nth; af_count[tid] = count; af_hit[tid] = false; } bool alloc_failed() { return af_hit[tid]; }
__attribute__((constructor)) static void hooks() { seam::g_hook = {on_fail, on_alloc, on_free, on_map, on_unmap}; }
template <typename T> static T real(T, const char* name) { return (T)dlsym(RTLD_NEXT, name); }
} // namespace race
using namespace race;
#define PC ((u64)__builtin_return_address(0))
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define ACC(N) void __tsan_read##N(void* a) { mem((u64)a, N, false, PC); } void __tsan_write##N(void* a) { mem((u64)a, N, true, PC); } \
	void __tsan_unaligned_read##N(void* a) { mem((u64)a, N, false, PC); } void __tsan_unaligned_write##N(void* a) { mem((u64)a, N, true, PC); } \
	void __tsan_volatile_read##N(void* a) { mem((u64)a, N, false, PC); } void __tsan_volatile_write##N(void* a) { mem((u64)a, N, true, PC); } \
	void __tsan_unaligned_volatile_read##N(void* a) { mem((u64)a, N, false, PC); } void __tsan_unaligned_volatile_write##N(void* a) { mem((u64)a, N, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a, size_t n) { mem((u64)a, n, false, PC); } void __tsan_write_range(void* a, size_t n) { mem((u64)a, n, true, PC); }
void sim_libc_writes(void* a, size_t n, void* pc) { mem((u64)a, n, true, (u64)pc); }
void __tsan_vptr_update(void** a, void*) { mem((u64)a, 8, true, PC); } void __tsan_vptr_read(void** a) { mem((u64)a, 8, false, PC); }
#define ATO(B, T) \
	T __tsan_atomic##B##_load(const volatile T* p, int mo) { if (!active()) return __atomic_load_n(p, __ATOMIC_SEQ_CST); atomic_pre(p, B / 8, false, PC); T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); hb(p, mo, true, false); return v; } \
	void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { if (active()) { atomic_pre(p, B / 8, true, PC); hb(p, mo, false, true); } __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { if (active()) { atomic_pre(p, B / 8, true, PC); hb(p, mo, true, true); } return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { if (active()) { atomic_pre(p, B / 8, true, PC); hb(p, mo, true, true); } return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { if (active()) { atomic_pre(p, B / 8, true, PC); hb(p, mo, true, true); } return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { if (active()) { atomic_pre(p, B / 8, true, PC); hb(p, mo, true, true); } return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { if (active()) { atomic_pre(p, B / 8, true, PC); hb(p, mo, true, true); } return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { if (active()) { atomic_pre(p, B / 8, true, PC); hb(p, mo, true, true); } return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { if (active()) { atomic_pre(p, B / 8, true, PC); bool ok = *p == *e; hb(p, ok ? mo : fmo, true, ok); } return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { if (active()) { atomic_pre(p, B / 8, true, PC); bool ok = *p == *e; hb(p, ok ? mo : fmo, true, ok); } return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { if (active()) { atomic_pre(p, B / 8, true, PC); bool ok = *p == e; hb(p, ok ? mo : fmo, true, ok); } __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATO(8, uint8_t) ATO(16, uint16_t) ATO(32, uint32_t) ATO(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (active()) { R->sync++; if (acq(mo)) acquire(fence_vc); if (rel(mo)) release(fence_vc, true); } }
void __tsan_atomic_signal_fence(int) {}
// copies by the library
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (active()) { mem((u64)s, n, false, PC); mem((u64)d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (active()) { mem((u64)s, n, false, PC); mem((u64)d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (active()) mem((u64)d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (active()) { mem((u64)a, n, false, PC); mem((u64)b, n, false, PC); } return __real_memcmp(a, b, n); }
// locks
int pthread_mutex_lock(pthread_mutex_t* m) {
	if (!on || tid < 0) { static int (*f)(pthread_mutex_t*) = real(f, "pthread_mutex_lock"); return f(m); }
	Obj& o = obj(m, MUTEX); R->sync++; point(true, PC); bool rec = m->__data.__kind == PTHREAD_MUTEX_RECURSIVE; if (o.owner == tid) { if (rec) { o.depth++; return 0; } stop("deadlock", "a thread locks a mutex it holds", PC, 0); }
	while (o.owner >= 0) block(m, PC); o.owner = tid; acquire(o.v); R->order = mixh(R->order, tid + 1); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
	if (!on || tid < 0) { static int (*f)(pthread_mutex_t*) = real(f, "pthread_mutex_trylock"); return f(m); }
	Obj& o = obj(m, MUTEX); R->sync++; point(true, PC); if (o.owner >= 0) return EBUSY; o.owner = tid; acquire(o.v); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
	if (!on || tid < 0) { static int (*f)(pthread_mutex_t*) = real(f, "pthread_mutex_unlock"); return f(m); }
	Obj& o = obj(m, MUTEX); if (o.owner != tid) stop("bad-unlock", "a thread unlocks a mutex it does not hold", PC, 0); if (o.depth) { o.depth--; return 0; } release(o.v, true); o.owner = -1; wake(m); point(true, PC); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!on || tid < 0) { static int (*f)(pthread_rwlock_t*) = real(f, "pthread_rwlock_rdlock"); return f(m); } Obj& o = obj(m, RW); R->sync++; point(true, PC); if (o.owner == tid) stop("deadlock", "a thread locks a lock it holds", PC, 0); while (o.owner >= 0) block(m, PC); o.readers++; acquire(o.v); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!on || tid < 0) { static int (*f)(pthread_rwlock_t*) = real(f, "pthread_rwlock_wrlock"); return f(m); } Obj& o = obj(m, RW); R->sync++; point(true, PC); if (o.owner == tid) stop("deadlock", "a thread locks a lock it holds", PC, 0); while (o.owner >= 0 || o.readers) block(m, PC); o.owner = tid; acquire(o.v); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!on || tid < 0) { static int (*f)(pthread_rwlock_t*) = real(f, "pthread_rwlock_tryrdlock"); return f(m); } Obj& o = obj(m, RW); point(true, PC); if (o.owner >= 0) return EBUSY; o.readers++; acquire(o.v); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!on || tid < 0) { static int (*f)(pthread_rwlock_t*) = real(f, "pthread_rwlock_trywrlock"); return f(m); } Obj& o = obj(m, RW); point(true, PC); if (o.owner >= 0 || o.readers) return EBUSY; o.owner = tid; acquire(o.v); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!on || tid < 0) { static int (*f)(pthread_rwlock_t*) = real(f, "pthread_rwlock_unlock"); return f(m); } Obj& o = obj(m, RW); release(o.v, true); if (o.owner == tid) o.owner = -1; else o.readers--; wake(m); point(true, PC); return 0; }
int pthread_once(pthread_once_t* c, void (*f)(void)) {
	if (!on || tid < 0) { static int (*g)(pthread_once_t*, void (*)(void)) = real(g, "pthread_once"); return g(c, f); }
	Obj& o = obj(c, ONCE); R->sync++; point(true, PC);
	while (*c != 2) { if (o.owner >= 0) { if (o.owner == tid) stop("deadlock", "one-time initialisation waits for itself", PC, 0); block(c, PC); continue; } o.owner = tid; acquire(o.v); struct Undo { Obj& o; pthread_once_t* c; ~Undo() { release(o.v, true); o.owner = -1; wake(c); } } u{o, c}; f(); *c = 2; }
	acquire(o.v); return 0;
}
// initialisation of function-local variables: the first byte says that it is done
int guard_acquire(u64* g) asm("__cxa_guard_acquire"); void guard_release(u64* g) asm("__cxa_guard_release"); void guard_abort(u64* g) asm("__cxa_guard_abort");
int guard_acquire(u64* g) {
	if (*(u8*)g) return 0; if (!on || tid < 0) return 1; Obj& o = obj(g, GUARD); R->sync++; point(true, PC);
	while (!*(u8*)g) { if (o.owner < 0) { o.owner = tid; acquire(o.v); return 1; } if (o.owner == tid) stop("deadlock", "the initialisation of a variable waits for itself", PC, 0); block(g, PC); }
	acquire(o.v); return 0;
}
void guard_release(u64* g) { if (!on || tid < 0) { *(u8*)g = 1; return; } Obj& o = obj(g, GUARD); *(u8*)g = 1; release(o.v, true); Obj& a = obj((void*)((u64)g & ~7ull), ATOM); vc[tid].c[tid]--; release(a.v, true); o.owner = -1; wake(g); point(true, PC); }
void guard_abort(u64* g) { if (!on || tid < 0) return; Obj& o = obj(g, GUARD); release(o.v, true); o.owner = -1; wake(g); point(true, PC); }
// exceptions live in memory that is used again
void* __cxa_allocate_exception(size_t n) noexcept { static void* (*f)(size_t) = real(f, "__cxa_allocate_exception"); void* p = f(n); if (on && tid >= 0) clear_range((u64)p, n); return p; }
}
