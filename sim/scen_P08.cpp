#include "guest.hpp"
#include "interpose.hpp"
#include <libloong/native/heap.hpp>
using namespace gst;
// ops:  m SIZE        malloc            c N SIZE   calloc          r I SIZE   realloc of the I-th live allocation (or of a wrong pointer)
//       f I           free              x KIND I   bad free/realloc k LIMIT   chunk limit     F N C      fail the N-th host allocation from here, C times
//       w             free everything and check that the heap is whole again
namespace {
enum { MALLOC = 495 };
u64 rnd_size(Rng& r, u64 heap) {
	switch (r.below(12)) {
	case 0: return 0; case 1: return r.below(17); case 2: return heap - r.below(40); case 3: return heap + r.below(40) - 20; case 4: return heap / 2 + r.below(33) - 16;
	case 5: return ~0ull - r.below(40); case 6: return r.next(); case 7: return (1ull << 32) + r.below(64) - 32; case 8: return (1ull << 63) + r.below(64) - 32; case 9: return r.below(heap / 4);
	default: return r.below(200); }
}
Plan gen(Rng& r, int tier) {
	Plan p; u64 heap = r.chance(1, 2) ? 4096 : r.chance(1, 2) ? 65536 : r.chance(1, 2) ? 512 : 1 << 14; if (r.chance(1, 6)) heap += r.below(16); p.cfg["heap"] = heap; p.cfg["guest"] = r.below(2);
	p.cfg["high"] = r.chance(1, 8);
	int n = r.range(3, tier ? 160 : 80); u32 mode = r.below(4);
	for (int i = 0; i < n; i++) {
		u32 c = r.below(100); u64 sz = mode == 0 ? r.below(128) : mode == 1 ? r.below(heap / 6 + 1) : rnd_size(r, heap);
		if (c < 38) p.add("m", {sz}); else if (c < 45) { u64 a = r.chance(1, 3) ? 1ull << r.below(40) : r.below(40); p.add("c", {a, r.chance(1, 6) ? rnd_size(r, heap) : r.chance(1, 6) ? 1ull << r.below(63) : sz / (a ? a : 1)}); }
		else if (c < 65) p.add("r", {r.below(64), sz}); else if (c < 90) p.add("f", {r.below(64)}); else if (c < 94) p.add("x", {r.below(5), r.below(64)});
		else if (c < 96) p.add("k", {r.chance(1, 3) ? 4000 : r.below(30)}); else if (c < 98) p.add("F", {r.below(4), r.range(1, 3)}); else p.add("w");
	}
	p.add("k", {4000}); p.add("w"); return p;
}
struct Live { u64 ptr, size, tag; };
void exec(const Plan& p, Ctx& ctx) {
	clear_shared(); seam::alloc_reset(); const u64 heap = std::max<u64>(64, p.get("heap", 4096)) & 0xfffff; const bool viaguest = p.get("guest");
	const u64 base = p.get("high") ? (1ull << 32) + 0x10000 : 0x30000; // heaps above 4 GB too
	Layout l; l.size = base + 0x10000 + ((heap + 0xfff) & ~0xfffull); l.stack = 0x2f000;
	// one entry point per call: addi a7, number; syscall; stop
	std::vector<u32> code; for (int k = 0; k < 5; k++) { code.push_back(la::addi_d(11, 0, MALLOC + k)); code.push_back(la::syscall()); code.push_back(la::stop()); }
	Box b(code, l); auto& m = *b.m; m.setup_accelerated_heap(base, heap); auto& ar = m.arena(); u8* mem = b.arena();
	std::vector<Live> live; u64 tagn = 0; u64 limit = 4000; bool faulted = false; auto& al = seam::alloc();
	auto fill = [&](const Live& x) { for (u64 i = 0; i < x.size; i++) mem[x.ptr + i] = u8(x.tag * 31 + i * 7 + (i >> 8)); };
	auto intact = [&](const Live& x, u64 at, u64 n) { for (u64 i = 0; i < n; i++) if (mem[at + i] != u8(x.tag * 31 + i * 7 + (i >> 8))) return false; return true; };
	u64 used0 = 0, free0 = 0;
	auto verify = [&](const char* after) {
		u64 used = ar.bytes_used(), fr = ar.bytes_free(), sum = 0;
		ctx.check(used + fr == heap, "accounting", fmt("after %s: used %llu + free %llu is not the heap size %llu", after, (long long)used, (long long)fr, (long long)heap));
		std::vector<std::pair<u64, u64>> iv;
		for (auto& x : live) { u64 n = ar.size(x.ptr); ctx.check(n >= x.size, "lost-allocation", fmt("after %s: allocation %llx of %llu bytes is recorded with size %llu", after, (long long)x.ptr, (long long)x.size, (long long)n));
			ctx.check(x.ptr >= base && x.ptr + n <= base + heap, "outside-heap", fmt("after %s: allocation %llx+%llu leaves the heap", after, (long long)x.ptr, (long long)n)); iv.push_back({x.ptr, n}); sum += n; }
		std::sort(iv.begin(), iv.end());
		for (size_t i = 1; i < iv.size(); i++) ctx.check(iv[i - 1].first + iv[i - 1].second <= iv[i].first, "overlap", fmt("after %s: allocations %llx+%llu and %llx overlap", after, (long long)iv[i - 1].first, (long long)iv[i - 1].second, (long long)iv[i].first));
		ctx.check(used == sum, "accounting", fmt("after %s: %llu bytes used, but the live allocations hold %llu", after, (long long)used, (long long)sum));
		if (viaguest && used % 3 == 0) { // the guest's own view of the same
			const u64 dst = l.data + 0x40; memset(mem + dst - 8, 0xee, 40); m.cpu.reg(4) = dst; m.cpu.jump(l.code + 4 * 12); bool x = false; try { m.simulate(100, 0); } catch (const MachineException&) { x = true; }
			u64 e[5]; memcpy(e, mem + dst - 8, 40); ctx.check(!x && m.cpu.reg(4) == 0 && e[1] == fr && e[2] == used && e[3] == ar.chunks_used() && e[0] == 0xeeeeeeeeeeeeeeeeull && e[4] == e[0], "meminfo", fmt("after %s: the guest is told %llu free, %llu used", after, (long long)e[1], (long long)e[2])); }
		used0 = used; free0 = fr; ctx.state(mix(hash_bytes(iv.data(), iv.size() * 16), used));
	};
	auto gap = [&] { std::vector<std::pair<u64, u64>> iv; for (auto& x : live) iv.push_back({x.ptr, ar.size(x.ptr)}); std::sort(iv.begin(), iv.end()); u64 at = base, g = 0; for (auto& e : iv) { g = std::max(g, e.first - at); at = e.first + e.second; } return std::max(g, base + heap - at); };
	// a call: through the guest's system call, or directly
	int exc = 0; // 0 none 1 machine exception 2 bad_alloc
	auto call = [&](int k, u64 a0, u64 a1) -> u64 {
		exc = 0; u64 ret = 0; u64 f0 = al.failed; al.on = true;
		try {
			if (viaguest) { m.cpu.reg(4) = a0; m.cpu.reg(5) = a1; m.cpu.jump(l.code + k * 12); m.simulate(100, 0); ret = m.cpu.reg(4); }
			else switch (k) { case 0: ret = ar.malloc(a0); break;
				case 1: { u64 n; ret = __builtin_mul_overflow(a0, a1, &n) ? 0 : ar.malloc(n); if (ret) m.memory.memset(ret, 0, a0 * a1); } break;
				case 2: { auto [q, old] = ar.realloc(a0, a1); if (u64(q) != a0 && old) m.memory.copy_to_guest(q, mem + a0, std::min<u64>(old, a1)); ret = q; } break;
				case 3: if (a0) ret = ar.free(a0) < 0 ? 1 : 0; break; }
		} catch (const MachineException&) { exc = 1; } catch (const std::bad_alloc&) { exc = 2; }
		al.on = false; faulted = al.failed != f0; if (faulted) ctx.count("fault:host-allocation"); return ret;
	};
	auto fix = [](u64 n) { return n > ~0ull - 15 ? ~0ull : std::max<u64>(16, (n + 15) & ~15ull); };
	auto must_fit = [&](u64 need, u64 g) { return need <= g && !faulted && exc != 1; };
	auto fresh = [&](u64 ptr, u64 need, const char* what) {
		ctx.check(ptr % 16 == 0, "misaligned", fmt("%s returned %llx", what, (long long)ptr)); ctx.check(ptr >= base && need <= heap && ptr - base <= heap - need, "outside-heap", fmt("%s of %llu returned %llx", what, (long long)need, (long long)ptr)); };
	auto unchanged = [&](const char* what) { u64 u = used0, f = free0; verify(what); ctx.check(u == used0 && f == free0, "failed-call-changed-heap", fmt("a failed %s changed the accounting from %llu used to %llu", what, (long long)u, (long long)used0)); };
	verify("set-up");
	for (auto& o : p.ops) {
		if (o.k == "m" || o.k == "c") {
			unsigned __int128 want = o.k == "m" ? (unsigned __int128)o.arg(0) : (unsigned __int128)o.arg(0) * o.arg(1); u64 need = want > ~0ull ? ~0ull : u64(want); u64 g = gap();
			if (o.k == "c") memset(mem + base, 0xcc, 0); // contents of freed memory are whatever was there
			u64 q = call(o.k == "m" ? 0 : 1, o.arg(0), o.arg(1));
			ctx.ev(o.k.c_str(), need, q ? q - base : ~0ull, exc);
			if (exc || !q) { ctx.check(!(must_fit(fix(need), g) && !exc), "refused", fmt("a request for %llu bytes was refused although %llu are free in one piece", (long long)need, (long long)g)); unchanged("allocation"); ctx.count(exc ? "refused:exception" : "refused:null");
				if (exc == 1) ctx.check(live.size() + 1 >= limit / 2, "refused", "allocation refused with an exception far below the chunk limit"); }
			else { ctx.check(want <= heap, "oversized", fmt("a request for %llu x %llu bytes succeeded on a heap of %llu", (long long)o.arg(0), (long long)o.arg(1), (long long)heap)); fresh(q, need, "allocation");
				if (o.k == "c") for (u64 i = 0; i < need; i++) ctx.check(!mem[q + i], "calloc-dirty", "zero-allocated memory is not zero");
				Live x{q, need, ++tagn}; live.push_back(x); verify("allocation"); fill(x); ctx.nontrivial++; }
		} else if (o.k == "r") {
			u64 need = o.arg(1), g = gap();
			if (live.empty() || o.arg(0) == 63) { // realloc(NULL, n) is malloc
				u64 q = call(2, 0, need); ctx.ev("r0", need, q ? q - base : ~0ull, exc);
				if (q && !exc) { fresh(q, need, "realloc"); Live x{q, need, ++tagn}; live.push_back(x); verify("realloc"); fill(x); } else unchanged("realloc");
			} else {
				size_t i = o.arg(0) % live.size(); Live x = live[i]; u64 q = call(2, x.ptr, need); ctx.ev("r", need, q ? q - base : ~0ull, exc);
				if (exc || !q) { ctx.check(!(must_fit(fix(need), g) && !exc), "refused", fmt("a resize to %llu bytes was refused although %llu are free in one piece", (long long)need, (long long)g)); unchanged("resize"); ctx.count("refused:resize"); }
				else { fresh(q, need, "resize"); ctx.check(need <= heap, "oversized", "oversized resize succeeded"); live[i] = Live{q, need, x.tag}; verify("resize"); ctx.check(intact(x, q, std::min(x.size, need)), "contents-lost", fmt("resizing %llu bytes to %llu lost the contents", (long long)x.size, (long long)need)); live[i].tag = ++tagn; fill(live[i]); ctx.count(q == x.ptr ? "resize:in-place" : "resize:moved"); }
			}
		} else if (o.k == "f") {
			if (live.empty()) continue;
			size_t i = o.arg(0) % live.size(); Live x = live[i]; ctx.check(intact(x, x.ptr, x.size), "contents-lost", "the contents of an allocation changed while it was live");
			u64 rc = call(3, x.ptr, 0); ctx.ev("f", x.ptr - base, exc); (void)rc;
			if (exc == 2) { verify("a free that ran out of host memory"); continue; }
			ctx.check(!exc && (viaguest || rc == 0), "free-refused", "freeing a live allocation was refused"); live.erase(live.begin() + i); verify("free");
		} else if (o.k == "x") { // pointers that are no allocation
			u64 q = 0; switch (o.arg(0) % 5) { case 0: q = live.empty() ? base + 16 : live[o.arg(1) % live.size()].ptr + 8; break; case 1: q = base + heap; break; case 2: q = 8; break; case 3: q = live.empty() ? ~0ull : live[o.arg(1) % live.size()].ptr + (1ull << 32); break; default: q = base - 16; }
			bool is = false; for (auto& x : live) is |= x.ptr == q; if (is) continue;
			u64 rc = call(3, q, 0); ctx.ev("x", rc, exc); ctx.check(exc || (!viaguest && rc == 1), "bad-free-accepted", fmt("freeing %llx, which is no allocation, was accepted", (long long)q)); unchanged("free of a wrong pointer");
			q = q == 8 ? 24 : q; u64 r2 = call(2, q, 32); ctx.check(exc || r2 == 0, "bad-realloc-accepted", "resizing something that is no allocation was accepted"); unchanged("resize of a wrong pointer"); ctx.count("bad-pointer");
		} else if (o.k == "k") { limit = o.arg(0); ar.set_max_chunks(limit); ctx.count("chunk-limit"); }
		else if (o.k == "F") { al.fail_at = al.n + o.arg(0); al.fail_count = o.arg(1); }
		else if (o.k == "w") {
			al.fail_at = ~0ull; ar.set_max_chunks(4000); limit = 4000;
			while (!live.empty()) { Live x = live.back(); ctx.check(intact(x, x.ptr, x.size), "contents-lost", "contents changed"); call(3, x.ptr, 0); ctx.check(!exc, "free-refused", "freeing a live allocation was refused"); live.pop_back(); }
			verify("freeing everything"); ctx.check(used0 == 0 && free0 == heap, "accounting", "bytes stay in use after everything was freed");
			u64 whole = heap & ~15ull; u64 q = call(0, whole, 0); ctx.check(q == base && !exc, "fragmented", fmt("after everything was freed a request for the whole heap (%llu) gives %llx", (long long)whole, (long long)q)); live.push_back({q, 0, ++tagn}); verify("taking the whole heap");
			call(3, q, 0); live.clear(); verify("giving it back"); ctx.count("whole-heap");
		}
		for (auto& x : live) if (x.size && !intact(x, x.ptr, std::min<u64>(x.size, 64))) ctx.fail("contents-lost", "the contents of an allocation changed while it was live");
		ctx.simtime++;
	}
}
Register r1({"P08", "heap", "sets of live allocations and free bytes", "random histories of malloc, calloc, realloc and free (through guest system calls or directly) on small heaps with sizes over the full 64-bit range, wrong pointers, changing chunk limits and failing host allocations, against a model of the live allocations and their contents",
	gen, exec, 500000, 5000000, {"native heap", "heap system calls", "guest memory"}, {}});
} // namespace
