#include "elf_guest.hpp"
using namespace egst;
// ops:  m LEN HINT FLAGS PROT  mmap       u I WHAT A B  munmap (of all, the head, the tail, the middle, a span over several, or something else)
//       w I A         write a pattern     x N A B       another memory call without effect (mprotect, madvise)   h LEN host-side allocation
//       f I WHAT A B LEN  mmap at a fixed address: in, over or behind what is held, in a hole, over the program, beyond memory
namespace {
enum { PG = 4096 };
u64 up(u64 n) { return (n + PG - 1) & ~u64(PG - 1); }
u64 rnd_len(Rng& r, u64 mem) { switch (r.below(14)) { case 0: return 0; case 1: return ~0ull - r.below(8200); case 2: return r.next(); case 3: return mem + r.below(PG * 2) - PG; case 4: return mem / 2 + r.below(PG); case 5: return 1ull << r.below(64); case 6: return (1ull << 32) + r.below(PG); case 7: return mem / 4; default: return r.chance(1, 2) ? r.range(1, 12) * PG : r.range(1, 40000); } }
Plan gen(Rng& r, int tier) {
	Plan p; /* high: a first host allocation moves everything after it beyond 4 GB */ u64 mem = (r.chance(1, 2) ? 1ull << 20 : r.chance(1, 2) ? 2ull << 20 : 640 << 10) + r.below(3) * 1000; p.cfg["mem"] = mem; p.cfg["brk"] = r.chance(1, 3) ? 64 << 10 : r.range(1, 100000); p.cfg["stack"] = r.chance(1, 3) ? 64 << 10 : r.range(9000, 100000); p.cfg["guest"] = r.below(2); p.cfg["custom"] = r.chance(1, 5); if (!p.cfg["custom"] && r.chance(1, 8)) p.cfg["high"] = 1;
	int n = r.range(3, tier ? 120 : 60); u32 style = r.below(3); const bool fixed = r.chance(1, 3);
	for (int i = 0; i < n; i++) {
		u32 c = r.below(100);
		if (c < (style == 0 ? 60 : 42)) p.add("m", {style == 1 ? r.range(1, 20) * 10000 : rnd_len(r, mem), r.chance(1, 2) ? 0 : r.chance(1, 2) ? r.below(mem / PG + 4) * PG : r.next(), u64(r.chance(2, 3) ? 0x22 : (r.next() & ~0x10ull)), r.below(8)});
		else if (fixed && c < 60) p.add("f", {r.below(64), r.below(10), r.below(16), r.below(16), rnd_len(r, mem)}); else if (c < 78) p.add("u", {r.below(64), r.below(10), r.below(16), r.below(16)}); else if (c < 92) p.add("w", {r.below(64), r.next()}); else if (c < 96) p.add("x", {r.below(4), r.below(64), r.below(8)}); else p.add("h", {r.range(1, 30000)});
	}
	return p;
}
struct Map { u64 at, n; u64 tag = 0; }; // whole pages the guest holds; tag 0: zero
void exec(const Plan& p, Ctx& ctx) {
	seam::alloc_reset(); const u64 gap = p.get("high") ? 1ull << 32 : 0, memory = p.get("mem", 1 << 20) + gap; const bool viaguest = p.get("guest"), custom = p.get("custom");
	auto& bin = load("n_calls"); auto opts = std::make_shared<MachineOptions>(); opts->memory_max = memory; opts->brk_size = p.get("brk", 4096); opts->stack_size = p.get("stack", 65536); std::vector<u8> block;
	if (custom) { block.assign(memory + 64 + PG, 0); opts->custom_arena_pointer = (void*)((u64(block.data()) + PG - 1) & ~u64(PG - 1)); opts->custom_arena_size = memory + 64; }
	std::unique_ptr<Machine> mp;
	try { mp = std::make_unique<Machine>(std::string_view((const char*)bin.data(), bin.size()), *opts); } catch (const MachineException& e) { ctx.ev("refused", e.type()); ctx.count("machine-refused"); ctx.check(memory - gap < (1 << 20), "refused", "a machine with ample memory was refused"); return; }
	Machine& m = *mp; m.set_options(opts); Machine::setup_linux_syscalls(); m.setup_linux({"calls"}, {}); m.memory.set_exit_address(m.address_of("vm_exit"));
	u8* mem = (u8*)m.memory.arena_ptr(); const u64 size = m.memory.arena_size(); const u64 sys6 = m.address_of("sys6"); const u64 stack_hi = m.memory.stack_address(), stack_lo = stack_hi - opts->stack_size, brk_lo = m.memory.brk_address(), brk_hi = brk_lo + opts->brk_size;
	u64 image_hi = 0; { const u8* b = bin.data(); u64 ph; memcpy(&ph, b + 32, 8); u16 n; memcpy(&n, b + 56, 2); for (int i = 0; i < n; i++) { const u8* q = b + ph + i * 56; u32 t; memcpy(&t, q, 4); u64 va, ms; memcpy(&va, q + 16, 8); memcpy(&ms, q + 40, 8); if (t == 1) image_hi = std::max(image_hi, va + ms); } }
	ctx.check(brk_lo >= image_hi && stack_lo >= image_hi && stack_hi <= size && brk_hi <= size && (stack_hi <= brk_lo || brk_hi <= stack_lo), "layout", fmt("image to %llx, heap %llx-%llx and stack %llx-%llx overlap or leave memory of %llx", (long long)image_hi, (long long)brk_lo, (long long)brk_hi, (long long)stack_lo, (long long)stack_hi, (long long)size));
	std::vector<Map> held; u64 tagn = 0, high = 0; u64 hole = ~0ull; if (gap) { hole = m.memory.mmap_allocate(gap); ctx.check(hole <= std::max(stack_hi, brk_hi) + (1 << 20), "layout", fmt("the first host allocation is at %llx", (long long)hole)); high = hole + gap; ctx.count("beyond-4GB"); }
	struct Shadow { u64 hole, gap; std::vector<u8> v; u8* at(u64 i) { return v.data() + (i >= hole ? i - gap : i); } } shadow{hole, gap, {}}; // a copy of guest memory but for the gap
	shadow.v.assign(mem, mem + std::min(hole, size)); if (gap) shadow.v.insert(shadow.v.end(), mem + hole + gap, mem + size);
	// everything but the guest's own stack frames must be what it was
	auto same = [&](const char* after) {
		auto cmp = [&](u64 a, u64 b) { if (a < b && memcmp(mem + a, shadow.at(a), b - a)) for (u64 i = a; i < b; i++) if (mem[i] != *shadow.at(i)) ctx.fail("contents", fmt("after %s: byte %llx of guest memory is %02x, not %02x", after, (long long)i, mem[i], *shadow.at(i))); };
		// outside held mappings, memory above the first mapping is nobody's
		cmp(0, stack_lo); u64 first = std::max(stack_hi, brk_hi); cmp(stack_hi, first); for (auto& h : held) cmp(h.at, h.at + h.n); };
	auto fresh = [&](u64 at, u64 len, const char* what) {
		u64 n = up(len); ctx.check(at % PG == 0, "misaligned", fmt("%s returned %llx", what, (long long)at)); ctx.check(n >= len && at < size && n <= size - at, "outside", fmt("%s of %llu bytes at %llx leaves guest memory of %llx", what, (long long)len, (long long)at, (long long)size));
		ctx.check(at >= image_hi, "overlap", fmt("%s at %llx overlaps the program image", what, (long long)at)); ctx.check(at >= brk_hi || at + n <= brk_lo, "overlap", fmt("%s at %llx+%llx overlaps the initial heap %llx-%llx", what, (long long)at, (long long)n, (long long)brk_lo, (long long)brk_hi)); ctx.check(at >= stack_hi || at + n <= stack_lo, "overlap", fmt("%s at %llx+%llx overlaps the stack %llx-%llx", what, (long long)at, (long long)n, (long long)stack_lo, (long long)stack_hi));
		for (auto& h : held) ctx.check(at >= h.at + h.n || at + n <= h.at, "overlap", fmt("%s at %llx+%llx overlaps the mapping %llx+%llx", what, (long long)at, (long long)n, (long long)h.at, (long long)h.n));
		for (u64 i = at; i < at + n; i++) if (mem[i]) ctx.fail("not-zero", fmt("%s at %llx: byte %llx reads %02x", what, (long long)at, (long long)i, mem[i]));
		memset(shadow.at(at), 0, n); ctx.check(at >= hole + gap || at + n <= hole, "overlap", "a mapping inside the first host allocation"); held.push_back({at, n}); high = std::max(high, at + n); ctx.nontrivial++; };
	auto call = [&](u64 n, u64 a, u64 b, u64 c, u64 d) -> i64 {
		if (viaguest) return m.vmcall<i64>(sys6, i64(n), i64(a), i64(b), i64(c), i64(d), i64(-1), i64(0));
		m.cpu.reg(4) = a; m.cpu.reg(5) = b; m.cpu.reg(6) = c; m.cpu.reg(7) = d; m.cpu.reg(8) = -1; m.cpu.reg(9) = 0; m.system_call(n); return m.cpu.reg(4); };
	auto pages = [&] { u64 n = 0; for (auto& h : held) n += h.n; return n; };
	for (auto& o : p.ops) {
		if (o.k == "m") {
			u64 len = o.arg(0), first_free = high ? high : 0; bool must = high && len && len <= size && up(len) <= size - first_free; if (!high && len && len <= PG * 4 && size - std::max(stack_hi, brk_hi) > 64 * PG && std::max(stack_hi, brk_hi) < size) must = true;
			i64 r; try { r = call(222, o.arg(1), len, o.arg(3), o.arg(2) & ~0x10ull); } catch (const MachineException& e) { ctx.fail("exception", fmt("mmap of %llu raised %s", (long long)len, e.what())); }
			ctx.ev("mmap", len, r);
			if (r < 0 && r >= -4095) { ctx.check(!must, "refused", fmt("a mapping of %llu bytes was refused although everything from %llx to %llx has never been handed out", (long long)len, (long long)first_free, (long long)size)); same("a failed mmap"); ctx.count("refused"); }
			else { ctx.check(len != 0, "empty", "an empty mapping succeeded"); fresh(r, len, "mmap"); same("mmap"); }
		} else if (o.k == "f") {
			const u64 first = std::max(stack_hi, brk_hi); Map h = held.empty() ? Map{up(first), PG} : held[o.arg(0) % held.size()]; u64 np = h.n / PG, at, n = o.arg(2) + 1 << 12; bool must = false;
			switch (o.arg(1)) { case 0: case 1: case 2: at = h.at + (o.arg(2) % np) * PG; n = PG * (1 + o.arg(3) % (np - o.arg(2) % np)) - (o.arg(3) & 1 ? 77 : 0); must = !held.empty(); break; case 3: at = h.at; n = h.n + o.arg(3) * PG; break; case 4: at = h.at + h.n; break; case 5: at = h.at > first + (o.arg(3) + 1) * PG ? h.at - o.arg(3) * PG : h.at; break;
			case 6: at = h.at + o.arg(3) * 16 + 8; break; case 7: at = h.at; n = o.arg(4); break; case 8: at = size / PG * PG - o.arg(3) * PG; break; default: at = o.arg(3) < 8 ? ~u64(PG - 1) - o.arg(2) * PG : (brk_lo - 1) / PG * PG; if (o.arg(3) >= 8) n = PG; }
			if (at < first && at + n > first) continue; if (gap && at < hole + gap && (at + n < at || up(at + n) > hole)) continue;
			i64 r; try { r = call(222, at, n, 3, 0x32); } catch (const MachineException& e) { ctx.fail("exception", fmt("mmap of %llu at %llx raised %s", (long long)n, (long long)at, e.what())); }
			ctx.ev("fixed", at, n, r); if (r < 0 && r >= -4095) { ctx.check(!must, "refused", fmt("a fixed mapping of %llu bytes inside the mapping %llx+%llx was refused", (long long)n, (long long)h.at, (long long)h.n)); same("a failed fixed mmap"); ctx.count("fixed-refused"); continue; }
			ctx.check(u64(r) == at && at % PG == 0 && n && up(n) >= n && at < size && up(n) <= size - at, "outside", fmt("a fixed mapping of %llu bytes at %llx returned %llx in memory of %llx", (long long)n, (long long)at, (long long)r, (long long)size)); const u64 e = at + up(n);
			if (at < first) { memcpy(shadow.at(at), mem + at, e - at); ctx.count("fixed-over-program"); } // the guest's own choice
			else { for (u64 i = at; i < e; i++) if (mem[i]) ctx.fail("not-zero", fmt("a fixed mapping at %llx: byte %llx reads %02x", (long long)at, (long long)i, mem[i])); memset(shadow.at(at), 0, e - at);
				std::vector<Map> out; for (auto& h : held) { u64 a = h.at, b = h.at + h.n; if (e <= a || at >= b) { out.push_back(h); continue; } if (at > a) out.push_back({a, at - a, h.tag}); if (e < b) out.push_back({e, b - e, h.tag}); } held = out; held.push_back({at, e - at}); high = std::max(high, e); ctx.nontrivial++; ctx.count("fixed"); }
			same("fixed mmap");
		} else if (o.k == "h") {
			try { u64 r = m.memory.mmap_allocate(o.arg(0)); ctx.ev("host", r); fresh(r, o.arg(0), "host allocation"); same("host allocation"); } catch (const MachineException& e) { ctx.check(e.type() == loongarch::OUT_OF_MEMORY, "exception", e.what()); same("a failed host allocation"); ctx.count("refused"); }
		} else if (o.k == "u") {
			u64 at, n; u32 what = o.arg(1) % 10; if (held.empty()) { at = o.arg(2) * PG + image_hi / PG * PG; n = o.arg(3) * PG; what = 9; }
			else { Map h = held[o.arg(0) % held.size()]; u64 np = h.n / PG, k = np > 1 ? 1 + o.arg(2) % (np - 1) : 1; at = h.at; n = h.n;
				switch (what) { case 0: case 1: case 2: case 3: n -= o.arg(3) % 3 ? 0 : n > 100 ? 99 : 0; break; case 4: n = k * PG; break; case 5: at = h.at + h.n - k * PG; n = k * PG; break; case 6: if (np > 2) { at = h.at + PG; n = (np - 2) * PG; } break;
				case 7: n = h.n + (o.arg(3) + 1) * PG; break; case 8: at = h.at + o.arg(2) * 256 + 16; n = o.arg(3) * 300; break; default: at = o.arg(2) < 8 ? (stack_lo - (8 - o.arg(2)) * PG) & ~u64(PG - 1) : ~u64(PG - 1) - o.arg(3) * PG; n = o.arg(3) == 7 ? ~0ull : (o.arg(3) + 1) * PG; } }
			if (gap && at < hole + gap && (at + n < at || at + n > hole)) continue; // the gap stays
			i64 r = call(215, at, n, 0, 0); ctx.ev("munmap", at, n, r); if (at % PG) ctx.check(r < 0, "bad-unmap", "unmapping from the middle of a page succeeded");
			if (r == 0) { u64 e = at + up(n); if (e < at) e = ~0ull; std::vector<Map> out; for (auto& h : held) { u64 a = h.at, b = h.at + h.n; if (e <= a || at >= b) { out.push_back(h); continue; } if (at > a) out.push_back({a, at - a, h.tag}); if (e < b) out.push_back({e, b - e, h.tag}); } held = out; ctx.count("unmapped"); }
			same("munmap");
		} else if (o.k == "w") { if (held.empty()) continue; Map& h = held[o.arg(0) % held.size()]; h.tag = ++tagn; u64 lo = (o.arg(1) & 1) ? 0 : h.n - std::min<u64>(h.n, PG); u64 hi = (o.arg(1) & 2) ? h.n : std::min<u64>(h.n, lo + PG); for (u64 i = lo; i < hi; i++) { u8 v = u8(tagn * 37 + i * 11) | 1; mem[h.at + i] = v; *shadow.at(h.at + i) = v; } }
		else if (o.k == "x") { u64 at = held.empty() ? stack_lo / PG * PG : held[o.arg(1) % held.size()].at; i64 r = o.arg(0) & 1 ? call(226, at, PG, o.arg(2), 0) : call(233, at, PG, o.arg(2) == 4 ? 0 : o.arg(2), 0); ctx.ev("x", r); same("mprotect or madvise"); }
		u64 s = 1; std::vector<std::pair<u64, u64>> iv; for (auto& h : held) iv.push_back({h.at, h.n}); std::sort(iv.begin(), iv.end()); s = mix(hash_bytes(iv.data(), iv.size() * 16), memory); ctx.state(s); ctx.simtime++;
	}
	ctx.count("held-pages-at-end", pages() / PG); 
}
Register r1({"P11", "mappings", "sets of mappings the guest holds", "random histories of mmap (any hint, length and flag; fixed addresses in, over, behind and between mappings), munmap of whole, partial, spanning and foreign ranges, mprotect, madvise and host allocations in machines of several sizes, with own or donated memory, against a model of the pages the guest holds and a shadow copy of guest memory",
	gen, exec, 200000, 4000000, {"guest memory manager", "memory system calls", "executable loader"}, {}});
} // namespace
