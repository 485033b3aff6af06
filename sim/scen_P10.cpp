#include "elf_guest.hpp"
using namespace egst;
// Programs: FAM (a random body), VAR (which immediate differs), EXTRA (added instructions), MODE: 0 last word as it falls,
// 1 last word chosen so that the checksum equals that of VAR 0 of the same family
// ops:  n SLOT FAM VAR EXTRA MODE ADDR SIZE SHARED   a new machine     d SLOT destroy    r SLOT run and compare
//       p SLOT K   run K instructions and pause      c SLOT finish and compare
//       e SLOT     evict its decoded code            i SLOT ...as n: load another program into the same machine
//       m SLOT FAM VAR EXTRA MODE WHERE  a further piece of code of its own in the same machine    (r SLOT PIECE, and p SLOT K PIECE)
//       z SLOT ... as n: reset the memory and load    x  clear the shared cache    F N C    host allocations fail from the N-th of the next load
namespace {
u32 crc_step(u32 c, const u8* p, size_t n) { while (n--) { c ^= *p++; for (int k = 0; k < 8; k++) c = c >> 1 ^ (c & 1 ? 0x82F63B78u : 0); } return c; }
std::vector<u32> body(u64 fam, u64 var, u64 extra) {
	Rng r(fam * 77 + 5); std::vector<u32> c; int n = r.range(1, 30); u64 at = var ? var % n : ~0ull;
	for (int i = 0; i < n; i++) {
		u32 d = 12 + r.below(8), a = 12 + r.below(8), b = 12 + r.below(8), imm = r.below(2000); if (u64(i) == at) imm = (imm + 1 + var / n) & 0x7ff;
		switch (r.below(7)) { case 0: c.push_back(la::xori(d, a, imm)); break; case 1: c.push_back(u64(i) == at ? la::addi_d(d, a, imm) : la::mul_d(d, a, b)); break; case 2: c.push_back(u64(i) == at ? la::addi_d(d, a, imm) : 0x18000000 | (imm & 0xff) << 5 | d); break; // pcaddi: the address matters
		case 3: c.push_back(la::st_d(a, 23, (imm & 0xff) * 8)); break; case 4: c.push_back(la::ld_d(d, 23, (imm & 0xff) * 8)); break; case 5: c.push_back(la::bcc(r.below(6), a, b, 4 + 4 * (imm & 1))); c.push_back(la::addi_d(d, d, imm)); break; default: c.push_back(la::addi_d(d, a, imm)); }
	}
	for (u64 k = 0; k < extra; k++) c.push_back(la::addi_d(12 + k % 8, 13, k + 3));
	c.push_back(la::addi_d(29, 29, -1)); c.push_back(la::bcc(2, 0, 29, -i64(c.size()) * 4 + 0)); // loop while counter > 0
	c.push_back(la::stop());
	return c;
}
u32 crc_of(const std::vector<u32>& c) { return crc_step(~0u, (const u8*)c.data(), c.size() * 4); }
std::vector<u32> program(u64 fam, u64 var, u64 extra, u64 mode) {
	auto b0 = body(fam, 0, 0); u32 want = u32(Rng(fam).next()); u32 s0 = crc_of(b0); auto c = body(fam, var, extra);
	if (!mode) c.push_back(u32(Rng(fam * 3 + var).next())); else c.push_back(want ^ s0 ^ crc_of(c)); // the last word steers the checksum
	return c;
}
struct Ref { u64 hash; u64 count; };
u64 hash_memory(Machine& m, const Layout& l) { const u8* a = m.memory.arena_ptr(); u64 lo = l.high ? 0x42000 : 0; return mix(hash_bytes(a, lo), hash_bytes(a + l.high, l.size - l.high)); }
struct Piece { u64 addr; std::vector<u32> code; std::weak_ptr<loongarch::DecodedExecuteSegment> seg; u64 hash() const { return mix(hash_bytes(code.data(), code.size() * 4), addr); } };
// the same program single-stepped from memory, without any decoded code
Ref reference(const std::vector<Piece>& pieces, size_t cur, const Layout& l) {
	static std::map<u64, Ref> memo; u64 key = mix(cur, mix(l.code, l.size)); for (auto& q : pieces) key = mix(key, q.hash()); auto it = memo.find(key); if (it != memo.end()) return it->second;
	MachineOptions o; Machine m{std::string_view{}, o}; m.memory.allocate_custom_arena(l.size, l.code, l.data); for (auto& q : pieces) m.memory.copy_into_arena_unsafe(q.addr, q.code.data(), q.code.size() * 4);
	for (int i = 12; i < 20; i++) m.cpu.reg(i) = i * 1001; m.cpu.reg(23) = l.data + 0x1000; m.cpu.reg(29) = 3; m.cpu.reg(3) = l.stack; m.cpu.jump(pieces[cur].addr); u64 n = 0;
	while (n < 100000) { u32 w; memcpy(&w, m.memory.arena_ptr() + m.cpu.pc(), 4); n++; if (w == la::stop()) { m.cpu.registers().pc += 4; break; } m.set_max_instructions(~0ull); m.cpu.step_one(false); }
	auto r = Regs::of(m); u64 h = mix(hash_regs(r), hash_memory(m, l)); if (memo.size() > 20000) memo.clear(); return memo[key] = {h, n};
}
struct Slot { std::shared_ptr<MachineOptions> opts; std::unique_ptr<Machine> m; Layout l; std::vector<Piece> pieces; size_t cur = 0; bool shared = false, loaded = false, fresh = false; u64 done = 0; u64 gen = 0; };
Plan gen(Rng& r, int tier) {
	Plan p; int n = r.range(4, tier ? 120 : 60); u64 fams = 1 + r.below(3), f0 = r.next() >> 20;
	const bool high = r.chance(1, 8); auto prog = [&](const char* k, u64 slot) { p.ops.push_back({k, {slot, f0 + r.below(fams), r.chance(1, 3) ? 0 : r.below(6), r.chance(2, 3) ? 0 : r.below(4), r.chance(2, 3), r.chance(2, 3) ? 0 : high && r.chance(1, 3) ? r.range(4, 5) : r.below(4), r.chance(3, 4) ? 0 : r.below(3), r.chance(5, 6)}}); };
	for (int i = 0; i < n; i++) {
		u32 c = r.below(100); u64 s = r.below(5);
		if (c < 30) prog("n", s); else if (c < 36) prog("m", s); else if (c < 50) p.add("r", {s, r.below(4)}); else if (c < 58) p.add("p", {s, r.range(1, 60), r.below(4)}); else if (c < 66) p.add("c", {s}); else if (c < 74) p.add("e", {s}); else if (c < 82) prog("i", s); else if (c < 86) prog("z", s); else if (c < 91) p.add("d", {s}); else if (c < 95) p.add("x"); else p.add("F", {r.below(40), r.range(1, 3)});
	}
	return p;
}
void exec(const Plan& p, Ctx& ctx) {
	clear_shared(); seam::alloc_reset(); auto& al = seam::alloc(); std::map<u64, Slot> slots; u64 generation = 0; static const u64 addrs[] = {0x1000, 0x2000, 0x1040, 0x1004}; static const u64 sizes[] = {0x40000, 0x41000, 0x42000};
	std::vector<std::weak_ptr<loongarch::DecodedExecuteSegment>> all;
	auto key = [](const Slot& s, const Piece& q) { return mix(q.hash(), s.l.size); };
	auto prepare = [&](Slot& s) { auto& m = *s.m; for (int i = 1; i < 32; i++) m.cpu.reg(i) = 0; for (int i = 12; i < 20; i++) m.cpu.reg(i) = i * 1001; m.cpu.reg(23) = s.l.data + 0x1000; m.cpu.reg(29) = 3; m.cpu.reg(3) = s.l.stack; m.cpu.jump(s.pieces[s.cur].addr); memset((void*)(m.memory.arena_ptr() + s.l.data), 0, s.l.size - s.l.data); s.fresh = true; s.done = 0; };
	auto compare = [&](Slot& s, const char* how) { auto ref = reference(s.pieces, s.cur, s.l); auto r = Regs::of(*s.m); u64 h = mix(hash_regs(r), hash_memory(*s.m, s.l)); ctx.ev(how, h); ctx.nontrivial++;
		ctx.check(h == ref.hash, "wrong-code", fmt("a machine whose program has %zu words at %llx, one of %zu, did not do what single-stepping it does (%s)", s.pieces[s.cur].code.size(), (long long)s.pieces[s.cur].addr, s.pieces.size(), how)); s.fresh = false; s.done = ~0ull; };
	auto load = [&](Slot& s, const Op& o, bool reset) {
		Piece q{s.l.code, program(o.arg(1), o.arg(2), o.arg(3), o.arg(4)), {}}; auto& code = q.code; s.loaded = false; s.pieces.clear(); s.cur = 0; if (reset) { s.m->memory.reset(); }
		memset((void*)(s.m->memory.arena_ptr() + s.l.code), 0, std::min<u64>(s.l.data - s.l.code, 0x1e000)); s.m->memory.copy_into_arena_unsafe(s.l.code, code.data(), code.size() * 4);
		u64 f = al.failed; al.on = true; bool ok = true;
		try { s.m->cpu.init_execute_area(code.data(), s.l.code, code.size() * 4); } catch (const std::bad_alloc&) { ok = false; }
		al.on = false; ctx.check(ok || al.failed != f, "load-failed", "loading code failed though host memory was available"); if (al.failed != f) { ctx.count("fault:host-allocation", al.failed - f); if (!ok) ctx.count("failed-loads"); al.fail_at = ~0ull; }
		if (!ok) { s.m->memory.evict_execute_segments(); return false; } s.loaded = true; s.gen = ++generation; q.seg = s.m->memory.exec_segment_for(s.l.code); s.pieces.push_back(q); all.push_back(q.seg); prepare(s); return true;
	};
	auto more = [&](Slot& s, const Op& o) { // a further piece of code
		static const u64 where[] = {0x2000, 0x3000, 0x2040, 0x4004}; u64 high = s.l.code & ~0xffffffffull; Piece q{where[o.arg(5) % 4] + high, program(o.arg(1), o.arg(2), o.arg(3), o.arg(4)), {}}; u64 end = q.addr + q.code.size() * 4;
		for (auto& x : s.pieces) if (q.addr < x.addr + x.code.size() * 4 && x.addr < end) return;
		u64 f = al.failed; al.on = true; bool ok = true; const size_t n = s.m->memory.execute_segments_count();
		try { s.m->memory.create_execute_segment(*s.opts, q.code.data(), q.addr, q.code.size() * 4, false); } catch (const std::bad_alloc&) { ok = false; }
		al.on = false; ctx.check(ok || al.failed != f, "load-failed", "loading code failed though host memory was available"); if (al.failed != f) { ctx.count("fault:host-allocation", al.failed - f); if (!ok) ctx.count("failed-loads"); al.fail_at = ~0ull; }
		ctx.ev("more", ok, q.addr); ctx.check(s.m->memory.execute_segments_count() == n + ok, "segment", "another number of execute segments than were made"); if (!ok) return;
		s.m->memory.copy_into_arena_unsafe(q.addr, q.code.data(), q.code.size() * 4); auto seg = s.m->memory.exec_segment_for(end - 4); ctx.check(seg && seg->exec_begin() == q.addr && seg->exec_end() == end, "segment", "the segment looked up for an address is not the one with its code");
		q.seg = seg; seg.reset(); s.pieces.push_back(q); all.push_back(q.seg); s.done = ~0ull; ctx.count("further-pieces");
	};
	auto others = [&](const Slot& s, const Piece& q) { int n = 0; for (auto& e : slots) if (&e.second != &s && e.second.m && e.second.loaded && e.second.shared) for (auto& x : e.second.pieces) n += key(e.second, x) == key(s, q); return n; };
	for (auto& o : p.ops) {
		Slot& s = slots[o.arg(0) % 5];
		if (o.k == "n") {
			s = Slot{}; s.shared = o.arg(7); s.l.code = addrs[o.arg(5) % 8 < 4 ? o.arg(5) % 8 : 0]; s.l.size = sizes[o.arg(6) % 3]; if (o.arg(5) % 8 >= 4) { s.l.raise(o.arg(5) % 8 == 4 ? 1 : 2); ctx.count("beyond-4GB"); } s.opts = std::make_shared<MachineOptions>(); s.opts->use_shared_execute_segments = s.shared; s.m = std::make_unique<Machine>(std::string_view{}, *s.opts); s.m->set_options(s.opts);
			s.m->memory.allocate_custom_arena(s.l.size, s.l.code, s.l.data); bool ok = load(s, o, false); ctx.ev("new", ok, s.shared); ctx.count("loads");
		} else if (!s.m) { if (o.k == "x") { clear_shared(); ctx.count("clears"); ctx.ev("clear"); } else if (o.k == "F") { al.fail_at = al.n + o.arg(0); al.fail_count = o.arg(1); } continue; }
		else if (o.k == "d") { auto was = std::move(s.pieces); bool shared = s.shared; s = Slot{}; ctx.ev("destroy"); if (!shared) for (auto& q : was) ctx.check(q.seg.expired(), "code-leaked", "decoded code that was not shared outlives its machine"); ctx.count("destroys"); }
		else if (o.k == "x") { clear_shared(); ctx.count("clears"); ctx.ev("clear"); }
		else if (o.k == "F") { al.fail_at = al.n + o.arg(0); al.fail_count = o.arg(1); }
		else if (o.k == "i" || o.k == "z") { // other code, same machine: evict, then load
			if (o.k == "i") s.m->memory.evict_execute_segments(); bool ok = load(s, o, o.k == "z"); ctx.ev(o.k.c_str(), ok); ctx.count(o.k == "i" ? "reloads" : "resets");
		} else if (o.k == "e") {
			bool had = s.loaded; s.m->memory.evict_execute_segments(); s.loaded = false; auto was = std::move(s.pieces); s.pieces.clear(); ctx.ev("evict", had, was.size()); ctx.count("evictions"); ctx.check(s.m->memory.execute_segments_count() == 0, "segment", "execute segments are left after an eviction");
			if (had) for (auto& q : was) if (!s.shared || !others(s, q)) { ctx.check(q.seg.expired(), "code-leaked", "decoded code that no machine uses any more was not dropped by the eviction"); ctx.count("evicted-last"); }
			if (had) for (auto& q : was) { bool threw = false; s.m->cpu.jump(q.addr); try { s.m->simulate(100, 0); } catch (const MachineException& e) { threw = true; ctx.check(e.type() == loongarch::EXECUTION_SPACE_PROTECTION_FAULT, "wrong-exception", "running without code"); } ctx.check(threw, "ran-evicted-code", "a machine ran code that was evicted"); }
		} else if (o.k == "r") { if (!s.loaded) continue; s.cur = o.arg(1) % s.pieces.size(); prepare(s); switch (o.arg(0) % 2 + (s.gen % 2)) { case 0: s.m->simulate(1000000, 0); break; case 1: s.m->cpu.simulate_inaccurate(s.pieces[s.cur].addr); break; default: s.m->simulate(~0ull, 0); } compare(s, "run"); ctx.count("runs"); }
		else if (o.k == "m") { if (s.loaded && s.pieces.size() < 4) more(s, o); }
		else if (o.k == "p") { if (s.loaded && s.done == ~0ull) { s.cur = o.arg(2) % s.pieces.size(); prepare(s); } if (!s.loaded) continue; s.m->simulate(o.arg(1, 1), 0); s.fresh = false; if (!s.m->instruction_limit_reached()) compare(s, "run in slices"); ctx.count("pauses"); }
		else if (o.k == "c") { if (!s.loaded || s.done == ~0ull) continue; s.m->simulate(~0ull, 0); compare(s, "resumed"); ctx.count("resumes"); }
		std::vector<u64> st; for (auto& e : slots) { u64 h = e.second.m ? mix(e.second.l.size, e.second.loaded * 2 + e.second.shared) : 0; for (auto& q : e.second.pieces) h = mix(h, q.hash()); st.push_back(h); } std::sort(st.begin(), st.end()); ctx.state(hash_bytes(st.data(), st.size() * 8)); ctx.simtime++;
	}
	slots.clear(); clear_shared(); for (auto& w : all) ctx.check(w.expired(), "code-leaked", "decoded code is alive after every machine was destroyed and the cache cleared");
}
Register r1({"P10", "programs", "multisets of loaded programs (content, address, size of memory, shared or not)", "histories of loading, running, pausing, evicting, reloading, resetting, clearing and destroying machines whose programs differ in one immediate, in length or only in address, most of them built so that their CRC-32C checksums are equal, with host allocation failures while decoding; every run is compared with single-stepping from memory, and decoded code must be gone when its last user is",
	gen, exec, 900000, 12000000, {"shared decoded code", "decoder", "eviction", "threaded engine"}, {}, {"plain", "asan"}});

// ---- compiled guests: host replacements of guest functions are installed in some machines of a program, not in others
// ops:  n SLOT SHARED   d SLOT   a SLOT KIND (1 memory functions, 2 heap, 3 both)   r SLOT SEED ROUNDS    s SLOT N B  start a long call and pause after B   u SLOT resume   x clear   o SLOT run off the end of the code   f N the N-th allocation of the next activation fails
Plan gen2(Rng& r, int tier) {
	Plan p; int n = r.range(4, tier ? 40 : 24);
	for (int i = 0; i < n; i++) { u32 c = r.below(100); u64 s = r.below(4);
		if (c < 30) p.add("n", {s, r.chance(5, 6)}); else if (c < 38) p.add("d", {s}); else if (c < 56) p.add("a", {s, 1 + r.below(3)}); else if (c < 82) p.add("r", {s, r.next(), r.range(1, 4)}); else if (c < 86) p.add("o", {s, r.below(1000)}); else if (c < 88) p.add("f", {r.below(8)}); else if (c < 93) p.add("s", {s, r.range(50, 300), r.range(1, 100)}); else if (c < 97) p.add("u", {s}); else p.add("x"); }
	return p;
}
u64 host_work(u64 seed, u64 rounds) { // what the guest's `work` computes
	u64 h = seed; signed char buf[200], cpy[200];
	for (u64 r = 0; r < rounds; r++) {
		h = h * 6364136223846793005ul + 1442695040888963407ul; u64 n = 1 + (h >> 40) % 150; for (u64 i = 0; i < n; i++) buf[i] = 1 + ((h >> (i % 40)) & 63); buf[n] = 0;
		memset(cpy, int(h & 255), sizeof cpy); memcpy(cpy, buf, n + 1); h += n * 7; h += 3; u64 k = (h >> 20) % n; cpy[k] ^= 1; if (!cpy[k]) cpy[k] = 9;
		bool lt = buf[k] < cpy[k]; h += lt ? 11 : 13; h += lt ? 17 : 19; memmove(cpy + 1, cpy, n); void* f = memchr(cpy, buf[n / 2], n); h += f ? (signed char*)f - cpy : 999; h += std::min(k, n) * 23; h += 1; h += 29 + 31;
	}
	return h;
}
struct E { std::unique_ptr<Elf> e; u32 accel = 0; u64 rounds = 0; bool paused = false; u64 want = 0; };
void exec2(const Plan& p, Ctx& ctx) {
	clear_shared(); seam::alloc_reset(); auto& al = seam::alloc(); u64 fail = ~0ull; std::map<u64, E> slots; auto& bin = load("n_lib"); std::vector<std::weak_ptr<loongarch::DecodedExecuteSegment>> all; auto note = [&](E& s) { auto seg = s.e->m->memory.exec_segment_for(s.e->sym("work")); ctx.check(seg != nullptr, "segment", "a machine without its code"); all.push_back(seg); };
	for (auto& o : p.ops) {
		E& s = slots[o.arg(0) % 4];
		if (o.k == "x") { clear_shared(); ctx.ev("clear"); continue; }
		if (o.k == "n") { s = E{}; auto op = std::make_shared<MachineOptions>(); op->use_shared_execute_segments = o.arg(1); op->memory_max = 1 << 20; op->stack_size = 64 << 10; op->brk_size = 64 << 10; s.e.reset((Elf*)nullptr); s.e = std::unique_ptr<Elf>(new Elf(bin, {"x"}, o.arg(1), 2 << 20, false)); s.e->m->memory.set_exit_address(s.e->sym("vm_exit")); note(s); ctx.ev("new"); ctx.count("loads"); continue; }
		if (o.k == "f") { fail = o.arg(0); continue; }
		if (!s.e) continue; Machine& m = *s.e->m;
		if (o.k == "d") { s = E{}; ctx.ev("destroy"); }
		else if (o.k == "a" && !s.paused) { u64 pool = s.e->sym("pool"); s.accel |= o.arg(1); u64 f0 = al.failed; bool ok = true; al.fail_at = fail == ~0ull ? ~0ull : al.n + fail; al.fail_count = 1; fail = ~0ull; al.on = true; try { if (o.arg(1) & 1) m.setup_accelerated_syscalls(); if (o.arg(1) & 2) m.setup_accelerated_heap(pool, 32768); } catch (const std::bad_alloc&) { ok = false; } al.on = false; al.fail_at = ~0ull; ctx.check(ok || al.failed != f0, "load-failed", "replacing functions failed though host memory was available"); if (al.failed != f0) ctx.count("fault:host-allocation", al.failed - f0); if (!ok) ctx.count("failed-activations"); note(s); if (!ok && (o.arg(1) & 2)) { s = E{}; ctx.ev("given up"); continue; /* part of its heap may be replaced */ } ctx.ev("accel", o.arg(1), ok); ctx.count("activations"); }
		else if (o.k == "o" && !s.paused) { int type = -1; u64 at = s.e->sym("last_insn"), end = m.memory.exec_segment_for(at)->exec_end(); m.cpu.reg(4) = o.arg(1); m.cpu.jump(at); try { m.simulate(1000, 0); } catch (const MachineException& e) { type = e.type(); } ctx.check(at + 4 == end, "harness", "the guest's last instruction is not last"); ctx.check((type == loongarch::EXECUTION_SPACE_PROTECTION_FAULT || type == loongarch::ILLEGAL_OPCODE) && m.cpu.reg(4) == o.arg(1) + 5 && m.cpu.pc() == end, "off-the-end", fmt("running off the end of the code gave %d, %llu became %llu", type, (long long)o.arg(1), (long long)m.cpu.reg(4))); ctx.ev("off"); ctx.count("runs-off-the-end"); }
		else if (o.k == "r" && !s.paused) { if ((s.rounds += o.arg(2, 1)) > 40) continue; u64 got = 0; try { got = m.vmcall<u64, 10000000>(s.e->sym("work"), o.arg(1), o.arg(2, 1)); } catch (const MachineException& e) { ctx.fail("wrong-code", fmt("a call in a machine with replacements %u raised %s (%llx)", s.accel, e.what(), (long long)e.data())); }
			ctx.ev("run", got); ctx.nontrivial++; ctx.check(got == host_work(o.arg(1), o.arg(2, 1)), "wrong-code", fmt("the guest computed %llx, expected %llx (replacements %u)", (long long)got, (long long)host_work(o.arg(1), o.arg(2, 1)), s.accel));
			u64 hw; m.memory.copy_from_guest(&hw, s.e->sym("heap_at"), 8); ctx.check((s.accel & 2) || hw > 0, "wrong-code", "a machine without replacements did not run its own heap functions"); ctx.count("runs"); }
		else if (o.k == "s" && !s.paused) { s.want = 1; for (u64 i = 0; i < o.arg(1); i++) s.want = s.want * 3 + i; try { m.timed_vmcall(s.e->sym("spinner"), o.arg(2, 1), o.arg(1)); ctx.check(m.return_value<u64>() == s.want, "wrong-code", "spin"); } catch (const MachineException&) { s.paused = true; } ctx.count("pauses"); }
		else if (o.k == "u" && s.paused) { m.simulate(~0ull, 0); ctx.check(m.return_value<u64>() == s.want, "wrong-code", "a resumed call gave another result"); s.paused = false; ctx.count("resumes"); }
		u64 st = 1; for (auto& e : slots) st = mix(st, e.second.e ? e.second.accel * 2 + e.second.paused : 99); ctx.state(st); ctx.simtime++;
	}
	slots.clear(); clear_shared(); for (auto& w : all) ctx.check(w.expired(), "code-leaked", "decoded code is alive after every machine was destroyed and the cache cleared");
}
Register r2({"P10", "replacements", "replacements active per machine", "machines of one compiled program, sharing decoded code or not, in some of which the host replaces memory, string and heap functions before and between calls; every machine's results are compared with the host's own computation, and machines without replacements must run their own functions",
	gen2, exec2, 60000, 600000, {"ELF loader", "function replacement", "shared decoded code", "native heap"}, {}, {"plain", "asan"}});
} // namespace
