#include "elf_guest.hpp"
using namespace egst; using namespace gst;
// Host replacements of guest memory and string functions against the guest's own versions.
// An address is a pair (kind, offset): 0 in the pool, 1 before the end of memory, 2 in read-only data, 3 absolute, 4 before the end of the pool
namespace {
enum Fn { MEMCPY, MEMSET, MEMMOVE, MEMCMP, MEMCHR, STRLEN, STRNLEN, STRCMP, STRNCMP, NFN };
const char* fn_name[] = {"memcpy", "memset", "memmove", "memcmp", "memchr", "strlen", "strnlen", "strcmp", "strncmp"};
const char* suffix[] = {"aligned", "lsx", "lasx", "unaligned"};
const u64 lens[] = {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4094, 4095, 4096, 4097, 5000, 9000};
const u64 huge[] = {~0ull, ~0ull >> 1, 1ull << 32, 1ull << 31, 1ull << 63, ~0ull - 4095, 1ull << 20};
const u64 wild[] = {0, 1, 16, 0xfff, 0x1ffff, 1ull << 31, 1ull << 32, 1ull << 47, ~0ull, ~0ull - 7, 0x8000000000000000ull, ~0ull - 4095};
// ops: s K O LEN SEED ALPHABET  a string (unterminated when it ends at the edge)      b K O LEN SEED ALPHABET  bytes, zeros included
//      k K O K2 O2 LEN AT       copy LEN bytes of the second place to the first and change the byte at AT
//      f FN SUFFIX ROUTE K O K2 O2 N C    call on both machines      a  the replacements are turned on in the second machine
Plan gen(Rng& r, int) {
	Plan p; p.cfg["split"] = r.below(3) == 0; p.cfg["shared"] = r.below(2); p.cfg["engine"] = r.below(3); if (r.chance(1, 6)) p.cfg["high"] = 1; int n = r.range(4, 30); bool early = r.chance(2, 3); if (early) p.add("a");
	auto len = [&]() -> u64 { return r.chance(1, 2) ? r.pick(lens) : r.chance(1, 2) ? r.below(40) : r.below(6000); };
	struct P { u64 k, o; }; std::vector<P> places;
	auto place = [&]() -> P { if (!places.empty() && r.chance(3, 5)) { P q = places[r.below(places.size())]; if (r.chance(1, 4)) q.o += r.below(9); return q; }
		u32 c = r.below(100); if (c < 55) return {0, r.below(20000)}; if (c < 80) return {r.chance(1, 2) ? 1u : 4u, r.below(200)}; if (c < 88) return {1, r.below(9000)}; if (c < 94) return {2, r.below(250)}; return {3, r.pick(wild)}; };
	const bool big = !p.get("high") && r.chance(1, 30); if (big) n = std::min(n, 10);
	for (int i = 0; i < n; i++) {
		if (big && r.chance(1, 2)) { u64 l = r.chance(1, 2) ? 65536 + r.below(5) - 2 : r.chance(1, 2) ? 131072 + r.below(3) - 1 : 32000 + r.below(60000), o1 = l + (r.chance(1, 3) ? r.below(2) : r.below(3000)), o2 = o1 + (r.chance(1, 3) ? r.below(200) : l + r.below(3000)), m = l + r.below(3) - 1; if (r.chance(1, 2)) std::swap(o1, o2);
			p.add(r.chance(2, 3) ? "s" : "b", {1, o1, l, r.next(), 255}); if (r.chance(2, 3)) p.add("k", {1, o2, 1, o1, l + 1, r.chance(1, 3) ? ~0ull : l - r.below(r.chance(1, 2) ? 4 : l)}); p.add("f", {r.below(NFN), r.below(4), r.below(8), 1, o1, 1, o2, m, r.chance(1, 2) ? r.below(4) : r.next()}); continue; }
		u32 c = r.below(100); P a = place(), b = place();
		if (c < 18) { u64 l = len(); if (a.k == 1 && r.chance(1, 2)) l = a.o; p.add("s", {a.k, a.o, l, r.next(), r.chance(1, 2) ? 255 : r.range(1, 3)}); places.push_back(a); if (r.chance(1, 2)) { p.add("k", {b.k, b.o, a.k, a.o, l + 1, r.chance(1, 3) ? ~0ull : r.below(l + 2)}); places.push_back(b); } }
		else if (c < 24) { p.add("b", {a.k, a.o, len(), r.next(), r.chance(1, 2) ? 256 : r.range(1, 4)}); places.push_back(a); }
		else if (c < 28) p.add("k", {a.k, a.o, b.k, b.o, len(), r.chance(1, 2) ? ~0ull : r.below(100)});
		else { u64 m = r.chance(1, 20) ? r.pick(huge) : len(); if ((a.k == 1 || a.k == 4) && r.chance(1, 2)) m = a.o + (r.chance(1, 4) ? 1 : 0); if (r.chance(1, 12)) m = 0; p.add("f", {r.below(NFN), r.below(4), r.below(8), a.k, a.o, b.k, b.o, m, r.chance(1, 2) ? r.below(4) : r.next()}); }
		if (!early && r.chance(1, 6)) p.add("a");
	}
	return p;
}
void exec(const Plan& p, Ctx& ctx) {
	clear_shared(); auto& bin = load(p.get("split") ? "n_split" : "n_lib"); const bool high = p.get("high"); const u64 mem = high ? (5ull << 30) + (p.get("split") << 20) : 2u << 20; if (high) ctx.count("runs beyond 4 GB");
	auto mk = [&] { auto e = std::make_unique<Elf>(bin, std::vector<std::string>{"x"}, p.get("shared"), mem, false); e->m->memory.set_exit_address(e->sym("vm_exit")); return e; };
	auto A = mk(), B = mk(); const u64 pool = A->sym("pool"), ro = A->sym("rodata"), end = A->m->memory.arena_size(), dstart = A->m->memory.data_start(), rstart = A->m->memory.rodata_start(); bool active = false;
	auto at = [&](u64 k, u64 o) -> u64 { switch (k % 5) { case 0: return pool + o % 32768; case 1: return end - o % (high ? 16384 : 400000); case 2: return ro + o % 256; case 3: return high && o >= 0x1000 && o < end ? end - o % 16384 : o; default: return pool + 32768 - o % 32768; } };
	std::vector<std::pair<u64, u64>> regions{{0, end}}; if (high) regions = {{0, 4u << 20}, {end - (128u << 10), end}}; // what is compared
	auto room = [&](u64 a) -> u64 { return a >= pool && a < end ? end - a : 0; };
	auto both = [&](u64 a, const u8* d, u64 n) { if (!n) return; A->m->memory.copy_into_arena_unsafe(a, d, n); B->m->memory.copy_into_arena_unsafe(a, d, n); };
	for (auto& o : p.ops) {
		if (o.k == "a") { if (!active) { B->m->setup_accelerated_syscalls(); active = true; ctx.count("activations"); } continue; }
		if (o.k == "s" || o.k == "b") { u64 a = at(o.arg(0), o.arg(1)), l = std::min<u64>(o.arg(2), high ? 10000 : 140000); Rng q(o.arg(3)); u64 al = std::max<u64>(1, o.arg(4)); std::vector<u8> d(l + 1);
			for (u64 i = 0; i < l; i++) d[i] = o.k == "s" ? (al >= 255 ? 1 + q.below(255) : 126 + q.below(al) * 2) : q.below(al); d[l] = 0; both(a, d.data(), std::min<u64>(o.k == "s" ? l + 1 : l, room(a))); continue; }
		if (o.k == "k") { u64 a = at(o.arg(0), o.arg(1)), b = at(o.arg(2), o.arg(3)), n = std::min({o.arg(4), room(a), room(b), u64(high ? 10001 : 140001)}); std::vector<u8> d(A->m->memory.arena_ptr() + (n ? b : 0), A->m->memory.arena_ptr() + (n ? b : 0) + n); if (o.arg(5) < n) d[o.arg(5)] ^= 1 << (o.arg(5) % 8); both(a, d.data(), n); continue; }
		if (o.k != "f") continue;
		u32 fn = o.arg(0) % NFN, su = o.arg(1) % 4, route = o.arg(2); if (su == 3 && fn > MEMMOVE) su = 0; u64 a = at(o.arg(3), o.arg(4)), b = at(o.arg(5), o.arg(6)), n = o.arg(7), c = o.arg(8); if (high && n > 100000 && (a < end - 20000 || fn == MEMMOVE || fn == MEMCPY)) n %= 9000; // not gigabytes one by one
		if (fn == MEMCPY && a != b) { u64 d = a > b ? a - b : b - a; if (d < n) fn = MEMMOVE; } // overlapping: not what memcpy allows
		std::string name = std::string("__") + fn_name[fn] + "_" + suffix[su]; u64 a1 = fn == MEMSET || fn == MEMCHR ? c : fn == STRNLEN ? n : b, a2 = n; u64 target = A->sym(name.c_str());
		if (fn == MEMCHR && su == 2 && route == 7 && n < 100000) { target = A->sym("memchr_more"); ctx.count("fall-through"); }
		struct R { u64 v = 0; int exc = -1; bool regs = true; } ra, rb;
		auto call = [&](Elf& e, R& r) { auto& m = *e.m; for (int i = 22; i < 32; i++) m.cpu.reg(i) = 0x1111111111111111ull * (i & 15) + i; u64 keep[10]; for (int i = 22; i < 32; i++) keep[i - 22] = m.cpu.reg(i);
			try {
				if (route == 0) r.v = m.vmcall<u64, 60000000>(e.sym("via_pointer"), target, a, a1, a2) - 1; else if (route == 1 && fn == STRLEN) r.v = m.vmcall<u64, 60000000>(e.sym("tail_strlen"), a - 1);
				else if (p.get("engine") == 0) r.v = m.vmcall<u64>(target, a, a1, a2); else if (p.get("engine") == 1) r.v = m.vmcall<u64, 60000000>(target, a, a1, a2); else r.v = m.preempt<true, true>(60000000, target, a, a1, a2);
				if (p.get("engine") != 2) for (int i = 22; i < 32; i++) if (m.cpu.reg(i) != keep[i - 22]) r.regs = false;
			} catch (const MachineException& x) { r.exc = x.type(); } };
		u64 in = hash_bytes(A->m->memory.arena_ptr(), 64); (void)in; call(*A, ra); call(*B, rb);
		auto what = [&] { return fmt("%s(%llx, %llx, %llx), memory ends at %llx", name.c_str() + 2, (long long)a, (long long)a1, (long long)a2, (long long)end); };
		ctx.ev(fn_name[fn], ra.v, ra.exc, rb.exc); ctx.count(std::string("call:") + fn_name[fn]); ctx.simtime++; if (active) ctx.nontrivial++; if (ra.exc >= 0) ctx.count("faulting-calls");
		ctx.check(ra.exc != loongarch::MACHINE_TIMEOUT, "guest-too-slow", what());
		ctx.check((ra.exc >= 0) == (rb.exc >= 0) && (ra.exc < 0 || ra.exc == rb.exc), "fault-differs", what() + fmt(": the guest's own function %s, the replacement %s (exceptions %d, %d)", ra.exc >= 0 ? "faults" : "returns", rb.exc >= 0 ? "faults" : "returns", ra.exc, rb.exc));
		if (ra.exc < 0) {
			bool same; if (fn == MEMCMP || fn == STRCMP || fn == STRNCMP) { auto sg = [](u64 v) { i64 s = i64(v); return s != i64(int(s)) ? 99 : (s > 0) - (s < 0); }; same = sg(ra.v) == sg(rb.v); } else same = ra.v == rb.v;
			ctx.check(same, "result-differs", what() + fmt(": the guest's own function returns %llx, the replacement %llx", (long long)ra.v, (long long)rb.v));
			ctx.check(ra.regs && rb.regs, "registers-clobbered", what() + ": registers the callee must keep changed");
			const u8 *x = A->m->memory.arena_ptr(), *y = B->m->memory.arena_ptr(); for (auto [lo, hi] : regions) if (memcmp(x + lo, y + lo, hi - lo)) { u64 i = lo; while (x[i] == y[i]) i++; ctx.fail("memory-differs", what() + fmt(": memory at %llx is %02x after the guest's own function, %02x after the replacement", (long long)i, x[i], y[i])); }
		} else for (auto [lo, hi] : regions) { u64 f = std::max(lo, dstart); B->m->memory.copy_into_arena_unsafe(f, A->m->memory.arena_ptr() + f, hi - f); }
		u64 bucket = n > 10000 ? 20 : n > 4096 ? 19 : n > 256 ? 18 : n > 17 ? 17 : n; ctx.state(mix(fn * 8 + su, mix(bucket * 64 + (a & 7) * 8 + (b & 7), mix(ra.exc + 1, (i64(ra.v) > 0) + 2 * (ra.v == 0)))) + (o.arg(3) % 5) * 5 + o.arg(5) % 5);
	}
	(void)rstart;
}
Register r1({"P18", "calls", "(function, variant, length class, alignments, kinds of place, outcome)", "calls of every replaceable memory and string function in all its variants - directly, through a pointer, as a tail call and by falling through - on two machines of one program, one of which has the replacements, with strings and ranges at the end of the pool, at the edge of guest memory, in read-only data and at wild addresses; results, exceptions, kept registers and all guest memory are compared",
	gen, exec, 60000, 800000, {"function replacement", "ELF loader", "threaded engines", "host-to-guest calls"}, {}, {"plain", "asan"}});

// ---- replacements turned on in the middle of a run
Plan gen2(Rng& r, int) { Plan p; p.cfg["prog"] = r.below(3) == 0; p.cfg["split"] = r.below(3) == 0; p.cfg["arg"] = r.below(60); p.cfg["seed"] = r.next(); p.cfg["rounds"] = r.range(1, 6); p.cfg["shared"] = r.below(2); int n = r.range(1, 10); u64 mx = r.chance(1, 3) ? 40 : r.chance(1, 2) ? 2000 : 20000; for (int i = 0; i < n; i++) p.add("e", {r.range(1, mx)}); p.cfg["at"] = r.below(n * 3 + 1); p.cfg["heap"] = r.below(2); p.cfg["mate"] = r.below(3); return p; }
void exec2(const Plan& p, Ctx& ctx) {
	clear_shared(); seam::install_stdout(); bool prog = p.get("prog"); auto& bin = load(prog ? "mixed" : p.get("split") ? "n_split" : "n_lib");
	auto mk = [&] { auto e = std::make_unique<Elf>(bin, std::vector<std::string>{"prog", std::to_string(p.get("arg"))}, p.get("shared"), prog ? 24u << 20 : 2u << 20, prog); if (!prog) e->m->memory.set_exit_address(e->sym("vm_exit")); return e; };
	auto A = mk(), B = mk(); std::unique_ptr<Elf> C; u64 want; const u64 seed = p.get("seed"), rounds = p.get("rounds", 1);
	auto inside = [&](Machine& m) { auto* s = m.memory.lookup_symbol(m.cpu.pc()); return s && s->name.rfind("__", 0) == 0 && (s->name.find("mem") != std::string::npos || s->name.find("str") != std::string::npos); };
	if (prog) { ctx.check(A->run(40000000, 0), "not-finished", "plain run"); want = A->m->cpu.reg(4); } else want = A->m->vmcall<u64, 100000000>(A->sym("work"), seed, rounds);
	bool stop = false, active = false; u64 slices = 0, late = 0; std::vector<Op> ss; for (auto& o : p.ops) if (o.k == "e") ss.push_back(o);
	if (p.get("heap") && !prog) { B->m->setup_accelerated_heap(B->m->memory.mmap_allocate(128u << 10), 128u << 10); ctx.count("heap replaced"); } // the heap only before it is first used
	auto activate = [&] { if (active || slices < p.get("at")) return; if (slices && inside(*B->m)) { late++; return; } B->m->setup_accelerated_syscalls(); active = true; ctx.count(slices ? "activated-in-mid-run" : "activated-before"); };
	if (p.get("mate") == 1) { C = mk(); if (prog) C->m->simulate(3000); else C->m->vmcall<u64>(C->sym("work"), seed + 1, 1ull); }
	activate();
	while (!stop && slices < 4000) {
		u64 b = slices < ss.size() * 4 ? std::max<u64>(1, ss[slices % ss.size()].arg(0)) : active ? 40000000 : 97;
		if (prog) stop = B->run(b, 0); else { if (!slices) { try { B->m->timed_vmcall(B->sym("work"), b, seed, rounds); stop = true; } catch (const MachineException& e) { if (e.type() != loongarch::MACHINE_TIMEOUT) ctx.fail("fault-differs", e.what()); } } else try { stop = B->m->simulate(b, 0); } catch (const MachineException& e) { ctx.fail("fault-differs", fmt("%s (%llx) after the replacements were turned on", e.what(), (long long)e.data())); } }
		slices++; if (!stop) activate(); ctx.state(mix(B->m->cpu.pc(), active));
	}
	if (!stop) { ctx.count("unfinished"); return; }
	ctx.ev("end", want, B->m->cpu.reg(4), slices); ctx.count("delayed-activations", late); ctx.simtime += slices; ctx.nontrivial = active;
	ctx.check(B->m->cpu.reg(4) == want, "result-differs", fmt("the run with replacements ends with %llx, the plain run with %llx", (long long)B->m->cpu.reg(4), (long long)want));
	ctx.check(B->sink.out == A->sink.out, "output-differs", "with replacements: '" + B->sink.out.substr(0, 300) + "' / without: '" + A->sink.out.substr(0, 300) + "'");
	if (p.get("mate")) { if (!C) C = mk(); u64 v; if (prog) { C->sink.out.clear(); bool s = C->run(40000000, 0); v = C->m->cpu.reg(4); ctx.check(s, "mate-differs", "a plain machine of the same program did not finish"); if (p.get("mate") == 2) ctx.check(C->sink.out == A->sink.out, "mate-differs", "output of a plain machine sharing the code"); } else { v = C->m->vmcall<u64>(C->sym("work"), seed, rounds); } ctx.check(v == want, "mate-differs", "a plain machine of the same program gives another result"); }
}
Register r2({"P18", "mid-run", "(pc, active) at pauses", "programs (one of its own functions, one of libc's) run in slices, with the replacements turned on before the run or at a pause outside the replaced functions; result and output are compared with an undisturbed plain run, and a plain machine of the same program runs afterwards",
	gen2, exec2, 6000, 80000, {"function replacement", "ELF loader", "threaded engines", "Linux system calls", "shared decoded code", "native heap"}, {"output sink records into memory"}});
} // namespace
