#include "lockstep.hpp"
#include "elf_guest.hpp"
using namespace eng;

// ---- generated programs: sliced run against one uninterrupted run
static Plan gen(Rng& r, int) {
	Plan p; GenOpts g; g.items_hi = r.chance(1, 3) ? 60 : 25; g.instr_pct = r.chance(1, 2) ? 60 : 75; g.longblocks = r.chance(1, 4); gen_high(r, p); gen_program(r, p, g, layout_for(p));
	p.cfg["shared"] = r.below(3) != 0; p.cfg["hostseed"] = r.next() & 0xffff; p.cfg["total"] = r.range(1, r.chance(1, 2) ? 200 : 3000);
	int n = r.range(1, 16); u32 style = r.below(3);
	for (int i = 0; i < n; i++) p.add("s", {style == 0 ? 0 : r.below(2), r.chance(1, 2) ? r.range(1, 6) : r.range(1, 150), r.chance(1, 2) ? 0 : r.range(1, 9)});
	return p;
}
struct Seen { std::vector<u64> at; std::vector<End> what; };
static void exec(const Plan& p, Ctx& ctx) {
	install(); clear_shared(); Prog prog = assemble(p, 0); Layout l = layout_for(p, prog.code.size());
	bool shared = p.get("shared", 1); const u64 total = std::max<u64>(1, p.get("total", 100));
	Box M(prog.code, l, shared, prog.cuts, p.get("hostseed") & 1), U(prog.code, l, false, prog.cuts); start_state(p, M); start_state(p, U);
	Sys sm, su; sm.data = su.data = l.data; M.m->set_userdata(&sm); U.m->set_userdata(&su); std::vector<std::unique_ptr<Box>> others; Rng hr(p.get("hostseed", 7));
	const u64 code_end = l.code + prog.code.size() * 4;
	// One slice: returns how it ended; a stop or a posted exception is an event of the history
	bool over_u = false, over_m = false;
	auto slice = [&](Box& b, u64& cnt, u64 limit, bool single, Seen& seen, bool& over) {
		auto& m = *b.m; End e;
		try {
			if (single) { // stop in front of the STOP instruction: it is the budgeted engine's
				m.set_instruction_counter(cnt); m.set_max_instructions(limit);
				while (m.instruction_counter() < m.max_instructions()) {
					u64 pc = m.cpu.pc(); u32 w = 0; if (pc >= l.code && pc < code_end && !(pc & 3)) memcpy(&w, b.arena() + pc, 4); else { e.kind = End::NONE; m.set_instruction_counter(cnt = m.instruction_counter()); return; }
					if (w == la::stop()) { cnt = m.instruction_counter(); return; }
					m.cpu.step_one(true);
					if (m.has_current_exception()) { cnt = m.instruction_counter(); m.deliver_current_exception(); }
				}
				cnt = m.instruction_counter(); if (m.max_instructions() == 0) e.kind = End::STOP;
			} else {
				if (m.simulate(limit, cnt)) e.kind = End::STOP;
				cnt = m.instruction_counter();
			}
		} catch (...) { e = caught(std::current_exception()); if (e.type < 1000) over = true; else if (e.type == 1000 && !single) cnt = m.instruction_counter(); }
		if (e.kind == End::NONE) return;
		seen.what.push_back(e); seen.at.push_back(e.kind == End::STOP ? cnt : 0);
		if (seen.what.size() > 400) over = true;
		if (e.kind == End::STOP && !(m.cpu.pc() >= l.code && m.cpu.pc() < code_end)) over = true;
		if (e.kind == End::EXC && e.type == 1000 && sys_of(m).count) { // thrown from a handler: pc is the system call, go on behind it only if it was posted
			over = true; }
	};
	Seen ue, me; u64 uc = 0, mc = 0;
	for (int k = 0; k < 500 && uc < total && !over_u; k++) slice(U, uc, total, false, ue, over_u);
	std::vector<Op> ss; for (auto& o : p.ops) if (o.k == "s") ss.push_back(o);
	u64 slices = 0, trail = 0;
	for (size_t i = 0; mc < total && !over_m && slices < 6000; i++) {
		u64 single = 0, b = total; if (!ss.empty()) { const Op& o = ss[i % ss.size()]; if (i >= ss.size() * 40) b = total; else { single = o.arg(0) & 1; b = std::max<u64>(1, o.arg(1)); if (o.arg(2)) between(o.arg(2), M, prog, p, ctx, others, hr); } }
		M.m->set_userdata(&sm); u64 c0 = mc; if (single && mc + b >= total) { if (mc + 1 >= total) single = 0; else b = total - 1 - mc; } // only the budgeted engine finishes the last block
		slice(M, mc, std::min(total, mc + b), single, me, over_m); slices++;
		if (single && mc == c0 && !over_m) slice(M, mc, std::min(total, mc + b), false, me, over_m);
		{ u64 h = hash_regs(Regs::of(*M.m)); ctx.state(h); trail = mix(trail, h); }
	}
	ctx.count("slices", slices); ctx.simtime = uc; ctx.ev("run", uc, trail);
	// with two NaNs meeting, engines may hand on either: compare only fast against fast then
	auto bad = [&](const std::string& c, const std::string& s) {
		bool mixed = false; for (auto& o : ss) mixed |= o.arg(0) & 1;
		if (mixed) { Box R(prog.code, l, false); start_state(p, R); Sys sr; sr.data = l.data; R.m->set_userdata(&sr); Ref ref{R}; for (u64 k = 0; k < uc + 1000 && !ref.nan_choice; k++) { End e = ref.step(); if (e.kind == End::EXC) break; if (e.kind == End::STOP && !ref.in_code(R.m->cpu.pc())) break; }
			if (ref.nan_choice) { ctx.count("nan-ambiguous"); return; } }
		ctx.fail(c, s); };
	bool fault = false;
	for (size_t i = 0; i < std::max(ue.what.size(), me.what.size()); i++) {
		if (i >= ue.what.size() || i >= me.what.size()) return bad("history-differs", fmt("the sliced run had %zu stops and exceptions, the uninterrupted run %zu", me.what.size(), ue.what.size()));
		auto &a = me.what[i], &b = ue.what[i];
		bool same = a.kind == b.kind && a.type == b.type && (!(a.type == loongarch::PROTECTION_FAULT || a.type == 1000) || a.data == b.data);
		if (!same) return bad("history-differs", fmt("event %zu: sliced run %s, uninterrupted run %s", i, end_name(a).c_str(), end_name(b).c_str()));
		if (b.kind == End::STOP && me.at[i] != ue.at[i]) return bad("count-differs", fmt("event %zu (stop): sliced run at count %llu, uninterrupted run at %llu", i, (long long)me.at[i], (long long)ue.at[i]));
		fault |= b.kind == End::EXC; ctx.count(std::string("end:") + (b.kind == End::STOP ? "stop" : fmt("exc%d", b.type)));
	}
	if (!fault && mc != uc) return bad("count-differs", fmt("the sliced run executed %llu instructions, the uninterrupted run %llu", (long long)mc, (long long)uc));
	Diff d = diff(Regs::of(*M.m), Regs::of(*U.m), !fault); if (d.any) return bad("state-differs", "after the run: " + d.what);
	d = diff_mem(M, U); if (d.any) return bad("state-differs", "after the run: " + d.what);
	if (sm.log != su.log || sm.count != su.count) return bad("syscalls-differ", "the sliced run made other system calls");
	ctx.nontrivial = slices > 1 && uc > 2;
}
static Register r1({"P03", "slices", "register file contents at pause points", "random programs run once uninterrupted and once in slices of random budgets by the budgeted and single-step engines, with the host inspecting, running other machines, clearing and evicting shared code in between; final registers, memory, system calls, stops, exceptions and count are compared",
	gen, exec, 250000, 3000000, {"CPU engines", "decoder cache", "shared segment cache"}, {"system calls are deterministic stand-ins"}});

// ---- compiled programs with output, heap and threads
static Plan gen_elf(Rng& r, int) {
	Plan p; p.cfg["prog"] = r.below(2); p.cfg["arg"] = r.below(60); p.cfg["shared"] = r.below(2); p.cfg["maxbudget"] = r.chance(1, 4) ? 300 : r.chance(1, 2) ? 5000 : 60000;
	p.cfg["hostseed"] = r.next() & 0xffffff; int n = r.range(1, 12);
	for (int i = 0; i < n; i++) p.add("e", {r.range(1, p.cfg["maxbudget"]), r.below(5) == 0, r.chance(1, 3) ? r.below(8) : 0});
	return p;
}
static void exec_elf(const Plan& p, Ctx& ctx) {
	clear_shared(); seam::install_stdout(); const char* names[] = {"mixed", "threads"}; const auto& elf = egst::load(names[p.get("prog") % 2]);
	std::vector<std::string> args{"prog", std::to_string(p.get("arg"))};
	auto mk = [&](bool shared, const std::vector<std::string>& a) { return std::make_unique<egst::Elf>(elf, a, shared, 24u << 20); };
	auto U = mk(false, args); bool ustop = U->run(40'000'000, 0); u64 uc = U->m->instruction_counter();
	ctx.check(ustop, "elf-not-finished", "the uninterrupted program did not finish");
	auto M = mk(p.get("shared"), args); u64 mc = 0; bool stop = false; Rng hr(p.get("hostseed")); std::vector<std::unique_ptr<egst::Elf>> others; u64 slices = 0;
	std::vector<Op> ss; for (auto& o : p.ops) if (o.k == "e") ss.push_back(o);
	for (size_t i = 0; !stop && slices < 20000; i++) {
		u64 b = 50'000'000; bool single = false;
		if (!ss.empty() && i < ss.size() * 12) {
			const Op& o = ss[i % ss.size()]; b = std::max<u64>(1, o.arg(0)); single = o.arg(1);
			switch (o.arg(2) % 8) {
			case 1: others.push_back(mk(true, args)); others.back()->m->simulate(1 + hr.below(20000)); ctx.count("between:other-same"); if (others.size() > 2) others.erase(others.begin()); break;
			case 2: { auto t = std::make_unique<egst::Elf>(egst::load(names[(p.get("prog") + 1) % 2]), args, true, 24u << 20); t->m->simulate(1 + hr.below(20000)); ctx.count("between:other-program"); } break;
			case 3: clear_shared(); ctx.count("between:clear-shared"); break;
			case 4: (void)M->m->cpu.registers().to_string(); (void)M->m->backtrace(); (void)M->m->collect_bytecode_statistics(); (void)M->m->memory.lookup_symbol(M->m->cpu.pc()); ctx.count("between:inspect"); break;
			case 5: if (!others.empty()) { others.back()->m->memory.evict_execute_segments(); others.pop_back(); ctx.count("between:other-evict"); } break;
			case 6: others.clear(); ctx.count("between:destroy-others"); break;
			case 7: { auto s = M->m->cpu.registers(); M->m->cpu.registers() = loongarch::Registers{}; M->m->cpu.registers() = s; ctx.count("between:save-restore"); } break;
			}
		}
		if (mc + b > uc + 1000 && b < 40'000'000) b = uc + 1000 - std::min(mc, uc + 999);
		if (single) {
			u64 n = std::min<u64>(b, 3000); M->m->set_instruction_counter(mc); M->m->set_max_instructions(mc + n); seam::take(); M->m->cpu.simulate_precise(); M->sink.out += seam::take(); stop = M->m->max_instructions() == 0; ctx.count("slice:single");
		} else { stop = M->run(mc + b, mc); ctx.count("slice:budgeted"); }
		mc = M->m->instruction_counter(); slices++; ctx.state(mix(hash_bytes(&M->m->cpu.registers(), 256), M->m->cpu.pc()));
		ctx.check(mc <= uc + 100000, "count-differs", fmt("the sliced run goes on after %llu instructions, the uninterrupted one ended after %llu", (long long)mc, (long long)uc));
	}
	ctx.ev("elf", uc, slices, M->sink.out.size()); ctx.simtime = uc; ctx.nontrivial = slices > 1;
	ctx.check(M->sink.out == U->sink.out, "output-differs", fmt("output differs: sliced '%s' / uninterrupted '%s'", M->sink.out.substr(0, 300).c_str(), U->sink.out.substr(0, 300).c_str()));
	ctx.check(mc == uc, "count-differs", fmt("sliced run: %llu instructions, uninterrupted: %llu", (long long)mc, (long long)uc));
	Diff d = diff(Regs::of(*M->m), Regs::of(*U->m)); ctx.check(!d.any, "state-differs", "after the run: " + d.what);
	ctx.check(M->same_memory(*U), "memory-differs", "guest memory differs after the run");
}
static Register r2({"P03", "compiled", "registers and pc at pause points", "compiled C programs (libc, heap, floating point, output; pthreads with mutexes and condition variables) sliced at random budgets with other machines working in between, against one uninterrupted run: output, registers, memory and count",
	gen_elf, exec_elf, 1200, 20000, {"CPU engines", "ELF loader", "Linux system calls", "guest threads", "shared segment cache"}, {"output sink records into memory"}});
