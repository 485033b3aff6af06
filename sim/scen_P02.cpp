#include "lockstep.hpp"
using namespace eng;
static u64 rnd_budget(Rng& r) {
	switch (r.below(8)) { case 0: return 1; case 1: return r.range(1, 4); case 2: return r.range(1, 30); case 3: return r.range(200, 320); case 4: return r.range(1000, 4000); case 5: return r.range(300, 20000); default: return r.range(1, 80); }
}
static Plan gen(Rng& r, int) {
	Plan p; GenOpts g; g.items_hi = r.chance(1, 4) ? 50 : 20; g.instr_pct = r.chance(1, 2) ? 55 : 70; g.longblocks = r.chance(2, 3); gen_high(r, p); gen_program(r, p, g, layout_for(p));
	p.cfg["shared"] = r.below(2); p.cfg["hostseed"] = r.next() & 0xffff; p.cfg["startcount"] = r.chance(1, 2) ? 0 : r.chance(1, 2) ? r.below(1000) : r.chance(1, 4) ? ~0ull - (r.next() >> 30) - (1ull << 30) : r.next() >> (1 + r.below(40));
	int n = r.range(1, 14);
	for (int i = 0; i < n; i++) {
		u64 e = r.chance(5, 6) ? 0 : r.below(4); u64 b = rnd_budget(r);
		if (b > 5000 && e != 0) b = 50;
		p.add("s", {e, b, 0});
	}
	return p;
}
static Register r1({"P02", "budgets", "register file contents at pause points", "random programs with straight-line stretches of up to 17000 instructions, jumps of every kind, system calls that stop, jump or throw; random budgets from 1 to the maximum; the reported count, the limit flag and the amount of overrun are checked against single-stepping after every slice",
	gen, [](const Plan& p, Ctx& c) { Mode m; m.budgets = true; run_lockstep(p, c, m); }, 300000, 3000000, {"CPU engines", "decoder cache", "instruction accounting"}, {"system calls are deterministic stand-ins"}});

// ---- host-to-guest calls with a budget
static const u64 FIXED[] = {1, 7, 33, 100, 1000};
static Plan gen_calls(Rng& r, int) {
	Plan p; GenOpts g; g.items_lo = 1; g.items_hi = 14; g.instr_pct = 60; g.longblocks = r.chance(1, 2); gen_high(r, p); gen_program(r, p, g, layout_for(p));
	p.cfg["shared"] = r.below(2);
	int n = r.range(1, 8);
	for (int i = 0; i < n; i++) { u64 k = r.below(5); p.add("c", {k, k == 2 ? r.below(5) : rnd_budget(r), edge(r), r.below(3) ? 0 : r.below(12)}); }
	return p;
}
static void exec_calls(const Plan& p, Ctx& ctx) {
	install(); clear_shared(); Plan q = p;
	// function body, then a return; the exit address is the STOP behind it
	Prog prog; { Op o; o.k = "i"; o.a = {la::ret()}; q.ops.push_back(o); prog = assemble(q, 0); }
	Layout l = layout_for(p, prog.code.size());
	Box M(prog.code, l, p.get("shared", 1), prog.cuts), R(prog.code, l, false);
	start_state(p, M); start_state(p, R);
	const u64 exit_addr = l.code + (prog.code.size() - 1) * 4;
	M.m->memory.set_exit_address(exit_addr); R.m->memory.set_exit_address(exit_addr);
	Sys sm, sr; sm.data = sr.data = l.data; M.m->set_userdata(&sm); R.m->set_userdata(&sr); Ref ref{R};
	std::vector<size_t> starts{0}; // function entries: anywhere a program item starts
	for (auto& o : p.ops) {
		if (o.k != "c") continue;
		u64 kind = o.arg(0) % 5, budget = kind == 2 ? FIXED[o.arg(1) % 5] : std::max<u64>(1, o.arg(1)), a0 = o.arg(2); u64 fn = l.code + (o.arg(3) % prog.code.size()) * 4;
		if (kind == 3 && budget < 4) kind = 0;
		auto& m = *M.m; End got; const u64 base = ref.executed;
		try {
			switch (kind) {
			case 0: m.timed_vmcall(fn, budget, a0); break;
			case 1: (void)m.preempt<true, false>(budget, fn, a0); break;
			case 2: switch (o.arg(1) % 5) { case 0: m.vmcall<u64, 1>(fn, a0); break; case 1: m.vmcall<u64, 7>(fn, a0); break; case 2: m.vmcall<u64, 33>(fn, a0); break; case 3: m.vmcall<u64, 100>(fn, a0); break; default: m.vmcall<u64, 1000>(fn, a0); } break;
			case 3: (void)m.preempt<false, false>(budget, fn, a0); break;
			default: m.timed_vmcall(fn, budget, a0); break;
			}
			got.kind = End::STOP;
		} catch (...) { got = caught(std::current_exception()); }
		R.m->cpu.reg(1) = exit_addr; R.m->cpu.reg(4) = a0; R.m->cpu.reg(3) = R.m->memory.stack_address() & ~15ull; R.m->cpu.registers().pc = fn;
		if (kind == 3 && got.kind == End::STOP && m.instruction_limit_reached()) { got.kind = End::EXC; got.type = loongarch::MACHINE_TIMEOUT; }
		bool timeout = got.kind == End::EXC && got.type == loongarch::MACHINE_TIMEOUT;
		End e; u64 first_over = ~0ull; auto step = [&] { e = ref.step(); u64 n = ref.executed - base; if (e.kind == End::NONE && ref.last_transfer_at == ref.executed && n >= budget && first_over == ~0ull) first_over = n; };
		if (got.kind == End::EXC && !timeout) {
			for (u64 k = 0; k < budget + 140000; k++) { step(); if (e.kind != End::NONE || first_over != ~0ull) break; }
			bool same = e.kind == End::EXC && e.type == got.type;
			if (!same) ctx.fail("call-exception", fmt("call with budget %llu ended by %s; single-stepping: %s", (long long)budget, end_name(got).c_str(), end_name(e).c_str()));
			ctx.count("call:faulted"); m.set_instruction_counter(0);
			bool posted = e.text.find("posted") != std::string::npos;
			if (!posted) break;
		} else {
			u64 n = m.instruction_counter(); ctx.check(n <= 400000, "overrun", fmt("a call with budget %llu counted %llu instructions", (long long)budget, (long long)n));
			for (u64 k = 0; k < n; k++) { step(); if (e.kind != End::NONE) break; }
			ctx.check(ref.executed - base == n, "count", fmt("a call with budget %llu counted %llu instructions but the function ended (%s) after %llu", (long long)budget, (long long)n, end_name(e).c_str(), (long long)(ref.executed - base)));
			if (timeout) {
				ctx.check(e.kind == End::NONE, "false-timeout", fmt("budget %llu: timeout reported although the function %s after %llu instructions", (long long)budget, end_name(e).c_str(), (long long)n));
				ctx.check(n >= budget, "underrun", fmt("timeout after %llu of %llu instructions", (long long)n, (long long)budget)); ctx.count("call:timeout");
				if (got.type == loongarch::MACHINE_TIMEOUT && kind != 3) ctx.check(got.data == fn, "timeout-data", "the timeout does not carry the called address");
			} else { ctx.check(e.kind == End::STOP || e.kind == End::HALT, "missed-timeout", fmt("budget %llu: the call returned normally after %llu instructions, but there the function is %s", (long long)budget, (long long)n, end_name(e).c_str())); ctx.count("call:returned"); }
			if (first_over != ~0ull) ctx.check(n <= first_over, "overrun", fmt("budget %llu: executed %llu, but a jump was taken after %llu", (long long)budget, (long long)n, (long long)first_over));
		}
		ctx.ev("call", kind, ref.executed - base, got.type); ctx.simtime += ref.executed - base; ctx.nontrivial++;
		bool ns = false; expect_same(ctx, M, R, e.kind != End::EXC, "call-state", "after a call", ns, ref.nan_choice); if (ns) break;
		ref.nan_choice = false; ctx.state(hash_regs(Regs::of(*R.m)));
	}
}
static Register r2({"P02", "call-budgets", "register file contents after calls", "host-to-guest calls in every form, with random budgets, into random functions; timeout must be reported exactly when the budget ended the call",
	gen_calls, [](const Plan& p, Ctx& c) { exec_calls(p, c); }, 150000, 1500000, {"CPU engines", "host-to-guest calls"}, {"system calls are deterministic stand-ins"}});
