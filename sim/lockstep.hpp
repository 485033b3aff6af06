// Lockstep execution of one plan: the fast engines against single-stepping.
#pragma once
#include "engine.hpp"
#include "interpose.hpp"
#include <libloong/debug.hpp>

namespace eng {
struct Stats { u64 slices = 0; };

// things the host may do while the guest is paused; none of them may change what it computes
inline void between(u64 act, Box& b, const Prog& prog, const Plan& p, Ctx& ctx, std::vector<std::unique_ptr<Box>>& others, Rng& r) {
	static const char* names[] = {"none", "run-other-same", "create-destroy", "clear-shared", "inspect", "save-restore", "other-evict", "limit-noise", "other-program", "flip-shared-off"};
	act %= 10; ctx.count(std::string("between:") + names[act]);
	auto& m = *b.m; static thread_local Sys other_sys;
	auto run = [&](Box& o, u64 n) { other_sys = Sys{}; other_sys.data = o.l.data; o.m->set_userdata(&other_sys); try { o.m->simulate(n, 0); } catch (...) {} };
	switch (act) {
	case 1: if (others.empty() || (r.chance(1, 3) && !(b.l.high && others.size() > 1))) { others.push_back(std::make_unique<Box>(prog.code, b.l, true, prog.cuts)); start_state(p, *others.back()); }
		run(*others[r.below(others.size())], 1 + r.below(200)); break;
	case 2: { Box t(prog.code, b.l, true, prog.cuts, r.chance(1, 2)); start_state(p, t); run(t, r.below(60)); } break;
	case 3: clear_shared(); break;
	case 4: { (void)m.cpu.registers().to_string(); (void)m.cpu.current_instruction_to_string(); (void)m.collect_bytecode_statistics(); (void)m.backtrace(); (void)m.memory.strlen(b.l.data, 64);
		u64 v; m.memory.copy_from_guest(&v, b.l.data + 64, 8); (void)m.cpu.is_executable(m.cpu.pc()); auto seg = m.memory.exec_segment_for(m.cpu.pc()); if (m.cpu.pc() >= b.l.code && m.cpu.pc() < b.end) ctx.check(seg && m.cpu.pc() >= seg->exec_begin() && m.cpu.pc() < seg->exec_end(), "segment", "the segment looked up for the PC does not contain it"); ctx.check(m.memory.execute_segments_count() == prog.cuts.size() + 1, "segment", "another number of execute segments than were made"); } break;
	case 5: { auto saved = Regs::of(m); m.cpu.registers() = loongarch::Registers{}; m.cpu.registers().pc = 0x1234; saved.put(m); } break;
	case 6: if (others.empty()) others.push_back(std::make_unique<Box>(prog.code, b.l, true, prog.cuts)); others.back()->m->memory.evict_execute_segments(); others.pop_back(); break;
	case 7: m.stop(); m.set_max_instructions(r.below(100)); break;
	case 8: { std::vector<u32> c(prog.code); for (auto& w : c) if (r.chance(1, 3)) w = la::nop(); c.back() = la::stop(); Box t(c, b.l); run(t, 50); } break;
	case 9: { Box t(prog.code, b.l, false); start_state(p, t); run(t, 40); } break;
	default: break;
	}
}
inline void expect_same(Ctx& ctx, Box& a, Box& b, bool with_pc, const std::string& cls, const std::string& where, bool& nan_stop, bool nan_choice) {
	Diff d = diff(Regs::of(*a.m), Regs::of(*b.m), with_pc);
	if (!d.any || d.nan_only) { Diff e = diff_mem(a, b); if (e.any) { if (d.any && !e.nan_only) d = e; else if (!d.any) d = e; } }
	if (!d.any) return;
	if (d.nan_only || nan_choice) { nan_stop = true; ctx.count("nan-ambiguous"); return; }
	ctx.fail(cls, where + ": " + d.what);
}
inline std::string end_name(const End& e) { return e.kind == End::NONE ? "paused" : e.kind == End::STOP ? "stopped" : e.kind == End::HALT ? "halted" : fmt("exception %d (%s)", e.type, e.text.c_str()); }

struct Mode { bool budgets = false; bool state = true; bool resume_after_fault = false; const char* cls_state = "engines-differ"; };
// slice ops:  s ENGINE BUDGET ACTION   ENGINE 0 budgeted, 1 single-step, 2 unlimited
inline void run_lockstep_in(const Plan& p, Ctx& ctx, const Mode& mode, bool& nan_choice) {
	install(); clear_shared();
	Prog prog = assemble(p, 0); Layout l = layout_for(p, prog.code.size()); if (l.high) ctx.count("beyond-4GB");
	bool shared = p.get("shared", 1);
	Box M(prog.code, l, shared, prog.cuts, p.get("hostseed") & 1), R(prog.code, l, false);
	start_state(p, M); start_state(p, R);
	Sys sm, sr; sm.data = sr.data = l.data; M.m->set_userdata(&sm); R.m->set_userdata(&sr);
	Ref ref{R}; u64 cnt = p.get("startcount"); const u64 off = cnt; Rng hr(p.get("hostseed", 7)); std::vector<std::unique_ptr<Box>> others;
	bool nan_stop = false; u64 slices = 0; struct Out { bool& o; Ref& r; ~Out() { o = r.nan_choice; } } out{nan_choice, ref};
	for (auto& o : p.ops) {
		if (o.k != "s" || nan_stop) continue;
		u64 eng = o.arg(0) % 4, budget = std::max<u64>(1, o.arg(1)); // a budget of 0 means "stop" to the library
		if (o.arg(2)) between(o.arg(2), M, prog, p, ctx, others, hr);
		const u64 base = ref.executed; End e; u64 first_over = ~0ull; auto& m = *M.m;
		auto step = [&] { e = ref.step(); u64 n = ref.executed - base; if (e.kind == End::NONE && ref.last_transfer_at == ref.executed && n >= budget && first_over == ~0ull) first_over = n; };
		End got; bool ret = false; const char* en = eng == 0 ? "budgeted" : eng == 1 ? "single-step" : eng == 2 ? "unlimited" : "debugging";
		if (eng == 2) { // only for programs that come to an end by themselves
			u64 n = 0; while (n < 3000) { step(); n++; if (e.kind != End::NONE) break; }
			if (e.kind == End::NONE) { // not unlimited after all: bring M to the same place in single steps
				Ref rm{M}; for (u64 k = 0; k < n; k++) rm.step(); cnt = off + ref.executed; m.set_instruction_counter(cnt); ctx.count("unlimited-skipped"); continue; }
			try { m.cpu.simulate_inaccurate(m.cpu.pc()); got.kind = e.kind == End::HALT ? End::HALT : End::STOP; } catch (...) { got = caught(std::current_exception()); }
		} else if (eng == 3) { // the debugging wrapper's loop; what it prints is dropped
			Ref rm{M}; u64 n = 0; while (n < budget && n < 300) { step(); if (e.kind == End::EXC && e.type != 1000) break; n++; if (e.kind != End::NONE) break; }
			if (e.kind == End::STOP || (e.kind == End::EXC && e.type == loongarch::EXECUTION_SPACE_PROTECTION_FAULT)) { for (u64 k = 0; k < budget && got.kind == End::NONE; k++) got = rm.step(); }
			else {
				static bool so = false; if (!so) { so = true; seam::install_stdout(); } loongarch::DebugMachine dm(m); dm.verbose_instructions = n < 30; dm.verbose_registers = n < 10; dm.short_output = n & 1; const u64 before = m.instruction_counter();
				try { dm.simulate(e.kind == End::EXC ? n + 1 : n); got.kind = e.kind == End::HALT ? End::HALT : End::NONE; } catch (...) { got = caught(std::current_exception()); } seam::take(); (void)before;
				if (got.kind != End::EXC) { ctx.check(m.instruction_counter() == n, "count", fmt("a debugging run counted %llu instructions, %llu were to be executed", (long long)m.instruction_counter(), (long long)n)); if (mode.budgets) ctx.check(m.instruction_limit_reached() == (e.kind == End::NONE), "limit-flag", "a debugging run's limit flag"); }
			}
		} else if (eng == 1) {
			Ref rm{M}; u64 n = 0; while (n < budget && n < 3000) { step(); n++; if (e.kind != End::NONE) break; }
			if (e.kind == End::NONE || e.kind == End::HALT) { // the library's own single-step loop
				m.set_instruction_counter(cnt); m.set_max_instructions(cnt + n);
				try { m.cpu.simulate_precise(); got.kind = e.kind; } catch (...) { got = caught(std::current_exception()); }
				if (got.kind != End::EXC) ctx.check(m.instruction_counter() == cnt + n, "count", fmt("single-step run counted %llu, executed %llu", (long long)(m.instruction_counter() - cnt), (long long)n));
			} else { for (u64 k = 0; k < n; k++) { got = rm.step(); if (got.kind != End::NONE) break; } }
		} else {
			try { ret = m.simulate(budget > ~0ull - cnt ? ~0ull : cnt + budget, cnt); got.kind = ret ? End::STOP : End::NONE; } catch (...) { got = caught(std::current_exception()); }
			if (got.kind == End::EXC && got.type != 1000) {
				u64 cap = budget + 140000; for (u64 k = 0; k < cap; k++) { step(); if (e.kind != End::NONE || first_over != ~0ull) break; }
			} else if (got.kind == End::EXC) { for (u64 k = 0; k < budget + 140000; k++) { step(); if (e.kind != End::NONE || first_over != ~0ull) break; }
			} else {
				u64 c1 = m.instruction_counter(); ctx.check(c1 >= cnt, "count", "the instruction count went backwards");
				u64 n = c1 - cnt; ctx.check(n <= 400000, "overrun", fmt("a run with budget %llu executed %llu instructions", (long long)budget, (long long)n));
				for (u64 k = 0; k < n; k++) { step(); if (e.kind != End::NONE) break; }
				ctx.check(ref.executed - base == n, "count", fmt("slice with budget %llu reports %llu instructions but the program ended (%s) after %llu", (long long)budget, (long long)n, end_name(e).c_str(), (long long)(ref.executed - base)));
				if (!ret) {
					ctx.check(e.kind == End::NONE, "count", fmt("budgeted run says its budget of %llu ran out after %llu instructions, but there the program %s", (long long)budget, (long long)n, end_name(e).c_str()));
					ctx.check(n >= budget, "underrun", fmt("budget %llu, executed only %llu", (long long)budget, (long long)n));
				} else ctx.check(e.kind == End::STOP || e.kind == End::HALT, "count", fmt("budgeted run reports a stop after %llu instructions, single-stepping is %s there (pc %llx)", (long long)n, end_name(e).c_str(), (long long)R.m->cpu.pc()));
				if (first_over != ~0ull) ctx.check(n <= first_over, "overrun", fmt("budget %llu: executed %llu, but a jump was taken after %llu", (long long)budget, (long long)n, (long long)first_over));
				if (mode.budgets) {
					ctx.check(m.instruction_limit_reached() == !ret, ret ? "limit-flag-on-stop" : "limit-flag-missing", fmt("budget %llu, executed %llu, run %s, but instruction_limit_reached()=%d", (long long)budget, (long long)n, ret ? "ended by itself" : "ended by its budget", m.instruction_limit_reached()));
					
				}
			}
		}
		if (eng == 2 && mode.budgets && got.kind == End::STOP) ctx.check(!m.instruction_limit_reached(), "limit-flag-on-stop", "an unlimited run that ended by itself leaves instruction_limit_reached() set");
		slices++; u64 n = ref.executed - base; ctx.simtime += n; ctx.count(std::string("slice:") + en);
		ctx.ev("slice", eng, n, (u64)e.kind << 32 | (u32)e.type); ctx.ev("state", hash_regs(Regs::of(*R.m)), sr.log);
		if (got.kind == End::EXC || e.kind == End::EXC) {
			bool same = got.kind == End::EXC && e.kind == End::EXC && got.type == e.type && (!(e.type == loongarch::PROTECTION_FAULT || e.type == 1000) || got.data == e.data);
			if (!same) ctx.fail("exceptions-differ", fmt("%s engine: %s; single-stepping: %s at pc %llx after %llu instructions", en, end_name(got).c_str(), end_name(e).c_str(), (long long)R.m->cpu.pc(), (long long)n));
			bool posted = e.text.find("posted") != std::string::npos;
			const bool exact = e.type >= 1000 || e.type == loongarch::MISALIGNED_INSTRUCTION || e.type == loongarch::UNIMPLEMENTED_SYSCALL || e.type == loongarch::EXECUTION_SPACE_PROTECTION_FAULT; // the place is known exactly
			if (mode.state) expect_same(ctx, M, R, exact, mode.cls_state, fmt("%s engine after %s", en, end_name(e).c_str()), nan_stop, ref.nan_choice);
			ctx.check(sm.log == sr.log, "syscalls-differ", "different system calls were made");
			ctx.count("end:" + (e.type >= 1000 ? std::string(posted ? "posted" : "thrown") : fmt("fault%d", e.type)));
			ctx.state(mix(hash_regs(Regs::of(*R.m)), e.type));
			if (!posted) {
				if (!mode.resume_after_fault) break;
				// the host redirects the guest to another place and goes on
				u64 at = l.code + (hr.below(prog.code.size())) * 4; M.m->cpu.jump(at); R.m->cpu.jump(at); ctx.count("redirected");
			}
			cnt = off + ref.executed; m.set_instruction_counter(cnt);
			continue;
		}
		if (mode.state) expect_same(ctx, M, R, true, mode.cls_state, fmt("%s engine, slice of %llu instructions, pc %llx", en, (long long)n, (long long)R.m->cpu.pc()), nan_stop, ref.nan_choice);
		if (!nan_stop) { ctx.check(sm.log == sr.log && sm.count == sr.count, "syscalls-differ", fmt("%s engine made different system calls", en));
			ctx.check(R.m->cpu.reg(0) == 0, "zero-register", fmt("the zero register holds %llx", (long long)R.m->cpu.reg(0))); }
		if (!nan_stop && mode.state) ref.nan_choice = false; // the two agree on the NaNs chosen so far
		ctx.state(hash_regs(Regs::of(*R.m)));
		cnt = off + ref.executed; m.set_instruction_counter(cnt);
		if (e.kind == End::STOP) { // go on behind the stop if there is anything there
			if (!ref.in_code(R.m->cpu.pc())) break;
		}
	}
	ctx.nontrivial = slices >= 1 && ref.executed >= 3;
}
// Once an operation met two NaNs the engines may legitimately hand on different ones, and from
// there on everything computed from that bit pattern may differ: such a run ends undecided.
inline void run_lockstep(const Plan& p, Ctx& ctx, const Mode& mode) {
	bool nan_choice = false;
	try { run_lockstep_in(p, ctx, mode, nan_choice); }
	catch (const Violation&) { if (!nan_choice) throw; ctx.count("nan-ambiguous"); ctx.nontrivial = 0; }
}
} // namespace eng
