// Random guest programs run in lockstep against single-stepping (used by P02, P03, P04).
#pragma once
#include "guest.hpp"

namespace eng {
using namespace gst;
using loongarch::CPU; using loongarch::InstrId;

// ---- system calls of the generated programs: all effects depend only on guest state
struct Sys {
	u64 log = 1; u64 count = 0; u64 stop_at = ~0ull, throw_at = ~0ull, post_at = ~0ull; Box* box = nullptr;
	u64 pending = 0; u64 data = 0x20000; // posted exceptions; the data area
};
enum { SYS_LOG = 500, SYS_STOP = 501, SYS_MEM = 502, SYS_REGS = 503, SYS_THROW = 504, SYS_POST = 505, SYS_JUMP = 506 };
struct HostError { u64 id; };
inline Sys& sys_of(Machine& m) { return *m.get_userdata<Sys>(); }
inline void note(Machine& m, u64 n) {
	auto& s = sys_of(m); s.count++; s.log = mix(s.log, n);
	for (int i = 4; i < 12; i++) s.log = mix(s.log, m.cpu.reg(i));
	s.log = mix(s.log, m.cpu.pc());
}
inline void install() {
	static bool done = false; if (done) return; done = true;
	{ MachineOptions o; Machine dummy{std::string_view{}, o}; } // first machine fills the handler table
	Machine::install_syscall_handler(SYS_LOG, [](Machine& m) { note(m, SYS_LOG); m.set_result(mix(m.cpu.reg(4), sys_of(m).count) & 0xffff); });
	Machine::install_syscall_handler(SYS_STOP, [](Machine& m) { note(m, SYS_STOP); m.stop(); });
	Machine::install_syscall_handler(SYS_MEM, [](Machine& m) { note(m, SYS_MEM); u64 v = mix(m.cpu.reg(5), 3); u64 a = sys_of(m).data + (m.cpu.reg(4) & 0x7ff8); m.memory.copy_to_guest(a, &v, 8); });
	Machine::install_syscall_handler(SYS_REGS, [](Machine& m) { note(m, SYS_REGS); for (int i = 12; i < 16; i++) m.cpu.reg(i) = mix(m.cpu.reg(i), i) & 0xfff; });
	Machine::install_syscall_handler(SYS_THROW, [](Machine& m) { note(m, SYS_THROW); throw HostError{mix(m.cpu.reg(4), 9)}; });
	Machine::install_syscall_handler(SYS_POST, [](Machine& m) {
		note(m, SYS_POST); m.set_current_exception(std::make_exception_ptr(HostError{mix(m.cpu.reg(4), 11)})); m.stop(); });
	Machine::install_syscall_handler(SYS_JUMP, [](Machine& m) { // redirect the guest: like a context switch, pc is the last executed instruction
		note(m, SYS_JUMP); m.cpu.reg(12)++; m.cpu.registers().pc = m.cpu.registers().pc + 4; });
	Machine::install_syscall_handler(0, [](Machine& m) { note(m, 0); m.set_result(m.cpu.reg(4) + 1); });
	Machine::set_unknown_syscall_handler([](Machine& m, int n) { note(m, 1000000 + u32(n)); throw MachineException(loongarch::UNIMPLEMENTED_SYSCALL, "unknown", u32(n)); });
	Machine::set_rdtime([](Machine& m) -> u64 { auto& s = sys_of(m); s.count++; return 1000 + s.count * 17; });
}

// ---- instruction table: every pattern of bits 10..31 the decoder accepts, grouped by instruction
struct Table { std::vector<std::vector<u32>> by_id; std::vector<u32> ids_int, ids_mem, ids_all; };
inline bool is_branch(u32 w) { u32 op = w >> 26; return op >= 0x10 && op <= 0x1b; }
inline const Table& table() {
	static Table t; if (!t.by_id.empty()) return t;
	std::map<u32, std::vector<u32>> m;
	for (u32 hi = 0; hi < (1u << 22); hi++) {
		u32 w = hi << 10; if (is_branch(w)) continue;
		// the low bits are operands for nearly all instructions; a few decode on them
		const auto& d = CPU::decode(loongarch::la_instruction{w | 0x1ac});
		u32 id = (u32)d.id; if (d.id == InstrId::INVALID || d.id == InstrId::UNIMPLEMENTED || d.id == InstrId::SYSCALL || d.id == InstrId::BREAK) continue;
		auto& v = m[id];
		// keep a bounded, spread sample of patterns per instruction
		if (v.size() < 4096) v.push_back(w); else if ((hi * 2654435761u >> 20) % 64 == 0) v[(hi * 40503u >> 3) % 4096] = w;
	}
	for (auto& e : m) { t.ids_all.push_back(t.by_id.size()); t.by_id.push_back(e.second); }
	return t;
}
inline u64 edge(Rng& r) {
	static const u64 e[] = {0, 1, ~0ull, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffffull, 0x8000000000000000ull, 2, 31, 32, 63, 64, 0xff, 0x8000, 0xffff, 0x100000000ull,
		0x3ff0000000000000ull, 0xbff0000000000000ull, 0x4000000000000000ull, 0x7ff0000000000000ull, 0x7ff8000000000000ull, 0x0000000000000001ull, 0x3f8000003f800000ull, 0xc0490fdbc0490fdbull, 0x41dfffffffc00000ull, 0x43e0000000000000ull};
	switch (r.below(4)) { case 0: return r.next(); case 1: return r.pick(e); case 2: return r.pick(e) + r.below(5) - 2; default: return r.below(0x10000); }
}
// registers: r12..r20 temporaries; r23..r28 hold data addresses; r29..r31 loop counters
inline u32 rnd_addr_reg(Rng& r) { return r.chance(9, 10) ? 23 + r.below(6) : r.below(32); }
inline u32 rnd_tmp(Rng& r) { return r.chance(1, 24) ? r.below(32) : r.chance(1, 10) ? 0 : r.chance(1, 8) ? 4 + r.below(8) : 12 + r.below(9); }
inline u32 rnd_instr(Rng& r) {
	const auto& t = table(); const auto& v = t.by_id[r.below(t.by_id.size())]; u32 w = r.pick(v);
	u32 rd = rnd_tmp(r), rj, top = w >> 26;
	bool mem = (top >= 0x08 && top <= 0x0e && top != 0x0c && top != 0x0d) || top == 0x0a || top == 0x0b;
	rj = mem ? rnd_addr_reg(r) : rnd_tmp(r);
	w |= rd | rj << 5;
	if (mem && (top == 0x0a || top == 0x0b) && r.chance(1, 2)) w = (w & ~(0xfffu << 10)) | u32(r.below(64) * 8) << 10; // small displacement
	if (mem && top == 0x0e) w = (w & ~(0x1fu << 10)) | (r.chance(4, 5) ? 29 + r.below(3) : r.below(32)) << 10; // index register
	return w;
}
// Data address for a register: mostly inside the data area, sometimes at its edges
inline u64 rnd_addr(Rng& r, const Layout& l) {
	switch (r.below(12)) {
	case 0: return l.size - r.below(72); case 1: return l.data + r.below(64) - 32; case 2: return l.code + r.below(256);
	case 3: return edge(r); default: return l.data + 0x800 + r.below(0x7000); }
}

struct Prog {
	std::vector<u32> code; std::vector<size_t> cuts; // the code from each cut on is an execute segment of its own
};
// Plan ops that define the program and the starting state:
//  i W        one instruction (0 = nop)
//  n K        K nops/simple adds (long straight-line stretch)
//  t K RJ RD T  transfer to program item T: K 0 b, 1 bl, 2 beqz, 3 bnez, 4..9 bcc, 10 bceqz, 11 bcnez, 12 pcaddi+jirl, 13 counted backward loop via RJ
//  y N        load a7 with N, then syscall     z C  break/syscall with code C
//  p          a jump to the next instruction, where another execute segment begins
//  c N        call a function that consists of one system call with its number in the instruction
//  r I V, v I L V, f FCC FCSR, m OFF V   starting state
inline Prog assemble(const Plan& p, u64 base) {
	std::vector<size_t> pos; size_t n = 0;
	for (auto& o : p.ops) {
		size_t len = 0;
		if (o.k == "i" || o.k == "z" || o.k == "p") len = 1; else if (o.k == "n") len = o.arg(0); else if (o.k == "y") len = 2; else if (o.k == "c") len = 3;
		else if (o.k == "t") len = o.arg(0) == 12 ? 2 : o.arg(0) == 13 ? 2 : 1; else continue;
		pos.push_back(n); n += len;
	}
	pos.push_back(n);
	Prog g; size_t item = 0; (void)base;
	for (auto& o : p.ops) {
		auto here = [&] { return g.code.size() * 4; };
		if (o.k == "i") g.code.push_back(o.arg(0) ? u32(o.arg(0)) : la::nop());
		else if (o.k == "p") { g.code.push_back(la::b(4)); g.cuts.push_back(g.code.size()); }
		else if (o.k == "z") g.code.push_back(u32(o.arg(0)));
		else if (o.k == "n") { for (u64 k = 0; k < o.arg(0); k++) g.code.push_back(la::addi_d(12 + k % 8, 12 + (k + 1) % 8, 1)); }
		else if (o.k == "y") { g.code.push_back(la::addi_d(11, 0, i64(o.arg(0)))); g.code.push_back(la::syscall()); }
		else if (o.k == "c") { g.code.push_back(la::bl(8)); g.code.push_back(la::b(8)); g.code.push_back(la::syscall(std::max<u64>(1, o.arg(0) & 1023))); }
		else if (o.k == "t") {
			i64 tgt = i64(pos[o.arg(3) % pos.size()]) * 4; u32 rj = o.arg(1) & 31, rd = o.arg(2) & 31; u64 k = o.arg(0);
			if (k == 12) { g.code.push_back(0x18000000 | ((u32)((tgt - (i64)here()) >> 2) & 0xfffff) << 5 | 19); g.code.push_back(la::jirl(rd, 19, 0)); }
			else if (k == 13) { g.code.push_back(la::addi_d(29 + rj % 3, 29 + rj % 3, -1)); g.code.push_back(la::bcc(3 - 1, 0, 29 + rj % 3, tgt - (i64)here())); }
			else { i64 off = tgt - (i64)here();
				switch (k) { case 0: g.code.push_back(la::b(off)); break; case 1: g.code.push_back(la::bl(off)); break; case 2: g.code.push_back(la::beqz(rj, off)); break; case 3: g.code.push_back(la::bnez(rj, off)); break;
				case 10: g.code.push_back(la::bceqz(rj, off)); break; case 11: g.code.push_back(la::bcnez(rj, off)); break; default: g.code.push_back(la::bcc(k - 4, rj, rd, off)); } }
		} else continue;
		item++;
	}
	g.code.push_back(la::stop());
	return g;
}
inline Layout layout_for(const Plan& p, size_t words = 0) {
	Layout l; if (words * 4 > 0x1e000) { l.data = 0x60000; l.size = 0x80000; l.stack = 0x7f000; } // large programs get a larger code area
	l.raise(p.get("high")); return l;
}
// now and then the guest lives beyond 4 GB
inline void gen_high(Rng& r, Plan& p) { if (r.chance(1, 8)) p.cfg["high"] = r.range(1, 2); }
inline void start_state(const Plan& p, Box& b) {
	for (auto& o : p.ops) {
		if (o.k == "r") { if (o.arg(0) & 31) b.m->cpu.reg(o.arg(0) & 31) = o.arg(1); }
		else if (o.k == "v") { auto& v = b.m->cpu.registers().getvr(o.arg(0) & 31); v.du[o.arg(1) & 3] = o.arg(2); }
		else if (o.k == "f") { for (int i = 0; i < 8; i++) b.m->cpu.registers().set_cf(i, (o.arg(0) >> i) & 1); b.m->cpu.registers().set_fcsr(o.arg(1)); }
		else if (o.k == "m") { u64 a = b.l.data + (o.arg(0) & 0x7ff8); u64 v = o.arg(1); memcpy(b.arena() + a, &v, 8); }
	}
}
struct GenOpts { int items_lo = 4, items_hi = 40; bool longblocks = false; bool syscalls = true; u32 instr_pct = 72; bool odd = true; };
inline void gen_program(Rng& r, Plan& p, const GenOpts& g, const Layout& l = {}) {
	for (u32 i = 1; i < 32; i++) { u64 v = (i >= 23 && i <= 28) ? rnd_addr(r, l) : i >= 29 ? r.range(0, 6) : i == 3 ? l.stack - r.below(256) * 8 : edge(r); if (r.chance(9, 10)) p.add("r", {i, v}); }
	for (u32 i = 0; i < 32; i++) if (r.chance(1, 2)) for (u32 k = 0; k < 4; k++) p.add("v", {i, k, edge(r)});
	p.add("f", {r.below(256), r.chance(1, 4) ? r.below(4) << 8 : 0});
	for (int k = r.below(40); k > 0; k--) p.add("m", {r.below(0x1000) * 8, edge(r)});
	int n = r.range(g.items_lo, g.items_hi); const bool split = r.chance(1, 4);
	for (int i = 0; i < n; i++) {
		u32 c = r.below(100); if (split && r.chance(1, 6)) p.add("p", {});
		if (c < g.instr_pct) p.add("i", {rnd_instr(r)});
		else if (c < g.instr_pct + 16) { u64 k = r.below(14); // transfers, more often forward
			u64 tgt = r.chance(2, 3) ? std::min<u64>(n, i + 1 + r.below(6)) : r.below(n + 1); if (k == 13) tgt = i > 0 ? i - r.below(std::min(i, 5) + 1) : 0;
			p.add("t", {k, rnd_tmp(r), k == 12 ? r.below(2) : rnd_tmp(r), tgt}); }
		else if (c < g.instr_pct + 24 && g.syscalls) p.add(r.chance(1, 4) ? "c" : "y", {(r.chance(3, 5) ? SYS_LOG : SYS_LOG + r.below(7))});
		else if (c < g.instr_pct + 26 && g.syscalls && g.odd) p.add("z", {r.chance(1, 2) ? la::brk_(r.chance(1, 2) ? 0 : r.below(32)) : r.chance(1, 4) ? la::syscall(SYS_LOG + r.below(7)) : r.chance(1, 2) ? la::stop() : la::ori(0, 0, r.below(4))});
		else if (g.longblocks && r.chance(1, 2)) p.add("n", {r.chance(1, 3) ? r.range(240, 270) : r.chance(1, 12) ? r.range(16000, 17500) : r.range(1, 600)});
		else p.add("i", {la::addi_d(12 + r.below(8), 12 + r.below(8), r.below(100))});
	}
}

// ---- lockstep reference: single-step the reference machine
struct End { enum Kind { NONE, STOP, HALT, EXC } kind = NONE; int type = 0; u64 data = 0; std::string text; };
inline End caught(std::exception_ptr e) {
	End r; r.kind = End::EXC;
	try { std::rethrow_exception(e); }
	catch (const MachineException& x) { r.type = x.type(); r.data = x.data(); r.text = x.what(); }
	catch (const HostError& x) { r.type = 1000; r.data = x.id; r.text = "host error"; }
	catch (const std::exception& x) { r.type = 1001; r.text = x.what(); }
	return r;
}
struct Ref {
	Box& b; u64 executed = 0; u64 last_transfer_at = 0; // count after the most recent taken transfer
	// Set once an addition, multiplication or multiply-add that has its own fast-engine code met
	// two NaNs: which one the host hands on is up to its compiler, so bits derived from it are not compared.
	bool nan_choice = false;
	static bool two_nan_op(const loongarch::Registers& g, u32 w) {
		auto id = CPU::decode(loongarch::la_instruction{w}).id; bool four = id == InstrId::FMADD_D || id == InstrId::VFMADD_D;
		if (!four && id != InstrId::FADD_D && id != InstrId::FMUL_D && id != InstrId::VFADD_D) return false;
		for (int k = 0; k < 2; k++) {
			u64 j = g.getvr(w >> 5 & 31).du[k], kk = g.getvr(w >> 10 & 31).du[k], a = g.getvr(w >> 15 & 31).du[k];
			int n = is_nan64(j) + is_nan64(kk) + (four && is_nan64(a));
			if (n >= 2 || (four && is_nan64(a))) return true; // a NaN addend may meet the NaN of an invalid product
		}
		return false;
	}
	bool in_code(u64 pc) const { return pc >= b.l.code && pc < b.code_end() && ((pc & 3) || pc + 4 <= b.code_end()); }
	// One instruction. A posted exception is delivered when the handler also stopped the machine.
	End step() {
		End e; auto& m = *b.m; u64 pc = m.cpu.pc();
		if (!in_code(pc)) { e.kind = End::EXC; e.type = loongarch::EXECUTION_SPACE_PROTECTION_FAULT; e.data = pc; return e; }
		u32 w = 0; if (!(pc & 3)) memcpy(&w, b.arena() + pc, 4);
		if (w == la::stop()) { m.cpu.registers().pc = pc + 4; executed++; e.kind = End::STOP; return e; }
		if (!nan_choice && w && two_nan_op(m.cpu.registers(), w)) nan_choice = true;
		m.set_max_instructions(~0ull);
		try { m.cpu.step_one(false); }
		catch (...) { return caught(std::current_exception()); }
		executed++;
		if (m.cpu.pc() != pc + 4) last_transfer_at = executed;
		if (m.has_current_exception()) { auto x = m.current_exception(); m.clear_current_exception(); e = caught(x); e.text += " (posted)"; return e; }
		if (m.max_instructions() == 0) { e.kind = End::HALT; }
		return e;
	}
};
} // namespace eng
