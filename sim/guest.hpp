// Bare guest machines and full-state comparison.
#pragma once
#include "core.hpp"
#include "la_asm.hpp"
#include <libloong/machine.hpp>
#include <libloong/shared_exec_segment.hpp>
#include <libloong/threaded_bytecodes.hpp>

namespace gst {
using namespace sim;
using loongarch::Machine; using loongarch::MachineOptions; using loongarch::MachineException; using loongarch::address_t;

// `high`: stack and data area (even), or everything (odd) lies beyond the 4 GB a 32-bit address could name
struct Layout { u64 code = 0x1000, data = 0x20000, size = 0x40000, stack = 0x3f000; u64 high = 0;
	void raise(u64 how) { if (!how) return; high = 1ull << 32; data += high; size += high; stack += high; if (how & 1) code += high; }
};

struct Box {
	std::shared_ptr<MachineOptions> opts;
	std::unique_ptr<Machine> m;
	Layout l;
	// a machine with `code` decoded and present in guest memory
	// `cuts`: where the code is split into several execute segments, the later ones made first when `backwards`
	u64 end = 0;
	Box(const std::vector<u32>& code, Layout lay = {}, bool shared = true, const std::vector<size_t>& cuts = {}, bool backwards = false) : l(lay) {
		opts = std::make_shared<MachineOptions>();
		opts->use_shared_execute_segments = shared;
		m = std::make_unique<Machine>(std::string_view{}, *opts);
		m->set_options(opts);
		m->memory.allocate_custom_arena(l.size, l.code, l.data);
		m->memory.set_stack_address(l.stack);
		m->memory.copy_into_arena_unsafe(l.code, code.data(), code.size() * 4);
		end = l.code + code.size() * 4;
		m->cpu.init_execute_area(code.data(), l.code, (cuts.empty() ? code.size() : cuts[0]) * 4);
		for (size_t k = 0; k < cuts.size(); k++) { size_t i = backwards ? cuts.size() - 1 - k : k; u64 to = i + 1 < cuts.size() ? cuts[i + 1] : code.size(); m->memory.create_execute_segment(*opts, &code[cuts[i]], l.code + cuts[i] * 4, (to - cuts[i]) * 4, false); }
		m->cpu.jump(l.code);
		m->cpu.reg(3) = l.stack;
	}
	u64 code_end() const { return end; }
	u8* arena() const { return const_cast<u8*>(m->memory.arena_ptr()); }
};
inline void clear_shared() { loongarch::get_shared_execute_segments().clear(); }

struct Regs {
	u64 pc, r[32]; u64 v[32][4]; u32 fcsr; u8 fcc, ll;
	static Regs of(Machine& m) {
		Regs s; memset(&s, 0, sizeof s); auto& g = m.cpu.registers(); s.pc = g.pc;
		for (int i = 0; i < 32; i++) { s.r[i] = g.get(i); memcpy(s.v[i], &g.getvr(i), 32); }
		s.fcsr = g.fcsr(); s.fcc = 0; for (int i = 0; i < 8; i++) s.fcc |= g.cf(i) << i; s.ll = m.cpu.ll_bit();
		return s;
	}
	void put(Machine& m) const {
		auto& g = m.cpu.registers(); g.pc = pc;
		for (int i = 0; i < 32; i++) { g.get(i) = r[i]; memcpy(&g.getvr(i), v[i], 32); }
		g.set_fcsr(fcsr); for (int i = 0; i < 8; i++) g.set_cf(i, (fcc >> i) & 1); m.cpu.set_ll_bit(ll);
	}
};
inline bool is_nan64(u64 v) { return (v & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (v & 0xfffffffffffffull); }
inline bool is_nan32(u32 v) { return (v & 0x7f800000u) == 0x7f800000u && (v & 0x7fffff); }
// Which of several NaN operands a host floating-point operation hands on is up to the
// host compiler; two NaNs of the same width in the same place are therefore equal here.
inline bool same_modulo_nan(u64 a, u64 b) {
	if (a == b) return true;
	if (is_nan64(a) && is_nan64(b)) return true;
	u32 al = u32(a), ah = u32(a >> 32), bl = u32(b), bh = u32(b >> 32);
	return (al == bl || (is_nan32(al) && is_nan32(bl))) && (ah == bh || (is_nan32(ah) && is_nan32(bh)));
}
struct Diff { bool any = false, nan_only = true; std::string what; };
inline Diff diff(const Regs& a, const Regs& b, bool with_pc = true) {
	Diff d; auto put = [&](const std::string& s, bool nan) { if (!d.any) d.what = s; if (!nan && d.nan_only) { d.what = s; } d.any = true; if (!nan) d.nan_only = false; };
	if (with_pc && a.pc != b.pc) put(fmt("pc %llx vs %llx", (long long)a.pc, (long long)b.pc), false);
	for (int i = 0; i < 32; i++) if (a.r[i] != b.r[i]) put(fmt("r%d %llx vs %llx", i, (long long)a.r[i], (long long)b.r[i]), same_modulo_nan(a.r[i], b.r[i]));
	for (int i = 0; i < 32; i++) for (int k = 0; k < 4; k++) if (a.v[i][k] != b.v[i][k]) put(fmt("v%d.%d %llx vs %llx", i, k, (long long)a.v[i][k], (long long)b.v[i][k]), same_modulo_nan(a.v[i][k], b.v[i][k]));
	if (a.fcsr != b.fcsr) put(fmt("fcsr %x vs %x", a.fcsr, b.fcsr), false);
	if (a.fcc != b.fcc) put(fmt("fcc %x vs %x", a.fcc, b.fcc), false);
	if (a.ll != b.ll) put(fmt("ll-bit %d vs %d", a.ll, b.ll), false);
	return d;
}
inline Diff diff_mem(const Box& a, const Box& b) {
	// memory is compared in full; in machines of several GB, what lies below and around the parts in use
	Diff d; std::pair<size_t, size_t> parts[2] = {{0, a.l.size + 64}, {0, 0}}; if (a.l.high) { parts[0].second = 0x100000; parts[1] = {a.l.high - 4096, a.l.size + 64}; }
	for (auto [from, n] : parts) if (memcmp(a.arena() + from, b.arena() + from, n - from))
	for (size_t i = from; i < n; i++) if (a.arena()[i] != b.arena()[i]) {
		size_t q = i & ~size_t(7); u64 x, y; memcpy(&x, a.arena() + q, 8); memcpy(&y, b.arena() + q, 8);
		if (!d.any) d.what = fmt("memory %zx: %llx vs %llx", q, (long long)x, (long long)y);
		d.any = true; if (!same_modulo_nan(x, y)) { d.nan_only = false; d.what = fmt("memory %zx: %llx vs %llx", q, (long long)x, (long long)y); break; }
		i = q + 7;
	}
	return d;
}
inline u64 hash_regs(const Regs& r) { return hash_bytes(&r, sizeof r); }
} // namespace gst
