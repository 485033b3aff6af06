// Host-scripted guests: the guest program is a handful of identical code sites; at each one it
// asks the simulator which system call to make next, makes it, and moves on to the next site.
// So the simulator decides every step of every guest thread, and sees its full state at each.
#pragma once
#include "guest.hpp"
#include "interpose.hpp"
namespace scr {
using namespace gst;
enum { HOOK = 508, SITES = 5, SITE_LEN = 6 };
struct Script {
	std::unique_ptr<Box> box; Machine* m = nullptr; Layout l;
	std::function<void()> hook;        // called at every hook, with the asking thread's registers in the machine
	std::exception_ptr failure;        // a violation found inside the hook
	bool done = false; u64 slices = 0, hooks = 0;
	u64 site(u64 k) const { return l.code + (k % SITES) * SITE_LEN * 4; }
	static std::vector<u32> code() {
		std::vector<u32> c;
		for (int k = 0; k < SITES; k++) { c.push_back(la::addi_d(20, 20, 1)); c.push_back(la::addi_d(11, 0, HOOK)); c.push_back(la::syscall()); c.push_back(la::syscall()); c.push_back(la::addi_d(21, 21, 1)); c.push_back(la::jirl(0, 22, 0)); }
		return c;
	}
	static void install() {
		{ static bool once = false; if (!once) { once = true; MachineOptions o; Machine dummy{std::string_view{}, o}; Machine::setup_linux_syscalls(); dummy.setup_posix_threads(); } }
		Machine::install_syscall_handler(HOOK, [](Machine& mm) { auto& s = *mm.get_userdata<Script>(); s.hooks++;
			try { s.hook(); } catch (...) { s.failure = std::current_exception(); s.done = true; mm.stop(); } });
	}
	explicit Script(Layout lay, const std::vector<u32>& prog = code()) : l(lay) {
		clear_shared(); install(); box = std::make_unique<Box>(prog, l); m = box->m.get(); m->set_userdata(this);
		m->cpu.reg(22) = site(0); m->cpu.jump(site(0));
	}
	u8* mem() const { return box->arena(); }
	// Run until the script says it is done. Budgets and engines follow the seed. Guest faults go to `fault`, which redirects or ends the run.
	void run(u64 seed, u32 mode, const std::function<void(std::exception_ptr)>& fault, u64 max_slices = 200000) {
		Rng r(seed ^ 0x51ce);
		while (true) {
			if (++slices > max_slices) throw Violation{"no-progress", "the guest did not finish within the bound on slices"};
			m->cpu.reg(0) = 0;
			try {
				switch (mode % 4) {
				case 0: m->simulate(~0ull, 0); break;
				case 1: m->simulate(r.range(1, 40), 0); break;
				case 2: m->cpu.simulate_inaccurate(m->cpu.pc()); break;
				default: switch (r.below(3)) { case 0: m->simulate(r.range(1, 9), 0); break; case 1: m->simulate(r.range(1, 300), 0); break; default: m->set_instruction_counter(0); m->set_max_instructions(r.range(1, 20)); m->cpu.simulate_precise(); } }
			} catch (const Violation&) { throw; }
			catch (...) { if (failure) std::rethrow_exception(failure); fault(std::current_exception()); if (done) return; continue; }
			if (failure) std::rethrow_exception(failure);
			if (done && m->max_instructions() == 0) return;
			if (mode % 4 == 0 || mode % 4 == 2 || m->max_instructions() == 0) { throw Violation{"stopped-early", "the guest stopped although nothing asked it to"}; }
		}
	}
};
} // namespace scr
