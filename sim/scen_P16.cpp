#include "lockstep.hpp"
using namespace eng;
static Plan gen(Rng& r, int) {
	Plan p; GenOpts g; g.items_lo = 3; g.items_hi = r.chance(1, 4) ? 50 : 18; g.instr_pct = r.chance(1, 2) ? 50 : 66; g.longblocks = r.chance(1, 6); gen_high(r, p); gen_program(r, p, g, layout_for(p));
	// more faults: handlers that throw or post, wild accesses, undefined instructions
	for (size_t i = 0; i < p.ops.size(); i++) { auto& o = p.ops[i];
		if (o.k == "c" && r.chance(1, 2)) o.a[0] = r.chance(1, 2) ? SYS_THROW : r.chance(4, 5) ? SYS_POST : 700 + r.below(324); if (o.k == "y" && r.chance(1, 2)) o.a[0] = r.chance(1, 2) ? SYS_THROW : r.chance(4, 5) ? SYS_POST : 3000 + r.below(50);
		if (o.k == "i" && r.chance(1, 16)) o.a[0] = r.chance(1, 2) ? r.next() & 0xffffffff : 0xffffffffu; }
	p.cfg["shared"] = r.below(2); p.cfg["hostseed"] = r.next() & 0xffff;
	u32 style = r.below(4); int n = r.range(2, 16);
	for (int i = 0; i < n; i++) p.add("s", {style == 0 ? 0 : style == 1 ? 2 : r.below(4), r.chance(1, 3) ? r.range(1, 8) : r.chance(1, 6) ? r.range(100, 2000) : r.range(1, 60), r.chance(1, 6) ? r.below(10) : 0});
	return p;
}
static Register r1({"P16", "faults", "register file contents at pause points", "random programs full of wild accesses, undefined instructions, wild jumps and system calls whose handlers throw or post exceptions, run in slices by all engines (uncounted, budgeted, single-step, debugging); after every exception its kind and data and all registers and memory are compared with single-stepping, then the machine is redirected to a random place (or continued, for posted ones) and the run goes on",
	gen, [](const Plan& p, Ctx& c) { Mode m; m.resume_after_fault = true; m.cls_state = "state-after-fault"; run_lockstep(p, c, m); }, 500000, 5000000, {"CPU engines", "decoder cache", "exception delivery", "guest memory checks"}, {"system calls are deterministic stand-ins that log, throw or post"}});
