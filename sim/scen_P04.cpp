#include "lockstep.hpp"
using namespace eng;
static Plan gen(Rng& r, int) {
	Plan p; GenOpts g; g.items_hi = r.chance(1, 4) ? 60 : 25; g.instr_pct = r.chance(1, 2) ? 72 : 86; if (r.chance(1, 5)) g.longblocks = true; gen_high(r, p); gen_program(r, p, g, layout_for(p));
	p.cfg["shared"] = r.below(2); p.cfg["hostseed"] = r.next() & 0xffff;
	u32 style = r.below(4); int n = r.range(1, 12);
	for (int i = 0; i < n; i++) p.add("s", {style == 0 ? 0 : style == 1 ? 2 : r.below(4), r.chance(1, 3) ? r.range(1, 8) : r.chance(1, 4) ? r.range(100, 2000) : r.range(1, 60), 0});
	return p;
}
static Register r1({"P04", "lockstep", "register file contents at pause points", "random programs over every instruction pattern the decoder accepts, random operands and starting state, run by the budgeted, unlimited and single-step engines in random alternation, compared in full with single-stepping at every pause",
	gen, [](const Plan& p, Ctx& c) { Mode m; run_lockstep(p, c, m); }, 600000, 6000000, {"CPU engines", "decoder cache and rewriter", "guest memory"}, {"system calls are deterministic stand-ins"}});
