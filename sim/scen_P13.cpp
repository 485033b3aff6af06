#include "script.hpp"
#include <ctime>
using namespace scr;
// ops: g ID KIND  clock_gettime (KIND 0 buffer in memory, 1 no buffer, 2 runs off the end, 3 wild, 4 unaligned, 5 last bytes of memory)
//      t KIND     gettimeofday  T KIND  the same with a time zone buffer
//      r R1 R2    two timer instructions in a row
//      j ID NS    clock ID jumps to NS      s NS   every reading advances all clocks by NS (stalled when 0)
//      x ID  clock ID becomes unreadable    h ID   readable again      X / H the same for the time of day
//      c / C  host installs / removes its own timer callback
namespace {
const u64 interesting[] = {0, 1, 999999999ull, 1000000000ull, 1700000000123456789ull, 0x7fffffffull * 1000000000ull, 0x80000000ull * 1000000000ull, 0x7fffffffffffffffull, u64(-1), u64(-1000000000ll), u64(-1500000001ll), 4294967296000000001ull, 999ull, 1000ull};
const u64 wild[] = {12, 16, 255, u64(-1), u64(-6), 1ull << 32, (1ull << 32) + 1, 0x80000000ull, ~0ull - 3}, steps[] = {0, 1, 999, 1000000000, u64(-1), u64(-1000000001ll)};
Plan gen(Rng& r, int) {
	Plan p; p.cfg["mode"] = r.below(4); p.cfg["seed"] = r.next(); if (r.chance(1, 10)) p.cfg["high"] = r.range(1, 2); u64 n = r.range(4, 40); bool faults = r.chance(1, 2);
	auto id = [&]() -> u64 { switch (r.below(8)) { case 0: return r.pick(wild); case 1: return r.below(12); default: return r.below(8); } };
	for (int i = 0; i < 12; i++) { u64 v = r.chance(1, 3) ? r.pick(interesting) : 1600000000000000000ull + r.below(1ull << 59); p.add("j", {u64(i), v}); }
	for (u64 i = 0; i < n; i++) {
		u64 c = r.below(100);
		if (c < 45) p.add("g", {id(), r.chance(1, 3) ? r.below(6) : 0}); else if (c < 60) p.add(r.chance(1, 3) ? "T" : "t", {r.chance(1, 3) ? r.below(6) : 0});
		else if (c < 72) p.add("r", {r.below(3), r.below(3)}); else if (c < 80) p.add("j", {r.below(12), r.chance(1, 2) ? r.pick(interesting) : r.next() >> 2});
		else if (c < 88) p.add("s", {r.pick(steps)});
		else if (c < 92 && faults) p.add("x", {r.below(12)}); else if (c < 94) p.add("h", {r.below(12)}); else if (c < 96 && faults) p.add("X"); else if (c < 97) p.add("H"); else p.add(r.chance(1, 2) ? "c" : "C");
	}
	return p;
}
u64 g_cb; u64 g_cb_calls;
const int rds[] = {12, 13, 16};
struct Guard { ~Guard() { seam::clock() = {}; Machine::set_rdtime(nullptr); } };
void exec(const Plan& p, Ctx& ctx) {
	Layout l; l.size = 0x20000; l.code = 0x1000; l.data = 0x4000; l.stack = 0x1f000; l.raise(p.get("high"));
	// behind the script's own sites: pairs of timer instructions, then back
	std::vector<u32> code = Script::code(); const u64 tsite = l.code + code.size() * 4;
	for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { code.push_back(0x00006800 | rds[a]); code.push_back(0x00006800 | rds[b] | 5 << 5); code.push_back(la::jirl(0, 23, 0)); code.push_back(la::nop()); }
	Guard guard; Script sc(l, code); auto& m = *sc.m; Machine::setup_linux_syscalls(); Machine::set_rdtime(nullptr); u8* mem = sc.mem(); Rng rr(p.get("seed") | 1);
	auto& ck = seam::clock(); ck = {}; for (int i = 0; i < 12; i++) ck.now[i] = i; ck.on = true;
	const u64 window = l.high ? l.high - 0x2000 : 0; auto where = [&](u64 i) { return i < 0x2000 ? i : window + i; }; /* the parts of memory that are compared */ std::vector<u8> before; size_t pos = 0; std::string last = "start"; struct E { char k = 0; u64 id = 0, buf = 0; size_t log = 0; int r1 = 0, r2 = 0; bool valid = true; } e; bool may_throw = false, cb = false; u64 cbs = 0;
	auto ns_of = [](i64 v, i64& s, i64& n) { s = v / 1000000000; n = v % 1000000000; if (n < 0) { n += 1000000000; s--; } };
	auto untouched = [&](const char* what) { if (memcmp(before.data(), mem, 0x2000) || memcmp(before.data() + 0x2000, mem + where(0x2000), before.size() - 0x2000)) for (u64 i = 0; i < before.size(); i++) if (mem[where(i)] != before[i]) ctx.fail("buffer-touched", fmt("%s: guest memory at %zx changed", what, size_t(where(i)))); };
	auto judge = [&] {
		if (!e.k) return; i64 res = m.cpu.reg(4);
		if (e.k == 'g' || e.k == 't') {
			ctx.check(ck.log.size() > e.log, "no-reading", fmt("%s returned %lld without reading a host clock", last.c_str(), (long long)res));
			auto rd = ck.log.back(); ctx.ev("time", res, rd.ns, rd.failed);
			if (e.k == 'g') ctx.check(rd.id == i32(e.id), "wrong-clock", fmt("the guest asked for clock %d, the host read %d", i32(e.id), rd.id)); else ctx.check(rd.id == -1 || rd.id == CLOCK_REALTIME, "wrong-clock", "time of day from another clock");
			if (rd.failed) { ctx.check(res < 0 && res >= -4095, "error-hidden", fmt("the host clock could not be read, the guest got %lld", (long long)res)); untouched("after an unreadable clock"); ctx.count("fault:unreadable-clock"); }
			else if (!e.valid) { ctx.check(res < 0 && res >= -4095, "bad-buffer", fmt("no room for the time, yet %lld", (long long)res)); untouched("after a bad buffer"); }
			else { ctx.check(res == 0, "error-made-up", fmt("the host clock was read, the guest got %lld", (long long)res));
				if (e.buf) { i64 s, n, gs, gn; ns_of(rd.ns, s, n); if (e.k == 't') n /= 1000; memcpy(&gs, mem + e.buf, 8); memcpy(&gn, mem + e.buf + 8, 8);
					ctx.check(gs == s && gn == n, "wrong-time", fmt("%s: guest has %lld s %lld, host reported %lld s %lld", last.c_str(), (long long)gs, (long long)gn, (long long)s, (long long)n)); memcpy(before.data() + (e.buf - window), mem + e.buf, 16); ctx.nontrivial++; }
				untouched("outside the buffer"); }
		} else if (e.k == 'r') {
			std::vector<u64> seen; if (cb) { ctx.check(g_cb_calls - cbs == 2, "no-reading", "the host's timer callback was not asked once per timer instruction"); seen = {g_cb - 7, g_cb}; }
			else { ctx.check(ck.log.size() - e.log == 2, "no-reading", fmt("%zu host clock readings for two timer instructions", ck.log.size() - e.log)); for (size_t i = e.log; i < ck.log.size(); i++) seen.push_back(ck.log[i].ns); }
			u64 v2 = m.cpu.reg(e.r2), v1 = m.cpu.reg(e.r1); ctx.ev("timer", v1, v2);
			ctx.check(v2 == seen[1], "wrong-time", fmt("timer instruction gave %llx, the host reported %llx", (long long)v2, (long long)seen[1])); if (e.r1 != e.r2) ctx.check(v1 == seen[0], "wrong-time", fmt("first timer instruction gave %llx, the host reported %llx", (long long)v1, (long long)seen[0])); untouched("by a timer instruction"); ctx.nontrivial++;
		}
		e = E{};
	};
	sc.hook = [&] {
		judge(); may_throw = false; ctx.state(mix(m.cpu.reg(4), pos * 131 + ck.fail.size() * 7 + ck.step));
		if (pos >= p.ops.size()) { sc.done = true; m.stop(); return; }
		auto& o = p.ops[pos++]; last = o.k; for (int i = 4; i < 20; i++) m.cpu.reg(i) = rr.next(); m.cpu.reg(22) = m.cpu.reg(23) = sc.site(rr.below(SITES));
		for (int i = 0; i < 64; i++) mem[l.data + rr.below(l.stack - l.data)] = rr.next(); before.assign(mem, mem + 0x2000); before.insert(before.end(), mem + window + 0x2000, mem + l.size);
		auto buffer = [&](u64 kind) { u64 at; switch (kind) { case 1: return 0ull; case 2: at = l.size - 1 - rr.below(15); e.valid = false; break; case 3: at = rr.chance(1, 3) ? rr.range(1, 0xff0) : rr.chance(1, 2) ? ~0ull - rr.below(16) : rr.next() | 1ull << 48; e.valid = false; break; case 5: at = l.size - 16; break; case 4: at = l.data + rr.below(l.size - l.data - 16); break; default: at = l.data + 8 * rr.below((l.size - l.data - 16) / 8); } if (!e.valid) { may_throw = true; ctx.count("bad-buffer"); } return (unsigned long long)at; };
		m.cpu.reg(11) = 178; e = E{}; e.log = ck.log.size();
		if (o.k == "g") { e.k = 'g'; e.id = o.arg(0); e.buf = buffer(o.arg(1)); m.cpu.reg(11) = 113; m.cpu.reg(4) = e.id; m.cpu.reg(5) = e.buf; ctx.count("clock-query"); }
		else if (o.k == "t" || o.k == "T") { e.k = 't'; e.buf = buffer(o.arg(0)); m.cpu.reg(11) = 169; m.cpu.reg(4) = e.buf; m.cpu.reg(5) = 0; if (o.k == "T") { m.cpu.reg(5) = l.code + 0x800; } if (!e.buf) e.k = 0; ctx.count("time-of-day"); }
		else if (o.k == "r") { if (ck.fail.count(CLOCK_REALTIME) && !cb) return; e.k = 'r'; u64 a = o.arg(0) % 3, b = o.arg(1) % 3; e.r1 = rds[a]; e.r2 = rds[b]; cbs = g_cb_calls; m.cpu.reg(22) = tsite + (a * 3 + b) * 16; ctx.count("timer-instruction"); }
		else if (o.k == "j") { ck.now[o.arg(0) % 12] = o.arg(1); ctx.count("fault:clock-jump"); }
		else if (o.k == "s") { ck.step = o.arg(0); ctx.count(ck.step ? "fault:clock-skew" : "fault:clock-stall"); }
		else if (o.k == "x") ck.fail.insert(o.arg(0) % 12); else if (o.k == "h") ck.fail.erase(o.arg(0) % 12); else if (o.k == "X") ck.tod_fail = true; else if (o.k == "H") ck.tod_fail = false;
		else if (o.k == "c") { cb = true; g_cb = rr.next(); Machine::set_rdtime([](Machine&) -> u64 { g_cb_calls++; return g_cb += 7; }); } else if (o.k == "C") { cb = false; Machine::set_rdtime(nullptr); }
	};
	sc.run(p.get("seed"), p.get("mode"), [&](std::exception_ptr x) {
		try { std::rethrow_exception(x); } catch (const MachineException& ex) {
			ctx.ev("exception", ex.type(), ex.data()); ctx.check(may_throw, "unexpected-exception", fmt("%s (data %llx) after %s", ex.what(), (long long)ex.data(), last.c_str())); untouched("after an exception"); ctx.count("exceptions"); may_throw = false; e = E{}; m.cpu.registers().pc = sc.site(1); m.cpu.reg(22) = sc.site(2); } });
	ctx.count("host-clock-readings", ck.calls); ctx.simtime += ck.calls;
}
Register r1({"P13", "clock", "kind of query with the value of the clock and the number of unreadable clocks", "host-scripted guests query every clock id (known, unknown, negative, beyond 32 bits), the time of day and the timer instruction under random budgets and all engines, with buffers inside, at and beyond the end of memory, while the simulated host clocks jump, stall, run backwards, pass 2^31 seconds and become unreadable; each value is compared with what the host clock reported during that very call, and all of guest memory with its state before",
	gen, exec, 300000, 5000000, {"time system calls", "timer instruction", "all three engines"}, {"host clocks", "the guest's own code, scripted by the simulator"}});
} // namespace
