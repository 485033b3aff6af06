#include "hostcalls.hpp"
#include "script.hpp"
#include <libloong/posix/signals.hpp>
#include <libloong/posix/threads.hpp>
using namespace scr;
using loongarch::ExceptionType;
// ---------------------------------------------------------------- the library's own handlers are confined
// ops: s NR PTRS A0..A5   system call NR; arguments whose bit is set in PTRS are addresses (moved in machines beyond 4 GB)
//      i NR PTRS A0..A5   the same with the number in the instruction     b  break
//      f V                fills the data area from V
//      e NR               exit: the guest must not run on
namespace {
const u32 linux_nr[] = {64, 66, 63, 56, 57, 80, 29, 25, 78, 291, 73, 214, 226, 233, 96, 99, 98, 178, 123, 172, 174, 175, 176, 177, 261, 113, 169, 101, 130, 131, 132, 134, 135, 278, 167};
const u32 other_nr[] = {0, 1, 17, 35, 48, 49, 61, 62, 79, 129, 160, 179, 198, 203, 220 - 1, 221, 260, 276, 281, 293, 424, 434, 511, 512, 700, 1023, 1024, 65535, 0x7fffffffu, 0x80000000u, 0xffffffffu};
const i64 imms[] = {0, 1, 2, 3, 4, -1, -2, 8, 16, 17, 40, 64, 65, 128, 255, 256, 0x7fffffff, 0x80000000ll, 0x100000000ll, 0x100000001ll, 1 << 20, -4096, INT64_MIN, INT64_MAX};
u64 rnd_ptr(Rng& r) { switch (r.below(14)) { case 0: return 0; case 1: return 0x20000 - r.range(1, 160); case 2: return 0x4000 - r.below(64); case 3: return r.range(0x1000, 0x3fff); case 4: return r.below(0x1000); case 5: return ~0ull - r.below(300); case 6: return 1ull << r.range(20, 63); case 7: return 0x20000 + r.below(128); default: return r.range(0x4000, 0x1b000) & (r.chance(1, 2) ? ~7ull : ~0ull); } }
u64 rnd_val(Rng& r) { switch (r.below(4)) { case 0: return u64(r.pick(imms)); case 1: return r.next(); default: return r.below(200); } }
// which arguments of a call are addresses
u32 ptr_mask(u32 nr) { switch (nr) { case 64: case 66: case 63: case 80: case 56: case 113: case 261: return nr == 261 ? 12 : 2; case 78: return 6; case 291: return 26; case 73: return 5; case 101: case 132: return 3; case 134: return 6; case 135: return 6; case 123: return 4; case 98: return 9; case 169: case 278: case 96: case 99: case 226: case 233: case 214: return 1; default: return 0; } }
Plan gen(Rng& r, int tier) {
	Plan p; p.cfg["mode"] = r.below(4); p.cfg["seed"] = r.next(); p.cfg["threads"] = r.chance(1, 3); p.cfg["unknown"] = r.below(2); if (r.chance(1, 4)) p.cfg["verbose"] = 1; if (r.chance(1, 12)) p.cfg["high"] = 2; int n = r.range(3, tier ? 120 : 50);
	for (int i = 0; i < n; i++) { u32 c = r.below(100);
		if (c < 4) { p.add("f", {r.next()}); continue; } if (c < 6) { p.add("b"); continue; } if (i + 1 == n && r.chance(1, 3)) { p.add("e", {93 + r.below(2)}); continue; }
		u32 nr = r.chance(1, 10) ? r.pick(other_nr) : r.pick(linux_nr); u32 pm = r.chance(1, 30) ? r.below(64) : ptr_mask(nr); u64 a[6]; for (int k = 0; k < 6; k++) a[k] = (pm >> k & 1) ? rnd_ptr(r) : rnd_val(r);
		switch (nr) { case 64: case 66: case 63: case 57: case 80: case 29: case 25: if (r.chance(2, 3)) a[0] = r.below(4); break; case 130: a[1] = r.chance(1, 3) ? 6 : r.below(70) - 2; break; case 131: a[1] = r.chance(2, 3) ? 0 : r.below(3); a[2] = r.chance(1, 3) ? 6 : r.below(70) - 2; break; case 134: a[0] = r.chance(3, 4) ? r.range(1, 8) : a[0]; break; case 98: a[1] = r.chance(3, 4) ? (r.below(11) | (r.chance(1, 2) ? 128 : 0)) : a[1]; break; case 78: if (r.chance(2, 3)) a[1] = 0x5000; if (r.chance(1, 2)) a[3] = r.below(20); break; case 113: a[0] = r.chance(3, 4) ? r.below(8) : a[0]; break; case 261: a[1] = r.below(18); break; case 73: if (r.chance(1, 2)) a[1] = r.below(6); break; case 123: if (r.chance(1, 2)) a[1] = r.pick({u64(8), u64(128), u64(7), u64(16), u64(0)}); break; }
		p.add(nr && nr < 1024 && r.chance(1, 8) ? "i" : "s", {nr, pm, a[0], a[1], a[2], a[3], a[4], a[5]}); }
	return p;
}
struct Span { u64 at, n; };
u64 g_unknown, g_unknown_nr; int g_unknown_do;
void unknown(Machine& m, int n) { g_unknown++; g_unknown_nr = u32(n); if (g_unknown_do) throw MachineException(loongarch::UNIMPLEMENTED_SYSCALL, "not here", n); m.set_result(-38); }
// behind the script's own sites: one site for each number that fits into the instruction
struct Code { std::vector<u32> code; std::map<u32, size_t> imm; size_t brk = 0; };
const Code& program() { static Code c = [] { Code c; c.code = Script::code(); auto add = [&](u32 n) { if (!n || n > 1023 || c.imm.count(n)) return; c.imm[n] = c.code.size(); c.code.push_back(la::syscall(n)); c.code.push_back(la::jirl(0, 23, 0)); }; for (u32 n : linux_nr) add(n); for (u32 n : other_nr) add(n); for (u32 n = 470; n < 512; n++) add(n); add(124); add(422); c.brk = c.code.size(); c.code.push_back(la::brk_(0)); c.code.push_back(la::jirl(0, 23, 0)); c.code.push_back(la::nop()); return c; }(); return c; }
Machine::syscall_t* g_stub; // what stands in the place of handlers that were never installed
void reset_handlers() { // as in a process where nothing but the handlers installed before the first machine are
	static std::vector<Machine::syscall_t*> all; static Machine::unknown_syscall_t* unk; auto** t = Machine::get_syscall_handlers();
	if (all.empty()) { MachineOptions o; Machine dummy{std::string_view{}, o}; all.assign(t, t + LA_SYSCALLS_MAX); unk = Machine::get_unknown_syscall_handler(); g_stub = t[0]; }
	for (u32 i = 0; i < LA_SYSCALLS_MAX; i++) if (t[i] != all[i]) Machine::install_syscall_handler(i, all[i]); Machine::set_unknown_syscall_handler(unk); }
// One pass in a host that answers as `world` says; returns a digest of everything the guest saw
u64 pass(const Plan& p, Ctx& ctx, int world) {
	reset_handlers(); Layout l; l.size = 0x20000; l.code = 0x1000; l.data = 0x4000; l.stack = 0x1f000; l.raise(p.get("high")); auto& prog = program(); seam::install_stdout(0, 0);
	struct Guard { ~Guard() { seam::clock() = {}; hostcalls::armed = hostcalls::diag = false; seam::install_stdout(1, 4096); reset_handlers(); } } guard;
	Script sc(l, prog.code); auto& m = *sc.m; const bool threads = p.get("threads"); reset_handlers(); Script::install(); Machine::setup_linux_syscalls(); for (u32 n : linux_nr) ctx.check(Machine::get_syscall_handlers()[n] != g_stub, "answer", fmt("nothing answers system call %u", n)); if (threads) { m.setup_posix_threads(); for (u32 n : {220u, 435u}) Machine::install_syscall_handler(n, g_stub); }
	const bool verbose = p.get("verbose"); if (verbose) { auto o = std::make_shared<MachineOptions>(); o->verbose_syscalls = true; m.set_options(o); hostcalls::diag = true; if (!world) ctx.count("verbose-runs"); }
	const bool own_unknown = p.get("unknown"); g_unknown = 0; g_unknown_do = p.get("seed") & 1; if (own_unknown) Machine::set_unknown_syscall_handler(unknown); auto known = [&](u32 n) { return n < LA_SYSCALLS_MAX && Machine::get_syscall_handlers()[n] != g_stub; };
	auto& ck = seam::clock(); ck = {}; for (int i = 0; i < 12; i++) ck.now[i] = 1700000000123456789ll + i; ck.on = true; errno = world ? EINTR : 0; hostcalls::answer = world; hostcalls::ncalls = 0;
	u8* mem = sc.mem(); Rng rr(p.get("seed") | 1); const u64 shift = l.high; u64 digest = 1; auto fill = [&](u64 v) { Rng f(v); for (u64 i = 0x4000; i < 0x1c000; i += 8) { u64 x = f.chance(1, 4) ? f.next() : f.below(300); memcpy(mem + shift + i, &x, 8); } memcpy(mem + shift + 0x5000, "/proc/self/exe", 15); };
	fill(p.get("seed"));
	std::vector<u8> lo(mem, mem + 0x4000), hi(mem + shift + 0x4000, mem + shift + 0x20000 + 64); // what memory must still hold: the part below the data area, and the rest
	size_t pos = 0; std::string last = "start"; Regs at; bool pending = false; std::vector<Span> named; u64 clear_tid = 0; u32 nr = 0; bool may_throw = true, imm = false; bool must_unknown = false, ended = false; u64 unknown0 = 0;
	i64 ids[3] = {-1, -1, -1}; u8 altstack[24] = {}, mark = 0; std::map<int, std::array<u8, 24>> actions;
	auto at_mem = [&](u64 a) -> u8* { return a < 0x4000 ? &lo[a] : a < shift + 0x4000 ? mem + a : &hi[a - shift - 0x4000]; };
	auto in_mem = [&](u64 a, u64 n) { return a <= l.size && n <= l.size - a && a >= l.code; };
	auto compare = [&](const char* when, bool any) {
		auto scan = [&](u64 base, std::vector<u8>& want) { if (!memcmp(want.data(), mem + base, want.size())) return;
			for (u64 i = 0; i < want.size(); i++) if (mem[base + i] != want[i]) { bool ok = false; if (any) for (auto& s : named) ok |= base + i >= s.at && base + i - s.at < s.n; if (!ok) ctx.fail("memory-touched", fmt("%s of %s changed byte %llx of guest memory from %02x to %02x", when, last.c_str(), (long long)(base + i), want[i], mem[base + i])); want[i] = mem[base + i]; } };
		scan(0, lo); scan(shift + 0x4000, hi); };
	auto host_clean = [&] { if (hostcalls::ncalls) { std::string s = hostcalls::calls[0]; ctx.fail("host-touched", fmt("%s called %s of the host", last.c_str(), s.c_str())); } };
	auto judge = [&](const Regs* g, const MachineException* x) { // g: registers at the next step; x: the exception it ended with
		if (!pending) return; pending = false; host_clean(); Regs now = g ? *g : Regs::of(m);
		if (g) { Regs w = at; w.pc = now.pc; w.ll = now.ll; w.r[4] = now.r[4]; w.r[11] = HOOK; w.r[20]++; w.r[21] = now.r[21]; Diff d = diff(w, now); ctx.check(!d.any, "register-touched", fmt("after %s: %s (wanted vs found)", last.c_str(), d.what.c_str())); }
		else { Regs w = at; w.pc = now.pc; w.ll = now.ll; Diff d = diff(w, now); ctx.check(!d.any, "register-touched", fmt("after the exception of %s: %s (wanted vs found)", last.c_str(), d.what.c_str())); }
		i64 r = now.r[4]; if (g) { ctx.check(r >= -4095 || r < -(1ll << 40), "result", fmt("%s returned %llx", last.c_str(), (long long)r)); }
		bool failed = g && r < 0 && r >= -4095;
		if (g && !failed && !must_unknown) { u64 n = named.empty() ? 0 : named[0].n; // counts name the bytes that were written
			if (nr == 78 || nr == 278 || nr == 123) { ctx.check(u64(r) <= n, "count", fmt("%s reports %lld bytes in a buffer of %llu", last.c_str(), (long long)r, (long long)n)); if (named.size()) named[0].n = r; }
			if (nr == 278) ctx.check(u64(r) == at.r[5], "count", fmt("%s reports %lld bytes of %llu", last.c_str(), (long long)r, (long long)at.r[5]));
			if (nr == 63) ctx.check(r == 0, "invented-input", fmt("%s reports %lld bytes of input", last.c_str(), (long long)r));
			if (nr == 123) { u64 any = 0; for (i64 k = 0; k < r; k++) any |= mem[at.r[6] + k]; ctx.check(any, "affinity", "no processor to run on"); }
			if (nr == 73) for (u64 k = 0; k < at.r[5] && k < 1024; k++) { int16_t e, v; memcpy(&e, mem + at.r[4] + k * 8 + 4, 2); memcpy(&v, mem + at.r[4] + k * 8 + 6, 2); ctx.check(!(v & ~(e | 0x38)), "poll", fmt("ppoll reports events %x where %x were asked for", v, e)); } }
		if (g && !must_unknown) { // the answer of a process that has three open streams and nothing else
			const i32 fd = i32(at.r[4]); const bool std3 = fd >= 0 && fd <= 2; auto answer = [&](i64 w) { ctx.check(r == w, "answer", fmt("%s(%llx, %llx, %llx, %llx) answers %lld, not %lld", last.c_str(), (long long)at.r[4], (long long)at.r[5], (long long)at.r[6], (long long)at.r[7], (long long)r, (long long)w)); };
			auto holds = [&](u64 a, const void* want, u64 n, const char* what) { ctx.check(!memcmp(mem + a, want, n), "answer", fmt("%s leaves something else in the buffer than %s", last.c_str(), what)); }; const u8 zeros[128] = {};
			switch (nr) {
			case 64: case 66: if (fd != 1 && fd != 2) ctx.check(r < 0, "answer", fmt("%s to descriptor %d answers %lld", last.c_str(), fd, (long long)r)); break;
			case 63: answer(fd == 0 ? 0 : -9); break; case 56: answer(-2); break; case 291: answer(-38); break; case 57: answer(std3 ? 0 : -9); break; case 29: answer(std3 ? -25 : -9); break;
			case 80: answer(std3 && at.r[5] ? 0 : -9); if (!r) holds(at.r[5], zeros, 128, "zeros"); break;
			case 25: case 99: case 135: case 167: case 214: case 226: case 233: case 169: answer(0); break;
			case 96: case 178: answer(m.gettid()); break;
			case 172: case 174: case 175: case 176: case 177: { i64& id = ids[nr == 172 ? 0 : nr < 176 ? 1 : 2]; ctx.check(r >= 0 && (id < 0 || id == r), "answer", fmt("%s: the process was %lld and is %lld", last.c_str(), (long long)id, (long long)r)); id = r; break; }
			case 73: for (u64 k = 0; k < at.r[5]; k++) { i32 f; u16 e, v; memcpy(&f, mem + at.r[4] + k * 8, 4); memcpy(&e, mem + at.r[4] + k * 8 + 4, 2); memcpy(&v, mem + at.r[4] + k * 8 + 6, 2); ctx.check(v == (f >= 0 && f <= 2 ? e : 0), "answer", fmt("ppoll of descriptor %d for %x tells %x", f, e, v)); } break;
			case 78: { bool self = true; for (u64 k = 0; k < 15 && self; k++) self = in_mem(at.r[5] + k, 1) && *at_mem(at.r[5] + k) == u8("/proc/self/exe"[k]); /* as it was before the answer */ if (!self) { answer(-2); break; } answer(std::min<u64>(12, at.r[7])); holds(at.r[6], "/tmp/program", r, "the program's path"); break; }
			case 98: if (!threads) { i32 op = i32(at.r[5]) & ~128; answer(op == 0 ? -11 : op == 1 ? 0 : -38); } break;
			case 101: answer(0); if (at.r[4] && at.r[5]) holds(at.r[5], zeros, 16, "no time left"); break;
			case 123: if (at.r[5] < 8 || !at.r[6]) answer(-22); else ctx.check(r > 0, "answer", "no set of processors"); break;
			case 132: answer(0); if (at.r[5] && at.r[4] - at.r[5] + 23 >= 47) { u8 w[24]; memcpy(w, altstack, 24); memcpy(w + 12, mem + at.r[5] + 12, 4); holds(at.r[5], w, 24, "the stack set before"); } if (at.r[4]) memcpy(altstack, mem + at.r[4], 24); break;
			case 134: { i32 sig = i32(at.r[4]); if (sig < 1 || sig > 64) { answer(-22); break; } answer(0); auto& act = actions[sig]; if (at.r[6]) holds(at.r[6], act.data(), 24, "the action set before"); if (at.r[5]) memcpy(act.data(), mem + at.r[5], 24); break; }
			case 261: { answer(0); if (!at.r[7]) break; i32 what = i32(at.r[5]); u64 w[2] = {what == 3 ? 8u << 20 : what == 7 ? 1024 : ~0ull, what == 7 ? 4096 : ~0ull}; holds(at.r[7], w, 16, "the limits"); break; }
			case 278: if (at.r[5] >= 16) { bool same = true; for (u64 k = 0; k < at.r[5]; k++) same &= mem[at.r[4] + k] == mark; ctx.check(!same, "answer", fmt("getrandom leaves %llu bytes as they were", (long long)at.r[5])); } break;
			} }
		compare(x ? "The exception" : failed ? "A failure" : "The result", !failed);
		std::string out = seam::out().data; seam::out().data.clear(); if ((nr != 64 && nr != 66) || (i32(at.r[4]) != 1 && i32(at.r[4]) != 2)) ctx.check(out.empty() || (verbose && threads), "output", fmt("%s wrote %zu bytes of output", last.c_str(), out.size()));
		if (must_unknown && own_unknown) { ctx.check(g_unknown == unknown0 + 1, "unknown-call", fmt("%s: the host's handler of unknown calls was called %llu times", last.c_str(), (long long)(g_unknown - unknown0))); ctx.check(g_unknown_nr == nr, "unknown-call", fmt("%s was reported as call %lld", last.c_str(), (long long)g_unknown_nr)); ctx.check(g_unknown_do ? x && x->type() == loongarch::UNIMPLEMENTED_SYSCALL : g && r == -38, "unknown-call", "what the host's handler of unknown calls decided did not reach the guest"); }
		else if (must_unknown) ctx.check(x && x->type() == loongarch::UNIMPLEMENTED_SYSCALL && u32(x->data()) == nr, "unknown-call", fmt("%s is not reported as unimplemented (%s, data %llx)", last.c_str(), x ? x->what() : "no exception", (long long)(x ? x->data() : 0)));
		else { ctx.check(g_unknown == unknown0, "unknown-call", fmt("%s went to the handler of unknown calls", last.c_str())); if (x) ctx.check(may_throw, "refused", fmt("%s raised %s (data %llx) although all it names is the guest's", last.c_str(), x->what(), (long long)x->data())); }
		digest = mix(digest, mix(nr, mix(r, x ? x->type() + 1 : 0))); digest = mix(digest, hash_bytes(out.data(), out.size())); if (!x) ctx.nontrivial++; if (!world) { ctx.ev("call", nr, r, x ? x->type() + 1 : 0); ctx.count(x ? "refused-by-exception" : failed ? "refused-by-error" : must_unknown ? "unknown-calls" : "calls"); ctx.state(mix(mix(nr, x ? 1000 + x->type() : failed ? r : 0), mix(named.size() ? named[0].n : 0, threads * 2 + imm))); } };
	sc.hook = [&] {
		hostcalls::armed = false; Regs g = Regs::of(m); if (ended) ctx.fail("ran-after-exit", "the guest ran on after " + last); judge(&g, nullptr);
		while (pos < p.ops.size() && p.ops[pos].k == "f") { fill(p.ops[pos].arg(0)); memcpy(&hi[0], mem + shift + 0x4000, hi.size()); pos++; }
		if (pos >= p.ops.size()) { sc.done = true; m.stop(); return; }
		auto& o = p.ops[pos++]; Regs n = g; for (int i = 1; i < 32; i++) if (i != 3 && i != 20 && i != 21) n.r[i] = rr.next(); for (int i = 0; i < 32; i++) if (rr.chance(1, 8)) n.v[i][rr.below(4)] = rr.next(); n.fcc = rr.below(256); named.clear(); may_throw = true; imm = false; must_unknown = false; unknown0 = g_unknown; n.r[22] = n.r[23] = sc.site(rr.below(SITES)); n.r[1] = sc.site(rr.below(SITES));
		hostcalls::ncalls = 0; if (!world) ctx.simtime++;
		if (o.k == "b") { nr = 0; imm = true; last = "break"; must_unknown = !known(0); n.pc = l.code + prog.brk * 4 - 4; }
		else if (o.k == "e") { nr = o.arg(0); n.r[11] = nr; ended = true; sc.done = true; last = "exit"; n.pc = g.pc; if (threads && nr == 93 && clear_tid) named.push_back({clear_tid, 4}); n.put(m); hostcalls::armed = true; return; }
		else {
			nr = u32(o.arg(0)); for (int k = 0; k < 6; k++) { u64 v = o.arg(2 + k); if ((o.arg(1) >> k & 1) && v >= 0x4000 && v < 0x21000) v += shift; n.r[4 + k] = v; } last = fmt("system call %u", nr); must_unknown = !known(nr); if (o.k == "i") n.r[11] = rr.below(600); u64* a = &n.r[4]; i32 i0 = i32(a[0]), i1 = i32(a[1]); (void)i1;
			auto name = [&](u64 w, u64 len) { if (w && len) named.push_back({w, len}); }; auto fits = [&](u64 w, u64 len) { return w >= l.data && in_mem(w, len); };
			if (o.k == "i" && prog.imm.count(nr)) { imm = true; n.pc = l.code + prog.imm.at(nr) * 4 - 4; last += " by immediate"; } else n.r[11] = nr;
			switch (nr) { // what each call may write, and where all it names is the guest's so that it cannot fault
			case 64: if (a[2] > (1u << 20) && in_mem(a[1], a[2])) a[2] &= 0xfffff; may_throw = (i0 == 1 || i0 == 2) && !(in_mem(a[1], a[2]) && a[1] < l.size); if (i0 == 1 || i0 == 2) ctx.count("writes"); break;
			case 66: for (u64 k = 0; k < a[2] && k < 1024 && in_mem(a[1] + k * 16, 16); k++) { u64 e[2]; memcpy(e, mem + a[1] + k * 16, 16); if (e[1] > (1u << 20) && in_mem(e[0], e[1])) a[2] = 0; } break; // no gigabytes of output
			case 78: name(a[2], std::min<u64>(a[3], 4096)); break;
			case 80: if (i0 >= 0 && i0 <= 2) name(a[1], 128); may_throw = named.size() && !fits(a[1], 128); break;
			case 73: if (a[1] <= 1024) for (u64 k = 0; k < a[1]; k++) name(a[0] + k * 8 + 6, 2); break;
			case 113: name(a[1], 16); may_throw = a[1] && !fits(a[1], 16); break;
			case 169: name(a[0], 16); may_throw = a[0] && !fits(a[0], 16); break;
			case 101: if (a[0]) name(a[1], 16); break;
			case 123: name(a[2], std::min<u64>(a[1], 1024)); may_throw = named.size() && !fits(a[2], std::min<u64>(a[1], 1024)); break;
			case 132: if (a[0] == 0) { name(a[1], 24); may_throw = a[1] && !fits(a[1], 24); } else { name(a[1], 24); } break;
			case 134: name(a[2], 24); if (a[1] && in_mem(a[1], 24)) { if (a[1] < l.data || a[1] - a[2] + 23 < 47) a[1] = 0; else { u64 h = rr.below(2); memcpy(mem + a[1], &h, 8); for (int k = 0; k < 8; k++) *at_mem(a[1] + k) = mem[a[1] + k]; } } break; // default and ignore only
			case 98: case 422: if (threads) name(a[0], 4); break;
			case 278: mark = rr.next(); if (a[1] < 70000 && fits(a[0], a[1]) && a[0] >= shift + 0x4000) for (u64 k = 0; k < a[1]; k++) mem[a[0] + k] = *at_mem(a[0] + k) = mark; name(a[0], std::min<u64>(a[1], 1u << 21)); may_throw = a[1] && !fits(a[0], a[1]); break;
			case 261: name(a[3], 16); may_throw = a[3] && !fits(a[3], 16); break;
			case 130: may_throw = i32(a[1]) < 0 || i32(a[1]) > 64 || a[1] != u64(i64(i32(a[1]))); break;
			case 131: { i32 s = i32(a[2]); may_throw = true; if (threads && i0 >= -(1ll << 31) && i32(a[1]) == 0 && s >= 1 && s <= 64 && m.sigaction(s).is_unset()) { n.r[6] = 0; } break; }
			case 96: clear_tid = a[0]; may_throw = false; break;
			case 135: case 291: case 56: case 63: case 57: case 29: case 25: case 214: case 226: case 233: case 99: case 178: case 124: case 172: case 174: case 175: case 176: case 177: case 167: may_throw = false; break;
			}
		}
		n.put(m); at = n; pending = true; hostcalls::armed = true;
	};
	sc.run(p.get("seed"), p.get("mode"), [&](std::exception_ptr x) {
		hostcalls::armed = false;
		try { std::rethrow_exception(x); } catch (const MachineException& e) { if (ended && !pending) { ctx.check(clear_tid, "unexpected-exception", fmt("%s at the exit", e.what())); sc.done = true; m.stop(); digest = mix(digest, e.type() + 77); return; } ctx.check(pending, "unexpected-exception", fmt("%s (data %llx) after %s", e.what(), (long long)e.data(), last.c_str())); judge(nullptr, &e); m.cpu.registers().pc = sc.site(1); m.cpu.reg(22) = sc.site(2); } });
	hostcalls::armed = false; host_clean(); compare("The end", ended); return mix(digest, hash_bytes(hi.data(), hi.size()));
}
void exec(const Plan& p, Ctx& ctx) { u64 a = pass(p, ctx, 0); Ctx c2; u64 b = pass(p, c2, 1); ctx.check(a == b, "host-dependent", "the same guest saw something else on another host"); ctx.ev("digest", a); }
Register r1({"P20", "confined", "system calls by outcome, size of the named buffer, and form", "a host-scripted guest makes random sequences of all Linux system calls and of unknown ones, with the number in a register or in the instruction and arguments at, over and far beyond the edges of its memory, under random budgets and all engines; every other byte of guest memory and every other register is compared after each call, every call into the host's system interface is caught by a stand-in, and each sequence is run in two hosts whose answers differ",
	gen, exec, 120000, 3000000, {"Linux and thread system call handlers", "system call dispatch of all three engines", "guest memory"}, {"the host's system interface", "the guest's own code, scripted by the simulator"}});
// ---------------------------------------------------------------- the host's own handlers get what the guest passed
// ops: c SIG RES FORM   call the host handler of signature SIG, which returns a result of type RES; FORM 0 number in a register, 1 in the instruction
//      x NR HOW         host installs (HOW 1) or restores (0) a handler of its own in the place of call NR
//      n NR             call number NR, answered by whatever is installed       p  the handler installed before the first machine
struct S24 { u64 a; u32 b; u16 c; u8 d[10]; }; static_assert(sizeof(S24) == 24); enum E8 : u8 {}; enum EI8 : int8_t {}; enum class E32 : int {}; enum class E64 : u64 {}; enum EU32 : u32 {};
std::string g_got; u32 g_res; u64 g_resval; u64 g_called; u32 g_which;
template <class T> void put_arg(const T& v) {
	if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>) { u64 n = v.size(); g_got.append((char*)&n, 8); g_got.append(v.data(), n); }
	else if constexpr (std::is_pointer_v<T>) g_got.append((const char*)v, sizeof(*v)); else g_got.append((const char*)&v, sizeof v); }
void give_result(Machine& m) { u64 v = g_resval; switch (g_res) { case 0: break; case 1: m.set_result(i32(v)); break; case 2: m.set_result(u32(v)); break; case 3: m.set_result(i64(v)); break; case 4: m.set_result(v); break; case 5: m.set_result(int16_t(v)); break; case 6: m.set_result(u16(v)); break; case 7: m.set_result(int8_t(v)); break; case 8: m.set_result(u8(v)); break; case 9: m.set_result(bool(v & 1)); break; case 10: { u32 b = v; float f; memcpy(&f, &b, 4); m.set_result(f); break; } case 11: { double d; memcpy(&d, &v, 8); m.set_result(d); break; } case 12: m.set_result(E8(v)); break; case 13: m.set_result(E32(i32(v))); break; case 14: m.set_result(E64(v)); break; case 15: m.set_result(EI8(v)); break; default: m.set_result(char(v)); } }
template <class... A> void probe(Machine& m) { g_called++; auto args = m.sysargs<A...>(); g_got.clear(); std::apply([](auto&... a) { (put_arg(a), ...); }, args); give_result(m); }
struct Sig { const char* tags; Machine::syscall_t* fn; };
const Sig sigs[] = {
	{"", probe<>}, {"i", probe<int>}, {"iuLl", probe<int, u32, u64, i64>}, {"bBhHo", probe<int8_t, u8, int16_t, u16, bool>}, {"fd", probe<float, double>}, {"ifudLf", probe<int, float, u32, double, u64, float>}, {"s", probe<std::string>}, {"sis", probe<std::string, int, std::string>},
	{"v", probe<std::string_view>}, {"ivLv", probe<int, std::string_view, u64, std::string_view>}, {"S", probe<S24>}, {"iSfS", probe<int, S24, float, S24>}, {"p", probe<const u32*>}, {"ipPi", probe<int, u32*, const S24*, int>}, {"eEwc", probe<E8, E32, E64, char>}, {"dddddddd", probe<double, double, double, double, double, double, double, double>}, {"fffiffff", probe<float, float, float, int, float, float, float, float>},
	{"LLLLLLLL", probe<u64, u64, u64, u64, u64, u64, u64, u64>}, {"vsSp", probe<std::string_view, std::string, S24, const u32*>}, {"sv", probe<std::string, std::string_view>}, {"vvv", probe<std::string_view, std::string_view, std::string_view>}, {"fvfs", probe<float, std::string_view, float, std::string>}, {"kW", probe<EI8, EU32>},
};
const u32 SIGNATURES = sizeof sigs / sizeof *sigs; const u32 RES = 17, FIRST = 480, BEFORE = 505; const u32 replace_nr[] = {64, 172, 178, 63, 0, 17, 511, 700};
u64 g_before_calls; struct Before { Before() { Machine::install_syscall_handler(BEFORE, [](Machine& m) { g_before_calls++; m.set_result(4242); }); } } g_before;
template <u32 N> void own(Machine& m) { g_called++; g_which = N; m.set_result(i64(9000 + N)); }
Machine::syscall_t* const owns[] = {own<0>, own<1>, own<2>, own<3>, own<4>, own<5>, own<6>, own<7>};
Plan gen2(Rng& r, int tier) {
	Plan p; p.cfg["mode"] = r.below(4); p.cfg["seed"] = r.next(); if (r.chance(1, 10)) p.cfg["high"] = 2; int n = r.range(3, tier ? 100 : 40); const u64 fav[2] = {r.below(8), r.below(8)};
	for (int i = 0; i < n; i++) { u32 c = r.below(100); if (c < 74) p.add("c", {r.below(SIGNATURES), r.below(RES), r.below(3) == 0}); else if (c < 84) p.add("x", {fav[r.below(2)], r.chance(2, 3)}); else if (c < 97) p.add("n", {r.chance(2, 3) ? fav[r.below(2)] : r.below(8), r.below(2)}); else p.add("p"); }
	return p;
}
void exec2(const Plan& p, Ctx& ctx) {
	reset_handlers(); Layout l; l.size = 0x20000; l.code = 0x1000; l.data = 0x4000; l.stack = 0x1f000; l.raise(p.get("high")); auto& prog = program(); struct Guard { ~Guard() { reset_handlers(); } } guard;
	Script sc(l, prog.code); auto& m = *sc.m; reset_handlers(); Script::install(); Machine::setup_linux_syscalls(); Machine::set_unknown_syscall_handler(unknown); g_unknown = 0; g_unknown_do = 0; for (u32 i = 0; i < SIGNATURES; i++) Machine::install_syscall_handler(FIRST + i, sigs[i].fn);
	u8* mem = sc.mem(); Rng rr(p.get("seed") | 1); const u64 D = l.high; std::vector<u8> strs; for (u64 i = 0x4000; i < 0x1c000; i++) mem[D + i] = rr.chance(1, 40) ? 0 : rr.next(); memset(mem + D + 0x8000, 'x', 0x1800); mem[D + 0x9800] = 0; memset(mem + l.size - 40, 'y', 40); mem[l.size - 1] = 0;
	std::vector<u8> before(mem, mem + 0x4000), hi(mem + D + 0x4000, mem + D + 0x20000); size_t pos = 0; std::string last = "start"; Regs at; enum { NONE, PROBE, OWN, BUILTIN, UNKNOWN, PRE } pending = NONE; std::string want; bool bad = false; u64 called0 = 0; u32 sig = 0, res = 0, nr = 0, which = 0; std::map<u32, u32> installed; u64 pre0 = 0, unk0 = 0;
	auto judge = [&](const Regs* g, const MachineException* x) { if (pending == NONE) return; auto what = pending; pending = NONE;
		ctx.check(!memcmp(before.data(), mem, before.size()) && !memcmp(hi.data(), mem + D + 0x4000, hi.size()), "memory-touched", "a host handler that only read changed guest memory");
		Regs w = at, now = g ? *g : Regs::of(m); w.pc = now.pc; w.ll = now.ll; if (g) { w.r[11] = HOOK; w.r[20]++; w.r[21] = now.r[21]; }
		if (x) { ctx.check(what == PROBE && bad, "refused", fmt("%s raised %s (data %llx)", last.c_str(), x->what(), (long long)x->data())); ctx.check(x->type() == loongarch::PROTECTION_FAULT, "wrong-exception", x->what()); ctx.count("bad-arguments"); }
		else if (what == PROBE) { ctx.check(!bad, "bad-argument", fmt("%s (%s) with an argument outside guest memory went through", last.c_str(), sigs[sig].tags)); ctx.check(g_called == called0 + 1, "calls", fmt("%s: the handler ran %llu times", last.c_str(), (long long)(g_called - called0))); if (g_got != want) { size_t i = 0; while (i < g_got.size() && i < want.size() && g_got[i] == want[i]) i++; ctx.fail("arguments", fmt("%s with arguments %s: the host got %zu bytes, the guest passed %zu, different from byte %zu on", last.c_str(), sigs[sig].tags, g_got.size(), want.size(), i)); }
			u64 v = g_resval; switch (res) { case 0: break; case 1: case 2: case 13: w.r[4] = u64(i64(i32(v))); break; case 3: case 4: case 14: w.r[4] = v; break; case 5: w.r[4] = u64(i64(int16_t(v))); break; case 6: w.r[4] = u16(v); break; case 7: case 15: case 16: w.r[4] = u64(i64(int8_t(v))); break; case 8: case 12: w.r[4] = u8(v); break; case 9: w.r[4] = v & 1; break; case 10: w.v[0][0] = (now.v[0][0] & ~0xffffffffull) | u32(v); for (int k = 1; k < 4; k++) w.v[0][k] = now.v[0][k]; break; case 11: w.v[0][0] = v; for (int k = 1; k < 4; k++) w.v[0][k] = now.v[0][k]; break; }
			ctx.nontrivial++; ctx.state(mix(sig, res)); ctx.count("calls"); }
		else if (what == OWN) { ctx.check(g_called == called0 + 1 && g_which == which, "replaced", fmt("%s did not go to the handler the host installed last", last.c_str())); w.r[4] = 9000 + which; ctx.count("replaced-calls"); }
		else if (what == PRE) { ctx.check(g_before_calls == pre0 + 1, "early-handler", "a handler installed before the first machine was made is not called"); w.r[4] = 4242; ctx.count("early-calls"); }
		else if (what == UNKNOWN) { ctx.check(g_unknown == unk0 + 1 && g_unknown_nr == nr, "unknown-call", fmt("%s is not reported as call %u", last.c_str(), nr)); w.r[4] = u64(-38); ctx.count("unknown-calls"); }
		else { ctx.check(g_called == called0 && g_unknown == unk0, "restored", fmt("%s went to a handler the host had taken away", last.c_str())); w.r[4] = now.r[4]; ctx.count("builtin-calls"); }
		Diff d = diff(w, now); ctx.check(!d.any, what == PROBE ? "result" : "register-touched", fmt("after %s (arguments %s, result type %u): %s (wanted vs found)", last.c_str(), sigs[sig].tags, res, d.what.c_str())); ctx.ev("call", what, now.r[4], x ? 1 : 0); };
	auto ptr = [&](u64 len) -> u64 { switch (rr.below(16)) { case 0: return l.size - len; case 1: return l.size - len + 1 + rr.below(len + 1); case 2: return rr.next(); case 3: return ~0ull - rr.below(64); case 4: return rr.below(0x1000); case 5: return l.code + rr.below(0x100); default: return D + 0x4000 + rr.below(0x17000); } };
	auto ok = [&](u64 a, u64 n) { return a >= l.code && a < l.size && n <= l.size - a; };
	sc.hook = [&] {
		Regs g = Regs::of(m); judge(&g, nullptr); ctx.simtime++;
		while (pos < p.ops.size() && p.ops[pos].k == "x") { auto& o = p.ops[pos++]; u32 i = o.arg(0) & 7, n = replace_nr[i]; if (o.arg(1)) { u32 k = rr.below(8); Machine::install_syscall_handler(n, owns[k]); if (n < LA_SYSCALLS_MAX) installed[n] = k; } else { if (n < LA_SYSCALLS_MAX) { Machine::install_syscall_handler(n, g_stub); installed.erase(n); } Machine::setup_linux_syscalls(); for (u32 r : {64u, 63u, 172u, 178u}) installed.erase(r); } }
		if (pos >= p.ops.size()) { sc.done = true; m.stop(); return; }
		auto& o = p.ops[pos++]; Regs n = g; for (int i = 1; i < 32; i++) if (i != 3 && i != 20 && i != 21) n.r[i] = rr.next(); for (int i = 0; i < 32; i++) for (int k = 0; k < 4; k++) if (i < 8 || rr.chance(1, 8)) n.v[i][k] = rr.next(); n.r[22] = n.r[23] = sc.site(rr.below(SITES)); n.r[1] = sc.site(rr.below(SITES)); called0 = g_called; unk0 = g_unknown; pre0 = g_before_calls; bool imm = false;
		if (o.k == "c") {
			sig = o.arg(0) % SIGNATURES; res = o.arg(1) % RES; g_res = res; g_resval = rr.chance(1, 3) ? rr.below(300) : rr.next(); nr = FIRST + sig; imm = o.arg(2); if (!imm) n.r[11] = nr; pending = PROBE; bad = false; want.clear(); int a = 0, f = 0; const std::string before_bad; auto take = [&](u64 v, u64 n) { want.append((char*)&v, n); };
			for (const char* t = sigs[sig].tags; *t; t++) { u64& v = n.r[4 + a]; auto bytes = [&](u64 at, u64 len) { if (!ok(at, len)) bad = true; else want.append((char*)mem + at, len); };
				switch (*t) {
				case 'f': take(n.v[f++][0], 4); break; case 'd': take(n.v[f++][0], 8); break; case 'i': case 'u': case 'E': case 'W': take(v, 4); a++; break; case 'L': case 'l': case 'w': take(v, 8); a++; break; case 'b': case 'B': case 'c': case 'e': case 'k': take(v, 1); a++; break; case 'h': case 'H': take(v, 2); a++; break; case 'o': v &= 1; take(v, 1); a++; break;
				case 's': { v = rr.chance(1, 12) ? D + 0x9800 - rr.below(4090) : ptr(40); a++; if (!ok(v, 0)) { bad = true; break; } u64 len = 0; while (v + len < l.size && mem[v + len] && len < 4096) len++; take(len, 8); want.append((char*)mem + v, len); break; }
				case 'v': { u64 len = rr.chance(1, 12) ? rr.next() : rr.below(200); v = ptr(std::min<u64>(len, 200)); n.r[5 + a] = len; a += 2; if (!ok(v, len)) bad = true; else { take(len, 8); want.append((char*)mem + v, len); } break; }
				case 'S': case 'P': v = ptr(24); a++; bytes(v, 24); break; case 'p': v = ptr(4); a++; bytes(v, 4); break; } }
			last = fmt("host call %u", sig);
		} else if (o.k == "p") { nr = BEFORE; pending = PRE; last = "the early handler"; imm = rr.chance(1, 2); }
		else { nr = replace_nr[o.arg(0) & 7]; last = fmt("call %u", nr); if (nr == 63 || nr == 64) n.r[4] = 99; imm = o.arg(1) && prog.imm.count(nr); pending = installed.count(nr) ? OWN : nr == 64 || nr == 172 || nr == 178 || nr == 63 ? BUILTIN : UNKNOWN; which = installed.count(nr) ? installed[nr] : 0; }
		if (imm && prog.imm.count(nr)) { n.pc = l.code + prog.imm.at(nr) * 4 - 4; last += " by immediate"; } else n.r[11] = nr;
		n.put(m); at = n;
	};
	sc.run(p.get("seed"), p.get("mode"), [&](std::exception_ptr x) { try { std::rethrow_exception(x); } catch (const MachineException& e) { ctx.check(pending != NONE, "unexpected-exception", e.what()); judge(nullptr, &e); m.cpu.registers().pc = sc.site(1); m.cpu.reg(22) = sc.site(2); } });
}
Register r2({"P20", "arguments", "signatures with result types", "a host-scripted guest calls host-installed handlers of 23 signatures over all argument types with random registers and pointers at, over and beyond the edges of its memory, by register and by immediate number, while the host replaces, restores and removes handlers; what the handler got and what the guest got back are compared with an independent decoding",
	gen2, exec2, 150000, 3000000, {"argument and result decoding", "system call table and dispatch of all three engines", "guest memory"}, {"the host's handlers", "the guest's own code, scripted by the simulator"}});
} // namespace
