#include "script.hpp"
#include <libloong/posix/signals.hpp>
#include <libloong/posix/threads.hpp>
using namespace scr;
// ops, made by whichever guest thread runs next:
//  a SIG HAND FLAGS MASK HOW   rt_sigaction: HOW bit0 set, bit1 read back, bit2 same buffer, bit3 bad new pointer, bit4 bad old pointer
//  s SP SIZE FLAGS HOW         sigaltstack: HOW as above without bit2
//  k SIG                       tkill of itself      t SIG WHO   tgkill (WHO 0: itself, else another thread)
//  c clone   y yield   w wait   u wake   x exit     h SIG   host reads the disposition
namespace {
i64 rnd_sig(Rng& r, const std::vector<int>& fav) { switch (r.below(12)) { case 0: return r.range(1, 64); case 1: { static const i64 bad[] = {0, -1, 65, 66, 127, 128, 256, -64, 0x7fffffff, -0x7fffffffll - 1, 1ll << 32, (1ll << 32) + 6, 64, 1}; return r.pick(bad); } default: return r.pick(fav); } }
Plan gen(Rng& r, int tier) {
	Plan p; p.cfg["mode"] = r.below(4); p.cfg["threads"] = r.chance(2, 3); p.cfg["seed"] = r.next(); if (r.chance(1, 10)) p.cfg["high"] = r.range(1, 2); int n = r.range(4, tier ? 160 : 80);
	std::vector<int> fav; for (int k = r.range(2, 5); k > 0; k--) fav.push_back(r.chance(1, 5) ? 6 : r.chance(1, 3) ? 1 + r.below(2) : r.range(1, 64)); if (r.chance(1, 2)) fav.push_back(fav[0] % 64 + 1);
	for (int i = 0; i < n; i++) {
		u32 c = r.below(100); u64 hand = r.chance(1, 10) ? r.below(2) : r.chance(1, 20) ? 100 + r.below(4) : 2 + r.below(SITES);
		if (c < 34) p.add("a", {u64(rnd_sig(r, fav)), hand, r.chance(1, 2) ? 0x08000000 * r.below(2) : r.next(), r.next(), r.chance(1, 10) ? r.below(32) : r.chance(1, 3) ? 2 : r.range(1, 7)});
		else if (c < 48) p.add("s", {r.below(8), r.below(4) ? r.range(1, 16) * 64 : 0, r.chance(1, 5) ? 2 : 0, r.chance(1, 12) ? r.below(32) & ~4 : r.range(1, 3)});
		else if (c < 62) p.add("k", {u64(rnd_sig(r, fav))}); else if (c < 76) p.add("t", {u64(rnd_sig(r, fav)), r.chance(1, 2) ? 0 : r.range(1, 20)});
		else if (c < 83) p.add("c"); else if (c < 90) p.add("y"); else if (c < 93) p.add("w"); else if (c < 95) p.add("u"); else if (c < 97) p.add("x"); else p.add("h", {r.range(1, 64)});
	}
	return p;
}
struct Disp { u64 handler = 0, flags = 0, mask = 0; };
struct Alt { u64 sp = 0; u32 flags = 0; u64 size = 0; bool set() const { return size && !(flags & 2); } };
struct T { Regs want; bool known = true, fresh = true, blocked = false, redirected = false; };
void exec(const Plan& p, Ctx& ctx) {
	Layout l; l.raise(p.get("high")); Script sc(l); auto& m = *sc.m; const bool threads = p.get("threads"); Machine::setup_linux_syscalls(); if (threads) m.setup_posix_threads();
	Rng rr(p.get("seed") | 1); u8* mem = sc.mem(); std::map<int, Disp> disp; std::map<int, Alt> alt; std::map<int, T> live; size_t pos = 0; std::string last = "start"; int cur = 0; bool may_throw = false, ended = false; int throw_type = -1; u64 nstack = 0, drained = 0;
	const u64 buf = l.data + 0x2000, word = l.data + 0x100; struct Chk { bool on = false; bool sig = false; u64 at = 0; Disp d; Alt a; bool untouched = false; std::vector<u8> before; } chk;
	int child_of = -1; u64 child_sp = 0; Regs child_regs;
	auto handler_pc = [&](u64 h) { return h + 8; };
	auto check_buf = [&] { if (!chk.on) return; chk.on = false;
		if (chk.untouched) { ctx.check(!memcmp(mem + chk.at, chk.before.data(), chk.before.size()), "buffer-touched", fmt("a failed %s wrote to the guest's buffer", last.c_str())); return; }
		if (chk.sig) { u64 got[3]; memcpy(got, mem + chk.at, 24); ctx.check(got[0] == chk.d.handler && got[1] == chk.d.flags && got[2] == chk.d.mask, "readback", fmt("disposition reads back as handler %llx flags %llx mask %llx instead of %llx %llx %llx", (long long)got[0], (long long)got[1], (long long)got[2], (long long)chk.d.handler, (long long)chk.d.flags, (long long)chk.d.mask)); ctx.count("readback"); }
		else { u64 sp, size; u32 fl; memcpy(&sp, mem + chk.at, 8); memcpy(&fl, mem + chk.at + 8, 4); memcpy(&size, mem + chk.at + 16, 8); bool ok = chk.a.set() ? sp == chk.a.sp && size == chk.a.size && !(fl & 2) : (sp == chk.a.sp || !sp) && (size == chk.a.size || !size) && (fl == chk.a.flags || fl == 2);
			ctx.check(ok, "readback", fmt("alternate stack reads back as %llx+%llu flags %x instead of %llx+%llu flags %x", (long long)sp, (long long)size, fl, (long long)chk.a.sp, (long long)chk.a.size, chk.a.flags)); ctx.count("readback-stack"); }
		// the bytes around the structure are not touched
		for (int k = -8; k < 0; k++) ctx.check(mem[chk.at + k] == 0xa5, "buffer-touched", "bytes before the structure changed"); for (int k = 0; k < 8; k++) ctx.check(mem[chk.at + 24 + k] == 0xa5, "buffer-touched", "bytes after the structure changed"); };
	sc.hook = [&] {
		Regs g = Regs::of(m); int tid = m.gettid(); check_buf(); ctx.check(!ended, "ran-after-end", "a guest thread ran after the program ended by " + last);
		if (live.empty()) { live[tid].fresh = true; }
		if (child_of >= 0) { // learn the new thread
			if (g.r[3] == child_sp) { T c; c.want = child_regs; c.fresh = false; live[tid] = c; } else ctx.fail("clone", "the new thread does not run"); child_of = -1; }
		auto it = live.find(tid); ctx.check(it != live.end(), "unknown-thread", fmt("thread %d runs, which does not exist (after %s)", tid, last.c_str())); T& t = it->second; cur = tid;
		if (!t.fresh) { Regs w = t.want; w.ll = g.ll; if (!t.known) w.r[4] = g.r[4]; Diff d = diff(w, g); ctx.check(!d.any, "context", fmt("thread %d goes on with %s (wanted vs found; after %s)", tid, d.what.c_str(), last.c_str())); }
		t.fresh = t.blocked = t.redirected = false; ctx.ev("at", tid, g.r[4], g.r[3]); ctx.nontrivial++;
		u64 h = tid; for (auto& e : disp) h = mix(h, mix(e.first, mix(e.second.handler, e.second.flags & 0x08000000))); for (auto& e : alt) h = mix(h, mix(e.first, e.second.sp)); ctx.state(h);
		bool pending = false; for (auto& e : live) pending |= e.second.redirected; // a thread whose handler is due, wherever it was, gets to run it
		if (pos >= p.ops.size() && pending && drained > 3 * live.size() + 3) ctx.fail("handler-not-run", "a thread that was sent a signal never runs its handler although the others yield");
		if (pos >= p.ops.size() && !(pending && threads)) { sc.done = true; m.stop(); return; }
		if (pos >= p.ops.size()) { drained++; ctx.count("drain"); } static const Op yield_op{"y", {}};
		auto& o = pos < p.ops.size() ? p.ops[pos++] : yield_op; last = o.k; may_throw = false; throw_type = -1;
		Regs n = g; for (int i = 1; i < 32; i++) if (i != 3 && i != 2 && i != 20 && i != 21) n.r[i] = rr.next(); n.r[22] = sc.site(rr.below(SITES)); for (int i = 0; i < 32; i++) if (rr.chance(1, 8)) n.v[i][rr.below(4)] = rr.next(); n.fcc = rr.below(256);
		auto A = [&](int i, u64 v) { n.r[4 + i] = v; }; u64 res = 0; bool known = true; auto num = [&](u64 v) { n.r[11] = v; };
		Regs want; bool entered = false; Regs enter; bool exits = false;
		auto deliver = [&](Regs base, int sig, int who) { // what `base` becomes when the handler of `sig` is entered
			Disp& d = disp[sig]; Alt& a = alt[who]; base.r[4] = sig; base.pc = handler_pc(d.handler); base.r[11] = HOOK; base.r[20]++; if ((d.flags & 0x08000000) && a.set()) base.r[3] = a.sp + a.size; return base; };
		auto bad_handler = [&](int sig) { u64 h = disp[sig].handler; return h < sc.site(0) || h >= sc.site(0) + SITES * SITE_LEN * 4 || (h & 3); };
		auto buffer = [&](bool sig, bool bad, int k) -> u64 { if (bad) return (1ull << 40) + 8 * k; u64 at = buf + 0x100 * k + 8 * rr.below(8); memset(mem + at - 8, 0xa5, 64); (void)sig; return at; };
		if (o.k == "a") {
			i32 sig = i32(o.arg(0)); u64 how = o.arg(4); u64 h = o.arg(1); Disp d; d.handler = h < 2 ? h : h == 100 ? l.data + 0x10 : h == 101 ? (1ull << 33) : h == 102 ? sc.site(1) + 2 : h == 103 ? 7 : sc.site(h); d.flags = o.arg(2); d.mask = o.arg(3);
			bool set = how & 1, rd = how & 2, ok = sig >= 1 && sig <= 64; u64 na = buffer(true, how & 8, 0), oa = (how & 4) && set && rd && !(how & 24) ? na : buffer(true, how & 16, 1);
			if (set && !(how & 8)) { u64 s[4] = {d.handler, d.flags, d.mask, rr.next()}; memcpy(mem + na, s, 32); /* LoongArch's structure ends with the mask */ } num(134); A(0, u64(o.arg(0))); A(1, set ? na : 0); A(2, rd ? oa : 0); A(3, 8); res = ok ? 0 : u64(-22);
			if (!ok) { ctx.count("bad-signal-number"); may_throw = true; if (rd && !(how & 16)) { chk.on = true; chk.untouched = true; chk.at = oa - 8; chk.before.assign(mem + oa - 8, mem + oa + 48); } }
			else { if (rd && (how & 16)) may_throw = true; else { if (rd && oa != na) { chk = {}; chk.on = true; chk.sig = true; chk.at = oa; chk.d = disp[sig]; }
				if (set && (how & 8)) may_throw = true; else if (set) { if (rd && oa == na) { /* the old value is written first, so it is the new one too */ } else disp[sig] = d; } } if (may_throw) ctx.count("bad-pointer"); }
		} else if (o.k == "s") {
			u64 how = o.arg(3); bool set = how & 1, rd = how & 2; Alt a; a.sp = l.data + 0x10000 + o.arg(0) * 0x400; a.size = o.arg(1); a.flags = o.arg(2); u64 na = buffer(false, how & 8, 0), oa = buffer(false, how & 16, 1);
			if (set && !(how & 8)) { memcpy(mem + na, &a.sp, 8); memcpy(mem + na + 8, &a.flags, 4); memcpy(mem + na + 16, &a.size, 8); } num(132); A(0, set ? na : 0); A(1, rd ? oa : 0); res = 0;
			if (rd && (how & 16)) { may_throw = true; } else { if (rd) { chk = {}; chk.on = true; chk.at = oa; chk.a = alt[tid]; } if (set && (how & 8)) may_throw = true; else if (set) alt[tid] = a; } if (may_throw) ctx.count("bad-pointer");
		} else if (o.k == "k" || o.k == "t") {
			i32 sig = i32(o.arg(0)); bool tg = o.k == "t"; int who = tid; if (tg && threads && o.arg(1)) { auto e = live.begin(); std::advance(e, o.arg(1) % live.size()); who = e->first; }
			if (tg) { num(131); A(0, 1); A(1, who); A(2, o.arg(0)); } else { num(130); A(0, tid); A(1, o.arg(0)); } res = 0;
			if (sig == 0) {} else if (sig < 1 || sig > 64) { may_throw = true; throw_type = loongarch::INVALID_PROGRAM; res = u64(-22); ctx.count("bad-signal-number"); }
			else { Disp& d = disp[sig];
				if (d.handler == 1) ctx.count("raise:ignored");
				else if (d.handler == 0) { ctx.count("raise:default");
					if (tg && sig == 6) { may_throw = true; throw_type = loongarch::GUEST_ABORT; res = ~7ull; ctx.count("raise:abort"); }
					else if (tg && threads) { if (who == 0) { ended = true; sc.done = true; } else { exits = who == tid; live.erase(who); alt.erase(who); } } }
				else if (who == tid) { entered = true; enter = deliver(n, sig, tid); ctx.count("raise:handled"); if (bad_handler(sig)) { may_throw = true; throw_type = -2; ctx.count("bad-handler"); } }
				else { T& o2 = live[who]; Regs b = o2.want; if (bad_handler(sig)) { /* would only fault later, in that thread */ num(130); A(1, 0); }
					else { b.r[20]--; Regs e = deliver(b, sig, who); /* not yet back from its own call */ if (!o2.redirected) e.r[21]--; o2.redirected = true; o2.want = e; o2.known = true; o2.blocked = false; ctx.count("raise:other-thread"); if (alt[who].set() && (disp[sig].flags & 0x08000000)) ctx.count("raise:other-thread-altstack"); } } }
		} else if (o.k == "c") { if (!threads || live.size() > 12) { num(178); res = tid; } else { child_sp = l.stack - 0x1000 - 0x80 * ++nstack; num(220); A(0, 0x10f00); A(1, child_sp); A(2, 0); A(3, 0); A(4, 0); child_of = tid; known = false; } }
		else if (o.k == "y") { num(threads ? 124 : 178); if (!threads) res = tid; } else if (o.k == "w") { u32 v; memcpy(&v, mem + word, 4); if (!threads || live.size() == 1) { num(178); res = tid; } else { num(98); A(0, word); A(1, 128); A(2, v); A(3, 0); t.blocked = true; } }
		else if (o.k == "u") { num(98); A(0, word); A(1, 129); A(2, 100); known = false; if (!threads) { num(178); } else for (auto& e : live) e.second.blocked = false; }
		else if (o.k == "x") { if (!threads || tid == 0) { num(178); res = tid; } else { num(93); A(0, 0); exits = true; live.erase(tid); alt.erase(tid); } }
		else { auto& sa = m.sigaction(int(o.arg(0, 1))); Disp& d = disp[int(o.arg(0, 1))]; ctx.check(d.handler ? sa.handler == d.handler : sa.is_unset(), "host-view", fmt("the host sees handler %llx for signal %d, the guest set %llx", (long long)sa.handler, int(o.arg(0, 1)), (long long)d.handler)); num(178); res = tid; }
		if (child_of >= 0) { child_regs = n; child_regs.r[3] = child_sp; child_regs.r[4] = 0; child_regs.r[20]++; child_regs.r[21]++; child_regs.r[11] = HOOK; child_regs.pc = n.r[22] + 8; }
		n.put(m); if (exits) return;
		want = n; if (entered) want = enter; else { want.r[20]++; want.r[21]++; want.r[11] = HOOK; want.r[4] = res; want.pc = n.r[22] + 8; }
		t.want = want; t.known = known;
	};
	sc.run(p.get("seed"), p.get("mode"), [&](std::exception_ptr e) {
		try { std::rethrow_exception(e); }
		catch (const MachineException& x) {
			ctx.ev("exception", x.type(), x.data()); ctx.count("exceptions"); if (chk.on && !chk.untouched && last == "a") check_buf(); chk.on = false;
			ctx.check(may_throw, "unexpected-exception", fmt("%s (data %llx) after %s", x.what(), (long long)x.data(), last.c_str()));
			if (throw_type >= 0) ctx.check(x.type() == throw_type, "wrong-exception", fmt("exception type %d instead of %d after %s", x.type(), throw_type, last.c_str()));
			may_throw = false; T& t = live[cur]; t.fresh = true; if (throw_type == -2) { ctx.check(m.cpu.reg(3) == t.want.r[3], "wrong-stack", "a handler at a bad address was entered on the wrong stack"); }
			m.cpu.registers().pc = sc.site(1); m.cpu.reg(22) = sc.site(2);
		} });
	ctx.simtime += m.instruction_counter(); ctx.count("steps", sc.hooks); ctx.count(threads ? "runs:threads" : "runs:single");
}
Register r1({"P14", "signals", "tables of dispositions and alternate stacks with the acting thread", "host-scripted guest threads set, read back and raise signals with numbers over and beyond the valid range, handlers at the edges of and outside the code, alternate stacks and bad pointers, on themselves and on each other, under random budgets and all engines, against a model of dispositions and stacks; full register files are compared at every step",
	gen, exec, 400000, 8000000, {"signal tables and system calls", "guest threads", "all three engines", "guest memory"}, {"the guest's own code, scripted by the simulator"}});
} // namespace
