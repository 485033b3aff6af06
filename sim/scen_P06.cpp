#include "script.hpp"
#include <libloong/posix/threads.hpp>
using namespace scr;
// ops, each made by whichever guest thread runs next:
//  g gettid            s W set_tid_address  y yield       w W SAME BITS wait      k W N BITS wake
//  c FLAGS W1 W2 K     clone / clone3       x exit        X exit_group            t KIND SIG I kill
//  v W V host store    b bad futex op       B clone with a bad pointer            n nothing (system call without effect on threads)
namespace {
enum { WORDS = 6 };
Plan gen(Rng& r, int tier) {
	Plan p; p.cfg["mode"] = r.below(4); p.cfg["high"] = r.chance(1, 40); p.cfg["seed"] = r.next(); u32 style = r.below(5); p.cfg["bits"] = r.below(3);
	int n = r.range(4, tier ? 220 : 110); int clones = style == 0 ? 4 : style == 1 ? 60 : 14; u32 words = r.range(1, WORDS);
	for (int i = 0; i < n; i++) {
		u32 c = r.below(100); u64 W = r.below(words) + (r.chance(1, 12) ? 64 : 0);
		if (clones && (i < 4 || r.chance(clones, n + 10))) { p.add("c", {r.below(16), r.below(words), r.below(words), r.below(2)}); continue; }
		if (c < 30) p.add("w", {W, r.chance(9, 10), r.chance(1, 2) ? 0 : r.chance(1, 8) ? 0x100000000ull : r.chance(1, 2) ? 1ull << r.below(4) : r.range(1, 15)});
		else if (c < 56) p.add("k", {W, r.chance(1, 12) ? 0 : r.chance(1, 2) ? 1 : r.chance(1, 3) ? 0x7fffffff : r.range(1, 6), r.chance(3, 5) ? 0 : r.chance(1, 2) ? 1ull << r.below(4) : r.range(1, 15)});
		else if (c < 70) p.add("y"); else if (c < 74) p.add("g"); else if (c < 78) p.add("s", {r.below(words + 1)}); else if (c < 86) p.add("x", {r.below(50)});
		else if (c < 91) p.add("t", {r.below(6), r.chance(1, 5) ? 0 : r.range(1, 64), r.below(64)}); else if (c < 95) p.add("v", {W, r.below(3)}); else if (c < 97) p.add("b", {r.below(8)});
		else if (c < 98) p.add("B", {r.below(4)}); else p.add("n");
		if (r.chance(1, 400)) p.add("X");
	}
	return p;
}
struct T { int tid; Regs want; enum S { RUN, READY, BLOCKED } s = READY; u64 word = 0; u32 mask = 0; u64 clear = 0; u64 since = 0; bool a0_known = true; };
void exec(const Plan& p, Ctx& ctx) {
	Layout l; const bool high = p.get("high"); if (high) l.size = (1ull << 32) + 0x40000;
	Script sc(l); auto& m = *sc.m; m.setup_posix_threads(); Rng rr(p.get("seed") | 1);
	u8* mem = sc.mem(); const u64 wbase = l.data + 0x100; std::vector<u32> words(256, 0);
	auto waddr = [&](u64 W) { u64 i = W & 63; return wbase + 4 * (i % WORDS) + ((W & 64) && high ? 1ull << 32 : 0); };
	std::map<u64, u32> model; // every futex word's value, with its neighbours as guards
	for (int i = -2; i < WORDS + 2; i++) for (int h = 0; h < (high ? 2 : 1); h++) { u64 a = wbase + 4 * i + (u64(h) << 32); u32 v = i < 0 || i >= WORDS ? 0xfeedface : 0; memcpy(mem + a, &v, 4); model[a] = v; }
	std::map<u64, T> live; // by stack pointer: no guest code changes it
	std::set<int> tids; size_t pos = 0; u64 switches = 0; u64 next_sp = l.stack - 0x1000; T* cur = nullptr; u64 nstack = 0; bool expect_stop = false; int maxtid = 0; const char* lastop = "start";
	// what the system call just made has to do to the others, settled when the guest is next seen
	struct { bool wake = false; u64 addr = 0; u32 mask = 0; u64 n = 0; u64 sp = 0; bool report = false; bool sched = false; u64 child = 0, parent = 0, w1 = 0, w2 = 0; } pend;
	auto words_ok = [&](const char* where) { for (auto& e : model) { u32 v; memcpy(&v, mem + e.first, 4); ctx.check(v == e.second, "memory", fmt("%s: word %llx is %x, not %x (after %s)", where, (long long)e.first, v, e.second, lastop)); } };
	auto settle = [&] {
		if (pend.child) { // the new thread's number: from the thread manager if the child runs first, else from the parent's result
			u64 sp = m.cpu.reg(3); ctx.check(sp == pend.child || sp == pend.parent, "unknown-thread", fmt("a thread with stack %llx runs after a clone", (long long)sp));
			int tid = sp == pend.child ? m.gettid() : int(m.cpu.reg(4)); ctx.check(tid > 0 && !tids.count(tid), "tid-reused", fmt("thread id %d is not new", tid)); tids.insert(tid); maxtid = std::max(maxtid, tid);
			live[pend.child].tid = tid; live[pend.parent].want.r[4] = tid; if (pend.w1) model[pend.w1] = tid; if (pend.w2) model[pend.w2] = tid;
			if (sp == pend.parent) { live[pend.child].s = T::READY; live[pend.child].since = switches; live[sp].s = T::RUN; }
		}
		if (pend.wake) {
			std::set<int> bl; for (auto* t : m.threads().blocked_threads()) bl.insert(t->tid);
			u64 match = 0, woken = 0;
			for (auto& e : live) { T& t = e.second; if (t.s != T::BLOCKED) continue; bool is = t.word == pend.addr && (t.mask & pend.mask); match += is; bool left = !bl.count(t.tid);
				if (left && !is) { if (!(t.tid == 0)) ctx.fail("wrong-wake", fmt("thread %d, which waits on %llx mask %x, was released by a wake of %llx mask %x", t.tid, (long long)t.word, t.mask, (long long)pend.addr, pend.mask)); }
				if (left && is) { woken++; t.s = T::READY; t.since = switches; } }
			u64 want = std::min(pend.n, match);
			// the all-blocked escape may have released the main thread as well
			ctx.check(woken == want || (woken == want + 1 && pend.sched && live.begin() != live.end()), "wake-count", fmt("%s of %llu on %llx mask %x released %llu of %llu waiters", lastop, (long long)pend.n, (long long)pend.addr, pend.mask, (long long)woken, (long long)match));
			if (pend.report && live.count(pend.sp)) { T& t = live[pend.sp]; t.want.r[4] = want; t.a0_known = true; }
			ctx.count("woken", woken); if (match > woken) ctx.count("left-waiting", match - woken);
		}
		pend = {};
	};
	auto drop = [&](u64 sp) { live.erase(sp); };
	auto gone = [&](u64 sp) { // a thread ends: clears its word, wakes one waiter
		T t = live[sp]; drop(sp); if (t.clear) { model[t.clear] = 0; pend.wake = true; pend.addr = t.clear; pend.mask = ~0u; pend.n = 1; pend.report = false; ctx.count("exit-notification"); } };
	sc.hook = [&] {
		Regs g = Regs::of(m); u64 sp = g.r[3]; settle(); words_ok("at a step");
		if (expect_stop) ctx.fail("ran-after-end", fmt("a guest thread ran after %s", lastop));
		if (live.empty()) { T t; t.tid = 0; t.s = T::RUN; t.want = g; live[sp] = t; tids.insert(0); }
		auto it = live.find(sp); ctx.check(it != live.end(), "unknown-thread", fmt("a thread with stack %llx runs, which no clone made or which has ended (after %s)", (long long)sp, lastop));
		T& t = it->second; bool escape = false;
		if (t.s == T::BLOCKED) {
			bool any = false; for (auto& e : live) any |= e.second.s == T::READY || e.second.s == T::RUN;
			ctx.check(t.tid == 0 && !any, "ran-while-blocked", fmt("thread %d runs although it waits on %llx and nobody woke it (after %s)", t.tid, (long long)t.word, lastop)); escape = true; ctx.count("escape"); }
		for (auto& e : live) if (&e.second != &t && e.second.s == T::RUN) ctx.fail("two-running", fmt("thread %d runs while %d never gave up the processor (after %s)", t.tid, e.second.tid, lastop));
		t.s = T::RUN; cur = &t;
		Regs w = t.want; if (!t.a0_known) w.r[4] = g.r[4]; w.ll = g.ll;
		if (t.want.r[11] != ~0ull) { Diff d = diff(w, g); ctx.check(!d.any, "context", fmt("thread %d resumes with %s (wanted vs found; after %s)", t.tid, d.what.c_str(), lastop)); }
		u64 alive = live.size();
		for (auto& e : live) if (e.second.s == T::READY) ctx.check(switches - e.second.since <= 2 * 50 + 4 && switches - e.second.since <= 2 * tids.size() + 4, "starved", fmt("thread %d has not run for %llu scheduling points with %llu threads", e.second.tid, (long long)(switches - e.second.since), (long long)alive));
		u64 h = 7; std::vector<u64> st; for (auto& e : live) st.push_back(e.second.s * 1000 + (e.second.s == T::BLOCKED ? e.second.word % 97 + e.second.mask * 128 : 0)); std::sort(st.begin(), st.end()); for (u64 x : st) h = mix(h, x); ctx.state(h);
		ctx.ev("at", t.tid, escape, g.r[4]); ctx.nontrivial++;
		// choose the next step
		if (pos >= p.ops.size()) { sc.done = true; m.stop(); ctx.count("end:plan"); return; }
		auto& o = p.ops[pos++]; lastop = o.k.c_str();
		// fresh registers, remembered
		Regs n = g; for (int i = 1; i < 32; i++) if (i != 3 && i != 2 && i != 20 && i != 21) n.r[i] = rr.next(); for (int i = 0; i < 32; i++) if (rr.chance(1, 4)) n.v[i][rr.below(4)] = rr.next(); n.fcc = rr.below(256);
		n.r[22] = sc.site(rr.below(SITES)); auto A = [&](int i, u64 v) { n.r[4 + i] = v; }; auto num = [&](u64 v) { n.r[11] = v; };
		Regs& want = t.want; bool setw = false; i64 res = 0; bool known = true; auto result = [&](i64 v) { res = v; setw = true; };
		auto ready_others = [&] { u64 c = 0; for (auto& e : live) c += &e.second != &t && e.second.s == T::READY; return c; };
		u64 target = 0; bool leave = false; T::S ns = T::RUN;
		if (o.k == "g") { num(178); result(t.tid); }
		else if (o.k == "s") { u64 a = o.arg(0) ? waddr(o.arg(0) - 1) : 0; num(96); A(0, a); t.clear = a; result(t.tid); }
		else if (o.k == "y") { num(124); result(0); if (ready_others()) { ns = T::READY; switches++; } }
		else if (o.k == "w") {
			u64 a = waddr(o.arg(0)); u32 v = model[a]; bool same = o.arg(1) & 1; u32 bits = o.arg(2); bool bitset = o.arg(2) != 0; num(rr.chance(1, 2) ? 98 : 422); A(0, a); A(1, (bitset ? 9 : 0) | (rr.chance(1, 2) ? 128 : 0) | (rr.chance(1, 4) && bitset ? 256 : 0)); A(2, (u64)(i64)(i32)(same ? v : v + 1)); A(3, 0); A(4, rr.next()); A(5, bits);
			if (bitset && !bits) result(-22);
			else if (!same) { result(-11); if (ready_others()) { ns = T::READY; switches++; } }
			else if (live.size() == 1) { model[a] = 0; result(0); ctx.count("deadlock-unlock"); }
			else { ns = T::BLOCKED; t.word = a; t.mask = bitset ? bits : ~0u; result(0); switches++; ctx.count("blocked"); }
		} else if (o.k == "k") {
			u64 a = waddr(o.arg(0)); bool bitset = o.arg(2) != 0; num(rr.chance(1, 2) ? 98 : 422); A(0, a); A(1, (bitset ? 10 : 1) | (rr.chance(1, 2) ? 128 : 0)); A(2, o.arg(1)); A(5, bitset ? o.arg(2) : rr.next()); A(3, 0);
			pend.wake = true; pend.addr = a; pend.mask = bitset ? u32(o.arg(2)) : ~0u; pend.n = o.arg(1); pend.sp = sp; pend.report = true; setw = true; known = false; }
		else if (o.k == "c" || o.k == "B") {
			bool bad = o.k == "B"; u64 f = o.arg(0), flags = 0; u64 stack = (next_sp -= 0x40) , w1 = bad ? (1ull << 45) : waddr(o.arg(1)), w2 = waddr(o.arg(2)); if (next_sp < l.data + 0x9000) { next_sp = l.stack - 0x1000 + 8 * (++nstack); stack = next_sp -= 0x40; }
			if (live.count(stack)) { num(178); result(t.tid); } else {
			if (f & 1 || bad) flags |= 0x01000000; if (f & 2) flags |= 0x00100000; if (f & 4) flags |= 0x00200000; u64 tls = f & 8 ? rr.next() | 1 : 0; if (f & 8) flags |= 0x80000; flags |= 0x10f00;
			bool full = live.size() >= 50;
			if (o.arg(3) & 1) { num(435); u64 args[11] = {flags, 0, w1, w2, 0, stack - 0x1000, 0x1000, tls, 0, 0, 0}; u64 at = l.data + 0x1000 + rr.below(64) * 8; memcpy(mem + at, args, sizeof args); A(0, at); A(1, sizeof args); }
			else { num(220); A(0, flags); A(1, stack); A(2, w2); A(3, w1); A(4, tls); }
			if (full || bad) { setw = true; known = false; ctx.count(full ? "too-many-threads" : "bad-clone"); }
			else { target = stack; // settled below
				int tid = -1; T c; c.tid = tid; c.s = T::RUN; c.want = n; c.want.r[3] = stack; if (tls) c.want.r[2] = tls; c.want.r[4] = 0; c.want.r[21]++; c.want.r[20]++; c.want.pc = n.r[22] + 8; c.want.r[11] = HOOK; c.clear = f & 4 ? w1 : 0;
				pend.child = stack; pend.parent = sp; pend.w1 = f & 1 ? w1 : 0; pend.w2 = f & 2 ? w2 : 0; result(0); ns = T::READY; live[stack] = c; switches++; } } }
		else if (o.k == "x") { num(93); A(0, o.arg(0)); leave = true; }
		else if (o.k == "X") { num(94); expect_stop = true; leave = false; result(0); known = false; sc.done = true; ctx.count("end:exit_group"); }
		else if (o.k == "t") {
			num(131); A(0, 1); u64 sig = o.arg(1) & 127; if (sig > 64) sig = 64; if (sig == 6) sig = 5; /* abort() ends the program: P14 */ std::vector<u64> c; for (auto& e : live) c.push_back(e.first); u64 who = c[o.arg(2) % c.size()]; u64 kind = o.arg(0) % 6;
			if (kind == 0) who = sp; // itself
			if (kind == 1) for (u64 x : c) if (live[x].s == T::BLOCKED) who = x;
			if (kind == 2) for (u64 x : c) if (live[x].s == T::READY) who = x;
			if (kind == 3 || (live[who].tid == 0 && kind != 4)) { int none = 0; do none = 1 + rr.below(2000); while (tids.count(none) && [&] { for (auto& e : live) if (e.second.tid == none) return true; return false; }()); A(1, none); A(2, sig); result(-3); ctx.count("kill:nobody"); }
			else { A(1, live[who].tid); A(2, sig);
				if (!sig) { result(0); }
				else if (live[who].tid == 0) { if (live[who].clear) model[live[who].clear] = 0; expect_stop = true; sc.done = true; result(0); known = false; ctx.count("end:main-killed"); }
				else if (who == sp) leave = true;
				else { ctx.count(live[who].s == T::BLOCKED ? "kill:blocked" : "kill:ready"); gone(who); pend.report = false; result(0); } } }
		else if (o.k == "v") { u64 a = waddr(o.arg(0)); u32 v = o.arg(1); memcpy(mem + a, &v, 4); model[a] = v; num(178); result(t.tid); }
		else if (o.k == "b") { static const u64 ops[] = {2, 3, 4, 5, 6, 7, 8, 11}; num(98); A(0, waddr(o.arg(0))); A(1, ops[o.arg(0) & 7]); A(2, 1); result(-22); }
		else { num(99); A(0, 0); result(0); }
		// the state this thread has to come back with
		Regs put = n; put.put(m);
		want = n; want.r[20]++; want.r[21]++; want.r[11] = HOOK; want.r[4] = u64(res); want.pc = n.r[22] + 8; t.a0_known = known; (void)setw; (void)target;
		t.s = ns; if (ns == T::READY) t.since = switches;
		if (leave) { ctx.count("exit"); if (t.tid == 0) { if (t.clear) { model[t.clear] = 0; } expect_stop = true; sc.done = true; ctx.count("end:main-exit"); }
			else { gone(sp); pend.sched = true; switches++; } cur = nullptr; }
		if (o.k == "w" && ns == T::BLOCKED) pend.sched = true;
	};
	sc.run(p.get("seed"), p.get("mode"), [&](std::exception_ptr e) {
		try { std::rethrow_exception(e); }
		catch (const MachineException& x) {
			ctx.ev("exception", x.type(), x.data()); bool ok = !strcmp(lastop, "B") || (!strcmp(lastop, "c") && live.size() >= 50);
			ctx.check(ok && cur, "unexpected-exception", fmt("%s (data %llx) after %s", x.what(), (long long)x.data(), lastop));
			for (auto& w : model) memcpy(&w.second, mem + w.first, 4); // a failed clone may have written the parent's copy
			// the host sends the thread to its next site
			Regs r = cur->want; cur->s = T::RUN; r.pc = r.r[22]; r.r[20]--; r.put(m);
			for (int tid = maxtid + 1; tid < maxtid + 4; tid++) ctx.check(!m.threads().get_thread(tid), "failed-clone-left-thread", fmt("a failed clone left thread %d behind", tid)); for (auto& e : live) ctx.check(m.threads().get_thread(e.second.tid), "thread-lost", fmt("thread %d is gone after a failed clone", e.second.tid)); cur->a0_known = true;
		} });
	if (pend.wake) settle();
	if (expect_stop || sc.done) words_ok("at the end");
	ctx.simtime += m.instruction_counter(); ctx.count("steps", sc.hooks); ctx.count(high ? "words-above-4GB" : "plain", 1); ctx.count("threads", tids.size());
}
Register r1({"P06", "threads", "multisets of thread states with the futex word and mask of each waiter", "host-scripted guest threads: which call each thread makes next (clone, wait, wake, exit, kill, yield, tid registration) comes from the plan, under random budgets and all engines; every thread's full register file is refreshed before each call and compared when the thread is next seen, against a model of waiters, ready threads and futex words",
	gen, exec, 400000, 8000000, {"guest threads", "futex and clone system calls", "all three engines", "guest memory"}, {"the guest's own code, scripted by the simulator"}});
} // namespace
