#include "script.hpp"
#include "elf_guest.hpp"
#include <libloong/posix/threads.hpp>
using namespace scr;
// ops, made by whichever guest thread runs next:
//  w FD LEN KIND            write: KIND 0 valid, 1 runs off the end of memory, 2 wraps, 3 wild pointer
//  v FD N then N pieces     writev: i LEN KIND entries follow the v op     V KIND   writev with a bad vector
//  c clone   y yield   F N  host stream fails for good from its N-th write from here
//  t N    the N-th write of the host stream from here fails, once (unbuffered stream, one thread)
//  p LEN  host prints on the machine's behalf
namespace {
u64 rnd_len(Rng& r, bool big) { switch (r.below(12)) { case 0: return 0; case 1: return 1; case 2: return r.range(4090, 4100); case 3: return r.range(1, 20000); case 4: return big ? (1 << 20) + r.below(3) - 1 : r.range(1, 300); case 5: return big ? r.range(1 << 20, 5 << 20) / 4 : 1024; default: return r.range(1, 120); } }
Plan gen(Rng& r, int tier) {
	Plan p; p.cfg["mode"] = r.below(4); p.cfg["seed"] = r.next(); p.cfg["buf"] = r.below(4); if (r.chance(1, 10)) p.cfg["high"] = 2; p.cfg["partial"] = r.below(2); bool big = r.chance(1, 40); p.cfg["big"] = big; p.cfg["threads"] = r.chance(1, 2); int n = r.range(1, tier ? 60 : 30); bool faults = r.chance(1, 3);
	for (int i = 0; i < n; i++) {
		u32 c = r.below(100); u64 fd = r.chance(1, 14) ? (u64[]){0, 3, ~0ull, 1ull << 32}[r.below(4)] : 1 + r.below(2); if (r.chance(1, 20)) fd |= r.next() << 32;
		if (c < 38) p.add("w", {fd, rnd_len(r, big), r.chance(1, 14) ? r.range(1, 3) : 0});
		else if (c < 76) { int k = r.chance(1, 30) ? (int[]){1024, 1025, 500}[r.below(3)] : r.chance(1, 10) ? 0 : r.range(1, 9); p.add("v", {fd, u64(k)}); for (int j = 0; j < std::min(k, 12); j++) p.add("i", {k > 100 ? r.below(20) : rnd_len(r, big), r.chance(1, 40) ? r.range(1, 3) : 0}); }
		else if (c < 79) p.add("V", {r.below(4)}); else if (c < 85) p.add("c"); else if (c < 95) p.add("y"); else if (c < 97 && faults) p.add("F", {r.below(6)}); else if (c < 97) p.add("t", {r.below(4)}); else p.add("p", {rnd_len(r, big)});
	}
	return p;
}
void exec(const Plan& p, Ctx& ctx) {
	static const size_t sizes[] = {0, 4096, 64, 1024}; int bm = p.get("buf") & 3; seam::install_stdout(bm == 0 ? 0 : bm == 2 ? 2 : 1, sizes[bm] ? sizes[bm] : 1024); auto& out = seam::out(); out.partial = p.get("partial");
	Layout l; if (p.get("big")) { l.size = 0x600000; l.stack = 0x5ff000; } else { l.size = 0x60000; l.stack = 0x5f000; } l.raise(p.get("high"));
	Script sc(l); auto& m = *sc.m; const bool threads = p.get("threads"), once_ok = !threads && bm == 0; Machine::setup_linux_syscalls(); if (threads) m.setup_posix_threads(); Rng rr(p.get("seed") | 1); u8* mem = sc.mem();
	const u64 data = l.data + 0x4000, dlen = l.stack - 0x8000 - data; for (u64 i = 0; i < dlen; i += 8) { u64 v = rr.next(); memcpy(mem + data + i, &v, 8); } // random bytes, so any loss, repeat or swap shows
	std::string want; // everything asked to be written so far, in order
	size_t pos = 0, done_at = 0; std::string got; std::string last = "start"; u64 nst = 0; bool may_throw = false; bool faulty = false, lossy = false; std::set<u64> stacks; struct E { bool on = false; i64 res = 0; u64 lo = 0; bool io = false, once = false; u64 base = 0, failed = 0; }; std::map<u64, E> expect; // by stack pointer
	u64 child = 0; (void)done_at;
	auto compare = [&](const char* when, bool whole) {
		if (whole) fflush(stdout); got += out.data; out.data.clear();
		if (got.size() > want.size()) ctx.fail("extra-output", fmt("%s: %zu bytes arrived, only %zu were written", when, got.size(), want.size()));
		if (memcmp(got.data(), want.data(), got.size())) { size_t i = 0; while (got[i] == want[i]) i++; ctx.fail("wrong-output", fmt("%s: output differs from byte %zu on (after %s)", when, i, last.c_str())); }
		if (whole && !faulty) ctx.check(got.size() == want.size(), "lost-output", fmt("%s: %zu of %zu bytes arrived", when, got.size(), want.size())); };
	auto region = [&](u64 len, u64 kind) -> u64 { switch (kind) { case 1: return l.size - (len ? rr.below(len) : 0); case 2: return ~0ull - rr.below(len + 1); case 3: return rr.chance(1, 4) ? rr.below(64) : rr.next() | (1ull << 50); default: return data + rr.below(dlen - std::min(len, dlen - 1)); } };
	auto valid = [&](u64 at, u64 len) { return at >= l.code && at <= l.size && len <= l.size - at; };
	sc.hook = [&] {
		u64 sp = m.cpu.reg(3); auto& e = expect[sp];
		if (e.on) { i64 r = m.cpu.reg(4); e.on = false;
			if (e.once) { u64 took = u64(std::max<i64>(r, 0)); got += out.data; out.data.clear(); ctx.check(r <= e.res && (r >= 0 || r >= -4095), "byte-count", fmt("a write of %lld bytes reports %lld", (long long)e.res, (long long)r)); ctx.check(got.size() == e.base + took, "byte-count", fmt("a write in which one host write failed reports %lld, %llu bytes arrived", (long long)r, (long long)(got.size() - e.base))); if (out.failed + out.shortw == e.failed) ctx.check(r == e.res, "byte-count", fmt("%s reports %lld, %lld bytes were asked for", last.c_str(), (long long)r, (long long)e.res)); else { ctx.check(r != e.res, "byte-count", "a write in which a host write failed reports all of its bytes"); ctx.count("fault:transient"); } want.resize(std::min<u64>(want.size(), e.base + took)); }
			else if (e.io) { // the host refused bytes: an error, or the number taken
				ctx.check((r < 0 && r >= -4095) || (r >= 0 && r <= e.res), "byte-count", fmt("a write the host took part of reports %lld of %lld", (long long)r, (long long)e.res)); if (bm == 0 && e.res > 0 && out.fail_from == 0 && !out.partial) ctx.check(r < 0, "byte-count", "a write of which nothing was delivered reports success"); if (bm == 0) { fflush(stdout); u64 arrived = got.size() + out.data.size() - std::min<u64>(got.size() + out.data.size(), e.base); if (!lossy) ctx.check(arrived == u64(std::max<i64>(r, 0)), "byte-count", fmt("a write on a failing stream reports %lld, %llu bytes arrived", (long long)r, (long long)arrived)); if (r != e.res) lossy = true; } }
			else ctx.check(r == e.res, "byte-count", fmt("%s reports %lld, %lld bytes were asked for", last.c_str(), (long long)r, (long long)e.res)); }
		if (!faulty) compare("at a step", bm == 0); ctx.ev("at", want.size(), m.cpu.reg(4)); ctx.state(mix(hash_bytes(want.data(), std::min<size_t>(want.size(), 64)), want.size() * 64 + expect.size())); may_throw = false;
		if (pos >= p.ops.size()) { sc.done = true; m.stop(); return; }
		auto& o = p.ops[pos++]; last = o.k; for (int i = 4; i < 20; i++) m.cpu.reg(i) = rr.next(); m.cpu.reg(22) = sc.site(rr.below(SITES)); auto A = [&](int i, u64 v) { m.cpu.reg(4 + i) = v; }; auto num = [&](u64 v) { m.cpu.reg(11) = v; };
		E n; n.on = true; n.base = want.size(); n.once = once_ok && !faulty; n.failed = out.failed + out.shortw; if (n.once) { fflush(stdout); got += out.data; out.data.clear(); } auto asked = [&](u64 fd, const std::string& s) { (void)fd; want += s; n.res += s.size(); ctx.nontrivial++; };
		bool failing = out.fail_from != ~0ull;
		if (o.k == "t" && once_ok) out.fail_at.push_back(out.calls + o.arg(0));
		if (o.k == "w") { u64 len = o.arg(1); if (len > dlen) len = dlen; u64 at = region(len, o.arg(2)); i32 fd = i32(o.arg(0)); num(64); A(0, o.arg(0)); A(1, at); A(2, len);
			if (fd != 1 && fd != 2) { n.res = -1; n.on = false; expect[sp] = n; n.lo = 1; } else if (!valid(at, len)) { may_throw = true; ctx.count("invalid-range"); } else { if (!len && at == l.size) may_throw = true; asked(fd, std::string((char*)mem + at, len)); n.io = failing; } ctx.count("write"); }
		else if (o.k == "v") { i32 fd = i32(o.arg(0)); u64 k = o.arg(1), i = 0; u64 tab = l.data + 0x400 + 8 * rr.below(4); u64 room = k; std::vector<std::pair<u64, u64>> iv; while (pos < p.ops.size() && p.ops[pos].k == "i") { auto& q = p.ops[pos++]; u64 len = std::min(q.arg(0), dlen - 1); iv.push_back({region(len, q.arg(1)), len}); } if (iv.empty()) iv.push_back({data, 3}); (void)room; (void)i;
			if (k > 1025) k = 1025; for (u64 j = 0; j < k && j < 900; j++) { auto e2 = iv[j % iv.size()]; memcpy(mem + tab + j * 16, &e2.first, 8); memcpy(mem + tab + j * 16 + 8, &e2.second, 8); } if (k > 900 && k <= 1024) k = 900;
			if (k <= 1024) { u64 total = 0, fits = 0; for (; fits < k; fits++) { total += iv[fits % iv.size()].second; if (want.size() + total > (20u << 20)) break; } k = fits; } // keeps the volume of one run within bounds
			num(66); A(0, o.arg(0)); A(1, tab); A(2, k);
			if (k > 1024) { may_throw = true; n.res = -22; ctx.count("too-many-pieces"); } else if (fd != 1 && fd != 2) { n.on = false; } else { for (u64 j = 0; j < k; j++) { auto e2 = iv[j % iv.size()]; if (!e2.second) continue; if (!valid(e2.first, e2.second)) { may_throw = true; n.on = false; ctx.count("invalid-piece"); out.fail_at.clear(); break; } asked(fd, std::string((char*)mem + e2.first, e2.second)); } n.io = failing; } ctx.count("writev"); }
		else if (o.k == "V") { static const u64 bad[] = {1ull << 50, ~0ull - 7, 0, 0}; u64 at = o.arg(0) < 2 ? bad[o.arg(0)] : l.size - 16 * o.arg(0) + 40; num(66); A(0, 1); A(1, at); A(2, 5); if (o.arg(0) >= 2) { for (u64 a = at; a + 16 <= l.size; a += 16) { memset(mem + a, 0, 16); } } may_throw = true; n.on = false; ctx.count("bad-vector"); }
		else if (o.k == "c" && threads && stacks.size() < 12) { child = l.stack - 0x1000 - 0x100 * ++nst; stacks.insert(child); num(220); A(0, 0x10f00); A(1, child); A(2, 0); A(3, 0); A(4, 0); n.on = false; }
		else if (o.k == "F") { if (!failing) out.fail_from = out.calls + o.arg(0); faulty = true; if (bm == 0 && !failing && !o.arg(0)) out.fail_from = 0; num(178); n.on = false; ctx.count("fault:stream"); }
		else if (o.k == "p" && !(once_ok && std::any_of(out.fail_at.begin(), out.fail_at.end(), [&](u64 f) { return f >= out.calls; }))) { u64 len = std::min(o.arg(0), dlen); u64 at = data + rr.below(dlen - len); if (!failing) { if (rr.chance(1, 2)) m.print(std::string_view((char*)mem + at, len)); else m.print((char*)mem + at, len); want.append((char*)mem + at, len); } num(178); n.on = false; }
		else { num(threads ? 124 : 178); n.on = false; }
		expect[sp] = n;
	};
	sc.run(p.get("seed"), p.get("mode"), [&](std::exception_ptr x) {
		try { std::rethrow_exception(x); } catch (const MachineException& e) {
			ctx.ev("exception", e.type(), e.data()); ctx.check(may_throw, "unexpected-exception", fmt("%s (data %llx) after %s", e.what(), (long long)e.data(), last.c_str())); ctx.count("exceptions"); may_throw = false; expect[m.cpu.reg(3)].on = false; m.cpu.registers().pc = sc.site(1); m.cpu.reg(22) = sc.site(2); } });
	compare("at the end", true); ctx.count("bytes", got.size()); ctx.count("fault:full-disk-write", out.shortw); ctx.count("fault:refused-write", out.failed); ctx.simtime += m.instruction_counter();
	seam::install_stdout(1, 4096);
}
Register r1({"P12", "output", "amount and start of the output with the number of threads writing", "host-scripted guest threads write random bytes with write and writev (any sizes, empty, huge and invalid pieces, foreign descriptors) under random budgets and all engines to a stream with several buffer sizes that fails for good at some point, sometimes after taking part of a write; what arrives is compared with what was asked for",
	gen, exec, 150000, 3000000, {"output system calls", "print sink", "guest threads", "all three engines", "C library stream"}, {"the device behind the host's stream", "the guest's own code, scripted by the simulator"}});
} // namespace
