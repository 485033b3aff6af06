#include "elf_guest.hpp"
#include <libloong/debug.hpp>
using namespace egst;
// ops (top level, or children of the nest before them, run inside the guest's system call):
//  c FN FORM BUDGET A B   call function FN; BUDGET: 0..9 around the needed count, else instructions
//  n ID DEPTH FORM BUDGET KIDS END   call nest: its handler runs the next KIDS ops; END: 0 return, 1 throw, 2 post, 3 stop first, 4 let a child's failure escape, 5 post first
//  z BUDGET SEED          start spin with a small budget, run the next ops as register-preserving calls between its slices
namespace {
struct HostError { u64 id; };
enum { SYS_LOG = 500, SYS_THROW = 504, SYS_NEST = 505, SYS_POST = 506, SYS_EXIT = 507 };
enum Fn { ADD2, MIX8, MIX10, CMPU, CMPI, SMALL, FMIX, FRET, FMIX10, BOTH, HASH_S, HASH_C, HASH_A, USEPT, TWOPT, REC, SPIN, FOREVER, DEREF, FAULTMID, CALLLOG, CALLTHROW, CALLPOST, COUNT, HASHMEM, ALIGNS, NARROW, STDSTR, SCOPED, STRS3, STRS11, NOFN, BADADDR, FNS };
const char* const names[] = {"add2", "mix8", "mix10", "cmp_u32", "cmp_i32", "small", "fmix", "fret", "fmix10", "both", "hashstr", "hashstr", "hashstr", "usept", "twopt", "rec", "spin", "forever", "deref", "faultmid", "callsys", "callsys", "callsys", "count_up", "hashmem", "aligns", "add2", "hashstd", "hashstd", "strs3", "strs11", "no_such_function", "bad address"};
struct Pt { i32 x, y; double z; char tag[8]; };
struct alignas(16) Wide { u64 w[4]; };
enum class Small : u32 { Big = 0x80000005u, Little = 3 };
struct Out { enum K { Ok, Timeout, Exc, Host, Stopped } k = Ok; i64 v = 0; int type = 0; u64 data = 0; u64 id = 0; bool no_value = false; bool limit = false;
	std::string str() const { static const char* n[] = {"a result", "a timeout", "a machine exception", "a host exception", "a stop"}; return fmt("%s (value %llx, type %d, data %llx, id %llx)", n[k], (long long)v, type, (long long)data, (long long)id); } };
u64 bits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
u32 bits(float d) { u32 b; memcpy(&b, &d, 4); return b; }

struct Guest {
	u64 low = 0;
	std::shared_ptr<MachineOptions> opts; std::unique_ptr<Machine> m; std::map<std::string, u64> sy;
	std::function<void(Machine&)> nest; std::vector<std::array<i64, 4>> log; u64 throws = 0, posts = 0; i64 counter = 7; bool benign = false;
	Guest(bool high = false, u64 lo = 0) : low(lo) {
		auto& bin = load("n_calls"); opts = std::make_shared<MachineOptions>(); opts->memory_max = high ? (1ull << 32) + (2 << 20) : 2 << 20; opts->stack_size = 256 << 10; opts->brk_size = 64 << 10;
		m = std::make_unique<Machine>(std::string_view((const char*)bin.data(), bin.size()), *opts); m->set_options(opts); if (high) { u64 at = m->memory.mmap_allocate((1ull << 32) + (256 << 10)); m->memory.set_stack_address(at + (1ull << 32) + (256 << 10)); }
		m->setup_accelerated_heap(m->memory.mmap_allocate(16 << 10), 16 << 10);
		if (low) m->memory.set_stack_address(m->memory.stack_address() - low); // the host may leave it anywhere
		sy["vm_exit"] = m->address_of("vm_exit"); m->memory.set_exit_address(sy["vm_exit"]); m->set_userdata(this);
		for (auto n : names) sy[n] = m->address_of(n); sy["nest"] = m->address_of("nest");
		Machine::install_syscall_handler(SYS_LOG, [](Machine& mm) { auto& g = *mm.get_userdata<Guest>(); auto [a, i, b, four, five, six] = mm.sysargs<i64, i64, i64, i64, i64, i64>(); g.log.push_back({a, i, b, four * 100 + five * 10 + six}); mm.set_result(a * 3 + i); });
		Machine::install_syscall_handler(SYS_THROW, [](Machine& mm) { auto& g = *mm.get_userdata<Guest>(); g.throws++; if (!g.benign && mm.cpu.reg(5) + 1 == mm.cpu.reg(6)) throw HostError{mm.cpu.reg(4)}; mm.set_result(5); });
		Machine::install_syscall_handler(SYS_POST, [](Machine& mm) { auto& g = *mm.get_userdata<Guest>(); g.posts++; if (!g.benign && mm.cpu.reg(5) + 1 == mm.cpu.reg(6)) { mm.set_current_exception(std::make_exception_ptr(HostError{mm.cpu.reg(4) ^ 0x55})); mm.stop(); } mm.set_result(5); });
		Machine::install_syscall_handler(SYS_EXIT, [](Machine& mm) { mm.stop(); });
		Machine::install_syscall_handler(SYS_NEST, [](Machine& mm) { mm.get_userdata<Guest>()->nest(mm); });
	}
};
template <typename Ret> i64 val(Ret r) { if constexpr (std::is_same_v<Ret, double>) return bits(r); else if constexpr (std::is_same_v<Ret, float>) return bits(r); else return i64(r); }
// one call in the given form
template <typename Ret, typename... A> Out call(Guest& g, u64 form, u64 budget, const std::string& name, u64 addr, A&&... a) {
	Machine& m = *g.m; Out o; bool byname = addr == ~0ull; constexpr bool fp = std::is_floating_point_v<Ret>;
	try {
		switch (form) {
		case 0: o.v = val<Ret>(byname ? m.vmcall<Ret>(name, a...) : m.vmcall<Ret>(addr, a...)); break;
		case 1: o.v = val<Ret>(byname ? m.vmcall<Ret, 60>(name, a...) : m.vmcall<Ret, 60>(addr, a...)); break;
		case 2: o.v = val<Ret>(byname ? m.vmcall<Ret, 2000>(name, a...) : m.vmcall<Ret, 2000>(addr, a...)); break;
		case 3: m.timed_vmcall(byname ? m.address_of(name) : addr, budget, a...); o.v = val<Ret>(m.return_value<Ret>()); break;
		case 4: { u64 r = byname ? m.preempt<true, false>(budget, name, a...) : m.preempt<true, false>(budget, addr, a...); o.v = fp ? val<Ret>(m.return_value<Ret>()) : val<Ret>(Ret(r)); break; }
		case 5: { u64 r = byname ? m.preempt<false, false>(budget, name, a...) : m.preempt<false, false>(budget, addr, a...); o.limit = m.instruction_limit_reached(); o.v = fp ? val<Ret>(m.return_value<Ret>()) : val<Ret>(Ret(r)); if (o.limit) o.k = Out::Timeout; break; }
		case 6: { u64 r = byname ? m.preempt<true, true>(budget, name, a...) : m.preempt<true, true>(budget, addr, a...); o.v = fp ? 0 : val<Ret>(Ret(r)); o.no_value = fp; break; }
		default: { u64 r = byname ? m.preempt<false, true>(budget, name, a...) : m.preempt<false, true>(budget, addr, a...); o.v = fp ? 0 : val<Ret>(Ret(r)); o.no_value = fp; o.limit = true; break; } // a timeout is not visible here
		}
	} catch (const MachineException& e) { o.k = e.type() == loongarch::MACHINE_TIMEOUT ? Out::Timeout : Out::Exc; o.type = e.type(); o.data = e.data(); }
	catch (const HostError& e) { o.k = Out::Host; o.id = e.id; }
	return o;
}
// make a call and say what it must give
struct Want { Out::K k = Out::Ok; i64 v = 0; u64 id = 0; int type = -1; bool endless = false; };
Out dispatch(Guest& g, u64 fn, u64 form, u64 budget, bool byname, u64 A, u64 B, Want* w) {
	Rng r(A * 977 + B);
	u64 addr = byname ? ~0ull : g.sy[names[fn]]; std::string nm = names[fn]; Want d; if (!w) w = &d; i64 a[10]; double f[10]; for (int i = 0; i < 10; i++) { a[i] = i64(r.next()) >> r.below(60); f[i] = double(i64(r.next() % 2000001) - 1000000) / 16; }
	auto mix8 = [&] { i64 s = a[0]; for (int i = 1; i < 8; i++) s = i64(u64(s) * 31 + u64(a[i])); return s; };
	switch (fn) {
	case ADD2: w->v = i64(u64(a[0]) + u64(a[1])); return call<i64>(g, form, budget, nm, addr, a[0], a[1]);
	case MIX8: w->v = mix8(); return call<i64>(g, form, budget, nm, addr, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
	case MIX10: w->v = i64((u64(mix8()) * 31 + u64(a[8])) * 31 + u64(a[9])); return call<i64>(g, form, budget, nm, addr, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
	case CMPU: { u32 x = u32(a[0]), y = r.chance(1, 2) ? x : u32(a[1]); if (r.chance(1, 2)) { x |= 1u << 31; y |= 1u << 31; } w->v = (x == y) + 2 * (x < y) + 4 * (x > y); if (r.chance(1, 3)) { Small q = Small::Big; x = u32(q); w->v = (x == y) + 2 * (x < y) + 4 * (x > y); return call<i32>(g, form, budget, nm, addr, q, y); } return call<i32>(g, form, budget, nm, addr, x, y); }
	case CMPI: { i32 x = i32(a[0]), y = r.chance(1, 2) ? x : i32(a[1]); w->v = (x == y) + 2 * (x < y) + 4 * (x > y); return call<i32>(g, form, budget, nm, addr, x, y); }
	case SMALL: { signed char c = a[0]; unsigned char uc = a[1]; short s = a[2]; unsigned short us = a[3]; u32 u = a[4]; bool bb = a[5] & 1; w->v = c + 1000l * uc + 1000000l * s + 100000000000l * us + i64(u) * 7 + bb; return call<i64>(g, form, budget, nm, addr, c, uc, s, us, u, bb); }
	case FMIX: w->v = bits(f[0] * 2 + float(f[1]) * 3 + f[2] * 5 + float(f[3]) * 7); return call<double>(g, form, budget, nm, addr, f[0], float(f[1]), f[2], float(f[3]));
	case FRET: w->v = bits(float(f[0]) - float(f[1])); return call<float>(g, form, budget, nm, addr, float(f[0]), f[1]);
	case FMIX10: { static const int k[] = {1, 2, 3, 5, 7, 11, 13, 17, 19, 23}; double s = 0; for (int i = 0; i < 10; i++) s += k[i] * f[i]; w->v = bits(s); return call<double>(g, form, budget, nm, addr, f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9]); }
	case BOTH: w->v = i64(u64(a[0]) + u64(i64(f[0])) * 3 + u64(a[1]) * 5 + u64(i64(float(f[1]))) * 7 + u64(a[2]) * 11); return call<i64>(g, form, budget, nm, addr, a[0], f[0], a[1], float(f[1]), a[2]);
	case HASH_S: case HASH_C: case HASH_A: { std::string s; u64 n = fn == HASH_A ? 17 : r.chance(1, 4) ? r.below(600) : r.below(40); for (u64 i = 0; i < n; i++) s += char(1 + r.below(255)); u64 h = 5381; for (unsigned char c : s) h = h * 33 + c; w->v = i64(h * 33 + u64(a[1]));
		if (fn == HASH_S) return call<u64>(g, form, budget, nm, addr, s, a[1]); if (fn == HASH_C) return call<u64>(g, form, budget, nm, addr, s.c_str(), a[1]); char arr[18]; memcpy(arr, s.c_str(), 18); return call<u64>(g, form, budget, nm, addr, arr, a[1]); }
	case USEPT: { Pt p{i32(a[0]) >> 8, i32(a[1]) >> 8, f[0], {}}; for (int i = 0; i < 8; i++) p.tag[i] = r.next(); w->v = bits(p.x + 2.0 * p.y + 3.0 * p.z + (signed char)p.tag[a[2] & 7]); return call<double>(g, form, budget, nm, addr, p, a[2]); }
	case TWOPT: { Pt p{i32(a[0]) >> 6, 0, 0, {}}, q{0, i32(a[1]) >> 6, 0, {}}; std::string s = "\x41\x22z"; w->v = p.x * 7 + q.y * 5 + s[0] * 3 + s[1]; return call<i64>(g, form, budget, nm, addr, p, s, q); }
	case REC: { i64 n = A % 30; u64 v = 1; for (i64 i = 1; i <= n; i++) v = v * 3 + i; w->v = i64(v); return call<i64>(g, form, budget, nm, addr, n); }
	case SPIN: { i64 n = A % 200; i64 s = 0; for (i64 i = 0; i < n; i++) s = i64(u64(s) + (u64(i) ^ (u64(s) << 1))); w->v = s; return call<i64>(g, form, budget, nm, addr, n); }
	case FOREVER: w->endless = true; w->k = Out::Timeout; return call<i64>(g, form, budget, nm, addr);
	case DEREF: w->k = Out::Exc; w->type = loongarch::PROTECTION_FAULT; return call<i64>(g, form, budget, nm, addr, u64(A | 1ull << 45));
	case FAULTMID: w->k = Out::Exc; w->type = loongarch::PROTECTION_FAULT; return call<i64>(g, form, budget, nm, addr, i64(A % 40) + 1, u64(B | 1ull << 45));
	case CALLLOG: { i64 n = A % 7; u64 v = 0; for (i64 i = 0; i < n; i++) v = v * 3 + (u64(a[0]) * 3 + i); w->v = i64(v); g.log.clear(); return call<i64>(g, form, budget, nm, addr, i64(SYS_LOG), a[0], n); }
	case CALLTHROW: case CALLPOST: { i64 n = A % 5 + 1; w->k = Out::Host; w->id = fn == CALLTHROW ? u64(a[0]) : u64(a[0]) ^ 0x55; return call<i64>(g, form, budget, nm, addr, i64(fn == CALLTHROW ? SYS_THROW : SYS_POST), a[0], n); }
	case COUNT: w->v = i64(u64(g.counter) + u64(a[0] >> 8)); return call<i64>(g, form, budget, nm, addr, i64(a[0] >> 8));
	case HASHMEM: { std::string s; u64 n = r.chance(1, 4) ? r.below(600) : r.below(40); for (u64 i = 0; i < n; i++) s += char(r.chance(1, 4) ? 0 : r.below(256)); u64 h = 5381; for (unsigned char c : s) h = h * 33 + c; w->v = i64(h * 33); return call<u64>(g, form, budget, nm, addr, s, u64(n)); } // bytes after an embedded zero, and the terminating one
	case ALIGNS: { std::string s(r.below(40), char(1 + r.below(255))); Wide x{{r.next(), r.next(), r.next(), 0}}; a[0] = g.low ? a[0] & ~1ll : a[0] | 1; w->v = i64((x.w[0] ^ x.w[2] ^ u64(a[0]) ^ u64((unsigned char)s.c_str()[0])) * 0x1000000); return call<i64>(g, form, budget, nm, addr, s, x, a[0]); }
	case NARROW: { u64 v = u64(a[0]) + u64(a[1]); switch (r.below(5)) { case 0: w->v = u8(v); return call<u8>(g, form, budget, nm, addr, a[0], a[1]); case 1: w->v = (signed char)v; return call<signed char>(g, form, budget, nm, addr, a[0], a[1]); case 2: w->v = short(v); return call<short>(g, form, budget, nm, addr, a[0], a[1]); case 3: w->v = u32(v); return call<u32>(g, form, budget, nm, addr, a[0], a[1]); default: w->v = i32(v); return call<i32>(g, form, budget, nm, addr, a[0], a[1]); } }
	case STDSTR: case SCOPED: { std::string s; u64 n = r.chance(1, 2) ? 14 + r.below(4) : r.below(200); for (u64 i = 0; i < n; i++) s += char(r.below(256)); u64 h = 5381; for (unsigned char c : s) h = h * 33 + c; w->v = i64((h * 33 + u64(a[1])) * 8 + 2 + (n <= 15)); // a C++ string of the guest, by value or from its heap
		if (fn == SCOPED) { loongarch::ScopedCppString o(*g.m, s); return call<u64>(g, form, budget, nm, addr, o, a[1]); }
		loongarch::GuestStdString o(*g.m, s); Out out = call<u64>(g, form, budget, nm, addr, o, a[1]); o.free(*g.m); return out; }
	case STRS3: case STRS11: { // also called by the debugger
		std::vector<std::string> t(fn == STRS3 ? 3 : 11); u64 h = fn == STRS3; for (auto& x : t) { u64 n = r.chance(1, 8) ? r.below(200) : r.below(20); for (u64 i = 0; i < n; i++) x += char(1 + r.below(255)); u64 q = 5381; for (unsigned char c : x) q = q * 33 + c; h = q * 33 + h; } w->v = i64(h);
		if (form == 3 && B & 1) { Machine& m = *g.m; Out o; loongarch::DebugMachine dm(m); dm.verbose_instructions = dm.verbose_registers = false;
			try { o.v = dm.vmcall(m.address_of(nm), budget, t); if (m.instruction_limit_reached()) o.k = Out::Timeout; } catch (const MachineException& e) { o.k = Out::Exc; o.type = e.type(); o.data = e.data(); } m.memory.set_exit_address(g.sy["vm_exit"]); return o; }
		if (fn == STRS3) return call<u64>(g, form, budget, nm, addr, t[0], t[1], t[2]); return call<u64>(g, form, budget, nm, addr, t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], t[10]); }
	case NOFN: w->k = Out::Exc; w->type = loongarch::INVALID_PROGRAM; { static const u64 f2[] = {0, 1, 2, 4, 4, 5, 6, 7}; return call<i64>(g, f2[form & 7], budget, nm, ~0ull, a[0]); }
	default: { w->k = Out::Exc; static const u64 bad[] = {0, 0x1234567890ull, ~0ull - 3, 2}; u64 at = A % 4 == 3 ? g.sy["add2"] + 2 : bad[A % 4]; w->type = A % 4 == 3 || at == 2 ? loongarch::MISALIGNED_INSTRUCTION : -2; return call<i64>(g, form, budget, nm, at, a[0]); }
	}
}
Plan gen(Rng& r, int tier) {
	Plan p; p.cfg["seed"] = r.next(); if (r.chance(1, 8)) p.cfg["high"] = 1; if (r.chance(1, 4)) p.cfg["low"] = r.below(16); u64 n = r.range(2, tier ? 40 : 20); bool nests = r.chance(3, 4); u64 id = 1; bool faults = r.chance(4, 5);
	auto fn = [&]() -> u64 { if (!faults) { u64 f; do f = r.below(FNS); while (f == FOREVER || f == DEREF || f == FAULTMID || f >= CALLTHROW); return f; } return r.below(FNS); };
	auto budget = [&]() -> u64 { return r.chance(1, 2) ? r.below(10) : r.chance(1, 2) ? r.range(10, 60) : r.range(10, 4000); };
	for (u64 i = 0; i < n; i++) {
		if (nests && r.chance(1, 3)) p.add("n", {id++, r.below(1000), r.below(8), r.chance(2, 3) ? 100000 : budget(), r.below(4), r.chance(1, 2) ? 0 : r.below(6)});
		else if (r.chance(1, 8)) { p.add("z", {r.range(10, 100), r.next(), r.below(4), r.below(5)}); }
		else p.add("c", {fn(), r.below(8), budget(), r.next() >> r.below(63), r.next() >> r.below(63)});
	}
	return p;
}
struct Sim {
	const Plan& p; Ctx& ctx; Guest g, ref; Rng rr; size_t pos = 0; std::map<std::tuple<u64, u64, u64>, u64> need; int level = 0;
	struct N { u64 kids, end; i64 result = 0; bool ran = false; bool escaped = false; Out esc; }; std::vector<N*> nests; std::string viol;
	Sim(const Plan& pp, Ctx& c) : p(pp), ctx(c), g(pp.get("high"), pp.get("low")), rr(pp.get("seed") | 1) { ref.benign = true; ref.nest = [](Machine& m) { m.set_result(1); }; g.nest = [this](Machine& m) { handler(m); }; }
	// instructions one undisturbed call needs
	u64 needed(u64 fn, u64 A, u64 B) { auto key = std::make_tuple(fn, A, B); auto it = need.find(key); if (it != need.end()) return it->second; if (fn == FOREVER) return need[key] = 1ull << 40; ref.log.clear(); dispatch(ref, fn, 3, 1000000, true, A, B, nullptr); if (fn >= NOFN) return need[key] = 0; return need[key] = ref.m->instruction_counter(); }
	u64 pick_budget(u64 b, u64 n) { return b >= 10 ? b : b < 5 && n < (1 << 20) ? std::max<u64>(1, n + b - std::min<u64>(n, 2)) : 1 + rr.below(std::min<u64>(n, 5000) + 20); }
	void judge(const char* what, const Want& w, Out o, u64 n, u64 form, u64 budget, bool bounded) {
		ctx.ev(what, o.k, o.k == Out::Ok ? (form == 7 ? 0 : o.v) : o.type, level); ctx.count(fmt("outcome:%s", o.k == Out::Ok ? "result" : o.k == Out::Timeout ? "timeout" : o.k == Out::Exc ? "guest-fault" : "host-exception"));
		if (o.k == Out::Timeout) { ctx.check(bounded && (n > budget || w.endless || w.k != Out::Ok), "timeout", fmt("%s needs %llu instructions, had %llu, and gave a timeout", what, (long long)n, (long long)(bounded ? budget : 0))); return; }
		if (form == 7 && bounded && (n > budget || w.k != Out::Ok) && o.k == Out::Ok) return; // a timeout, not reported in this form
		if (w.endless) ctx.fail("timeout", fmt("%s never ends, yet the call gave %s", what, o.str().c_str()));
		ctx.check(o.k == w.k, "outcome", fmt("%s (form %llu, budget %llu) gave %s, expected kind %d", what, (long long)form, (long long)budget, o.str().c_str(), int(w.k)));
		if (bounded && w.k == Out::Ok) ctx.check(n <= budget + 128, "timeout", fmt("%s needs %llu instructions and completed with %llu", what, (long long)n, (long long)budget));
		if (o.k == Out::Ok && !o.no_value) ctx.check(o.v == w.v, "result", fmt("%s (form %llu) returned %llx, expected %llx", what, (long long)form, (long long)o.v, (long long)w.v));
		if (o.k == Out::Host) ctx.check(o.id == w.id, "exception-data", fmt("%s: the host exception carries %llx, thrown was %llx", what, (long long)o.id, (long long)w.id));
		if (o.k == Out::Exc && w.type >= 0) ctx.check(o.type == w.type, "exception-type", fmt("%s: exception type %d (data %llx), expected %d", what, o.type, (long long)o.data, w.type));
		ctx.nontrivial++;
	}
	struct Before { Regs r; u64 max, cnt; bool lim, has; std::vector<u8> stack; u64 sp; };
	Before snap() { Machine& m = *g.m; Before b; b.r = Regs::of(m); b.max = m.max_instructions(); b.cnt = m.instruction_counter(); b.lim = m.instruction_limit_reached(); b.has = m.has_current_exception(); b.sp = m.cpu.reg(3); u64 top = m.memory.stack_address(); if (b.sp < top && top - b.sp < (256 << 10)) b.stack.assign(m.memory.arena_ptr() + b.sp, m.memory.arena_ptr() + top); return b; }
	void same(const Before& b, const char* when, bool threw) {
		Machine& m = *g.m; auto r = Regs::of(m); u64 a0 = r.r[4]; r.r[4] = b.r.r[4]; r.ll = b.r.ll; auto d = diff(b.r, r); (void)threw; (void)a0;
		ctx.check(!d.any, "registers-lost", fmt("%s: %s", when, d.what.c_str()));
		ctx.check(m.max_instructions() == b.max && m.instruction_counter() == b.cnt && m.instruction_limit_reached() == b.lim, "run-state-lost", fmt("%s: budget %llu counter %llu limit %d became %llu %llu %d", when, (long long)b.max, (long long)b.cnt, b.lim, (long long)m.max_instructions(), (long long)m.instruction_counter(), m.instruction_limit_reached()));
		ctx.check(m.has_current_exception() == b.has, "run-state-lost", fmt("%s: a posted exception %s", when, b.has ? "was lost" : "stayed"));
		if (!b.stack.empty()) ctx.check(!memcmp(m.memory.arena_ptr() + b.sp, b.stack.data(), b.stack.size()), "stack-lost", fmt("%s: the live stack changed", when));
	}
	// one op; inside: the register-preserving form only. Returns how the call ended.
	Out one(bool inside, bool escape) {
		auto& o = p.ops[pos++]; ctx.state(mix(mix(level, o.arg(0) * 8 + o.arg(1)), nests.size() ? nests.back()->end : 9));
		if (o.k == "c") {
			u64 fn = o.arg(0) % FNS, form = inside ? 6 + (o.arg(1) & 1) : o.arg(1) % 8, n = needed(fn, o.arg(3), o.arg(4)), budget = form == 1 ? 60 : form == 2 ? 2000 : pick_budget(o.arg(2), n); bool bounded = form != 0; if (fn == FOREVER && !bounded) form = 3, bounded = true, budget = 500;
			Want w; Before b; if (form >= 6) { b = snap(); } Out out = dispatch(g, fn, form, budget, o.arg(3) & 1, o.arg(3), o.arg(4), &w);
			if (fn == COUNT && g.m) { i64 now; g.m->memory.copy_from_guest(&now, counters(), 8); ctx.check(now == g.counter || now == w.v, "guest-state", "the guest's counter has a value no call gave it"); g.counter = now; }
			if (fn == CALLLOG) for (size_t i = 0; i < g.log.size(); i++) ctx.check(g.log[i][1] == i64(i) && g.log[i][3] == 456, "syscall-arguments", "a system call of a called function saw other arguments");
			if (form >= 6) { same(b, fmt("after calling %s", names[fn]).c_str(), out.k != Out::Ok); if (inside && out.k == Out::Ok) { u64 a0 = g.m->cpu.reg(4); if (form == 6 && !out.no_value && fn != NARROW) ctx.check(Out{Out::Ok, out.v}.v == narrow(fn, a0), "result", "the result register does not hold the nested call's result"); } }
			if (escape && out.k != Out::Ok) { nests.back()->escaped = true; nests.back()->esc = out; }
			judge(names[fn], w, out, n, form, budget, bounded); ctx.count(fmt("form:%llu", (long long)form)); return out;
		}
		if (o.k == "n") {
			if (level >= 4 || (inside && level >= 3)) return Out{};
			N st; st.kids = o.arg(4) % 6; st.end = o.arg(5) % 6; nests.push_back(&st); level++; u64 form = inside ? 6 + (o.arg(2) & 1) : o.arg(2) % 8; static u64 nn = 0; if (!nn) { ref.m->timed_vmcall(ref.sy["nest"], 100000, i64(1), i64(1), 1.0); nn = ref.m->instruction_counter(); }
			u64 budget = form == 1 ? 60 : form == 2 ? 2000 : pick_budget(o.arg(3), nn); i64 id = o.arg(0), depth = o.arg(1) % 1000; double x = double(i64(o.arg(0) * 37 + depth)) / 4; Before b; if (form >= 6) b = snap();
			std::string vi; Out out;
			out = call<i64>(g, form, budget, "nest", g.sy["nest"], id, depth, x);
			nests.pop_back(); level--; if (pending_violation) { auto v = *pending_violation; throw v; }
			if (form >= 6) same(b, "after a nested call of nest", out.k != Out::Ok);
			Want w; if (st.ran && (st.end == 1 || st.end == 2 || st.end == 5)) { w.k = Out::Host; w.id = u64(id) * 10 + st.end; } else if (st.ran && st.escaped) { w.k = st.esc.k; w.id = st.esc.id; w.type = st.esc.k == Out::Exc ? st.esc.type : -1; if (st.esc.k == Out::Timeout) { ctx.check(out.k == Out::Timeout, "outcome", fmt("a nested timeout left the handler, the outer call gave %s", out.str().c_str())); ctx.count("escaped"); return out; } }
			else if (st.ran && st.end == 3) { ctx.check(out.k == Out::Ok, "outcome", fmt("the handler stopped the machine, the call gave %s", out.str().c_str())); ctx.count("stopped"); return out; }
			u64 s = 0; for (int i = 0; i < 8; i++) s += (u64(id) * 100 + i) * (i + 1); w.v = i64(u64(st.result) * 1000003 + s + u64(i64((x * 1.5 + depth) * 4)));
			if (st.escaped && st.ran) ctx.count("escaped"); judge("nest", w, out, nn, form, budget, form != 0); return out;
		}
		if (o.k == "z" && !inside) { // pause a call, call others meanwhile, resume
			i64 n = 60 + o.arg(1) % 300; i64 s = 0; for (i64 i = 0; i < n; i++) s = i64(u64(s) + (u64(i) ^ (u64(s) << 1))); Machine& m = *g.m; bool timeout = false; u64 kids = o.arg(3) % 5;
			try { m.timed_vmcall(g.sy["spin"], o.arg(0), n); } catch (const MachineException& e) { ctx.check(e.type() == loongarch::MACHINE_TIMEOUT, "outcome", "the paused call gave another exception"); timeout = true; }
			ctx.check(timeout, "timeout", "a call that needs more gave no timeout"); u64 total = m.instruction_counter(); bool ended = false; u64 how = o.arg(2); (void)total;
			for (u64 k = 0; k <= 100000 && !ended; k++) {
				if (kids && pos < p.ops.size() && p.ops[pos].k == "c") { kids--; u64 a0 = m.cpu.reg(4); auto b = snap(); level++; one(true, false); level--; same(b, "while paused", false); m.cpu.reg(4) = a0; ctx.count("called-while-paused"); }
				switch (how) { case 0: ended = true; m.simulate(~0ull, 0); break; case 1: m.simulate(1 + rr.below(40), 0); ended = !m.instruction_limit_reached(); break; case 2: m.cpu.simulate_inaccurate(m.cpu.pc()); ended = true; break; default: { for (u64 c = 1 + rr.below(30); c && m.cpu.pc() != g.sy["vm_exit"]; c--) { m.set_instruction_counter(0); m.set_max_instructions(1); m.cpu.simulate_precise(); } ended = m.cpu.pc() == g.sy["vm_exit"]; } }
			}
			ctx.check(ended, "no-progress", "a resumed call never finished"); i64 v = m.return_value<i64>(); ctx.ev("resumed", v); ctx.check(v == s, "result", fmt("a call paused and resumed returned %llx, expected %llx", (long long)v, (long long)s)); ctx.nontrivial++; ctx.count("paused-and-resumed");
		}
		return Out{};
	}
	static i64 narrow(u64 fn, u64 a0) { return fn == CMPU || fn == CMPI ? i64(i32(a0)) : i64(a0); }
	u64 counters() { static u64 a = 0; if (!a) a = g.m->address_of("counters"); return a; }
	std::unique_ptr<Violation> pending_violation;
	void handler(Machine& m) {
		if (pending_violation || nests.empty()) { m.stop(); return; } N& st = *nests.back(); if (st.ran) { pending_violation.reset(new Violation{"syscall-repeated", "the system call of one nest was made twice"}); m.stop(); return; } st.ran = true; u64 id = m.cpu.reg(4), loc = m.cpu.reg(6);
		try {
			auto ex = Regs::of(m); for (int i = 0; i < 8; i++) { i64 v; m.memory.copy_from_guest(&v, loc + 8 * i, 8); ctx.check(v == i64(id * 100 + i), "syscall-arguments", "the live values of the calling function are not there"); }
			if (st.end == 3) m.stop(); if (st.end == 5) { m.set_current_exception(std::make_exception_ptr(HostError{id * 10 + 5})); m.stop(); }
			for (u64 k = 0; k < st.kids && pos < p.ops.size(); k++) { if (p.ops[pos].k == "z") { pos++; continue; } one(true, st.end == 4); ctx.count("nested-calls"); if (pending_violation) { m.stop(); return; } if (st.escaped) break; }
			m.cpu.reg(4) = ex.r[4]; auto d = diff(ex, Regs::of(m)); if (ex.ll != m.cpu.ll_bit()) d.any = false; ctx.check(!d.any, "registers-lost", fmt("after all nested calls: %s", d.what.c_str()));
		} catch (const Violation& v) { pending_violation.reset(new Violation(v)); m.stop(); return; }
		if (st.escaped) { auto& e = st.esc; if (e.k == Out::Host) throw HostError{e.id}; throw MachineException(loongarch::ExceptionType(e.k == Out::Timeout ? loongarch::MACHINE_TIMEOUT : e.type), "escaped", e.data); }
		if (st.end == 1) throw HostError{id * 10 + 1}; if (st.end == 2) { m.set_current_exception(std::make_exception_ptr(HostError{id * 10 + 2})); m.stop(); }
		st.result = i64(rr.next() >> 20); m.set_result(st.result);
	}
};
void exec(const Plan& p, Ctx& ctx) {
	clear_shared(); Sim s(p, ctx); const bool high = p.get("high"); if (high) ctx.count("beyond-4GB"); while (s.pos < p.ops.size()) { s.one(false, false); ctx.simtime += s.g.m->instruction_counter(); }
	if (high) { const u8* a = s.g.m->memory.arena_ptr() + u32(s.g.m->memory.stack_address()) - 0x20000; static const u8 zeros[0x20000] = {}; ctx.check(!memcmp(a, zeros, 0x20000), "stack-elsewhere", "a call wrote to memory 4 GB below the stack"); }
	// whatever happened, plain calls still work
	Want w; Out o = dispatch(s.g, MIX10, 0, 0, true, 3, 4, &w); ctx.check(o.k == Out::Ok && o.v == w.v, "result", fmt("a plain call at the end gave %s", o.str().c_str()));
}
Register r1({"P07", "calls", "kind of call, its nesting depth and the state of the system call around it", "host-to-guest calls in every form with every kind of argument, budgets around the needed count, guest faults, missing functions, system-call handlers that throw or post, calls made inside system calls up to four deep and while another call is paused, failures that escape through several levels; results, exceptions, registers, live stack and run state are compared with the host's own computation",
	gen, exec, 900000, 12000000, {"vmcall, timed_vmcall and preempt", "argument passing", "all three engines", "ELF loader and symbol lookup"}, {"none: the guest functions are compiled C"}});
} // namespace
