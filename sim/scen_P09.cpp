#include "elf_guest.hpp"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace egst;
// The executable: cfg bin (which guest). ops that damage it, applied in order:
//  t LEN truncate   w OFF N V overwrite N bytes with V   z OFF N torn: zeroes   c DST SRC N misplaced block   k OFF N lost bytes (the rest moves up)
//  a S CUT F  section S moves to the end of the file, which ends CUT bytes before the section does (F: its header says so)
// ops that use it:
//  b MEM STACK BRK FLAGS FAILAT FAILN MAXONE WHAT   build a machine; FLAGS bit0 shared, 1 donated memory, 2 at the end of a page, 3 undamaged bytes, 4 too little donated memory
//                                                   WHAT: 0 only build, 1 also set up Linux, 2 also run a little
//  q  the witness goes on     x  clear the shared cache
namespace {
const char* const bins[] = {"n_lib", "n_calls", "mixed"};
const char* const entry[] = {"work", "spin", "main"};
// ---- where the bytes lie: between two pages that cannot be read
struct Guarded { u8* base; size_t n; Guarded() { n = 4 << 20; base = (u8*)syscall(SYS_mmap, nullptr, n + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED) { perror("mmap"); _exit(3); } mprotect(base, 4096, PROT_NONE); mprotect(base + 4096 + n, 4096, PROT_NONE); base += 4096; }
	const u8* put(const std::vector<u8>& v, bool end) { u8* p = end ? base + n - v.size() : base; memcpy(p, v.data(), v.size()); return p; } };
Guarded& ground() { static Guarded g; return g; }
struct Donated { u8* p; size_t n; Donated() { n = 8 << 20; p = (u8*)syscall(SYS_mmap, nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } } };
Donated& donated() { static Donated d; return d; }
u64 rd(const std::vector<u8>& v, u64 o, int n) { u64 x = 0; if (o + n <= v.size()) memcpy(&x, v.data() + o, n); return x; }
Plan gen(Rng& r, int tier) {
	Plan p; u32 which = r.chance(1, 30) ? 2 : r.below(2); p.cfg["bin"] = which; const auto& v = load(bins[which]); u64 sz = v.size(), phoff = rd(v, 32, 8), shoff = rd(v, 40, 8), phn = rd(v, 56, 2), shn = rd(v, 60, 2);
	auto value = [&](u64 old) -> u64 { switch (r.below(14)) { case 0: return 0; case 1: return ~0ull - r.below(64); case 2: return sz - r.below(8); case 3: return sz + r.below(70); case 4: return (1ull << 63) + r.below(9) - 4; case 5: return (1ull << 32) + r.below(9) - 4; case 6: return old + r.below(17) - 8; case 7: return ~old + r.below(3); case 8: return 0 - old + r.below(sz); case 9: return r.next(); case 10: return r.below(sz); case 11: return old ^ 1ull << r.below(64); case 12: return (1 << 20) + r.below(8192) - 4096; default: return r.below(8); } };
	auto field = [&](u64 at, int n) { p.add("w", {at, u64(n), value(rd(v, at, n))}); };
	static const int eh[][2] = {{16, 2}, {18, 2}, {24, 8}, {32, 8}, {40, 8}, {54, 2}, {56, 2}, {58, 2}, {60, 2}, {62, 2}, {4, 1}, {0, 4}}; static const int ph[][2] = {{0, 4}, {4, 4}, {8, 8}, {16, 8}, {24, 8}, {32, 8}, {40, 8}, {48, 8}}; static const int sh[][2] = {{0, 4}, {4, 4}, {8, 8}, {16, 8}, {24, 8}, {32, 8}, {40, 4}, {44, 4}, {48, 8}, {56, 8}};
	int nm = r.chance(1, 5) ? 0 : r.chance(1, 2) ? 1 : r.range(1, 5);
	if (r.chance(1, 6)) { u64 s = r.chance(1, 2) ? rd(v, 62, 2) : r.below(shn); for (u64 k = 0; k < shn; k++) if (r.chance(1, 2) && rd(v, shoff + 64 * k + 4, 4) == 3) s = k; u64 cut = r.chance(1, 3) ? r.below(3) : r.below(24), tail = r.below(6); p.add("a", {s, cut, r.below(2), tail});
		if (tail && rd(v, shoff + 64 * s + 32, 8) > cut + tail) p.add("w", {shoff + 64 * r.below(shn), 4, rd(v, shoff + 64 * s + 32, 8) - cut - tail});
		u64 off = rd(v, shoff + 64 * s + 24, 8), n = rd(v, shoff + 64 * s + 32, 8); (void)off; if (rd(v, shoff + 64 * s + 4, 4) == 3) for (int k = r.below(4); k > 0; k--) { u64 t = r.below(shn); if (r.chance(1, 2)) p.add("w", {shoff + 64 * t, 4, n - r.below(12)}); else for (u64 q = 0; q < shn; q++) if (rd(v, shoff + 64 * q + 4, 4) == 2) { u64 so = rd(v, shoff + 64 * q + 24, 8), sn = rd(v, shoff + 64 * q + 32, 8); p.add("w", {so + 24 * r.below(sn / 24), 4, n - r.below(30)}); } } }
	if (r.chance(1, 8)) for (u64 k = 0; k < shn; k++) if (rd(v, shoff + 64 * k + 4, 4) == 2) { // symbol tables that name other string tables, further symbol tables
		u64 h = shoff + 64 * (r.chance(2, 3) ? k : r.below(shn)); p.add("w", {h + 4, 4, r.chance(1, 2) ? 2 : 11}); u64 n = r.chance(3, 4) ? shn : r.range(1, shn); if (n != shn) p.add("w", {60, 2, n}); p.add("w", {h + 40, 4, r.chance(1, 2) ? n : n + r.below(5) - 2}); if (r.chance(1, 3)) p.add("w", {h + 24, 8, r.chance(1, 2) ? rd(v, shoff + 64 * k + 24, 8) : sz - r.below(100)}); }
	for (int i = 0; i < nm; i++) switch (r.below(12)) {
		case 0: { u64 at[] = {r.below(sz), 64, phoff + 56 * r.below(phn + 1), shoff + 64 * r.below(shn + 1), r.below(200), sz - r.below(100)}; p.add("t", {at[r.below(6)] + (r.chance(1, 2) ? 0 : r.below(9) - 4)}); break; }
		case 1: p.add("w", {r.chance(1, 3) ? r.below(sz) : r.chance(1, 2) ? r.below(64 + 56 * phn) : shoff + r.below(64 * shn), 1, r.below(256)}); break;
		case 2: p.add("z", {r.chance(1, 2) ? r.below(sz) : r.below(sz / 512 + 1) * 512, r.chance(1, 2) ? 512 : 4096}); break;
		case 3: p.add("c", {r.below(sz / 64) * 64, r.below(sz / 64) * 64, r.chance(1, 2) ? 64 : 512}); break; case 4: p.add("k", {r.below(sz), r.range(1, 64)}); break;
		case 5: case 6: { auto& f = r.pick(eh); field(f[0], f[1]); break; }
		case 7: case 8: { auto& f = r.pick(ph); field(phoff + 56 * r.below(phn) + f[0], f[1]); break; }
		default: { u64 s = r.below(shn); if (r.chance(1, 3)) { for (u64 k = 0; k < shn; k++) if (rd(v, shoff + 64 * k + 4, 4) == 2) s = r.chance(1, 2) ? k : rd(v, shoff + 64 * k + 40, 4); } else if (r.chance(1, 2)) s = rd(v, 62, 2);
			u64 type = rd(v, shoff + 64 * s + 4, 4), off = rd(v, shoff + 64 * s + 24, 8), n = rd(v, shoff + 64 * s + 32, 8);
			if (type == 2 && r.chance(1, 3)) { static const int sy[][2] = {{0, 4}, {4, 1}, {6, 2}, {8, 8}, {16, 8}}; auto& f = r.pick(sy); field(off + 24 * r.below(n / 24) + f[0], f[1]); } else if (type == 3 && r.chance(1, 3)) { if (r.chance(1, 2)) { p.add("z", {off + n - 1, 1}); p.add("w", {off + n - 1, 1, 'x'}); } else p.add("w", {off + r.below(n), 1, r.below(2) * 120}); }
			else { auto& f = r.pick(sh); field(shoff + 64 * s + f[0], f[1]); } } }
	int nb = r.range(1, tier ? 12 : 6); static const u64 mems[] = {2 << 20, 1 << 20, 256 << 10, 4 << 20, 400 << 10, 1ull << 40, 1ull << 46, 4096, 0, 300001};
	u64 at = r.below(60);
	for (int i = 0; i < nb; i++) {
		if (r.chance(1, 5)) p.add("q"); if (r.chance(1, 8)) p.add("x"); bool mem = r.chance(1, 2);
		p.ops.push_back({"b", {which == 2 ? 8ull << 20 : r.chance(2, 3) ? 2 << 20 : r.pick(mems), r.chance(5, 6) ? 64 << 10 : r.below(2 << 20), r.chance(5, 6) ? 64 << 10 : r.below(1 << 20), u64(r.chance(3, 4)) | u64(r.chance(1, 4)) << 1 | u64(r.chance(2, 3)) << 2 | u64(r.chance(1, 4)) << 3 | u64(r.chance(1, 3)) << 4,
			mem ? ~0ull : at++, mem ? 1 : r.chance(2, 3) ? 1 : r.range(1, 1000), r.chance(9, 10) ? ~0ull : 1ull << r.range(6, 30), r.below(3)}});
	}
	p.add("q"); return p;
}
struct Prog { std::shared_ptr<MachineOptions> o; std::unique_ptr<Machine> m; };
void warm() { // one-time state of the library and the shared cache, before anything is accounted
	static bool done = false; if (done) return; done = true; auto& bin = load("n_lib");
	MachineOptions o; o.memory_max = 2 << 20; o.stack_size = 64 << 10; o.brk_size = 64 << 10; Machine m{std::string_view((const char*)bin.data(), bin.size()), o}; Machine::setup_linux_syscalls(); auto so = std::make_shared<MachineOptions>(o); m.set_options(so);
	m.setup_linux({"x"}, {}); auto& c = loongarch::get_shared_execute_segments(); for (u64 i = 0; i < 24; i++) c.get_segment(loongarch::SegmentKey::from(i, i, i)); clear_shared();
}
void exec(const Plan& p, Ctx& ctx) {
	static bool so = false; if (!so) { so = true; seam::install_stdout(); } warm(); clear_shared(); seam::alloc_reset(); seam::unprotect_maps(); auto& al = seam::alloc(); const u32 which = p.get("bin") % 3; std::vector<u8> bytes = load(bins[which]); const std::vector<u8> good = bytes;
	// a machine that was there before, in the middle of a call
	auto& wb = load("n_lib"); auto wit = std::make_unique<Elf>(wb, std::vector<std::string>{"w"}, true, 2 << 20, false); wit->m->memory.set_exit_address(wit->sym("vm_exit")); u64 wn = 4000, ww = 1; for (u64 i = 0; i < wn; i++) ww = ww * 3 + i;
	try { wit->m->timed_vmcall(wit->sym("spinner"), 500, wn); } catch (const MachineException&) {} bool wdone = false; const std::vector<u8> wmem(wit->m->memory.arena_ptr(), wit->m->memory.arena_ptr() + 4096 * 40);
	auto witness = [&](bool finish) { Machine& m = *wit->m; try { if (!wdone) { m.simulate(finish ? ~0ull : 700, 0); wdone = !m.instruction_limit_reached(); if (wdone) ctx.check(m.return_value<u64>() == ww, "other-machine", "a machine that was running during the builds computed something else"); } else { u64 v = m.vmcall<u64>(wit->sym("spinner"), 100ul), s = 1; for (u64 i = 0; i < 100; i++) s = s * 3 + i; ctx.check(v == s, "other-machine", "a machine built before the failed builds computes something else"); } } catch (const MachineException& e) { ctx.fail("other-machine", fmt("a machine built before the failed builds raised %s (%llx)", e.what(), (long long)e.data())); } };
	bool damaged = false; u64 dmg = 0;
	for (auto& o : p.ops) {
		u64 n = bytes.size(); dmg = o.k == "b" || o.k == "q" || o.k == "x" ? dmg : mix(dmg, hash_bytes(o.k.data(), o.k.size()) ^ (o.k == "w" || o.k == "a" ? o.arg(0) : o.arg(0) / 64));
		if (o.k == "t") { if (o.arg(0) < n) { bytes.resize(o.arg(0)); damaged = true; ctx.count("damage:truncated"); } }
		else if (o.k == "w") { for (u64 i = 0; i < std::min<u64>(8, o.arg(1)); i++) if (o.arg(0) < n && i < n - o.arg(0)) bytes[o.arg(0) + i] = o.arg(2) >> (8 * i); damaged = true; ctx.count("damage:overwritten"); }
		else if (o.k == "z") { for (u64 i = 0; i < o.arg(1) && i < 8192; i++) if (o.arg(0) < n && i < n - o.arg(0)) bytes[o.arg(0) + i] = 0; damaged = true; ctx.count("damage:torn"); }
		else if (o.k == "c") { u64 k = std::min<u64>(o.arg(2), 4096); if (o.arg(0) <= n && o.arg(1) <= n && k <= n - o.arg(0) && k <= n - o.arg(1)) { memmove(bytes.data() + o.arg(0), bytes.data() + o.arg(1), k); damaged = true; ctx.count("damage:misplaced"); } }
		else if (o.k == "a") { u64 sho = rd(bytes, 40, 8), h = sho + 64 * std::min<u64>(o.arg(0), 4096), off = rd(bytes, h + 24, 8), k = rd(bytes, h + 32, 8), cut = std::min<u64>(o.arg(1), 64); if (sho < n && h + 64 <= n && off <= n && k <= n - off && cut < k) { std::vector<u8> c(bytes.begin() + off, bytes.begin() + off + k - cut); if (u64 tl = o.arg(3) % 6; tl && tl < c.size()) memcpy(c.data() + c.size() - tl, ".text", tl); else if (cut & 1) c.back() = 'x'; memcpy(bytes.data() + h + 24, &n, 8); u64 nk = k - cut; if (o.arg(2)) memcpy(bytes.data() + h + 32, &nk, 8); bytes.insert(bytes.end(), c.begin(), c.end()); damaged = true; ctx.count("damage:section-at-the-end"); } }
		else if (o.k == "k") { if (o.arg(0) < n) { bytes.erase(bytes.begin() + o.arg(0), bytes.begin() + std::min<u64>(n, o.arg(0) + std::min<u64>(o.arg(1), 4096))); damaged = true; ctx.count("damage:lost-bytes"); } }
		else if (o.k == "q") witness(false); else if (o.k == "x") { clear_shared(); ctx.count("clears"); }
		else if (o.k == "b") {
			const u64 fl = o.arg(3); const bool undamaged = (fl & 8) || !damaged; auto& src = fl & 8 ? good : bytes; const u8* at = ground().put(src, fl & 4); const bool don = fl & 2; auto& d = donated(); u64 mem = std::min<u64>(o.arg(0), 1ull << 46); u64 f0 = al.failed, p0 = seam::protected_unmaps(); u64 dsize = 0;
			// what this build may leave behind: only entries of the shared cache, so start and end without any of its own
			std::exception_ptr ex; std::string what; bool built = false, tolerated = false; int stage = 0; auto opt = std::make_shared<MachineOptions>(); opt->memory_max = mem; opt->stack_size = o.arg(1); opt->brk_size = o.arg(2); opt->use_shared_execute_segments = fl & 1;
			u32 seedmark = 0xd0d0d0d0u ^ u32(o.arg(4)); if (don) { dsize = fl & 16 ? std::min<u64>(mem, d.n) : std::min<u64>(mem + 64, d.n); opt->custom_arena_pointer = d.p; opt->custom_arena_size = dsize; memset(d.p, 0, d.n); for (u64 i = (dsize + 3) & ~3ull; i + 4 <= d.n; i += 4096) memcpy(d.p + i, &seedmark, 4); seam::protect_map(d.p, d.n); }
			clear_shared(); std::vector<std::string> args{"prog", "with a rather long argument that does not fit in place"}, env{"LC_ALL=C", "X=a rather long environment string, too long to be kept in place"};
			seam::Alloc keep = al; u32 ep = al.epoch; seam::alloc_reset(); (void)keep; (void)ep; al.fail_at = o.arg(4); al.fail_count = std::max<u64>(1, o.arg(5)); al.max_single = std::max<u64>(64, o.arg(6)); al.on = true;
			{ std::unique_ptr<Machine> m; std::string_view sv((const char*)at, src.size());
			  try { m.reset(new Machine(sv, *opt)); stage = 1; if (o.arg(7)) { m->set_options(opt); m->setup_linux(args, env); stage = 2; } built = true; }
			  catch (const std::exception& e) { ex = std::current_exception(); char buf[100]; strncpy(buf, e.what(), 99); buf[99] = 0; al.on = false; what = buf; al.on = true; }
			  catch (...) { ctx.fail("not-an-exception-type", "building raised something that is not derived from std::exception"); }
			  bool starved = al.failed > 0; al.on = false;
			  if (starved) { ctx.count("fault:host-memory", al.failed); }
			  if (!built) { ctx.count(stage ? "failed:set-up" : "failed:build"); bool oom = false, me = false; try { std::rethrow_exception(ex); } catch (const std::bad_alloc&) { oom = true; } catch (const MachineException& e) { me = true; oom = e.type() == loongarch::OUT_OF_MEMORY; } catch (const std::length_error&) { tolerated = true; } catch (const std::exception&) {}
				ctx.check(oom || me || tolerated, "exception-type", fmt("building raised %s", what.c_str()));
				u64 need = which == 2 ? 3 << 20 : 1 << 20; bool roomy = mem >= need && (o.arg(1) >= 2048 || !o.arg(7)) && o.arg(1) <= 64 << 10 && o.arg(2) <= 64 << 10 && mem <= 8 << 20 && !(don && dsize < mem + 64 && dsize >= mem);
				ctx.check(!(undamaged && roomy && !starved), "good-program-refused", fmt("an undamaged program with %llu bytes of memory and no failing allocation was refused: %s", (long long)mem, what.c_str())); }
			  else { ctx.count(undamaged ? "built:undamaged" : "built:damaged"); 
				if (m->memory.arena_ptr()) ctx.check((m->memory.arena_ptr() == d.p) == (don && dsize >= mem), "wrong-memory", don ? "donated memory was not used" : "memory that was not donated is used");
				if (don && dsize >= mem) ctx.check(m->memory.arena_size() + 64 <= dsize, "wrong-memory", "the machine believes it has more memory than was donated");
				// look-ups on whatever symbols the file has
				for (auto nm : {"work", "main", "", "malloc"}) ctx.ev("sym", m->address_of(nm)); { auto* s = m->memory.lookup_symbol(0x20100); ctx.ev("lookup", s ? s->address : 0, s ? s->name.size() : 0); }
				if (o.arg(7) == 2 || undamaged) { if (!m->has_options()) m->set_options(opt); seam::take();
					if (undamaged && which == 0) { u64 s = 1; for (u64 i = 0; i < 50; i++) s = s * 3 + i; m->memory.set_exit_address(m->address_of("vm_exit")); u64 v = 0; try { v = m->vmcall<u64>(m->address_of("spinner"), 50ul); } catch (const MachineException& e) { what = e.what(); } ctx.check(v == s, "wrong-result", fmt("a machine built after failures computed %llx, expected %llx %s", (long long)v, (long long)s, what.c_str())); ctx.count("ran:undamaged"); }
					else { try { m->simulate(3000, 0); } catch (const std::exception&) { ctx.count("ran:fault"); } ctx.count("ran:damaged"); ctx.ev("ran", m->cpu.pc(), m->instruction_counter()); } seam::take(); } }
			  ctx.ev("build", built, stage, hash_bytes(what.data(), what.size())); al.on = true; }
			ex = nullptr; what = std::string(); what.shrink_to_fit(); al.on = false; clear_shared();
			ctx.check(al.live == 0, "leaked-allocation", fmt("%lld host allocations (%lld bytes) are left after a build that %s", (long long)al.live, (long long)al.live_bytes, built ? "succeeded and its machine's destruction" : "failed"));
			ctx.check(al.maps == 0, "leaked-mapping", fmt("%lld host mappings (%lld bytes) are left after a build that %s", (long long)al.maps, (long long)al.map_bytes, built ? "succeeded and its machine's destruction" : "failed"));
			ctx.check(al.bad_unmaps == 0, "bad-unmap", "memory that was not mapped, or another length of it, was unmapped"); u64 pu = seam::protected_unmaps(); seam::alloc_reset(); seam::unprotect_maps(); (void)f0; (void)p0;
			if (don) { ctx.check(pu == 0, "donated-memory-unmapped", "donated memory was unmapped"); for (u64 i = (dsize + 3) & ~3ull; i + 4 <= d.n; i += 4096) { u32 v; memcpy(&v, d.p + i, 4); ctx.check(v == seedmark, "outside-donated-memory", "memory behind the donated range was written"); } ctx.count("donated"); }
			ctx.state(mix(dmg, mix(built * 4 + stage, std::min<u64>(o.arg(4), 500)))); ctx.nontrivial++; ctx.simtime++;
		}
	}
	witness(true); witness(true); ctx.check(!memcmp(wmem.data(), wit->m->memory.arena_ptr(), 4096 * 33), "other-machine", "the program in another machine's memory changed");
	Elf after(wb, {"a"}, true, 2 << 20, false); after.m->memory.set_exit_address(after.sym("vm_exit")); u64 s = 1; for (u64 i = 0; i < 50; i++) s = s * 3 + i; ctx.check(after.m->vmcall<u64>(after.sym("spinner"), 50ul) == s, "other-machine", "a machine built afterwards computes something else");
}
Register r1({"P09", "builds", "kinds and places of damage with the number of the failing allocation and the outcome", "executables that are truncated, torn, shifted, bit-flipped or carry boundary values in header, segment, section and symbol fields, placed directly before or after an unreadable page, built with the n-th host allocation or mapping failing, with small, huge or donated memory, shared or not; balance of host allocations and mappings, donated memory, and machines built before, after and in the middle of a call are checked",
	gen, exec, 1200000, 15000000, {"ELF loader", "machine construction", "decoder", "shared decoded code", "Linux set-up"}, {"host allocation and mapping (seeded failures)"}, {"plain", "asan"}});
} // namespace
