#include "engine.hpp"
#include "interpose.hpp"
#include <libloong/native/heap.hpp>
#include <libloong/machine_vmcall.hpp>
#include <libloong/debug.hpp>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace eng; using namespace loongarch;
// Hostile guests. The guest's memory lies between gigabytes of unreadable addresses, flush with one end; the rest of its first
// or last page, and a host buffer the guest can compute the distance to, hold a secret.
// ops besides the program (engine.hpp):  R ENGINE N  run N instructions   C REG V  corrupt a register   X REG L V  a vector lane   W A V  corrupt memory   J PC  corrupt the pc
//      Y NR a0..a5  a system call     V A KIND BUDGET  a host-to-guest call   I  the host looks at the guest    G KIND A v0 v1 v2 v3  the host reads or changes a guest object with these words
//      Z A N V  the host asks for a view of guest memory     M KIND  accelerated functions on, threads on
// values with the top bits of HOSTPTR mean: distance of the host buffer plus the low 12 bits
namespace {
constexpr u64 HOSTPTR = 0x5ec0ull << 48; constexpr u64 CODE = 0x1000, DATA = 0x8000;
struct Ground { u8* mid; u64 n; u64* secret; Ground() { // at fixed addresses: the distance to the host buffer is visible to the guest
	const u64 G = 4ull << 30; n = 2 << 20; auto at = [&](u64 a, u64 len, int prot) { u8* p = (u8*)syscall(SYS_mmap, (void*)a, len, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != (u8*)a) { perror("mmap"); _exit(3); } return p; };
	mid = at(0x680000000000, 2 * G + n, PROT_NONE) + G; if (mprotect(mid, n, PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(3); } secret = (u64*)at(0x681000000000, 4096, PROT_READ | PROT_WRITE); } };
Ground& ground() { static Ground g; return g; }
u64 secret_word(u64 salt, u64 i) { return 0x5ec7e75ec7000000ull ^ salt << 56 ^ (i & 0xffffff); }
bool is_secret(u64 v, u64 salt) { return (v ^ salt << 56) >> 24 == 0x5ec7e75ec7ull; }
__attribute__((noinline)) void dirty_stack(u64 v) { volatile u64 a[4096]; for (auto& x : a) x = v; }
struct Image { std::vector<u8> bytes; u64 code_n; };
Image image(const std::vector<u32>& code, u64 longname) {
	Image im; u64 text = 120 + 56; text = (text + 15) & ~15ull; u64 code_n = code.size() * 4, ro = code_n + 512; std::vector<u8> b(text + ro + 1024); im.code_n = code_n;
	auto put = [&](u64 o, u64 v, int n) { memcpy(&b[o], &v, n); };
	put(0, 0x00010102464c457full, 8); put(16, 2, 2); put(18, 258, 2); put(20, 1, 4); put(24, CODE, 8); put(32, 64, 8); put(52, 64, 2); put(54, 56, 2); put(56, 2, 2); put(58, 64, 2);
	put(64, 1, 4); put(68, 5, 4); put(72, text, 8); put(80, CODE, 8); put(88, CODE, 8); put(96, ro, 8); put(104, ro, 8); put(112, 4096, 8);
	put(120, 1, 4); put(124, 6, 4); put(128, text + ro, 8); put(136, DATA, 8); put(144, DATA, 8); put(152, 1024, 8); put(160, 4096, 8); put(168, 4096, 8);
	memcpy(&b[text], code.data(), code_n); Rng r(7); for (u64 i = 0; i < 512; i++) b[text + code_n + i] = r.next(); for (u64 i = 0; i < 1024; i++) b[text + ro + i] = r.next(); memcpy(&b[text + ro + 0x3e0], "/proc/self/exe", 15);
	// section headers: null, text, strtab, symtab
	u64 str = b.size(); std::string names = std::string("\0.text\0.strtab\0.symtab\0", 23); u64 n1 = names.size(); names += "start"; names += '\0'; u64 n2 = names.size(); names += std::string(longname, 'x'); names += '\0'; b.insert(b.end(), names.begin(), names.end()); while (b.size() % 8) b.push_back(0);
	u64 sym = b.size(); b.resize(sym + 72); auto sy = [&](int i, u64 name, u64 v, u64 sz) { put(sym + 24 * i, name, 4); b[sym + 24 * i + 4] = 0x12; put(sym + 24 * i + 8, v, 8); put(sym + 24 * i + 16, sz, 8); }; sy(1, n1, CODE, 16); sy(2, n2, CODE + 16, code_n);
	u64 sh = b.size(); b.resize(sh + 64 * 4); auto sec = [&](int i, u32 name, u32 type, u64 addr, u64 off, u64 n, u32 link, u64 ent) { put(sh + 64 * i, name, 4); put(sh + 64 * i + 4, type, 4); put(sh + 64 * i + 16, addr, 8); put(sh + 64 * i + 24, off, 8); put(sh + 64 * i + 32, n, 8); put(sh + 64 * i + 40, link, 4); put(sh + 64 * i + 56, ent, 8); };
	sec(1, 1, 1, CODE, text, code_n, 0, 0); sec(2, 7, 3, 0, str, names.size(), 0, 0); sec(3, 15, 2, 0, sym, 72, 2, 24); put(40, sh, 8); put(60, 4, 2); put(62, 2, 2); im.bytes = b; return im;
}
const int numbers[] = {29, 25, 66, 93, 94, 96, 99, 98, 63, 64, 56, 57, 73, 80, 101, 123, 169, 214, 222, 226, 215, 261, 78, 278, 113, 178, 172, 174, 175, 130, 131, 132, 134, 135, 233, 167, 291, 124, 422, 220, 435, 495, 496, 497, 498, 499, 500, 501, 502, 503, 507, 508, 509, 510, 511};
struct Vals { u64 size; };
u64 hostile(Rng& r, u64 size) {
	switch (r.below(16)) {
	case 0: return size - r.below(80); case 1: return size + r.below(80); case 2: return DATA - r.below(16); case 3: return CODE - r.below(16); case 4: return CODE + r.below(0x400); case 5: return HOSTPTR | r.below(4096); case 6: return 0 - r.below(4200);
	case 7: return edge(r); case 8: return size - 4096 + r.below(4096); case 9: return r.below(64); case 10: return (1ull << r.range(20, 63)) + r.below(size); case 11: return size / 2 + r.below(4096); default: return DATA + r.below(size - DATA); }
}
Plan gen(Rng& r, int tier) {
	Plan p; static const u64 sizes[] = {131072, 262144, 131072 + 4096, 200001, 131072 + 17, 1 << 20, 150000}; u64 size = r.pick(sizes); p.cfg["size"] = size; p.cfg["end"] = r.chance(2, 3); p.cfg["shared"] = r.chance(1, 2); p.cfg["name"] = r.chance(1, 10) ? r.range(4000, 9000) : r.below(40); p.cfg["stack"] = r.chance(1, 2) ? 16384 : r.below(20000); p.cfg["threads"] = r.chance(2, 3); p.cfg["heap"] = r.below(3);
	GenOpts g; g.items_lo = 2; g.items_hi = tier ? 60 : 36; g.instr_pct = r.range(55, 80); Layout l; l.data = DATA; l.size = size; l.code = CODE; l.stack = size / 2; gen_program(r, p, g, l);
	for (auto& o : p.ops) { if (o.k == "y" || o.k == "c") o.a[0] = r.chance(3, 4) ? r.pick(numbers) : r.below(520); if (o.k == "i" && r.chance(1, 3)) { u32 w = rnd_instr(r); o.a[0] = w; } if (o.k == "r" && r.chance(1, 4)) o.a[1] = hostile(r, size); }
	int n = r.range(4, tier ? 60 : 30);
	for (int i = 0; i < n; i++) { auto H = [&] { return hostile(r, size); }; switch (r.below(16)) {
		case 0: case 1: case 2: p.add("R", {r.below(2), r.chance(1, 3) ? r.range(1, 9) : r.range(1, 1500)}); break; case 3: p.add("C", {r.chance(1, 4) ? 3 : r.below(32), H()}); p.add("R", {r.below(2), r.range(1, 400)}); break; case 4: p.add("X", {r.below(32), r.below(4), H()}); break;
		case 5: for (int k = r.range(1, 12); k > 0; k--) p.add("W", {H(), r.chance(1, 2) ? H() : edge(r)}); break;
		case 6: p.add("J", {r.chance(1, 2) ? CODE + r.below(g.items_hi * 4 + 16) : H()}); p.add("R", {r.below(2), r.range(1, 300)}); break;
		case 7: p.add("V", {r.chance(2, 3) ? CODE + 4 * r.below(40) : H(), r.below(4), r.range(1, 500)}); break; case 8: p.add("I"); break;
		case 9: { u64 kind = r.chance(1, 2) ? r.below(10) : r.below(32), a = H(), w[4] = {H(), H(), H(), H()}; // words as they are, or a begin/end/capacity with small distances, now and then around the object itself
			if (r.chance(1, 2)) { u64 b = r.chance(1, 3) ? a - r.below(80) : r.chance(1, 2) ? 0x14000 + 8 * r.below(0x400) : H(), n = r.chance(1, 2) ? r.below(200) : r.below(20000), c = r.chance(1, 2) ? n : r.below(n + 100); w[0] = b; w[1] = b + n; w[2] = b + c; if (r.chance(1, 4)) std::swap(w[r.below(3)], w[r.below(3)]); if (r.chance(1, 4)) w[r.below(3)] &= ~7ull; if (r.chance(1, 6)) w[1] = w[2] - w[0]; }
			p.add("G", {kind, a, w[0], w[1], w[2], w[3]}); break; } case 10: { u64 a = H(), len = r.chance(1, 2) ? H() : r.chance(1, 2) ? size - a + r.below(9) - 4 : 0 - a + r.below(size); u64 kind = r.below(10), x = H(); if (r.chance(1, 3)) { u64 unit = r.chance(1, 2) ? 8 : 48; len = (unit == 8 ? (r.range(1, 7) << 61) : r.range(1, 47) * 0x0555555555555556ull) + r.below(300); kind = unit == 8 ? (r.chance(1, 2) ? 1 : 9) : 7; } if (kind == 6) { if (r.chance(1, 2)) x = len; else if (r.chance(1, 2)) x %= size; if (r.chance(1, 2)) len = a; } p.add("Z", {a, len, kind, x}); break; }
		case 11: if (r.chance(1, 3)) p.add("M", {r.below(3)}); break;
		default: { u64 a[6]; for (auto& x : a) x = H(); if (r.chance(1, 3)) a[r.range(1, 2)] = size - a[r.below(2)] + r.below(5) - 2; if (r.chance(1, 3)) a[0] = r.below(4); if (r.chance(1, 4)) a[r.below(6)] = 0; if (r.chance(1, 25)) { p.add("Y", {78, a[0], DATA + 0x3e0, r.chance(1, 2) ? DATA + 8 * r.below(0x400) : a[2], r.chance(1, 2) ? r.below(40) : a[3]}); break; } p.add("Y", {r.chance(5, 6) ? u64(r.pick(numbers)) : r.chance(1, 2) ? r.below(520) : r.next(), a[0], a[1], a[2], a[3], a[4], a[5]}); if (r.chance(1, 2)) p.add("R", {r.below(2), r.range(1, 60)}); } } }
	return p;
}
struct Body { u64 digest = 1; };
constexpr bool MASKED = loongarch::Memory::LA_MASKED_MEMORY_MASK != 0; // addresses wrap instead of faulting, nothing is read-only
void body(const Plan& p, Ctx& ctx, u64 salt, u64& digest, bool first) {
	auto& g = ground(); u64* const secret_buf = g.secret; const u64 size = MASKED ? u64(loongarch::Memory::LA_MASKED_MEMORY_SIZE) : std::min<u64>(std::max<u64>(p.get("size"), 0x18000), 1 << 20); const bool flush_end = p.get("end"); u8* arena; u64 total = size + 64;
	u64 span = (total + 4095) & ~4095ull; u8 *lo, *hi; // the accessible bytes
	if (flush_end) { hi = g.mid + g.n; lo = hi - span; arena = hi - total; } else { lo = g.mid; hi = lo + span; arena = lo; }
	arena = (u8*)((uintptr_t)arena & ~uintptr_t(0)); memset(arena, 0, total);
	auto canary = [&](u8* a, u8* b, bool write) { for (u8* q = a; q < b; q++) { u8 v = secret_word(salt, (q - lo) / 8) >> (8 * ((q - lo) & 7)); if (write) *q = v; else if (*q != v) ctx.fail("host-memory-written", fmt("the byte %lld outside the guest's memory was overwritten", (long long)(q - arena))); } };
	canary(lo, arena, true); canary(arena + total, hi, true); for (u64 i = 0; i < 512; i++) secret_buf[i] = secret_word(salt, i);
	if (flush_end) { /* the page before is unreadable from lo on */ mprotect(g.mid, g.n - span, PROT_NONE); mprotect(lo, span, PROT_READ | PROT_WRITE); } else { mprotect(g.mid + span, g.n - span, PROT_NONE); }
	struct Reopen { Ground& g; ~Reopen() { mprotect(g.mid, g.n, PROT_READ | PROT_WRITE); } } reopen{g};
	{ auto& ck = seam::clock(); ck = {}; for (int i = 0; i < 12; i++) ck.now[i] = 1000000007ll * (i + 3); ck.step = 1001; ck.on = true; } // the same time in both bodies
	struct ClockOff { ~ClockOff() { seam::clock() = {}; } } clockoff;
	mallopt(M_PERTURB, int(salt & 0xff)); dirty_stack(secret_word(salt, 9));
	Prog prog = assemble(p, CODE); if (prog.code.size() > 0x1800) prog.code.resize(0x1800); Image im = image(prog.code, std::min<u64>(p.get("name"), 10000));
	auto opt = std::make_shared<MachineOptions>(); opt->memory_max = size; opt->stack_size = std::min<u64>(p.get("stack", 4096), 32768); opt->brk_size = 4096; opt->use_shared_execute_segments = p.get("shared"); opt->custom_arena_pointer = arena; opt->custom_arena_size = total;
	clear_shared(); Machine::setup_linux_syscalls(); Machine::set_rdtime([](Machine&) -> u64 { return 4711; }); Machine::set_unknown_syscall_handler([](Machine&, int n) { throw MachineException(UNIMPLEMENTED_SYSCALL, "unknown", n); });
	std::unique_ptr<Machine> mp; try { mp = std::make_unique<Machine>(std::string_view((const char*)im.bytes.data(), im.bytes.size()), *opt); } catch (const MachineException& e) { ctx.fail("harness", fmt("the machine was not built: %s", e.what())); }
	Machine& m = *mp; m.set_options(opt); srand(1); try { m.setup_linux({"hostile"}, {}); } catch (const MachineException&) { ctx.ev("nostack"); } ctx.check(m.memory.arena_ptr() == arena && m.memory.arena_size() == size, "harness", "the donated memory is not used");
	{ static bool once = false; if (!once) { once = true; MachineOptions oo; Machine dummy{std::string_view{}, oo}; dummy.setup_posix_threads(); dummy.setup_accelerated_syscalls(); dummy.setup_accelerated_heap(0x1000, 0x1000); } }
	{ Machine::install_syscall_handler(93, nullptr); } Machine::setup_linux_syscalls(); { MachineOptions oo; Machine dummy{std::string_view{}, oo}; dummy.setup_posix_threads(); dummy.setup_accelerated_syscalls(); }
	if (p.get("threads")) m.setup_posix_threads(); const u64 hbase = 0x14000, hn = 0x2000; if (p.get("heap") == 1) m.setup_accelerated_heap(hbase, hn); else if (p.get("heap") == 2) m.setup_accelerated_heap(size - 4096, 4096);
	auto val = [&](u64 v) { return (v >> 48) == (HOSTPTR >> 48) ? u64(uintptr_t(secret_buf)) - u64(uintptr_t(arena)) + (v & 0xfff) : v; };
	for (auto& o : p.ops) if (o.k == "r" && (o.arg(0) & 31)) m.cpu.reg(o.arg(0) & 31) = val(o.arg(1)); else if (o.k == "v") m.cpu.registers().getvr(o.arg(0) & 31).du[o.arg(1) & 3] = o.arg(2);
	m.memory.set_exit_address(CODE + im.code_n - 4); const std::vector<u8> ro(arena, arena + DATA);
	auto check = [&](const char* after) {
		canary(lo, arena, false); canary(arena + total, hi, false); for (u64 i = 0; i < 512; i++) if (secret_buf[i] != secret_word(salt, i)) ctx.fail("host-memory-written", fmt("after %s a host buffer outside the guest's memory is overwritten", after));
		if (!MASKED && memcmp(ro.data(), arena, DATA)) ctx.fail("read-only-changed", fmt("after %s the read-only part of guest memory is changed", after));
		for (int i = 0; i < 32; i++) { if (is_secret(m.cpu.reg(i), salt)) ctx.fail("host-memory-read", fmt("after %s register %d holds %llx, which is host memory", after, i, (long long)m.cpu.reg(i))); for (int k = 0; k < 4; k++) if (is_secret(m.cpu.registers().getvr(i).du[k], salt)) ctx.fail("host-memory-read", fmt("after %s vector register %d holds host memory", after, i)); }
		ctx.check(m.memory.arena_ptr() == arena && m.memory.arena_size() == size && m.memory.data_start() == DATA && m.memory.rodata_start() == CODE, "machine-corrupted", "the machine's idea of its memory changed"); };
	Regs last = Regs::of(m); u64 opno = 0;
	for (auto& o : p.ops) {
		opno++; const char* k = o.k.c_str(); if (!strchr("RCXWJYVIGZM", *k)) continue; std::string out; u64 res = 0; dirty_stack(secret_word(salt, 9)); std::string what = o.k == "Y" ? fmt("system call %lld", (long long)i64(o.arg(0))) : fmt("op %s", k);
		auto attempt = [&](auto&& f) { try { f(); } catch (const MachineException& e) { out = e.what(); res = mix(e.type(), e.data()); ctx.count(fmt("fault:%d", e.type())); } catch (const std::bad_alloc&) { out = "bad_alloc"; ctx.count("fault:alloc"); ctx.fail("not-a-machine-exception", what + " raised bad_alloc"); } catch (const std::exception& e) { out = e.what(); ctx.count("fault:other"); if (*k != 'G') ctx.fail("not-a-machine-exception", what + " raised " + e.what()); } catch (const Violation&) { throw; } catch (...) { ctx.fail("not-a-machine-exception", what + " raised something that is not an exception type"); } };
		m.cpu.reg(0) = 0;
		switch (*k) {
		case 'R': attempt([&] { if (o.arg(0) & 1) { m.set_instruction_counter(0); m.set_max_instructions(std::min<u64>(o.arg(1), 5000)); m.cpu.simulate_precise(); } else m.simulate(std::max<u64>(1, std::min<u64>(o.arg(1), 5000)), 0); }); ctx.count("runs"); ctx.simtime += m.instruction_counter(); break;
		case 'C': if (o.arg(0) & 31) m.cpu.reg(o.arg(0) & 31) = val(o.arg(1)); break; case 'X': m.cpu.registers().getvr(o.arg(0) & 31).du[o.arg(1) & 3] = val(o.arg(2)); break;
		case 'W': { u64 a = val(o.arg(0)), v = val(o.arg(1)); if (a >= DATA && a < size && size - a >= 8) memcpy(arena + a, &v, 8); break; } case 'J': m.cpu.registers().pc = val(o.arg(0)); break;
		case 'Y': for (int i = 0; i < 6; i++) m.cpu.reg(4 + i) = val(o.arg(1 + i)); m.cpu.reg(11) = o.arg(0); attempt([&] { m.set_instruction_counter(0); m.set_max_instructions(1000); m.system_call(unsigned(o.arg(0))); }); ctx.count("system-calls"); ctx.state(mix(o.arg(0), hash_bytes(out.data(), out.size()))); break;
		case 'V': { std::string s(o.arg(2) % 77, 'q'); double d = 2.5; u64 big = val(o.arg(0)); attempt([&] { switch (o.arg(1) % 4) { case 0: m.timed_vmcall(big, std::min<u64>(1000, 1 + o.arg(2)), s, big, d); break; case 1: m.preempt(std::min<u64>(1000, 1 + o.arg(2)), big, s, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); break; case 2: m.preempt<true, true>(std::min<u64>(1000, 1 + o.arg(2)), big, big, "text"); break; default: m.preempt<false, true>(std::min<u64>(1000, 1 + o.arg(2)), big, s, s); } }); ctx.count("host-calls"); break; }
		case 'I': attempt([&] { u64 h = 0; auto add = [&](const std::string& s) { h = mix(h, hash_bytes(s.data(), s.size())); for (u64 i = 0; i + 8 <= s.size(); i++) { u64 w; memcpy(&w, s.data() + i, 8); if (is_secret(w, salt)) ctx.fail("host-memory-read", "what the host is told about the guest contains host memory"); } };
			add(m.backtrace()); add(m.backtrace(CODE + 20)); add(m.cpu.registers().to_string()); add(m.cpu.current_instruction_to_string()); add(m.lookup_demangled_symbol(m.cpu.pc())); add(m.lookup_demangled_symbol(CODE + 24)); for (int i = 0; i < 6; i++) { la_instruction w; w.whole = u32(mix(m.cpu.reg(4 + i), i)); add(m.cpu.to_string(w)); } res = h; }); ctx.count("inspections"); break;
		case 'G': { u64 a = val(o.arg(1)); u64 w[4]; for (int i = 0; i < 4; i++) w[i] = val(o.arg(2 + i)); attempt([&] { m.memory.copy_to_guest(a, w, 32); u64 h = 1; auto touch = [&](std::string_view s) { h = mix(h, hash_bytes(s.data(), s.size())); };
			const u64 r5 = val(o.arg(5)); switch (o.arg(0) % 32) { case 0: { auto* s = m.memory.memarray<GuestStdString>(a); touch(s->to_string(m)); break; } case 1: { auto* s = m.memory.memarray<GuestStdString>(a); touch(s->to_view(m)); break; } case 2: { auto* s = m.memory.memarray<GuestRustString>(a); touch(s->to_string(m)); touch(s->to_view(m)); break; }
			case 3: { auto* v = m.memory.memarray<GuestStdVector<u64>>(a); auto x = v->to_vector(m); touch({(char*)x.data(), x.size() * 8}); break; } case 4: { auto* v = m.memory.memarray<GuestStdVector<GuestStdString>>(a); for (auto& s : v->to_string_vector(m)) touch(s); break; } case 5: { auto* v = m.memory.writable_memarray<GuestStdVector<u32>>(a); auto* b = v->begin(m); auto* e = v->end(m); if (b) touch({(char*)b, size_t((char*)e - (char*)b)}); break; }
			case 6: { auto* v = m.memory.writable_memarray<GuestStdVector<u64>>(a); v->at(m, r5) = 1; break; } case 7: { auto* v = m.memory.writable_memarray<GuestRustVector<u64>>(a); auto x = v->to_vector(m); touch({(char*)x.data(), x.size() * 8}); v->at(m, r5) = 1; break; }
			case 8: if (m.has_arena()) { auto* s = m.memory.writable_memarray<GuestStdString>(a); s->set_string(m, a, "a string that is not short at all, to be sure"); } break; case 9: if (m.has_arena()) { auto* v = m.memory.writable_memarray<GuestStdVector<u64>>(a); if (v->capacity_bytes() < size) v->push_back(m, 5); } break;
			default: if (m.has_arena()) { auto* v = m.memory.writable_memarray<GuestStdVector<u64>>(a); auto* vs = m.memory.writable_memarray<GuestStdVector<GuestStdString>>(a); auto* vv = m.memory.writable_memarray<GuestStdVector<GuestStdVector<u32>>>(a); auto* rs = m.memory.writable_memarray<GuestRustString>(a); auto* rv = m.memory.writable_memarray<GuestRustVector<u64>>(a); auto* rr = m.memory.writable_memarray<GuestRustVector<GuestRustString>>(a); u64 x = o.arg(5) % 3000; const u64 some[3] = {~0ull >> 20, 0x1234567, 64}; const bool tame = v->capacity_bytes() < size; // the host lets no guest make it ask for more
				switch (o.arg(0) % 32) { case 10: if (tame) v->append(m, some, 1 + x % 3); break; case 11: if (tame || v->size() > x) v->resize(m, x); break; case 12: vs->clear(m); break; case 13: vs->free(m); break; case 14: vs->pop_back(m); break; case 15: if (tame) vs->push_back(m, std::string_view("a string that is not short either")); break; case 16: if (tame) vs->push_back(m, std::string_view("short")); break; case 17: rs->set_string(m, "rust"); break; case 18: rs->free(m); break; case 19: rv->assign(m, {1, 2, 3}); break; case 20: rv->free(m); break; case 21: rr->free(m); break; case 22: if (tame) vv->push_back(m, std::vector<u32>{1, 2, 3}); break; case 23: vv->free(m); break; case 24: vs->fix_addresses(m, a); break; case 25: vv->clear(m); break; case 26: v->assign(m, {9, 8, 7}); break; case 27: if (tame) v->reserve(m, x); break; case 28: vs->assign(m, {}); break; case 29: if (tame) vs->resize(m, x % 50); break; case 30: { auto* s = m.memory.writable_memarray<GuestStdString>(a); s->free(m); break; } default: if (tame) v->push_back(m, 7); v->clear(m); } } break; } res = h; }); ctx.count("objects-read"); break; }
		case 'Z': { u64 a = val(o.arg(0)), n = val(o.arg(1)); attempt([&] { u64 h = 1; auto touch = [&](const void* q, u64 bytes) { if (bytes) { const u8* b = (const u8*)q; h = mix(h, b[0] + b[bytes - 1] * 256); if (bytes <= size) h = mix(h, hash_bytes(b, bytes)); else ctx.fail("impossible-view", "a view larger than guest memory was given out"); } };
			auto items = [&](const void* q, u64 unit) { if (n > size / unit) ctx.fail("impossible-view", "a view larger than guest memory was given out"); touch(q, n * unit); }; switch (o.arg(2) % 10) { case 0: { auto v = m.memory.memview(a, n); touch(v.data(), v.size()); break; } case 1: items(m.memory.memarray<u64>(a, n), 8); break; case 2: { u8* q = m.memory.writable_memarray<u8>(a, n); touch(q, n); if (n) { q[0]++; q[n - 1]++; } break; } case 3: { auto s = m.memory.memstring(a, n); touch(s.data(), s.size()); break; } case 4: h = m.memory.strlen(a, n); break;
			case 5: m.memory.memset(a, 3, n); break; case 6: h = m.memory.memcmp(a, n, o.arg(3)) > 0; break; case 7: items(m.memory.memarray<std::array<u8, 48>>(a, n), 48); break; case 9: { u64* q = m.memory.writable_memarray<u64>(a, n); items(q, 8); if (n) { q[0]++; q[n - 1]++; } break; }  default: { u64 w[8]; m.memory.copy_from_guest(w, a, n % 65); touch(w, n % 65); } } res = h; }); ctx.count("views"); break; }
		case 'M': attempt([&] { switch (o.arg(0) % 3) { case 0: m.setup_accelerated_syscalls(); break; case 1: m.setup_posix_threads(); break; default: if (!m.has_arena()) m.setup_accelerated_heap(hbase, hn); } }); break;
		}
		check(what.c_str()); Regs now = Regs::of(m); u64 hp = out.find("at 0x") != std::string::npos ? 0 : hash_bytes(out.data(), out.size()); digest = mix(mix(digest, hash_regs(now)), res ^ hp); (void)last;
		if (first) { ctx.ev(k, m.cpu.pc(), res, hp); ctx.nontrivial++; if (*k != 'C' && *k != 'W' && *k != 'X') ctx.state(mix(hash_bytes(k, 1) ^ o.arg(0) % 600, hp)); if (ctx.verbose) fprintf(stderr, "   %s: %s\n", what.c_str(), out.c_str()); }
	}
	for (u64 i = 0; i + 8 <= size; i++) { u32 t; memcpy(&t, arena + i + 4, 4); if (t == u32(secret_word(salt, 0) >> 32)) { u64 v; memcpy(&v, arena + i, 8); if (is_secret(v, salt)) ctx.fail("host-memory-read", fmt("guest memory at %llx holds what was in host memory", (long long)i)); } }
	digest = mix(digest, hash_bytes(arena, size)); seam::take();
}
void exec(const Plan& p, Ctx& ctx) {
	static bool so = false; if (!so) { so = true; seam::install_stdout(); }
	// a machine that exists throughout
	using namespace la; Layout l; l.size = 0x10000; l.data = 0x4000; l.stack = 0xf000; clear_shared(); if (MASKED) { u64 d[2] = {1, 1}; for (int k = 0; k < 2; k++) body(p, ctx, k ? 0xa5 : 0x11, d[k], k == 0); mallopt(M_PERTURB, 0); ctx.check(d[0] == d[1], "host-memory-visible", "what the guest computed depends on the contents of host memory outside its own"); ctx.ev("digest", d[0]); return; }
	Box wit({addi_d(5, 0, 100), addi_d(4, 4, 3), st_d(4, 6, 0), addi_d(5, 5, -1), bnez(5, -12), stop()}, l, false); wit.m->cpu.reg(6) = 0x5000; auto first_half = [&] { wit.m->simulate(150, 0); }; first_half(); u64 at = wit.m->instruction_counter();
	u64 d[2] = {1, 1}; for (int k = 0; k < 2; k++) body(p, ctx, k ? 0xa5 : 0x11, d[k], k == 0);
	mallopt(M_PERTURB, 0); ctx.check(d[0] == d[1], "host-memory-visible", "what the guest computed depends on the contents of host memory outside its own"); ctx.ev("digest", d[0]);
	wit.m->simulate(~0ull, at); u64 v; memcpy(&v, wit.arena() + 0x5000, 8); ctx.check(wit.m->cpu.reg(4) == 300 && v == 300, "other-machine", "a machine that was in the middle of its run computed something else");
}
Register r1({"P01", "hostile", "(kind of event or system call, outcome)", "random programs of every decodable instruction with hostile registers, and between slices of them: corrupted registers, memory and program counters, every system call with hostile arguments, host-to-guest calls on corrupted stacks, host reads of corrupted guest objects and views; guest memory is flush with gigabytes of unreadable addresses, what surrounds it and a host buffer at a computable distance hold secrets that must neither change nor appear in guest state, and every run is done twice with other host memory contents and must give the same result",
	gen, exec, 400000, 10000000, {"engines", "memory", "system calls", "guest threads", "signals", "accelerated heap and functions", "host-to-guest calls", "guest datatypes"}, {}, {"plain", "asan", "masked"}});
} // namespace
