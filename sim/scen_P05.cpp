#include "elf_guest.hpp"
#ifdef SIM_RACE
#include "race_rt.hpp"
#include <libloong/native/heap.hpp>
#include <libloong/machine_vmcall.hpp>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <libloong/posix/threads.hpp>
using namespace egst; using namespace loongarch;
// Machines on several host threads, in a process of its own per run, so that first-time initialisation happens in every run.
// ops:  b T SLOT FAM VAR KIND SIZE   thread T makes a machine (KIND bits: 1 shared code, 2 of an executable image, 4 of the compiled guest)    p ...  the same, made before the threads start
//       s T SLOT N   run N instructions     c T SLOT N   call into it       a T SLOT KIND   replace functions (compiled guest)     e T SLOT   evict its code     i T SLOT FAM VAR   load another program     z T SLOT  reset
//       d T SLOT     destroy                 h T SLOT  set up system calls    t T SLOT N  set up guest threads, and create N+1 of them    y T SLOT  print / look up      f T N C   the thread's N-th allocation from here on fails, and C-1 more
//       w T N        schedule: thread T runs for N points other threads could notice     W T N  ... for N points of any kind
namespace {
constexpr int NT = race::THREADS, MAXD = 400;
struct Shm { race::Report rep; u64 dig[2][NT][MAXD]; u8 have[2][NT][MAXD]; u64 built[2], calls[2], runs[2], allocfail[2]; };
Shm* shm() { static Shm* s = (Shm*)::mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return s; }
constexpr int B(int o) { return 0x100000 + o; } // an address in the machine's scratch memory
std::vector<u32> program(u64 fam, u64 var) {
	Rng r(fam * 131 + 7); std::vector<u32> c; int n = r.range(2, 24), at = var ? var % n : -1;
	if (fam % 4 == 3) for (int k = r.range(1, 5), i = 0; i < k; i++) { // system calls whose answers depend on nothing outside the machine; what they write lies outside the digest
		struct C { int nr, a[5]; }; static const C calls[] = {{172, {}}, {174, {}}, {64, {1, B(0), 9}}, {64, {5, B(0), 9}}, {66, {1, B(0x40), 2}}, {63, {0, B(0x100), 4}}, {78, {-100, B(0x10), B(0x100), 64}}, {278, {B(0x200), 24, 0}}, {261, {0, 3, 0, B(0x240)}}, {261, {0, 7, 0, B(0x240)}}, {123, {0, 64, B(0x280)}}, {132, {B(0x20), B(0x2c0)}}, {134, {5, B(0x80), B(0x300), 8}}, {135, {0, 0, B(0x340), 8}}, {113, {1, B(0x380)}}, {169, {B(0x3a0), 0}}, {101, {B(0xc0), B(0x3c0)}}, {80, {1, B(0x400)}}, {73, {B(0x60), 1, 0, 0}}, {57, {1}}, {29, {1, 0, 0}}, {222, {0, 2000, 3, 34, -1}}, {215, {0, 2000}}, {214, {0}}};
		const C& q = calls[r.below(sizeof calls / sizeof *calls)]; if (q.nr == 134 || q.nr == 132) { c.push_back(la::addi_d(25, 22, q.nr == 134 ? 0x80 : 0x20)); c.push_back(la::st_d(23, 25, 0)); }
		if (q.nr == 66) { c.push_back(la::st_d(22, 22, 0x40)); c.push_back(la::addi_d(25, 0, 5)); c.push_back(la::st_d(25, 22, 0x48)); c.push_back(la::st_d(25, 22, 0x58)); c.push_back(la::st_d(22, 22, 0x50)); }
		for (int j = 0; j < 5; j++) c.push_back(q.a[j] >= B(0) ? la::addi_d(4 + j, 22, q.a[j] - B(0)) : la::addi_d(4 + j, 0, q.a[j])); c.push_back(la::addi_d(11, 0, q.nr)); c.push_back(la::syscall(0)); if (r.chance(1, 2)) c.push_back(la::addi_d(24, 4, 0)); }
	for (int i = 0; i < n; i++) { u32 d = 12 + r.below(8), a = 12 + r.below(8), b = 12 + r.below(8), imm = r.below(2000); if (i == at) imm = (imm + 1 + var / n) & 0x7ff;
		switch (r.below(6)) { case 0: c.push_back(la::xori(d, a, imm)); break; case 1: c.push_back(i == at ? la::addi_d(d, a, imm) : la::mul_d(d, a, b)); break; case 2: c.push_back(la::st_d(a, 23, (imm & 0xff) * 8)); break; case 3: c.push_back(la::ld_d(d, 23, (imm & 0xff) * 8)); break; case 4: c.push_back(la::bcc(r.below(6), a, b, 8)); c.push_back(la::addi_d(d, d, imm)); break; default: c.push_back(la::addi_d(d, a, imm)); } }
	if (fam % 7 == 6 && var) c.push_back(0xffffffff); // ends in a fault
	c.push_back(la::addi_d(29, 29, -1)); c.push_back(la::bcc(2, 0, 29, -i64(c.size()) * 4)); c.push_back(la::ret()); c.push_back(la::stop()); return c;
}
__attribute__((no_sanitize("thread"))) u64 digest_of(Machine& m, const Layout& l) { race::Quiet q; auto r = Regs::of(m); return mix(hash_regs(r), hash_bytes(m.memory.arena_ptr() + l.data, 0x2000)); }
struct Slot { std::shared_ptr<MachineOptions> opts; std::unique_ptr<Machine> m; Layout l; bool elf = false, lib = false, dead = false, fresh = false; std::vector<u32> code; };
std::vector<u8> image_of(const std::vector<u32>& code, const Layout& l) {
	std::vector<u8> b(176 + code.size() * 4); auto put = [&](u64 o, u64 v, int n) { memcpy(&b[o], &v, n); };
	put(0, 0x00010102464c457full, 8); put(16, 2, 2); put(18, 258, 2); put(20, 1, 4); put(24, l.code, 8); put(32, 64, 8); put(52, 64, 2); put(54, 56, 2); put(56, 2, 2); put(58, 64, 2);
	put(64, 1, 4); put(68, 5, 4); put(72, 176, 8); put(80, l.code, 8); put(88, l.code, 8); put(96, code.size() * 4, 8); put(104, code.size() * 4, 8); put(112, 4096, 8);
	put(120, 1, 4); put(124, 6, 4); put(128, 176, 8); put(136, l.data, 8); put(144, l.data, 8); put(152, 0, 8); put(160, 0x2000, 8); put(168, 4096, 8);
	memcpy(&b[176], code.data(), code.size() * 4); return b;
}
void bump(u64& x) { race::Quiet q; x++; }
struct Thread { int t; int mode; const Plan* p; Slot slots[4]; bool syscalls = false;
	void prepare(Slot& s) { auto& m = *s.m; if (s.lib) return; for (int i = 12; i < 20; i++) m.cpu.reg(i) = i * 1001; m.cpu.reg(23) = s.l.data + 0x800; m.cpu.reg(22) = s.l.data + 0x2800; m.cpu.reg(29) = 3; m.cpu.reg(1) = s.l.code + (s.code.size() - 1) * 4; m.cpu.reg(3) = s.l.stack; m.memory.set_stack_address(s.l.stack); m.cpu.jump(s.l.code); m.memory.set_exit_address(s.l.code + (s.code.size() - 1) * 4); s.dead = false; }
	void build(Slot& s, const Op& o) {
		s = Slot{}; static const u64 sizes[] = {0x40000, 0x41000}; s.l.size = sizes[o.arg(5) % 2]; u64 kind = o.arg(4); s.lib = kind & 4; s.elf = kind & 2; s.opts = std::make_shared<MachineOptions>(); s.opts->use_shared_execute_segments = kind & 1; s.code = program(o.arg(2), o.arg(3));
		if (s.lib) { s.opts->memory_max = 2 << 20; s.opts->stack_size = 64 << 10; s.opts->brk_size = 64 << 10; auto& bin = load("n_lib"); s.m = std::make_unique<Machine>(std::string_view((const char*)bin.data(), bin.size()), *s.opts); s.m->set_options(s.opts); s.m->memory.set_exit_address(s.m->address_of("vm_exit")); }
		else if (s.elf) { s.opts->memory_max = s.l.size; s.opts->stack_size = 8192; s.opts->brk_size = 4096; auto im = image_of(s.code, s.l); s.m = std::make_unique<Machine>(std::string_view((const char*)im.data(), im.size()), *s.opts); s.m->set_options(s.opts); }
		else { s.m = std::make_unique<Machine>(std::string_view{}, *s.opts); s.m->set_options(s.opts); s.m->memory.allocate_custom_arena(s.l.size, s.l.code, s.l.data); s.m->memory.copy_into_arena_unsafe(s.l.code, s.code.data(), s.code.size() * 4); s.m->cpu.init_execute_area(s.code.data(), s.l.code, s.code.size() * 4); }
		if (o.arg(2) % 4 == 3) Machine::setup_linux_syscalls(); // its program uses them
		prepare(s); s.fresh = true;
	}
	void run(bool pre) {
		int n = 0; const Plan& plan = *p; u64 idx = 0;
		for (auto& o : plan.ops) {
			idx++; const char k = o.k[0]; if (k == 'w' || k == 'W' || int(o.arg(0) % NT) != t || (k == 'p') != pre || idx >= MAXD) continue; if (plan.get("threads") && u64(t) >= plan.get("threads")) continue; (void)n;
			Slot& s = slots[o.arg(1) % 4]; u64 d = 0; bool ok = true, lost = false; auto& sh = *shm();
			if (k == 'f') { if (mode == 1) race::fail_alloc(o.arg(1), o.arg(2)); continue; }
			try {
				if (k == 'b' || k == 'p') { build(s, o); bump(sh.built[mode]); d = 1; }
				else if (!s.m) continue;
				else if (s.dead && k != 'd' && k != 'i' && k != 'e') continue;
				else if (k == 's') { if (s.lib) continue; d = s.m->simulate(std::max<u64>(1, o.arg(2) % 100000), 0); d += digest_of(*s.m, s.l); if (!s.m->instruction_limit_reached()) s.dead = true; bump(sh.runs[mode]); }
				else if (k == 'c') { bump(sh.calls[mode]); if (s.lib) { d = s.m->vmcall<u64, 1000000>(s.m->address_of("work"), o.arg(2), 1); } else { prepare(s); s.m->timed_vmcall(s.l.code, std::max<u64>(1, o.arg(2) % 100000), 5, 6); d = digest_of(*s.m, s.l); s.dead = true; } }
				else if (k == 'a') { if (!s.lib) continue; if (o.arg(2) & 1) s.m->setup_accelerated_syscalls(); if (o.arg(2) & 2) s.m->setup_accelerated_heap(s.m->address_of("pool"), 32768); }
				else if (k == 'e') { s.m->memory.evict_execute_segments(); s.dead = true; }
				else if (k == 'i' || k == 'z') { if (s.lib || s.elf) continue; s.dead = true; if (o.arg(2) % 4 == 3) Machine::setup_linux_syscalls(); if (k == 'i') s.m->memory.evict_execute_segments(); else s.m->memory.reset(); s.code = program(o.arg(2), o.arg(3)); memset((void*)(s.m->memory.arena_ptr() + s.l.code), 0, 0x1000); s.m->memory.copy_into_arena_unsafe(s.l.code, s.code.data(), s.code.size() * 4); s.m->cpu.init_execute_area(s.code.data(), s.l.code, s.code.size() * 4); memset((void*)(s.m->memory.arena_ptr() + s.l.data), 0, 0x2000); for (int i = 1; i < 32; i++) s.m->cpu.reg(i) = 0; prepare(s); }
				else if (k == 'd') { s = Slot{}; }
				else if (k == 'h') { s.m->setup_linux_syscalls(); syscalls = true; if (!s.lib) { s.m->setup_linux({"x"}, {"A=1"}); prepare(s); } }
				else if (k == 't') { s.m->setup_posix_threads(); for (u64 i = 0; i <= o.arg(2) % 3; i++) d = mix(d, s.m->threads().create(0, 0, 0, s.l.stack, 0, s.l.stack, 4096)->tid); }
				else if (k == 'y') { d = hash_bytes(s.m->lookup_demangled_symbol(s.m->cpu.pc()).c_str(), 1); d += s.m->cpu.current_instruction_to_string().size() + s.m->memory.exec_segment_for(s.l.code)->empty(); }
			} catch (const std::bad_alloc&) { ok = false; d = 99; if (mode == 0 || pre || !race::alloc_failed()) race::fail("spurious-failure", "bad_alloc though no allocation failed"); lost = true; }
			catch (const MachineException& e) { d = mix(e.type(), e.data()); s.dead = true; if (mode == 1 && !pre && race::alloc_failed() && (k == 'b' || k == 'i' || k == 'z' || k == 'a')) { ok = false; lost = true; } }
			if (mode == 1 && !pre && race::alloc_failed()) { { race::Quiet q; sh.allocfail[mode]++; race::fail_alloc(-1, 0); } if (k == 'y') ok = false; /* prints a placeholder */ if (lost) s = Slot{}; }
			{ race::Quiet q;
			sh.dig[mode][t][idx] = d; sh.have[mode][t][idx] = ok; }
		}
		if (!pre) for (auto& s : slots) s = Slot{};
	}
};
struct Child { const Plan* p; int mode; Thread th[NT]; };
void* thread_main(void* v) { auto* t = (Thread*)v; race::begin_thread(t->t); t->run(false); race::end_thread(); return nullptr; }
[[noreturn]] void child(const Plan& p, int mode, const race::Step* steps, size_t nsteps) {
	signal(SIGPROF, SIG_DFL); alarm(100); if (int f = open("/dev/null", O_WRONLY); f >= 0) { dup2(f, 1); close(f); } /* where machines print */ Child c; c.p = &p; c.mode = mode; int n = std::min<u64>(NT, std::max<u64>(1, p.get("threads", 2)));
	for (int t = 0; t < n; t++) { c.th[t].t = t; c.th[t].mode = mode; c.th[t].p = &p; c.th[t].run(true); }
	if (mode == 0) { for (int t = 0; t < n; t++) c.th[t].run(false); _exit(0); }
	race::init(&shm()->rep, steps, nsteps, n); pthread_t id[NT]; for (int t = 0; t < n; t++) if (pthread_create(&id[t], nullptr, thread_main, &c.th[t])) _exit(3);
	race::go(); for (int t = 0; t < n; t++) pthread_join(id[t], nullptr); race::finished(); _exit(0);
}
std::string where(u64 pc) {
	if (pc < 0x1000) return pc == 2 ? "its allocation" : "?"; char exe[200]; ssize_t n = readlink("/proc/self/exe", exe, 199); if (n <= 0) return "?"; exe[n] = 0;
	std::string out; FILE* f = popen(fmt("addr2line -Cfsie %s 0x%llx 2>/dev/null | head -8", exe, (long long)(pc - 1)).c_str(), "r"); if (!f) return "?"; char b[400]; while (fgets(b, sizeof b, f)) { std::string s = b; while (!s.empty() && s.back() == '\n') s.pop_back(); if (s.size() > 90) s = s.substr(0, 90); out += (out.empty() ? "" : " < ") + s; } pclose(f); return out;
}
Plan gen(Rng& r, int tier, bool lib) {
	Plan p; int nt = r.chance(1, 2) ? 2 : r.range(2, 4); p.cfg["threads"] = nt; u64 fams = 1 + r.below(3), f0 = r.below(1000); bool sys = r.chance(1, 5);
	auto make = [&](const char* k, u64 t, u64 s) { p.ops.push_back({k, {t, s, f0 + r.below(fams), r.chance(2, 3) ? 0 : r.below(4), (r.chance(5, 6) ? 1ull : 0) | (r.chance(1, 3) ? 2 : 0) | (lib && r.chance(2, 3) ? 4 : 0), r.chance(4, 5) ? 0 : 1ull}}); };
	for (int t = 0; t < nt; t++) {
		int slots = 1 + r.below(2), n = r.range(1, lib ? 5 : tier ? 14 : 9); if (r.chance(1, 5)) make("p", t, 0); else { if (r.chance(1, 3)) p.add("f", {u64(t), r.below(40), r.chance(3, 4) ? 1 : r.range(2, 6)}); make("b", t, 0); } if (sys) p.add("h", {u64(t), 0});
		for (int i = 0; i < n; i++) { u64 s = r.below(slots), T = t; switch (r.below(lib ? 14 : 13)) {
			case 0: case 1: p.add("s", {T, s, r.chance(1, 2) ? r.range(1, 30) : r.range(50, 300)}); break; case 2: case 3: p.add("c", {T, s, r.next() >> 20}); break; case 4: case 5: p.add("d", {T, s}); make("b", T, s); break; case 6: make("b", T, s); break;
			case 7: p.add("e", {T, s}); break; case 8: p.add("i", {T, s, f0 + r.below(fams), r.below(3)}); break; case 9: p.add("d", {T, s}); break; case 10: if (r.chance(1, 3)) p.add("t", {T, s, r.below(3)}); else p.add("y", {T, s}); break; case 11: if (r.chance(1, 2)) p.add("z", {T, s, f0 + r.below(fams), r.below(3)}); else p.add("h", {T, s}); break;
			case 12: p.add("f", {T, r.chance(1, 2) ? r.below(12) : r.below(60), r.chance(3, 4) ? 1 : r.range(2, 6)}); make("b", T, s); break; default: p.add("a", {T, s, 1 + r.below(3)}); } } }
	int steps = r.range(2, tier ? 80 : 50); u64 scale = r.range(2, lib ? 14 : 11); for (int i = 0; i < steps; i++) { bool all = r.chance(1, 5); p.add(all ? "W" : "w", {r.below(nt), 1 + r.below(1ull << r.range(0, all ? scale + 3 : scale))}); }
	return p;
}
void exec(const Plan& p, Ctx& ctx) {
	auto& sh = *shm(); memset(&sh, 0, sizeof sh); load("n_lib"); std::vector<race::Step> steps; for (auto& o : p.ops) if (o.k == "w" || o.k == "W") steps.push_back({int(o.arg(0) % NT), u32(o.arg(1)), o.k == "W"});
	for (int mode = 0; mode < 2; mode++) {
		fflush(stdout); fflush(stderr); pid_t pid = fork(); if (!pid) child(p, mode, steps.data(), steps.size()); int st; while (waitpid(pid, &st, 0) < 0) {}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { auto& R = sh.rep; ctx.fail(R.cls, std::string(R.msg) + (R.pc[0] ? "; the last in " + where(R.pc[0]) : "") + (R.pc[1] ? "; the other in " + where(R.pc[1]) : "")); }
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) ctx.fail(WIFSIGNALED(st) ? fmt("crash-signal-%d", WTERMSIG(st)) : fmt("exit-%d", WEXITSTATUS(st)), mode ? "the threads together" : "the threads one after the other");
	}
	auto& R = sh.rep; for (int t = 0; t < NT; t++) for (int i = 0; i < MAXD; i++) if (sh.have[1][t][i] && sh.have[0][t][i] && sh.dig[0][t][i] != sh.dig[1][t][i]) { size_t k = 0; for (auto& o : p.ops) { if (++k == size_t(i)) ctx.fail("other-result", fmt("thread %d, operation %d (%s): together with other threads it gave %llx, alone %llx", t, i, o.k.c_str(), (long long)sh.dig[1][t][i], (long long)sh.dig[0][t][i])); } }
	ctx.nontrivial += R.switches > 1; ctx.ev("end", R.points, R.trace, R.order); ctx.ev("switches", R.switches, R.blocked, R.sync); for (int t = 0; t < NT; t++) for (int i = 0; i < MAXD; i++) if (sh.have[1][t][i]) ctx.ev("op", t, i, sh.dig[1][t][i]);
	ctx.state(R.trace); ctx.simtime += R.points; ctx.count("thread switches", R.switches); ctx.count("preemptions", R.preempted_in_lib); ctx.count("waits", R.blocked); ctx.count("fault:allocation", R.failed_allocs); ctx.count("failed operations", sh.allocfail[1]); ctx.count("machines built", sh.built[1]); ctx.count("calls", sh.calls[1]); ctx.count("atomics", R.atomics); ctx.count("locks", R.sync);
}
Register r1({"P05", "lifecycles", "distinct interleavings (sequence of preemption points and threads)", "two to four host threads build, run, call into, reload, reset, evict and destroy machines of equal, nearly equal and different programs, in a fresh process per run; preempted at memory accesses, atomics, locks, one-time initialisation and allocations as the seed says; allocations fail; every access is checked for races and use after free by happens-before, results are compared with the threads run one after the other",
	[](Rng& r, int tier) { return gen(r, tier, false); }, exec, 150000, 3000000, {"Machine lifecycle", "shared decoded code", "decoder", "engines", "ELF loader", "instruction handler table", "one-time initialisation"}, {"mutexes, pthread_once, static-variable guards (same semantics, scheduled by the simulator)"}, {"race"}});
Register r2({"P05", "compiled", "distinct interleavings (sequence of preemption points and threads)", "the same with machines of a compiled guest, in some of which the host replaces functions",
	[](Rng& r, int tier) { return gen(r, tier, true); }, exec, 20000, 400000, {"function replacement", "native heap"}, {}, {"race"}, 0.6});
} // namespace
#endif
