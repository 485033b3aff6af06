#include "elf_guest.hpp"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace egst;
// The executable, made from: cfg secs (has a section table), hdr (the first segment holds the headers), sel (which piece of code is the entry), phat (where the program headers are)
//  g FLAGS GAP FILE BSS SEED PAD   the next segment: FLAGS 1 execute 2 write; GAP bytes behind the last one; FILE bytes in the file, BSS more in memory
//  s SEG OFF SIZE NAME             an executable section in a segment (only with a section table)
//  k SEG OFF                       a piece of code: r12 = r12 * 3 + K, r15 += its address, then to the piece the host chose
//  h TYPE AT                       another program header (note, stack, thread-local storage ...)
// What is done with it:
//  b SLOT IMG FLAGS FAILAT FAILN SLACK   a machine; IMG which contents; FLAGS 1 shared 2 donated memory 4 no spare memory 8 memory within 64 bytes of what is needed: SLACK
//  l SLOT NARG NENV SEED SIZE      arguments and environment       r SLOT SEED  run all pieces in some order
//  j SLOT SEED  jump outside the code    d SLOT    x  clear the shared cache
namespace {
enum : u64 { PG = 4096 };
struct Seg { u64 flags, va, file, bss, seed, off; std::vector<u8> bytes; };
struct Sec { u64 seg, off, size; std::string name; };
struct Piece { u64 seg, off, at; };
struct Image { std::vector<Seg> segs; std::vector<Sec> secs; std::vector<Piece> pieces; std::vector<u8> elf; u64 entry = 0, stop = 0, end = 0, lo = ~0ull, phoff = 64, phn = 0; bool hdr = false; std::vector<u32> consts; };
enum { WORDS = 6 };
u64 up(u64 v, u64 a) { return (v + a - 1) / a * a; }
Image make(const Plan& p, u64 img) {
	Image m; m.hdr = p.get("hdr"); const bool table = p.get("secs"); u64 at = std::max<u64>(4, p.get("base", 0x10000) % 0x40000) + (p.get("high") % 3 << 32); bool first = true; std::vector<std::pair<u64, u64>> extra;
	for (auto& o : p.ops) if (o.k == "g" && m.segs.size() < 9) {
		Seg s; s.flags = o.arg(0) & 3; at += o.arg(1) % 100000; if (s.flags & 1) at = up(at, 4); if (first && m.hdr) at = up(at, PG); s.va = at; s.file = std::min<u64>(o.arg(2), 40000); s.bss = std::min<u64>(o.arg(3), 40000); if (first && m.hdr) s.file = std::max<u64>(s.file, 2048); s.seed = mix(o.arg(4), img); s.off = o.arg(5);
		Rng r(s.seed); s.bytes.resize(s.file); for (auto& b : s.bytes) b = r.next(); at += s.file + s.bss; first = false; m.segs.push_back(std::move(s));
	} else if (o.k == "h" && extra.size() < 6) extra.push_back({o.arg(0), o.arg(1)});
	if (!m.hdr || p.get("phat") == 2) for (u64 i = p.get("nulls") % 300; i && m.segs.size() + extra.size() < 256; i--) extra.push_back({5, i * 7});
	auto free_in = [&](u64 seg, u64 off, u64 n) { if (seg >= m.segs.size() || !(m.segs[seg].flags & 1)) return false; auto& s = m.segs[seg]; if (off % 4 || off + n > s.file) return false; if (!seg && m.hdr && off < 1024) return false; return true; };
	if (table) for (auto& o : p.ops) if (o.k == "s" && m.secs.size() < 12) { static const char* const names[] = {".text", ".iplt", ".plt", "hot", ".init", ".text.unlikely", ".textual", ""}; u64 off = o.arg(1) & ~3ull, n = o.arg(2) & ~3ull; if (!n || !free_in(o.arg(0), off, n)) continue; bool clash = false; for (auto& s : m.secs) clash |= s.seg == o.arg(0) && off < s.off + s.size && s.off < off + n; if (clash) continue;
		std::string name = names[o.arg(3) % 8]; if (name == ".text") for (auto& s : m.secs) if (s.name == ".text") name = "cold"; m.secs.push_back({o.arg(0), off, n, name}); }
	for (auto& o : p.ops) if (o.k == "k" && m.pieces.size() < 8) { u64 seg = o.arg(0), off = o.arg(1) & ~3ull; if (!free_in(seg, off, WORDS * 4)) continue; bool any = false, in = false, clash = false; for (auto& s : m.secs) if (s.seg == seg) { any = true; in |= off >= s.off && off + WORDS * 4 <= s.off + s.size; } if (any && !in) continue;
		for (auto& q : m.pieces) clash |= q.seg == seg && off < q.off + WORDS * 4 && q.off < off + WORDS * 4; if (clash) continue; m.pieces.push_back({seg, off, m.segs[seg].va + off}); }
	for (size_t k = 0; k < m.pieces.size(); k++) { auto& q = m.pieces[k]; u32 c = mix(m.segs[q.seg].seed, q.off) & 0x7ff; m.consts.push_back(c); u32 w[WORDS] = {la::mul_d(12, 12, 14), la::addi_d(12, 12, c), 0x18000000u | 13 /* pcaddi r13, 0 */, la::add_d(15, 15, 13), la::jirl(0, 20 + k, 0), la::stop()}; memcpy(&m.segs[q.seg].bytes[q.off], w, sizeof w); }
	// the file
	struct Ph { u32 type, flags; u64 off, va, pa, file, mem, align; }; std::vector<Ph> ph; u64 pos = up(64, 8); m.phn = m.segs.size() + extra.size(); if (p.get("phat") == 1) m.phoff = 64 + 8 * (1 + p.get("phgap") % 40); pos = m.phoff + 56 * m.phn; const u64 phend = pos;
	for (size_t i = 0; i < m.segs.size(); i++) { auto& s = m.segs[i]; if (!i && m.hdr) { s.off = 0; pos = std::max(pos, s.file); } else { pos += s.off % 5000; if (s.seed & 1) while (pos % PG != s.va % PG) pos++; s.off = pos; pos += s.file; } m.lo = std::min(m.lo, s.va); m.end = std::max(m.end, s.va + s.file + s.bss); ph.push_back({1, u32(4 | s.flags), s.off, s.va, s.va, s.file, s.file + s.bss, PG}); }
	if (p.get("mixed")) { Rng r(p.get("mixed")); for (size_t i = ph.size(); i > 1; i--) std::swap(ph[i - 1], ph[r.below(i)]); }
	if (p.get("phat") == 3) for (auto& s : m.segs) { u64 o = up(s.off, 8) - s.off; if (s.off && !(s.flags & 1) && s.file >= o + 56 * m.phn) { m.phoff = s.off + o; break; } }
	if (p.get("phat") == 2) { pos = up(pos, 8); m.phoff = pos; pos += 56 * m.phn; }
	for (auto [type, where] : extra) { static const u32 types[] = {4, 0x6474e551, 7, 0x6474e552, 6, 0}; Ph q{types[type % 6], 4, 0, 0, 0, 0, 0, 8}; if (type % 6 != 1 && !m.segs.empty()) { auto& s = m.segs[type % m.segs.size()]; q.off = s.off; q.va = q.pa = s.va; q.file = std::min<u64>(s.file, 32); q.mem = q.file; } ph.insert(ph.begin() + where % (ph.size() + 1), q); }
	m.elf.assign(pos, 0); if (!m.hdr || p.get("phat") != 2) {} (void)phend;
	for (auto& s : m.segs) if (s.file) memcpy(&m.elf[s.off], s.bytes.data(), s.file);
	if (m.pieces.empty()) return m;
	m.entry = m.pieces[p.get("sel") % m.pieces.size()].at; m.stop = m.pieces[0].at + (WORDS - 1) * 4;
	struct Sh { u32 name, type; u64 flags, addr, off, size; u32 link, info; u64 align, ent; }; std::vector<Sh> sh; u64 shoff = 0; u32 shstr = 0;
	if (table) {
		std::string str(1, 0), syms(1, 0); auto add = [](std::string& t, const std::string& n) { u32 o = t.size(); t += n; t += '\0'; return o; };
		sh.push_back({}); for (auto& s : m.secs) sh.push_back({add(str, s.name), 1, 6, m.segs[s.seg].va + s.off, m.segs[s.seg].off + s.off, s.size, 0, 0, 4, 0});
		for (size_t i = 0; i < m.segs.size(); i++) { auto& s = m.segs[i]; if (s.flags & 1) continue; if (s.file) sh.push_back({add(str, s.flags & 2 ? ".data" : ".rodata"), 1, 2 | (s.flags & 2 ? 1ull : 0), s.va, s.off, s.file, 0, 0, 8, 0}); if (s.bss) sh.push_back({add(str, ".bss"), 8, 3, s.va + s.file, s.off + s.file, s.bss, 0, 0, 8, 0}); }
		if (p.get("shuffle")) { Rng r(p.get("shuffle")); for (size_t i = sh.size(); i > 2; i--) std::swap(sh[i - 1], sh[1 + r.below(i - 1)]); }
		struct Sy { u32 name; u8 info, other; u16 shndx; u64 value, size; }; std::vector<Sy> sy(1); for (size_t k = 0; k < m.pieces.size(); k++) sy.push_back({add(syms, "piece" + std::to_string(k)), 0x12, 0, 1, m.pieces[k].at, p.get("nosize") >> k % 8 & 1 ? 0 : WORDS * 4}); for (size_t i = 0; i < m.segs.size(); i++) if (!(m.segs[i].flags & 1) && m.segs[i].file + m.segs[i].bss >= 4) sy.push_back({add(syms, "object" + std::to_string(i)), 0x11, 0, 1, m.segs[i].va, 4});
		auto put = [&](const void* d, size_t n) { u64 o = up(m.elf.size(), 8); m.elf.resize(o + n); memcpy(&m.elf[o], d, n); return o; };
		u64 so = put(sy.data(), sy.size() * 24), to = put(syms.data(), syms.size()); u32 n = sh.size(); sh.push_back({add(str, ".symtab"), 2, 0, 0, so, sy.size() * 24, n + 1, 1, 8, 24}); sh.push_back({add(str, ".strtab"), 3, 0, 0, to, syms.size(), 0, 0, 1, 0}); u32 nm = add(str, ".shstrtab"); if (p.get("tail")) str += std::string(p.get("tail") % 9, 'z'); u64 ro = put(str.data(), str.size()); shstr = sh.size(); sh.push_back({nm, 3, 0, 0, ro, str.size(), 0, 0, 1, 0}); shoff = put(sh.data(), sh.size() * 64);
	}
	u8 id[16] = {0x7f, 'E', 'L', 'F', 2, 1, 1}; memcpy(&m.elf[0], id, 16); auto w = [&](u64 o, u64 v, int n) { memcpy(&m.elf[o], &v, n); };
	w(16, 2, 2); w(18, 258, 2); w(20, 1, 4); w(24, m.entry, 8); w(32, m.phoff, 8); w(40, shoff, 8); w(48, 0x43, 4); w(52, 64, 2); w(54, 56, 2); w(56, m.phn, 2); w(58, 64, 2); w(60, sh.size(), 2); w(62, shstr, 2); memcpy(&m.elf[m.phoff], ph.data(), 56 * m.phn);
	for (auto& s : m.segs) if (s.file) memcpy(s.bytes.data(), &m.elf[s.off], s.file); // the headers are part of what is loaded
	return m;
}
Plan gen(Rng& r, int tier) {
	Plan p; p.cfg["nosize"] = r.chance(1, 3) ? r.below(256) : 0; p.cfg["secs"] = r.chance(2, 3); p.cfg["hdr"] = r.chance(1, 2); p.cfg["sel"] = r.below(8); p.cfg["phat"] = r.chance(2, 3) ? 0 : r.range(1, 3); p.cfg["phgap"] = r.below(20); p.cfg["mixed"] = r.chance(1, 8) ? r.next() : 0; p.cfg["high"] = r.chance(1, 8) ? r.range(1, 2) : 0; p.cfg["nulls"] = r.chance(1, 12) ? r.below(300) : 0; p.cfg["shuffle"] = r.chance(1, 4) ? r.next() : 0; p.cfg["tail"] = r.below(9); p.cfg["base"] = r.chance(1, 2) ? 0x10000 : r.chance(1, 2) ? r.below(0x20000) + 1 : r.below(64) * PG + PG;
	u64 n = r.chance(1, 3) ? 2 : r.range(1, 7); std::vector<u64> sizes, flags; bool any = false;
	for (u64 i = 0; i < n; i++) { u64 f = r.below(3) == 0 ? 2 : r.below(2); if (r.chance(1, 20)) f = 3; if (!any && i + 1 == n) f |= 1; any |= f & 1; u64 file = f & 1 ? 1024 * (i == 0 && p.cfg["hdr"]) + r.range(40, r.chance(1, 4) ? 9000 : 1500) : r.chance(1, 6) ? 0 : r.range(1, r.chance(1, 4) ? 9000 : 600); sizes.push_back(file); flags.push_back(f);
		p.add("g", {f, i == 0 ? 0 : r.chance(1, 4) ? 0 : r.chance(1, 2) ? r.below(200) : r.below(20000), file, r.chance(1, 2) ? 0 : r.below(r.chance(1, 3) ? 20000 : 300), r.next() >> 8, r.chance(1, 2) ? 0 : r.below(5000)}); }
	std::vector<std::pair<u64, std::pair<u64, u64>>> sec; for (u64 i = 0; i < n; i++) if (flags[i] & 1) { int k = r.chance(1, 3) ? 1 : r.below(5); u64 lo = i == 0 && p.cfg["hdr"] ? 1024 : 0; bool whole = k == 1 && r.chance(1, 2); for (int q = 0; q < k; q++) { u64 off = whole ? lo : (lo + r.below(std::max<u64>(1, sizes[i] - lo))) & ~3ull, left = sizes[i] > off ? sizes[i] - off : 0, len = whole ? left & ~3ull : r.range(24, std::max<u64>(24, std::min<u64>(left, 400))) & ~3ull; p.add("s", {i, off, len, r.chance(2, 3) ? r.below(4) : r.below(8)}); sec.push_back({i, {off, len}}); } }
	for (int k = r.range(6, 30); k > 0; k--) if (!sec.empty() && p.cfg["secs"] && r.chance(4, 5)) { auto& s = r.pick(sec); p.add("k", {s.first, s.second.first + (r.chance(1, 4) ? 0 : r.chance(1, 4) && s.second.second >= 24 ? s.second.second - 24 : r.below(s.second.second)) / 4 * 4}); } else { u64 i = r.below(n); p.add("k", {i, r.chance(1, 5) ? (sizes[i] & ~3ull) - 24 : r.below(sizes[i] + 1) & ~3ull}); }
	for (int k = r.below(4); k > 0; k--) p.add("h", {r.below(6), r.below(8)});
	int m = r.range(3, tier ? 40 : 14); bool faults = r.chance(1, 3);
	for (int i = 0; i < m; i++) { u64 s = r.below(3); u32 c = r.below(100); if (i == 0 || c < 30) p.ops.push_back({"b", {s, r.below(2), r.below(8) + (r.chance(1, 8) ? 8 : 0), faults ? r.below(40) : ~0ull, r.range(1, 2), r.chance(1, 3) ? 63ull + r.below(3) : r.below(128)}}); else if (c < 62) p.add("r", {s, r.next() >> 16}); else if (c < 82) p.add("l", {s, r.chance(1, 10) ? r.below(3000) : r.range(1, 6), r.chance(1, 10) ? r.below(3000) : r.below(6), r.next() >> 16, r.chance(3, 4) ? 20 : r.chance(1, 2) ? 300 : 1 << r.below(17)}); else if (c < 90) p.add("j", {s, r.next() >> 16}); else if (c < 96) p.add("d", {s}); else p.add("x"); }
	return p;
}
struct Arena { u8* p; size_t n; Arena() { n = 2 << 20; p = (u8*)syscall(SYS_mmap, nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } } };
struct Slot { std::shared_ptr<MachineOptions> o; std::unique_ptr<Machine> m; u64 img = 0, stack_lo = 0, stack_hi = 0; bool linux_done = false; };
void exec(const Plan& p, Ctx& ctx) {
	clear_shared(); seam::alloc_reset(); auto& al = seam::alloc(); Image im[2] = {make(p, 0), make(p, 1)}; if (im[0].pieces.empty()) { ctx.ev("nothing"); return; } Machine::setup_linux_syscalls();
	static Arena donated[3]; Slot slots[3]; u64 big = up(im[0].end, PG); u64 shape = mix(im[0].segs.size(), im[0].secs.size()); for (auto& q : im[0].pieces) shape = mix(shape, q.seg); ctx.count("images"); { u64 x = 0; for (auto& s : im[0].segs) x += s.flags & 1; ctx.count(x > 1 ? "images:several-executable-segments" : "images:one-executable-segment"); } if (im[0].secs.size() > 1) ctx.count("images:several-executable-sections");
	auto blank = [&](Machine& m, u64 sp, const char* what) { auto& g = m.cpu.registers(); bool z = g.fcsr() == 0; for (u32 i = 0; i < 32; i++) { z = z && (i == 3 ? g.get(i) == sp : g.get(i) == 0); for (auto& d : g.getvr(i).du) z = z && d == 0; } for (u32 i = 0; i < 8; i++) z = z && g.cf(i) == 0; ctx.check(z, "registers", fmt("%s does not start with empty registers", what)); };
	auto expect = [&](Slot& s, const char* when) { auto& I = im[s.img]; const u8* a = s.m->memory.arena_ptr(); u64 size = s.m->memory.arena_size(), at = 0; std::function<void(u64, u64)> part = [&](u64 from, u64 to) { if (from < to && to - from > 16 << 20) { part(from, from + (2 << 20)); from = to - (2 << 20); } if (from >= to || (!a[from] && !memcmp(a + from, a + from + 1, to - from - 1))) return; while (!a[from]) from++; ctx.fail("image", fmt("%s: memory at %llx, which no segment defines, holds %02x", when, (long long)from, a[from])); };
		auto zero = [&](u64 to) { part(at, std::min(to, std::max(at, s.stack_lo))); part(std::max(at, s.stack_hi), to); };
		for (auto& g : I.segs) { if (g.va > at) zero(g.va); if (g.file && memcmp(a + g.va, g.bytes.data(), g.file)) { u64 i = 0; while (a[g.va + i] == g.bytes[i]) i++; ctx.fail("image", fmt("%s: memory at %llx holds %02x, the executable says %02x", when, (long long)(g.va + i), a[g.va + i], g.bytes[i])); } at = std::max(at, g.va + g.file); } zero(size); };
	for (auto& o : p.ops) {
		u64 si = o.arg(0) % 3; Slot& s = slots[si];
		if (o.k == "b") {
			s = Slot{}; s.img = o.arg(1) & 1; auto& I = im[s.img]; s.o = std::make_shared<MachineOptions>(); auto& op = *s.o; op.use_shared_execute_segments = o.arg(2) & 1; op.stack_size = 64 << 10; op.brk_size = 8 << 10; u64 need = up(I.end, PG) + op.stack_size + op.brk_size; bool don = o.arg(2) & 2; op.memory_max = need + (don ? 64 : 0) + (o.arg(2) & 4 ? 0 : 100000); if (o.arg(2) & 8) op.memory_max = need + (don ? 64 : 0) - 64 + o.arg(5) % 128; auto& d = donated[si]; if (op.memory_max + 64 > d.n) don = false; const bool fits = need <= op.memory_max - (don ? 64 : 0);
			if (don) { memset(d.p, 0, d.n); op.custom_arena_pointer = d.p; op.custom_arena_size = op.memory_max; }
			bool ok = true; std::string what; al.failed = 0; al.fail_at = o.arg(3) == ~0ull ? ~0ull : al.n + o.arg(3); al.fail_count = std::max<u64>(1, o.arg(4)); al.on = true;
			try { s.m.reset(new Machine(std::string_view((const char*)I.elf.data(), I.elf.size()), op)); } catch (const std::exception& e) { al.on = false; ok = false; what = e.what(); }
			al.on = false; u64 failed = al.failed; al.fail_at = ~0ull; if (failed) ctx.count("fault:host-memory", failed); if (!fits) ctx.count("builds:too-little-memory"); ctx.check(!ok || fits, "accepted", fmt("a machine with %llu bytes of%s memory was made, its program, stack and brk area need %llu", (long long)op.memory_max, don ? " donated" : "", (long long)need)); ctx.check(ok || failed || !fits, "refused", fmt("a well-formed executable was refused: %s", what.c_str())); ctx.ev("build", ok, s.img, failed); ctx.count(ok ? "built" : "failed-builds"); if (!ok) { s = Slot{}; continue; }
			s.m->set_options(s.o); Machine& m = *s.m; ctx.nontrivial++; s.stack_hi = s.stack_lo = 0;
			ctx.check(m.cpu.pc() == I.entry && m.memory.start_address() == I.entry, "entry", fmt("execution would start at %llx, the executable says %llx", (long long)m.cpu.pc(), (long long)I.entry)); u64 sp = m.cpu.reg(3), lim = m.memory.arena_size(); ctx.check(sp <= lim && sp - op.stack_size >= up(I.end, PG), "stack", fmt("the stack ends at %llx, memory at %llx and the program at %llx", (long long)sp, (long long)lim, (long long)I.end));
			blank(m, sp, "a new machine"); expect(s, "built"); s.stack_hi = sp; s.stack_lo = sp - op.stack_size;
			if (p.get("secs")) { for (size_t k = 0; k < I.pieces.size(); k++) { ctx.check(m.address_of("piece" + std::to_string(k)) == I.pieces[k].at, "symbol", "the address of a function symbol"); auto* y = m.lookup_symbol(I.pieces[k].at + 4 * (k % WORDS)); ctx.check(y && y->address == I.pieces[k].at && y->name == "piece" + std::to_string(k), "symbol", fmt("the symbol of %llx, which piece%zu holds, is %s at %llx", (long long)(I.pieces[k].at + 4 * (k % WORDS)), k, y ? y->name.c_str() : "nothing", y ? (long long)y->address : 0)); } ctx.check(m.address_of("piece99") == 0 && m.address_of("") == 0, "symbol", "a symbol that does not exist has an address"); }
		} else if (o.k == "x") { clear_shared(); ctx.ev("clear"); }
		else if (!s.m) continue;
		else if (o.k == "d") { s = Slot{}; ctx.ev("destroy"); }
		else if (o.k == "l") {
			Machine& m = *s.m; auto& I = im[s.img]; Rng r(o.arg(3)); auto text = [&](u64 n) { std::vector<std::string> v; for (u64 i = 0; i < n; i++) { std::string t(r.chance(1, 8) ? 0 : r.below(std::min<u64>(o.arg(4, 20), 1 << 17)), 'x'); for (auto& c : t) c = 1 + r.below(255); v.push_back(t); } return v; };
			auto args = text(std::min<u64>(o.arg(1, 1), 4000)), env = text(std::min<u64>(o.arg(2), 4000)); u64 total = 0; for (auto& t : args) total += t.size() + 1; for (auto& t : env) total += t.size() + 1; if (total > 300000) continue; u64 lo = total + 16 + 224 + 8 * (args.size() + env.size() + 3), room = s.stack_hi - s.stack_lo;
			m.cpu.reg(3) = s.stack_hi; bool ok = true; std::string what; srand(77); try { m.setup_linux(args, env); } catch (const MachineException& e) { ok = false; what = e.what(); }
			ctx.ev("linux", ok, args.size(), env.size()); ctx.nontrivial++; ctx.count(ok ? "set-up" : "refused-arguments");
			if (args.empty()) { ctx.check(!ok, "arguments", "no program name was accepted"); expect(s, "after refused arguments"); continue; }
			ctx.check(ok || lo + 512 > room, "arguments", fmt("%llu bytes of arguments do not fit into %llu bytes of stack: %s", (long long)lo, (long long)room, what.c_str())); ctx.check(!ok || lo <= room, "arguments", fmt("%llu bytes of arguments were put on %llu bytes of stack", (long long)lo, (long long)room)); expect(s, ok ? "set up" : "after refused arguments"); if (!ok) continue;
			u64 sp = m.cpu.reg(3); ctx.check(sp % 16 == 0, "stack", fmt("the stack pointer at the entry is %llx", (long long)sp)); ctx.check(sp >= s.stack_lo && sp < s.stack_hi, "stack", "the stack pointer lies outside the stack"); const u8* a = m.memory.arena_ptr(); auto w = [&](u64 at) { u64 v = 0; ctx.check(at >= sp && at + 8 <= s.stack_hi, "stack", "what the stack holds does not end inside it"); memcpy(&v, a + at, 8); return v; }; u64 at = sp;
			auto strings = [&](const std::vector<std::string>& v, const char* n) { for (size_t i = 0; i < v.size(); i++, at += 8) { u64 q = w(at); ctx.check(q >= sp && q + v[i].size() < s.stack_hi && !memcmp(a + q, v[i].c_str(), v[i].size() + 1), "arguments", fmt("%s %zu of %zu is not what was given", n, i, v.size())); } ctx.check(w(at) == 0, "arguments", fmt("the list of %ss does not end", n)); at += 8; };
			ctx.check(w(at) == args.size(), "arguments", "the number of arguments"); at += 8; strings(args, "argument"); strings(env, "environment string");
			std::map<u64, u64> aux; for (;; at += 16) { u64 k = w(at), v = w(at + 8); if (!k) break; ctx.check(!aux.count(k), "auxiliary", "an auxiliary entry is there twice"); aux[k] = v; ctx.check(aux.size() < 40, "auxiliary", "the auxiliary vector does not end"); }
			ctx.check(aux[9] == I.entry && aux[6] == PG && aux[5] == I.phn && aux[4] == 56, "auxiliary", "entry, page size, or number or size of program headers"); ctx.check(aux.count(25) && aux[25] >= sp && aux[25] + 16 <= s.stack_hi, "auxiliary", "the random bytes"); 
			bool in = false; u64 want = 0; for (auto& g : I.segs) if (I.phoff >= g.off && I.phoff + 56 * I.phn <= g.off + g.file) { in = true; want = g.va + I.phoff - g.off; } { ctx.check(aux[3] == want, "auxiliary", fmt("the program headers are said to be at %llx, they are at %llx", (long long)aux[3], (long long)want)); if (in) ctx.count("headers-loaded"); }
			s.linux_done = true;
		} else if (o.k == "r") {
			Machine& m = *s.m; auto& I = im[s.img]; Rng r(o.arg(1)); std::vector<size_t> ord(I.pieces.size()); for (size_t i = 0; i < ord.size(); i++) ord[i] = i; for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
			u64 x = r.next(), y = 0, sp = m.cpu.reg(3); m.cpu.reg(12) = x; m.cpu.reg(14) = 3; m.cpu.reg(15) = 0; for (size_t i = 0; i < ord.size(); i++) { m.cpu.reg(20 + ord[i]) = i + 1 < ord.size() ? I.pieces[ord[i + 1]].at : I.stop; x = x * 3 + I.consts[ord[i]]; y += I.pieces[ord[i]].at + 8; }
			m.cpu.jump(I.pieces[ord[0]].at); std::string what = "it did not stop"; bool ok = false; try { switch (r.below(3)) { case 0: ok = m.simulate(1000, 0); break; case 1: m.cpu.simulate_inaccurate(m.cpu.pc()); ok = true; break; default: ok = m.simulate(~0ull, 0); } } catch (const MachineException& e) { what = fmt("%s %llx", e.what(), (long long)e.data()); }
			ctx.check(ok, "not-runnable", fmt("code in an executable segment does not run: %s", what.c_str())); ctx.check(m.cpu.reg(12) == x && m.cpu.reg(15) == y && m.cpu.reg(3) == sp && m.cpu.pc() == I.stop + 4, "wrong-result", "code in executable segments computed something else"); ctx.ev("run", x, y); ctx.count("runs"); ctx.nontrivial++; expect(s, "run");
			if (r.chance(1, 4)) { auto& g = m.cpu.registers(); for (u32 i = 1; i < 32; i++) { g.get(i) = r.next(); for (auto& d : g.getvr(i).du) d = r.next(); } g.set_fcsr(0x300); for (u32 i = 0; i < 8; i++) g.set_cf(i, 1); m.cpu.reset(); blank(m, m.memory.stack_address(), "a machine that was reset"); ctx.check(m.cpu.pc() == I.entry && m.memory.stack_address() == s.stack_hi, "entry", "after a reset execution would start elsewhere"); ctx.count("resets"); ctx.ev("reset"); expect(s, "reset"); }
		} else if (o.k == "j") {
			Machine& m = *s.m; auto& I = im[s.img]; Rng r(o.arg(1)); u64 at = 0; bool found = false; for (int t = 0; t < 20 && !found; t++) { auto& g = r.pick(I.segs); switch (r.below(4)) { case 0: at = g.va + r.below(g.file + g.bss + 1); break; case 1: at = g.va + g.file + g.bss; break; case 2: at = g.va - 4; break; default: at = r.below(m.memory.arena_size()); } at &= ~3ull; found = true; for (auto& q : I.segs) if ((q.flags & 1) && at + 4 > q.va && at < q.va + q.file) found = false; } if (!found) continue;
			u64 sp = m.cpu.reg(3); m.cpu.jump(at); int type = -1; try { m.simulate(10, 0); } catch (const MachineException& e) { type = e.type(); } ctx.ev("outside", at, type); ctx.check(type == loongarch::EXECUTION_SPACE_PROTECTION_FAULT, "ran-data", fmt("running %llx, which is not executable, ended with %d", (long long)at, type)); (void)sp; ctx.count("jumps-outside"); expect(s, "after a jump outside the code");
		}
		u64 st = shape; for (auto& q : slots) st = mix(st, q.m ? q.img * 4 + q.linux_done * 2 + q.o->use_shared_execute_segments : 99); ctx.state(st); ctx.simtime++;
	}
}
Register r1({"P19", "start", "layouts of executables with the state of the machines made from them", "executables made from a seed - number, order, place, size and alignment of segments and executable sections, place of the headers, other program headers - built into machines with spare, exact or donated memory, shared or not, beside others and after builds that failed for lack of host memory; memory is compared with what the executable says, every piece of code is run in seeded orders, and the initial stack is read back",
	gen, exec, 400000, 6000000, {"ELF loader", "Linux set-up", "decoder", "shared decoded code", "threaded engine"}, {"host allocation (seeded failures)"}, {"plain", "asan"}});
} // namespace
