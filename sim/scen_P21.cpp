// P21: the emulator program. Its main() is the repository's, under another name, run in a fresh process per run.
// cfg: mem (MiB, 0: not given)  fuel (0: not given, 1: max, else relative to what the program needs: 2 far below, 3 one below,
//      4 exactly, 5 far above)  opts (bit 0 silent, 1 verbose, 2 timing, 3 stats, 4 precise, 5 translation options, 6 "--" before the program)
//      form (how options are spelled)  file (0 good, else damage)  cut  out (0 pipe-like, 1 full device)  buf (stdout buffering)
//      fail/count (n-th allocation or mapping fails, so many)  rfail/rkind (n-th read of the file fails or is short)
// ops: a LEN SEED KIND   one argument of the program     c KIND N   one thing the program does (in its last argument)
#include "core.hpp"
#include "interpose.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <iostream>
extern "C" int laemu_main(int argc, char** argv);
namespace {
using namespace sim;
struct Reads { int fd = -1; bool on = false; u64 n = 0, at = ~0ull; int kind = 0; u64 hit = 0; } g_reads;
struct Shared { u64 failed, rhit, allocs; }; Shared* shm() { static Shared* s = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return s; }
bool regular(int fd) { struct stat st; return fd > 2 && !fstat(fd, &st) && S_ISREG(st.st_mode); }
} // namespace
extern "C" ssize_t read(int fd, void* b, size_t n) {
	static ssize_t (*real)(int, void*, size_t) = (ssize_t(*)(int, void*, size_t))dlsym(RTLD_NEXT, "read");
	auto& g = g_reads; if (!g.on || !regular(fd)) return real(fd, b, n);
	if (g.n++ == g.at || (g.n > g.at && g.kind == 2)) { shm()->rhit++; if (g.kind == 0) { errno = EIO; return -1; } if (g.kind == 3) return 0; if (n > 1) n = n > 100000 ? 4096 : n / 2; }
	return real(fd, b, n);
}
namespace {
const std::string& program() { static std::string s; if (s.empty()) { std::ifstream in(std::string(GUEST_DIR) + "/emu", std::ios::binary); std::stringstream t; t << in.rdbuf(); s = t.str(); if (s.empty()) { fprintf(stderr, "error: the guest program is missing\n"); _exit(3); } } return s; }
std::string arg_text(const Op& o) { // anything a user may hand to a program, in particular what looks like the emulator's options
	static const char* opt[] = {"-v", "--help", "-h", "-s", "--silent", "-f", "10", "--fuel=3", "-m", "1", "--", "-", "--stats", "-t", "--precise", "-x", "--no-such-option", "-n", "-T", "-O", "out.c", "", "a b", "--verbose", "-sv", "--memory", "0", "%s%n", "\xff\xfe\x01", "l1\nl2"};
	Rng r(o.arg(1)); switch (o.arg(2) % 4) { case 0: case 1: return opt[r.below(sizeof opt / sizeof *opt)]; default: { std::string s; for (u64 i = 0; i < o.arg(0); i++) s += char(o.arg(2) % 4 == 2 ? 'a' + r.below(26) : 1 + r.below(255)); return s; } }
}
struct End { int st = 0; std::string out, err; bool exited() const { return WIFEXITED(st); } int code() const { return WEXITSTATUS(st); } std::string text() const { return exited() ? fmt("exit status %d", code()) : fmt("signal %d", WTERMSIG(st)); } };
std::string all(int fd) { std::string s; char b[65536]; lseek(fd, 0, SEEK_SET); ssize_t n; bool on = g_reads.on; g_reads.on = false; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); g_reads.on = on; return s; }
int call(int n, char** v) noexcept { return laemu_main(n, v); } // an exception that leaves main() ends the process
struct Faults { u64 fail = ~0ull, count = 1, rat = ~0ull; int rkind = 0; };
End emulate(const std::vector<std::string>& args, const Plan& p, const Faults& f) {
	int o = memfd_create("out", 0), e = memfd_create("err", 0); bool full = p.get("out") == 1; if (o < 0 || e < 0) { perror("memfd"); _exit(3); }
	fflush(stdout); fflush(stderr); memset(shm(), 0, sizeof(Shared)); pid_t pid = fork();
	if (!pid) {
		signal(SIGPROF, SIG_DFL); signal(SIGALRM, SIG_DFL); struct itimerval z{}; setitimer(ITIMER_PROF, &z, nullptr); alarm(60); struct rlimit nc{0, 0}, cpu{25, 26}; setrlimit(RLIMIT_CORE, &nc); setrlimit(RLIMIT_CPU, &cpu); // a crash leaves no file
		int w = full ? open("/dev/full", O_WRONLY) : o; dup2(w, 1); dup2(e, 2); setvbuf(stdout, nullptr, p.get("buf") == 0 ? _IOFBF : p.get("buf") == 1 ? _IOLBF : _IONBF, 4096); setvbuf(stderr, nullptr, _IONBF, 0);
		setenv("HOSTSECRET", "HOSTSECRET", 1); unsetenv("POSIXLY_CORRECT"); srand(1);
		std::vector<char*> av; for (auto& a : args) av.push_back(strdup(a.c_str())); av.push_back(nullptr);
		g_reads.on = true; g_reads.at = f.rat; g_reads.kind = f.rkind; auto& al = seam::alloc(); seam::alloc_reset(); al.fail_at = f.fail; al.fail_count = f.count; al.on = true;
		int rc = call(int(av.size() - 1), av.data()); al.on = false; shm()->failed = al.failed; shm()->allocs = al.n; exit(rc);
	}
	End r; while (waitpid(pid, &r.st, 0) < 0) {} r.out = all(o); r.err = all(e); close(o); close(e); return r;
}
// What the program prints, piece by piece, and how it ends.
struct Want { std::vector<std::string> out; int code = 0, full = 0; enum { EXIT, FAULT, SPIN } how = EXIT; u64 mb = 0; bool mem_unclear = false; };
Want model(const std::vector<std::string>& args, const std::vector<Op>& cmds, u64 mem) {
	Want w; std::string s = fmt("argc %zu\n", args.size()); for (size_t i = 0; i < args.size(); i++) s += fmt("%zu %zu:", i, args[i].size()) + args[i] + "\n"; w.out.push_back(s);
	static const char kinds[] = "pwWEbmdtqsfgiaexr"; u64 used = 0;
	for (auto& o : cmds) { char k = kinds[o.arg(0) % 17]; i64 n = i64(o.arg(1)); s.clear(); if (k == 't' || k == 'q') { used += 9; if (used + 24 > (mem ? mem : 4096)) { w.mem_unclear = true; w.out.push_back("m "); for (auto& x : cmds) if (x.arg(0) % 17 == 9) w.how = Want::SPIN; return w; } } /* a thread's stack */ switch (k) {
		case 'p': s = fmt("p %lld\n", (long long)n); break; case 'w': for (i64 i = 0; i < n; i++) s += char('a' + i % 23); s += '\n'; break; case 'W': for (i64 i = 0; i < n; i++) s += char('A' + i % 25); s += '\n'; break;
		case 'E': s = fmt("err %lld\n", (long long)n); break; /* both streams go where the host prints */ case 'd': s = fmt("d %lld 1\n", (long long)n); break; case 't': s = fmt("t %lld\n", (long long)n); w.out.push_back(s); s = fmt("joined %lld\n", (long long)n); break;
		case 'm': s = "m"; used += n; break; case 'q': case 'e': case 'x': case 'r': w.code = n & 255; w.full = int(n); return w; case 's': w.how = Want::SPIN; return w; case 'f': case 'g': case 'i': case 'a': w.how = Want::FAULT; return w; default: break; }
		if (k == 'm') { u64 lim = mem ? mem : 4096; s = fmt("m %lld ", (long long)n); if (u64(n) >= lim) s += "failed 0\n"; else if (used + 24 > lim) { w.mem_unclear = true; } else s += "ok *"; }
		if (!s.empty()) w.out.push_back(s); }
	return w;
}
std::string cmd_text(const std::vector<Op>& cmds) { static const char kinds[] = "pwWEbmdtqsfgiaexr"; std::string s; for (auto& o : cmds) s += fmt("%s%c%lld", s.empty() ? "" : ",", kinds[o.arg(0) % 17], (long long)o.arg(1)); return s; }
// Takes one expected piece off the front of the text (or finds it further on: with the emulator's own trace in between).
bool take_piece(const std::string& out, size_t& at, const std::string& piece, bool anywhere, u64 mem, std::string& why) {
	bool star = piece.size() > 4 && piece[0] == 'm' && piece.back() == '*'; std::string head = star ? piece.substr(0, piece.size() - 1) : piece; size_t i = anywhere ? out.find(head, at) : out.compare(at, head.size(), head) == 0 ? at : std::string::npos;
	if (i == std::string::npos) { why = "expected \"" + head.substr(0, 60) + "\", got \"" + out.substr(at, 60) + "\""; return false; }
	at = i + head.size(); if (star) { u64 top = 0; size_t e = out.find('\n', at); if (e == std::string::npos) { why = "no end of line"; return false; } top = strtoull(out.c_str() + at, nullptr, 10); if (top > (mem ? mem : 4096)) { why = fmt("the program was given memory up to %llu MiB of %llu", (long long)top, (long long)mem); return false; } at = e + 1; }
	return true;
}
Plan gen(Rng& r, int) {
	Plan p; int na = r.chance(1, 3) ? 0 : r.range(1, 6); for (int i = 0; i < na; i++) p.add("a", {r.chance(1, 10) ? r.range(200, 3000) : r.below(12), r.next() >> 20, r.below(4)});
	int nc = r.range(0, 5); for (int i = 0; i < nc; i++) { u64 k = r.below(8); u64 n = k == 1 || k == 2 ? r.chance(1, 4) ? r.range(4000, 30000) : r.below(200) : k == 4 ? r.below(3000) : k == 5 ? r.chance(1, 3) ? r.range(1, 6000) : r.range(1, 40) : k == 6 ? r.below(400) : r.below(1000); p.add("c", {k, n}); }
	u64 last = r.below(12); if (last < 8) p.add("c", {last < 2 ? 8 + r.below(2) * 6 : 14 + r.below(3), r.chance(1, 3) ? r.below(2) : r.chance(1, 2) ? r.below(256) : r.next() & 0x7fffffff}); else if (last < 10) p.add("c", {9 + r.below(5), 0});
	bool spin = false; for (auto& o : p.ops) spin |= o.k == "c" && o.arg(0) == 9;
	p.cfg["mem"] = r.chance(1, 3) ? 0 : r.chance(1, 12) ? r.pick({u64(4097), u64(4100), u64(6000), u64(8192), u64(20000)}) : r.chance(1, 3) ? r.range(7, 40) : r.range(16, 600); p.cfg["fuel"] = spin ? 2 : r.chance(1, 3) ? 0 : r.range(1, 5);
	u64 o = 0; if (r.chance(1, 3)) o |= 1; if (r.chance(1, 5)) o |= 2; if (r.chance(1, 4)) o |= 4; if (r.chance(1, 10)) o |= 8; if (r.chance(1, 4)) o |= 16; if (r.chance(1, 4)) o |= 32; if (r.chance(1, 5)) o |= 64; p.cfg["opts"] = o; p.cfg["form"] = r.next() >> 30; p.cfg["buf"] = r.below(3);
	u64 bad = r.below(20); if (bad == 0) { p.cfg["file"] = r.range(1, 9); p.cfg["cut"] = r.next() >> 20; } else if (bad == 1) p.cfg["usage"] = r.range(1, 7); else if (bad == 2) p.cfg["out"] = 1; else if (bad < 8) { p.cfg["fail"] = r.chance(1, 3) ? r.below(12) : r.chance(1, 2) ? r.below(60) : r.below(400); p.cfg["count"] = r.chance(3, 4) ? 1 : r.range(2, 2000); } else if (bad == 8) { p.cfg["rfail"] = 1 + r.below(4); p.cfg["rkind"] = r.below(4); } else if (bad == 9) p.cfg["bigmem"] = 1 + r.below(5);
	return p;
}
void exec(const Plan& p, Ctx& c) {
	const std::string& prog = program(); std::vector<std::string> gargs; std::vector<Op> cmds; for (auto& o : p.ops) if (o.k == "a") gargs.push_back(arg_text(o)); else if (o.k == "c") cmds.push_back(o);
	int fd = 100; { int t = memfd_create("program", 0); if (t < 0 || dup2(t, fd) < 0) { perror("memfd"); _exit(3); } close(t); } u64 file = p.get("file"); std::string image = prog; Rng fr(p.get("cut", 1));
	if (file == 1) image.clear(); else if (file == 2) image.resize(fr.below(5)); else if (file == 3) image[fr.below(4)] ^= 1 + fr.below(255); else if (file == 4) image[4] = fr.chance(1, 2) ? 1 : fr.below(256); else if (file == 5) image.resize(fr.below(image.size())); else if (file == 6) image[18] ^= 1 + fr.below(255);
	bool refused = file != 0; if (file == 4 && image[4] == 2) refused = false; if (file == 5 && image.size() > 600000) refused = false; bool maybe = file == 5; // enough may be left
	for (size_t at = 0; at < image.size();) { ssize_t n = write(fd, image.data() + at, image.size() - at); if (n <= 0) { perror("write"); _exit(3); } at += n; }
	std::string path = fmt("/proc/self/fd/%d", fd); if (file == 7) path = "/proc/self/fd"; else if (file == 8) path = "/no/such/program"; else if (file == 9) path = "";
	struct Close { int fd; ~Close() { close(fd); } } cl{fd};
	u64 opts = p.get("opts"), mem = p.get("mem"), big = p.get("bigmem"); Rng f(p.get("form"));
	auto line = [&](const std::string& fuel, bool precise, u64 keep) { // the command line
		std::vector<std::vector<std::string>> o; auto num = [&](char s, const char* l, const std::string& v) { switch (f.below(5)) { case 0: o.push_back({fmt("-%c", s), v}); break; case 1: o.push_back({fmt("-%c%s", s, v.c_str())}); break; case 2: o.push_back({fmt("--%s=%s", l, v.c_str())}); break; case 3: o.push_back({fmt("--%s", l), v}); break; default: o.push_back({fmt("--%.3s", l), v}); } };
		if (big) { static const char* b[] = {"99999999999", "18446744073709551615", "17592186044416", "-1", "8796093022208"}; num('m', "memory", b[big % 5]); } else if (mem) num('m', "memory", fmt(f.chance(1, 4) ? "0%llu" : "%llu", (long long)mem)); if (!fuel.empty()) num('f', "fuel", fuel);
		if (keep & 1) o.push_back({f.chance(1, 2) ? "-s" : "--silent"}); if (keep & 2) o.push_back({f.chance(1, 2) ? "-v" : "--verbose"}); if (keep & 4) o.push_back({f.chance(1, 2) ? "-t" : "--timing"}); if (keep & 8) o.push_back({"--stats"}); if (precise) o.push_back({"--precise"});
		if (keep & 32) { static const char* t[] = {"-n", "--no-regcache", "--fast", "--nbit-as", "--no-translate"}; for (int i = f.range(1, 3); i--;) o.push_back({t[f.below(5)]}); }
		for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[f.below(i)]); std::vector<std::string> a{"laemu"}; for (auto& x : o) a.insert(a.end(), x.begin(), x.end()); return a; };
	std::vector<std::string> pargs{path}; for (auto& a : gargs) pargs.push_back(a); pargs.push_back(cmd_text(cmds)); Want w = model(pargs, cmds, mem);
	auto cmdline = [&](std::vector<std::string> a, bool dd) { if (dd) a.push_back("--"); a.insert(a.end(), pargs.begin(), pargs.end()); return a; };
	auto show = [&](const std::vector<std::string>& a) { std::string s; for (auto& x : a) s += (s.empty() ? "" : " ") + (x.size() > 40 ? x.substr(0, 40) + "..." : x); return s; };
	auto alive = [&](const End& e, const std::string& what) { if (e.exited()) return; if (WTERMSIG(e.st) == SIGALRM || WTERMSIG(e.st) == SIGXCPU || WTERMSIG(e.st) == SIGKILL) c.fail("hang", "no end: " + what); c.fail(fmt("crash-signal-%d", WTERMSIG(e.st)), what + ": " + e.err.substr(0, 200)); };
	c.nontrivial++; 
	if (u64 us = p.get("usage")) { // command lines that cannot be
		std::vector<std::string> a = line("", false, opts & 5); switch (us) { case 1: break; case 2: a.push_back("--no-such-option"); a = cmdline(a, false); break; case 3: a.push_back("-f"); break; case 4: a.push_back("-Z"); a = cmdline(a, false); break; case 5: a.push_back("--"); break; case 6: a.push_back("-h"); a = cmdline(a, false); break; default: a.push_back("--help"); a = cmdline(a, false); }
		End e = emulate(a, p, {}); alive(e, show(a)); c.check(e.out.find("argc ") == std::string::npos, "ran", "the program was run: " + show(a)); c.check(us >= 6 ? e.code() == 0 : e.code() == 1, "exit-status", fmt("exit status %d: %s", e.code(), show(a).c_str())); c.count("command line without a program or with a wrong option"); c.ev("usage", us, e.code()); return; }
	// how many instructions the program takes with this memory: told by the emulator itself
	u64 need = 0, fuel = p.get("fuel"); bool precise = opts & 16; std::string ftext;
	if (fuel >= 2 && !refused && !big) {
		if (w.how == Want::EXIT) { auto a = cmdline(line("max", precise, 0), false); Plan q = p; q.cfg["out"] = 0; End e = emulate(a, q, {}); alive(e, show(a)); size_t at = e.out.rfind(" after "); if (at == std::string::npos) { if (e.code() == 255) need = 0; else c.fail("count", "no instruction count: " + e.out.substr(e.out.size() > 100 ? e.out.size() - 100 : 0)); } else need = strtoull(e.out.c_str() + at + 7, nullptr, 10); c.ev("need", need); }
		else need = 100000000; // spins or faults: then only far less than it takes to get there, or far more
		if (need) { Rng k(p.get("form") + 1); u64 v = fuel == 2 ? w.how == Want::EXIT ? k.range(1, need > 140000 ? need - 130000 : 1000) : w.how == Want::SPIN ? k.range(400000000, 500000000) / 100 : k.range(1, 5000) : fuel == 3 ? need - 1 : fuel == 4 ? need : need + (k.chance(1, 2) ? k.range(1, 1ull << 40) : (k.range(1, 1000) << 32 | k.below(need)) - need); if (w.how == Want::FAULT && fuel > 2) v = need + k.below(1000); ftext = fmt(k.chance(1, 4) ? "0%llu" : "%llu", (long long)v); fuel = fuel * 100; need = need; } else fuel = 0;
	} else if (fuel >= 2) { ftext = "1000000000"; }
	if (fuel == 1) ftext = "max"; u64 limit = ftext.empty() || ftext == "max" ? 0 : strtoull(ftext.c_str(), nullptr, 10);
	Faults flt; bool memfault = p.cfg.count("fail"); if (memfault) { flt.fail = p.get("fail"); flt.count = p.get("count", 1); } if (u64 rf = p.get("rfail")) { flt.rat = rf - 1; flt.rkind = int(p.get("rkind")); }
	std::vector<std::string> a = line(ftext, precise, opts); a = cmdline(a, opts & 64); End e = emulate(a, p, flt); const Shared s = *shm(); std::string what = show(a) + ": " + e.text(); alive(e, show(a));
	if (c.verbose) fprintf(stderr, "%s\n--- stdout\n%s--- stderr\n%s---\n", what.c_str(), e.out.c_str(), e.err.c_str());
	c.ev("end", e.st, opts & 14 || !ftext.empty() ? e.code() : /* times are real */ hash_bytes(e.out.data(), e.out.size()), 0); c.state(mix(mix(e.st, opts), mix(file * 1000 + fuel, mix(w.how, mem / 16))));
	const bool verbose = opts & 2, silent = opts & 1, fault = memfault && s.failed, rfault = s.rhit && flt.rkind != 1 && flt.rkind != 2; c.simtime++;
	if (s.failed) c.count("fault:memory", s.failed); if (s.rhit) c.count(flt.rkind == 0 ? "fault:read error" : flt.rkind == 3 ? "fault:file shrank" : "fault:short read"); if (p.get("out")) c.count("fault:output device full"); if (file) c.count("fault:program file unusable");
	// what arrived on standard output must be what the program wrote, in order, once
	size_t at = 0; std::string why; bool whole = true; size_t got = 0; if (!p.get("out")) { for (auto& x : w.out) { if (verbose && (x.size() > 100 || p.get("buf") != 2)) { got++; continue; } /* the trace goes past the stream's buffer and into the middle of the output */ if (!take_piece(e.out, at, x, verbose, mem, why)) { whole = false; break; } got++; if (w.mem_unclear && x.rfind("m ", 0) == 0) { /* whatever comes then */ whole = false; break; } } }
	const bool small = big || (mem && mem < 12); // may not be enough to start
	if (refused && !maybe) { c.check(e.code() != 0, "success-without-run", "exit status 0 for a file that is no program: " + what); c.check(e.out.find("argc ") == std::string::npos, "ran", "a file that is no program was run: " + what); c.check(!e.err.empty(), "silent-failure", "nothing on standard error: " + what); return; }
	if (e.out.find("host environment") != std::string::npos || e.err.find("HOSTSECRET") != std::string::npos) c.fail("host-environment", "the program sees the host's environment");
	if (p.get("out")) { c.count("runs:output lost"); return; } // only that it ends
	if (fault || rfault || small || maybe) { // it may have failed, then it says so
		bool ok = w.how == Want::EXIT && whole && !w.mem_unclear && e.code() == w.code; if (ok) { c.count("runs:completed despite faults"); return; }
		c.check(e.code() != 0 || w.mem_unclear || (w.how == Want::EXIT && fault && got), "success-without-run", "exit status 0, but the program did not run to its end: " + what); c.check(e.code() == 0 || !e.err.empty() || got || (silent && limit) /* running out of fuel is no error */, "silent-failure", "nothing on standard error: " + what); c.count("runs:failed by faults"); return; }
	if (w.mem_unclear) return;
	bool starved = false; if (w.how == Want::SPIN) starved = true; else if (fuel == 200) starved = true; else if (fuel == 300 && precise) starved = true; bool unclear = fuel == 300 && !precise;
	if (starved || (unclear && e.code() != w.code)) {
		if (!unclear || e.code() == 255) { c.check(e.code() == 255, "exit-status", fmt("limit of %llu instructions, the program takes %s%llu, and ends with %s", (long long)limit, w.how == Want::SPIN ? "for ever, not " : "", (long long)need, what.c_str()));
			for (auto& x : w.out) { (void)x; } std::string wantall; for (auto& x : w.out) wantall += x; if (!verbose && wantall.find('*') == std::string::npos) { std::string o = e.out; size_t st = o.find("\n=== Bytecode"); if (opts & 8 && st != std::string::npos) o.resize(st); c.check(wantall.compare(0, o.size(), o) == 0, "output", "out of fuel: \"" + o.substr(0, 80) + "\" is not how the output begins: " + what); } c.count("runs:out of fuel"); return; } }
	c.check(whole, "output", why + ": " + what);
	if (w.how == Want::FAULT) { c.check(e.code() == 255, "exit-status", "the program ends by a fault: " + what); c.check(!e.err.empty(), "silent-failure", "the program ends by a fault, nothing on standard error: " + what); c.check(e.out.find("Program exited") == std::string::npos, "output", "a program that faulted is said to have exited"); c.count("runs:guest fault"); return; }
	c.check(e.code() == w.code, "exit-status", fmt("the program exits with %d: %s; %s", w.code, what.c_str(), e.err.substr(0, 200).c_str()));
	if (!verbose) { std::string rest = e.out.substr(at); 
		if (opts & 8) { size_t k = rest.find("Program exited with code"); c.check(rest.find("=== Bytecode Usage Statistics ===") < k, "output", "no statistics: " + what); rest = k == std::string::npos ? "" : rest.substr(k); }
		if (silent) c.check(rest.empty(), "output", "silent, but \"" + rest.substr(0, 60) + "\" is on standard output: " + what);
		else { c.check(rest.rfind("Program exited with code ", 0) == 0 && rest.find('\n') == rest.size() - 1, "output", "after the program's output: \"" + rest.substr(0, 100) + "\": " + what); c.check(atoi(rest.c_str() + 25) == w.full, "exit-code-line", fmt("the program exits with %d: ", w.full) + rest + what); if (need && fuel >= 300) { size_t k = rest.find(" after "); c.check(k != std::string::npos && strtoull(rest.c_str() + k + 7, nullptr, 10) == need, "count", fmt("%llu instructions without a limit; now: %s", (long long)need, rest.c_str())); } } }
	c.count("runs:complete"); c.count(fmt("options:%llu", (long long)(opts & 31)), 0);
}
Register r1({"P21", "emulator", "end, options, kind of file and limit of a run", "the emulator's main function with random command lines (all options in all spellings, arguments for the program that look like options), a compiled program that prints its arguments, allocates, starts threads, writes to both streams and ends in every possible way, limits at, below and above what it takes, unusable program files, read errors, failing allocations and mappings and a full output device; exit status, output and messages against a model",
	gen, exec, 30000, 600000, {"emulator main function", "ELF loader", "Linux system calls", "guest threads", "engines", "host stdio"}, {"the program file is a memory file"}, {"plain"}});
} // namespace
