// Driver: seeded batch over worker processes, gating, minimisation, replay.
#include "core.hpp"
#include <algorithm>
#include <cstdarg>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {
std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
#ifndef SIM_VARIANT
#define SIM_VARIANT "plain"
#endif
const char* g_variant = SIM_VARIANT;

std::string fmt(const char* f, ...) {
	char buf[2048]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof(buf), f, ap); va_end(ap); return buf;
}
std::string Plan::to_text() const {
	std::ostringstream o;
	o << "plan " << prop << " " << seed << "\n";
	for (auto& c : cfg) o << "cfg " << c.first << " " << c.second << "\n";
	for (auto& op : ops) { o << "op " << op.k; for (u64 v : op.a) o << " 0x" << std::hex << v << std::dec; o << "\n"; }
	o << "end\n";
	return o.str();
}
Plan Plan::from_text(const std::string& text) {
	Plan p; std::istringstream in(text); std::string line;
	while (std::getline(in, line)) {
		std::istringstream l(line); std::string w; l >> w;
		if (w == "plan") l >> p.prop >> p.seed;
		else if (w == "cfg") { std::string k; u64 v; l >> k >> v; p.cfg[k] = v; }
		else if (w == "op") { Op op; l >> op.k; std::string t; while (l >> t) op.a.push_back(strtoull(t.c_str(), nullptr, 0)); p.ops.push_back(op); }
		else if (w == "end") break;
	}
	return p;
}
static double now_s() { // real time: only for reporting and batch caps, never seen by a run
	struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static void write_all(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t r = write(fd, s.data() + o, s.size() - o); if (r <= 0) break; o += r; } }
static std::string esc(const std::string& s) {
	std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += c == '\n' ? "\\n" : " "; else o += c; } return o;
}

struct Result { int kind = 0; /*0 ok 1 violation 2 crash 3 hang 4 error*/ std::string cls, msg; u64 hash = 0; };

static const u64 CPU_LIMIT_S = 25;
static void on_prof(int) { static const char m[] = "\nSIM-HANG\n"; (void)!write(2, m, sizeof(m) - 1); _exit(43); }
static void arm(unsigned s) { struct itimerval it {}; it.it_value.tv_sec = s; setitimer(ITIMER_PROF, &it, nullptr); }

static Result exec_here(const Scenario& sc, const Plan& p, Ctx& ctx) {
	Result r;
	try { sc.exec(p, ctx); }
	catch (const Violation& v) { r.kind = 1; r.cls = v.cls; r.msg = v.msg; }
	catch (const std::exception& e) { r.kind = 1; r.cls = "escaped-exception"; r.msg = std::string("exception escaped the scenario: ") + e.what(); }
	r.hash = ctx.hash;
	return r;
}
static Result decode_status(int st, const std::string& out, const std::string& err) {
	Result r;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
		std::istringstream in(out); std::string kind; in >> kind;
		if (kind == "ok") { in >> r.hash; return r; }
		if (kind == "viol") { r.kind = 1; in >> r.hash >> r.cls; std::getline(in, r.msg); return r; }
		r.kind = 4; r.msg = "no result: " + out; return r;
	}
	if (WIFEXITED(st) && WEXITSTATUS(st) == 43) { r.kind = 3; r.cls = "hang"; r.msg = "run did not finish within its CPU limit"; return r; }
	r.kind = 2;
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { r.kind = 4; r.msg = "killed from outside"; return r; }
	if (WIFSIGNALED(st)) r.cls = "crash-signal-" + std::to_string(WTERMSIG(st));
	else {
		r.cls = "crash-exit-" + std::to_string(WEXITSTATUS(st));
		auto q = err.find("ERROR: AddressSanitizer: ");
		if (q != std::string::npos) { std::istringstream in(err.substr(q + 25)); std::string w; in >> w; r.cls = "asan-" + w; }
	}
	r.msg = "process died while executing the plan";
	auto q = err.find("ERROR: AddressSanitizer");
	if (q != std::string::npos) {
		r.msg += ": " + err.substr(q, std::min<size_t>(900, err.size() - q));
	} else if (!err.empty()) r.msg += ": " + err.substr(0, 400);
	return r;
}
// Execute one plan in a forked child, so that crashes and hangs are results too.
// Several plans: all but the last only leave their state behind in the process ("history").
// With `twice`, the last plan runs two times and must give the same event log.
struct Hist { std::vector<Plan> plans; bool twice = false; };
static Result run_isolated(const Scenario& sc, const Hist& h, bool verbose = false) {
	int pf[2], ef[2]; if (pipe(pf) || pipe(ef)) { perror("pipe"); exit(3); }
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		close(pf[0]); close(ef[0]); dup2(ef[1], 2);
		int rfd = fcntl(pf[1], F_DUPFD, 200);
		signal(SIGPROF, on_prof); arm(CPU_LIMIT_S);
		for (size_t i = 0; i + 1 < h.plans.size(); i++) { Ctx c; exec_here(sc, h.plans[i], c); arm(CPU_LIMIT_S); }
		Ctx ctx; ctx.verbose = verbose;
		Result r = exec_here(sc, h.plans.back(), ctx);
		if (h.twice && r.kind == 0) { Ctx c2; Result r2 = exec_here(sc, h.plans.back(), c2);
			if (r2.kind == 0 && r2.hash != r.hash) { r.kind = 1; r.cls = "not-repeatable"; r.msg = "the same run repeated in one process behaves differently"; } else if (r2.kind) r = r2; }
		fflush(stdout);
		std::string m = r.msg; for (auto& c : m) if (c == '\n') c = ' ';
		write_all(rfd, r.kind ? fmt("viol %llu %s ", (unsigned long long)r.hash, r.cls.c_str()) + m : fmt("ok %llu", (unsigned long long)r.hash));
		_exit(0);
	}
	close(pf[1]); close(ef[1]);
	std::string out, err; char b[4096];
	// read err until eof (child exit), bounded
	fd_set fs; bool o = true, e = true;
	while (o || e) {
		FD_ZERO(&fs); int mx = 0; if (o) { FD_SET(pf[0], &fs); mx = pf[0]; } if (e) { FD_SET(ef[0], &fs); mx = std::max(mx, ef[0]); }
		select(mx + 1, &fs, nullptr, nullptr, nullptr);
		if (o && FD_ISSET(pf[0], &fs)) { ssize_t n = read(pf[0], b, sizeof b); if (n <= 0) o = false; else out.append(b, n); }
		if (e && FD_ISSET(ef[0], &fs)) { ssize_t n = read(ef[0], b, sizeof b); if (n <= 0) e = false; else if (err.size() < 20000) err.append(b, n); }
	}
	close(pf[0]); close(ef[0]);
	int st; waitpid(pid, &st, 0);
	return decode_status(st, out, err);
}
static Result run_isolated(const Scenario& sc, const Plan& p, bool verbose = false) { return run_isolated(sc, Hist{{p}, false}, verbose); }
static bool same(const Result& a, const Result& b) { return a.kind == b.kind && a.cls == b.cls; }

static Plan minimise(const Scenario& sc, Plan p, const Result& want, double budget, int& tries) {
	double t0 = now_s(); tries = 0;
	auto ok = [&](const Plan& q) { if (now_s() - t0 > budget) return false; tries++; return same(run_isolated(sc, q), want); };
	for (int round = 0; round < 4; round++) {
		bool changed = false;
		for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); chunk >= 1; chunk /= 2) {
			for (size_t i = 0; i + chunk <= p.ops.size();) {
				Plan q = p; q.ops.erase(q.ops.begin() + i, q.ops.begin() + i + chunk);
				if (ok(q)) { p = q; changed = true; } else i += chunk;
				if (now_s() - t0 > budget) return p;
			}
			if (chunk == 1) break;
		}
		for (size_t i = 0; i < p.ops.size(); i++)
			for (size_t j = 0; j < p.ops[i].a.size(); j++) {
				u64 v = p.ops[i].a[j];
				for (u64 c : {u64(0), u64(1), v / 2, v - 1}) {
					if (c >= v) continue;
					Plan q = p; q.ops[i].a[j] = c;
					if (ok(q)) { p = q; changed = true; break; }
					if (now_s() - t0 > budget) return p;
				}
			}
		if (!changed) break;
	}
	return p;
}

// A failure that needs the state left by earlier runs of its process: find a short history that shows it.
static bool find_history(const Scenario& sc, const std::vector<Plan>& before, const Plan& last, bool twice, double budget, Hist& out, Result& res) {
	double t0 = now_s();
	for (size_t k = 1;; k *= 2) {
		size_t n = std::min(k, before.size()); Hist h; h.twice = twice; h.plans.assign(before.end() - n, before.end()); h.plans.push_back(last);
		Result r = run_isolated(sc, h);
		if (r.kind == 1 || r.kind == 2 || r.kind == 3) {
			for (size_t chunk = std::max<size_t>(1, n / 2); chunk >= 1; chunk /= 2) {
				for (size_t i = 0; i + chunk < h.plans.size() && now_s() - t0 < budget;) {
					Hist q = h; q.plans.erase(q.plans.begin() + i, q.plans.begin() + i + chunk);
					if (same(run_isolated(sc, q), r)) h = q; else i += chunk;
				}
				if (chunk == 1) break;
			}
			// shrink the plans themselves
			for (size_t i = h.plans.size(); i-- > 0;)
				for (size_t chunk = std::max<size_t>(1, h.plans[i].ops.size() / 2); chunk >= 1; chunk /= 2) {
					for (size_t j = 0; j + chunk <= h.plans[i].ops.size() && now_s() - t0 < budget;) {
						Hist q = h; auto& ops = q.plans[i].ops; ops.erase(ops.begin() + j, ops.begin() + j + chunk);
						if (same(run_isolated(sc, q), r)) h = q; else j += chunk;
					}
					if (chunk == 1) break;
				}
			out = h; res = run_isolated(sc, h); Result again = run_isolated(sc, h);
			return same(res, r) && same(again, r);
		}
		if (n == before.size() || now_s() - t0 > budget) return false;
	}
}

struct Known { std::string prop, cls, needle, text; };
static std::vector<Known> load_known(const std::string& path) {
	// finding: property=<id> class=<cls> match="<substring of message>" <text>
	std::vector<Known> v; std::ifstream in(path); std::string l;
	while (std::getline(in, l)) {
		if (l.rfind("finding: ", 0)) continue;
		Known k; auto get = [&](const char* key) -> std::string {
			auto p = l.find(key); if (p == std::string::npos) return ""; p += strlen(key);
			if (l[p] == '"') { auto e = l.find('"', p + 1); return l.substr(p + 1, e - p - 1); }
			auto e = l.find(' ', p); return l.substr(p, e - p); };
		k.prop = get("property="); k.cls = get("class="); k.needle = get("match=");
		auto p = l.find(" -- "); k.text = p == std::string::npos ? "" : l.substr(p + 4);
		v.push_back(k);
	}
	return v;
}
static const Known* match_known(const std::vector<Known>& ks, const std::string& prop, const Result& r) {
	for (auto& k : ks) if (k.prop == prop && k.cls == r.cls && (k.needle.empty() || r.msg.find(k.needle) != std::string::npos)) return &k;
	return nullptr;
}

struct Slot { volatile u64 idx; volatile u64 scen; volatile u64 done; };

static std::string self_path;
static Plan make_plan(const Scenario& sc, u64 seed, u64 idx, int tier) {
	u64 rs = mix(mix(seed, hash_bytes(sc.name.data(), sc.name.size())), idx);
	Rng rng(rs); Plan p = sc.gen(rng, tier); p.prop = sc.prop; p.seed = rs; p.cfg["~scenario"] = hash_bytes(sc.name.data(), sc.name.size()) & 0xffffffff; return p;
}
static const Scenario* scen_of(const Plan& p) {
	for (auto& s : scenarios()) if (s.prop == p.prop && (hash_bytes(s.name.data(), s.name.size()) & 0xffffffff) == p.get("~scenario")) return &s;
	return nullptr;
}

static int batch(int argc, char** argv) {
	std::string prop, known_path, out, replay_dir = "."; u64 seed = 1; int jobs = 8, tier = 0; double tmax = 120, scale = 1; std::string only;
	for (int i = 2; i + 1 < argc; i += 2) {
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--prop") prop = v; else if (k == "--seed") seed = strtoull(v.c_str(), 0, 0); else if (k == "--jobs") jobs = atoi(v.c_str());
		else if (k == "--tier") tier = v == "thorough"; else if (k == "--time") tmax = atof(v.c_str()); else if (k == "--known") known_path = v;
		else if (k == "--out") out = v; else if (k == "--replays") replay_dir = v; else if (k == "--scale") scale = atof(v.c_str()); else if (k == "--only") only = v;
	}
	auto known = load_known(known_path);
	std::vector<const Scenario*> scs;
	for (auto& s : scenarios()) if (s.prop == prop && (s.variants.count(g_variant) || (!strcmp(g_variant, "tailcall") && s.variants.count("plain"))) && (only.empty() || s.name == only)) scs.push_back(&s);
	if (scs.empty()) { fprintf(stderr, "no scenario for %s in variant %s\n", prop.c_str(), g_variant); return 3; }
	printf("sim: property=%s variant=%s seed=%llu tier=%s jobs=%d\n", prop.c_str(), g_variant, (unsigned long long)seed, tier ? "thorough" : "quick", jobs);
	double t0 = now_s();
	std::map<std::string, u64> stats; std::unordered_set<u64> states; u64 runs = 0, nontriv = 0, simtime = 0, rechecks = 0, events = 0, planned = 0;
	std::vector<std::string> samples; std::map<std::string, u64> known_hits; bool truncated = false;
	std::unordered_set<u64> runhashes, nthashes;
	double share_all = 0, share_done = 0; for (auto* sc : scs) share_all += sc->share;
	for (auto* sc : scs) {
		share_done += sc->share; const double tend = tmax * share_done / share_all;
		u64 n = u64((tier ? sc->weight_thorough : sc->weight_quick) * scale); planned += n;
		struct W { pid_t pid; int fd; std::string buf; u64 next; int efd; };
		Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		std::vector<W> ws(jobs);
		volatile u64* stop = (volatile u64*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		*stop = 0;
		auto spawn = [&](int w, u64 start) {
			int pf[2]; if (pipe(pf)) exit(3);
			char tn[] = "/tmp/simerrXXXXXX"; int ef = mkstemp(tn); unlink(tn);
			fflush(stdout);
			pid_t pid = fork();
			if (pid == 0) {
				for (int k = 0; k < jobs; k++) if (k != w && ws[k].fd > 0) { close(ws[k].fd); }
				close(pf[0]); dup2(ef, 2);
				int rfd = fcntl(pf[1], F_DUPFD, 200); close(pf[1]);
				signal(SIGPROF, on_prof);
				std::map<std::string, u64> st; std::unordered_set<u64> ss, rh, rn; u64 lr = 0, nt = 0, stime = 0, rc = 0, evs = 0; std::string sample;
				auto flush_out = [&](const std::string& extra) {
					std::ostringstream o;
					o << "runs " << lr << "\nnontriv " << nt << "\nsimtime " << stime << "\nrechecks " << rc << "\nevents " << evs << "\n";
					for (auto& s : st) o << "stat " << s.second << " " << s.first << "\n";
					for (u64 h : ss) o << "s " << h << "\n";
					for (u64 h : rh) o << (rn.count(h) ? "hn " : "h ") << h << "\n";
					if (!sample.empty()) o << "sample " << sample << "\n";
					o << extra;
					write_all(rfd, o.str());
				};
				for (u64 i = start; i < n; i += jobs) {
					if (*stop || now_s() - t0 > tend) { if (!*stop) st["~truncated"]++; break; }
					slots[w].idx = i;
					Plan p = make_plan(*sc, seed, i, tier);
					arm(CPU_LIMIT_S);
					Ctx ctx; Result r = exec_here(*sc, p, ctx);
					lr++; evs += ctx.events; stime += ctx.simtime; if (ctx.nontrivial) nt++;
					for (auto& s : ctx.stats) st[s.first] += s.second;
					if (ss.size() < 400000) ss.insert(ctx.states.begin(), ctx.states.end());
					if (rh.size() < 400000) { rh.insert(ctx.hash); if (ctx.nontrivial) rn.insert(ctx.hash); }
					if (i == (u64)w && w < 2) { sample = p.to_text(); for (auto& c : sample) if (c == '\n') c = ';'; if (sample.size() > 1500) sample.resize(1500); }
					if (r.kind == 0 && sc->recheck && (i / jobs) % 16 == 3) {
						Ctx c2; Result r2 = exec_here(*sc, p, c2); rc++;
						if (r2.kind != 0 || r2.hash != r.hash) { flush_out(fmt("nondet %llu\n", (unsigned long long)i)); _exit(0); }
					}
					if (r.kind) {
						if (const Known* k = match_known(known, prop, r)) { st["~known:" + k->text]++; continue; }
						std::string m = r.msg; for (auto& c : m) if (c == '\n') c = ' ';
						*stop = 1; flush_out(fmt("viol %llu %s ", (unsigned long long)i, r.cls.c_str()) + m + "\n"); _exit(0);
					}
				}
				arm(0);
				flush_out("done\n"); _exit(0);
			}
			close(pf[1]); ws[w] = {pid, pf[0], "", 0, ef};
		};
		for (int w = 0; w < jobs; w++) spawn(w, w);
		std::vector<std::pair<u64, Result>> bad; bool nondet = false; u64 ndi = 0;
		for (int w = 0; w < jobs; w++) {
			char b[65536]; ssize_t r; 
			while ((r = read(ws[w].fd, b, sizeof b)) > 0) ws[w].buf.append(b, r);
			close(ws[w].fd); ws[w].fd = -1; int stt; waitpid(ws[w].pid, &stt, 0);
			std::istringstream in(ws[w].buf); std::string l;
			while (std::getline(in, l)) {
				std::istringstream s(l); std::string k; s >> k; u64 v = 0;
				if (k == "runs") { s >> v; runs += v; } else if (k == "nontriv") { s >> v; nontriv += v; } else if (k == "simtime") { s >> v; simtime += v; }
				else if (k == "rechecks") { s >> v; rechecks += v; } else if (k == "events") { s >> v; events += v; }
				else if (k == "stat") { s >> v; std::string nm; std::getline(s, nm); nm.erase(0, 1);
					if (nm == "~truncated") truncated = true; else if (nm.rfind("~known:", 0) == 0) known_hits[nm.substr(7)] += v; else stats[nm] += v; }
				else if (k == "s") { s >> v; states.insert(v); } else if (k == "h" || k == "hn") { s >> v; runhashes.insert(v); if (k == "hn") nthashes.insert(v); }
				else if (k == "sample") samples.push_back(l.substr(7));
				else if (k == "nondet") { s >> ndi; nondet = true; }
				else if (k == "viol") { Result rr; rr.kind = 1; s >> v >> rr.cls; std::getline(s, rr.msg); bad.push_back({v, rr}); }
			}
			if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) {
				*stop = 1;
				std::string err; char eb[8192]; lseek(ws[w].efd, 0, SEEK_SET); ssize_t q; while ((q = read(ws[w].efd, eb, sizeof eb)) > 0 && err.size() < 20000) err.append(eb, q);
				Result rr = decode_status(stt, "", err);
				if (rr.kind == 4) { fprintf(stderr, "error: worker killed from outside\n"); return 3; }
				// crash matching a known finding: skip it and go on in a new worker
				if (const Known* k = match_known(known, prop, rr)) { known_hits[k->text]++; *stop = 0; close(ws[w].efd); spawn(w, slots[w].idx + jobs); w--; continue; }
				bad.push_back({slots[w].idx, rr});
			}
			close(ws[w].efd);
		}
		auto report_history = [&](u64 idx, bool twice) -> bool {
			std::vector<Plan> before; for (u64 i = idx % jobs; i < idx && before.size() < 4096; i += jobs) before.push_back(make_plan(*sc, seed, idx - jobs - (i - idx % jobs), tier));
			std::reverse(before.begin(), before.end());
			Hist h; Result f; Plan last = make_plan(*sc, seed, idx, tier);
			if (!find_history(*sc, before, last, twice, tier ? 200 : 100, h, f)) return false;
			if (match_known(known, prop, f)) return false;
			mkdir(replay_dir.c_str(), 0755);
			std::string rp = replay_dir + "/" + prop + "-" + g_variant + "-" + fmt("%llx", (unsigned long long)last.seed) + ".plan";
			{ std::ofstream o(rp); o << "# property " << prop << " scenario " << sc->name << " variant " << g_variant << " batch-seed " << seed << " run " << idx << " with a history of " << h.plans.size() - 1 << " earlier runs\n# class " << f.cls << "\n# message " << f.msg << "\n";
			  if (h.twice) o << "twice\n"; for (auto& p : h.plans) o << p.to_text(); }
			std::string cmd = "'" + self_path + "' replay '" + rp + "' >/dev/null 2>&1"; int rc = system(cmd.c_str());
			if (!(WIFEXITED(rc) && WEXITSTATUS(rc) == 1)) return false;
			printf("violation: %s: %s\n  scenario %s, run %llu after %zu earlier runs in the same process\n", f.cls.c_str(), f.msg.c_str(), sc->name.c_str(), (unsigned long long)idx, h.plans.size() - 1);
			printf("VIOLATION property=%s replay=%s\n", prop.c_str(), rp.c_str());
			if (!out.empty()) { std::ofstream o(out); o << "{\"violation\": \"" << esc(f.cls + ": " + f.msg) << "\", \"runs\": " << runs << ", \"wall\": " << now_s() - t0 << "}\n"; }
			return true;
		};
		if (nondet && bad.empty()) { if (report_history(ndi, true)) return 1;
			fprintf(stderr, "error: run %llu of %s is not deterministic (same plan, different event log)\n", (unsigned long long)ndi, sc->name.c_str()); return 4; }
		if (!bad.empty()) {
			std::sort(bad.begin(), bad.end(), [](auto& a, auto& b) { return a.first < b.first; });
			for (auto& bd : bad) {
				Plan p = make_plan(*sc, seed, bd.first, tier);
				Result a = run_isolated(*sc, p), b = run_isolated(*sc, p);
				if (a.kind == 0 && b.kind == 0) {
					// needs the state left by earlier runs of its worker: report only if that reproduces
					if (report_history(bd.first, false)) return 1;
					fprintf(stderr, "error: run %llu failed (%s: %s) but not in a fresh process\n", (unsigned long long)bd.first, bd.second.cls.c_str(), bd.second.msg.c_str());
					continue;
				}
				if (!same(a, b)) { fprintf(stderr, "error: violation of run %llu does not repeat identically: %s/%s\n", (unsigned long long)bd.first, a.cls.c_str(), b.cls.c_str()); continue; }
				if (match_known(known, prop, a)) continue;
				int tries = 0; Plan m = minimise(*sc, p, a, tier ? 90 : 40, tries);
				Result f = run_isolated(*sc, m);
				if (!same(f, a)) { m = p; f = a; }
				mkdir(replay_dir.c_str(), 0755);
				std::string rp = replay_dir + "/" + prop + "-" + g_variant + "-" + fmt("%llx", (unsigned long long)p.seed) + ".plan";
				{ std::ofstream o(rp); o << "# property " << prop << " scenario " << sc->name << " variant " << g_variant << " batch-seed " << seed << " run " << bd.first << " run-seed " << p.seed
				  << "\n# class " << f.cls << "\n# message " << f.msg << "\n# original ops " << p.ops.size() << " minimised ops " << m.ops.size() << " tries " << tries << "\n" << m.to_text(); }
				std::string cmd = "'" + self_path + "' replay '" + rp + "' >/dev/null 2>&1"; int rc = system(cmd.c_str());
				if (!(WIFEXITED(rc) && WEXITSTATUS(rc) == 1)) { fprintf(stderr, "error: replay of %s in a fresh process did not fail (%d)\n", rp.c_str(), rc); continue; }
				printf("violation: %s: %s\n  scenario %s, run %llu, run seed %llu; minimised from %zu to %zu ops\n", f.cls.c_str(), f.msg.c_str(), sc->name.c_str(), (unsigned long long)bd.first, (unsigned long long)p.seed, p.ops.size(), m.ops.size());
				printf("VIOLATION property=%s replay=%s\n", prop.c_str(), rp.c_str());
				if (!out.empty()) { std::ofstream o(out); o << "{\"violation\": \"" << esc(f.cls + ": " + f.msg) << "\", \"runs\": " << runs << ", \"wall\": " << now_s() - t0 << "}\n"; }
				return 1;
			}
			return 4;
		}
		// order/worker-count independence: redo a sample of runs in one other process, in another order
		if (sc->recheck && n > 0) {
			int pf[2]; if (pipe(pf)) return 3;
			pid_t pid = fork();
			if (pid == 0) {
				signal(SIGPROF, on_prof); if (int nul = open("/dev/null", O_WRONLY); nul >= 0) dup2(nul, 2); // what guests print there
				u64 cnt = std::min<u64>(n, tier ? 200 : 40); std::string o;
				for (u64 k = cnt; k-- > 0;) { u64 i = k * (n / cnt); Plan p = make_plan(*sc, seed, i, tier); arm(CPU_LIMIT_S); Ctx c; Result r = exec_here(*sc, p, c); o += fmt("%llu %d %llu\n", (unsigned long long)i, r.kind, (unsigned long long)r.hash); }
				arm(0); write_all(pf[1], o); _exit(0);
			}
			close(pf[1]); std::string buf; char b[4096]; ssize_t r; while ((r = read(pf[0], b, sizeof b)) > 0) buf.append(b, r); close(pf[0]); int st; waitpid(pid, &st, 0);
			std::istringstream in(buf); u64 i, h; int kind; 
			while (in >> i >> kind >> h) { rechecks++; if (kind == 0 && !truncated && !runhashes.count(h)) { fprintf(stderr, "error: run %llu of %s gives another event log in another process\n", (unsigned long long)i, sc->name.c_str()); return 4; } }
		}
		munmap(slots, sizeof(Slot) * jobs);
	}
	double wall = now_s() - t0;
	for (auto& k : known_hits) printf("KNOWN-FINDING: property=%s %s (hit %llu times)\n", prop.c_str(), k.first.c_str(), (unsigned long long)k.second);
	printf("sim: %llu runs (%llu non-trivial), %zu distinct event logs, %zu distinct states, %llu rechecks, %.1fs%s\n", (unsigned long long)runs, (unsigned long long)nontriv, runhashes.size(), states.size(), (unsigned long long)rechecks, wall, truncated ? " (stopped at the time cap)" : "");
	if (!out.empty()) {
		std::ofstream o(out);
		o << "{\n \"variant\": \"" << g_variant << "\", \"runs\": " << runs << ", \"planned\": " << planned << ", \"nontrivial\": " << nontriv << ", \"distinct_nontrivial\": " << nthashes.size() << ", \"distinct_logs\": " << runhashes.size()
		  << ", \"distinct_states\": " << states.size() << ", \"simtime\": " << simtime << ", \"events\": " << events << ", \"rechecks\": " << rechecks << ", \"wall\": " << wall << ", \"truncated\": " << (truncated ? "true" : "false") << ",\n \"stats\": {";
		bool first = true; for (auto& s : stats) { o << (first ? "" : ", ") << "\"" << esc(s.first) << "\": " << s.second; first = false; }
		o << "},\n \"known\": {"; first = true; for (auto& s : known_hits) { o << (first ? "" : ", ") << "\"" << esc(s.first) << "\": " << s.second; first = false; }
		o << "},\n \"samples\": ["; first = true; for (auto& s : samples) { o << (first ? "" : ", ") << "\"" << esc(s) << "\""; first = false; }
		o << "],\n \"scenarios\": ["; first = true;
		for (auto* sc : scs) { o << (first ? "" : ", ") << "{\"name\": \"" << esc(sc->name) << "\", \"rule\": \"" << esc(sc->rule) << "\", \"measure\": \"" << esc(sc->measure) << "\", \"real\": ["; bool f2 = true; for (auto& x : sc->real) { o << (f2 ? "" : ", ") << "\"" << esc(x) << "\""; f2 = false; } o << "], \"stub\": ["; f2 = true; for (auto& x : sc->stub) { o << (f2 ? "" : ", ") << "\"" << esc(x) << "\""; f2 = false; } o << "]}"; first = false; }
		o << "]\n}\n";
	}
	return 0;
}
} // namespace sim

int main(int argc, char** argv) {
	using namespace sim;
	setvbuf(stdout, nullptr, _IOLBF, 0);
	if (int ps = personality(0xffffffff); ps != -1 && !(ps & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) { // same addresses in every process, where that is allowed
		setenv("SIM_REEXEC", "1", 1); if (personality(ps | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
	if (!strcmp(g_variant, "plain")) { struct rlimit rl{64ull << 30, 64ull << 30}; setrlimit(RLIMIT_AS, &rl); }
	{ char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; self_path = b; }
	if (argc >= 2 && !strcmp(argv[1], "batch")) return batch(argc, argv);
	if (argc >= 3 && !strcmp(argv[1], "replay")) {
		std::ifstream in(argv[2]); std::stringstream ss; ss << in.rdbuf();
		Hist h; { std::istringstream in2(ss.str()); std::string l, cur; while (std::getline(in2, l)) { if (l == "twice") h.twice = true; cur += l + "\n"; if (l == "end") { h.plans.push_back(Plan::from_text(cur)); cur.clear(); } } }
		if (h.plans.empty()) { fprintf(stderr, "no plan in %s\n", argv[2]); return 3; }
		const Scenario* sc = scen_of(h.plans.back());
		if (!sc) { fprintf(stderr, "no such scenario\n"); return 3; }
		for (auto& p : h.plans) printf("%s", p.to_text().c_str());
		Result r = run_isolated(*sc, h, argc >= 4);
		if (r.kind == 0) { printf("held: hash=%llx\n", (unsigned long long)r.hash); return 0; }
		printf("violated: class=%s hash=%llx\n%s\n", r.cls.c_str(), (unsigned long long)r.hash, r.msg.c_str());
		return 1;
	}
	if (argc >= 5 && !strcmp(argv[1], "show")) { // show PROP SCENARIO SEED IDX
		for (auto& s : scenarios()) if (s.prop == argv[2] && (s.name == argv[3] || !strcmp(argv[3], "-"))) { Plan p = make_plan(s, strtoull(argv[4], 0, 0), argc > 5 ? strtoull(argv[5], 0, 0) : 0, 0); printf("%s", p.to_text().c_str()); break; }
		return 0;
	}
	if (argc >= 2 && !strcmp(argv[1], "list")) { for (auto& s : scenarios()) printf("%s %s\n", s.prop.c_str(), s.name.c_str()); return 0; }
	fprintf(stderr, "usage: sim batch --prop P --seed N ... | replay FILE [-v] | show PROP SCEN SEED IDX | list\n");
	return 3;
}
