// Deterministic simulation core: plans, PRNG, event log, violations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace sim {
using u64 = uint64_t; using i64 = int64_t; using u32 = uint32_t; using i32 = int32_t;
using u8 = uint8_t; using u16 = uint16_t;

// splitmix/xoshiro PRNG: the only source of randomness in a run.
struct Rng {
	u64 s[4];
	static u64 sm(u64& x) { u64 z = (x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	explicit Rng(u64 seed) { for (auto& v : s) v = sm(seed); }
	static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
	u64 next() { u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
	u64 below(u64 n) { return n ? next() % n : 0; }
	u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); } // inclusive
	bool chance(u64 num, u64 den) { return below(den) < num; }
	template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
	template <typename T, size_t N> const T& pick(const T (&v)[N]) { return v[below(N)]; }
};
inline u64 mix(u64 a, u64 b) { u64 x = a ^ (b * 0x9E3779B97F4A7C15ull + 0x7F4A7C15); return Rng::sm(x); }
inline u64 hash_bytes(const void* p, size_t n, u64 h = 0xcbf29ce484222325ull) {
	const u8* b = (const u8*)p;
	while (n >= 8) { u64 v; memcpy(&v, b, 8); h = (h ^ v) * 0x9FB21C651E98DF25ull; h ^= h >> 29; b += 8; n -= 8; }
	u64 v = 0; memcpy(&v, b, n); h = (h ^ v ^ ((u64)n << 56)) * 0x9FB21C651E98DF25ull; h ^= h >> 32;
	return h;
}

struct Op {
	std::string k;
	std::vector<u64> a;
	u64 arg(size_t i, u64 d = 0) const { return i < a.size() ? a[i] : d; }
};
struct Plan {
	std::string prop;
	u64 seed = 0;
	std::map<std::string, u64> cfg;
	std::vector<Op> ops;
	u64 get(const std::string& k, u64 d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
	void add(const char* k, std::initializer_list<u64> a = {}) { ops.push_back({k, std::vector<u64>(a)}); }
	std::string to_text() const;
	static Plan from_text(const std::string& text);
};

struct Violation {
	std::string cls;  // class: what the minimiser preserves and known findings match
	std::string msg;
};

struct Ctx {
	u64 hash = 0x1234;
	std::map<std::string, u64> stats;   // counters (faults injected, probes, ops)
	std::unordered_set<u64> states;     // distinct states (stated measure)
	bool verbose = false;
	u64 nontrivial = 0;                 // set by the scenario when the run did real work
	u64 simtime = 0;                    // simulated time in guest instructions or ns (stated)
	size_t events = 0;
	void ev(const char* name, u64 a = 0, u64 b = 0, u64 c = 0) {
		hash = mix(hash ^ hash_bytes(name, strlen(name)), a); hash = mix(hash, b); hash = mix(hash, c);
		events++;
		if (verbose) fprintf(stderr, "  ev %-20s %llx %llx %llx\n", name, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
	}
	void count(const std::string& k, u64 n = 1) { stats[k] += n; }
	void state(u64 h) { if (states.size() < 60000) states.insert(h); }
	[[noreturn]] void fail(const std::string& cls, const std::string& msg) { throw Violation{cls, msg}; }
	void check(bool ok, const std::string& cls, const std::string& msg) { if (!ok) fail(cls, msg); }
};
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

struct Scenario {
	std::string prop;          // property id
	std::string name;          // scenario name (a property may have several)
	std::string measure;       // what ctx.states counts
	std::string rule;          // evidence rule text
	std::function<Plan(Rng&, int tier)> gen;
	std::function<void(const Plan&, Ctx&)> exec;
	u64 weight_quick = 1000, weight_thorough = 10000; // runs
	std::vector<std::string> real, stub;
	std::set<std::string> variants = {"plain"};
	double share = 1;          // of the time cap
	bool recheck = true;       // run-twice determinism sampling
};
std::vector<Scenario>& scenarios();
struct Register { Register(Scenario s) { scenarios().push_back(std::move(s)); } };

extern const char* g_variant;   // "plain", "asan", "tsan"
} // namespace sim
