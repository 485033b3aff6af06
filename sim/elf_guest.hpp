// Compiled guest programs (built by CMake with the LoongArch cross compiler) in a machine.
#pragma once
#include "guest.hpp"
#include "interpose.hpp"
#include <fstream>
#include <sstream>
#ifndef GUEST_DIR
#define GUEST_DIR "."
#endif
namespace egst {
using namespace gst;
inline const std::vector<u8>& load(const std::string& name) {
	static std::map<std::string, std::vector<u8>> cache; auto& v = cache[name];
	if (v.empty()) { std::ifstream in(std::string(GUEST_DIR) + "/" + name, std::ios::binary); std::stringstream s; s << in.rdbuf(); std::string t = s.str(); v.assign(t.begin(), t.end());
		if (v.empty()) { fprintf(stderr, "error: guest program %s/%s is missing\n", GUEST_DIR, name.c_str()); _exit(3); } }
	return v;
}
struct Sink { std::string out; };
struct Elf {
	std::shared_ptr<MachineOptions> opts; std::unique_ptr<Machine> m; Sink sink;
	Elf(const std::vector<u8>& bin, const std::vector<std::string>& args, bool shared, size_t memory, bool threads = true) {
		opts = std::make_shared<MachineOptions>(); opts->use_shared_execute_segments = shared; opts->memory_max = memory; opts->stack_size = 512 << 10; opts->brk_size = 256 << 10;
		m = std::make_unique<Machine>(std::string_view((const char*)bin.data(), bin.size()), *opts); m->set_options(opts);
		srand(77); // the library seeds AT_RANDOM from rand()
		Machine::setup_linux_syscalls(); if (threads) m->setup_posix_threads();
		m->setup_linux(args, {"LC_ALL=C"});
		m->set_userdata(&sink);
	}
	// run one slice and collect its output
	bool run(u64 max, u64 cnt) { seam::take(); bool r; try { r = m->simulate(max, cnt); } catch (...) { sink.out += seam::take(); throw; } sink.out += seam::take(); return r; }
	u64 sym(const char* n) const { return m->address_of(n); }
	bool same_memory(const Elf& o) const {
		size_t n = m->memory.arena_size(); return n == o.m->memory.arena_size() && !memcmp(m->memory.arena_ptr(), o.m->memory.arena_ptr(), n); }
};
} // namespace egst
