// Seams the library reaches through libc: standard output, clocks, allocation.
#pragma once
#include "core.hpp"
namespace seam {
using namespace sim;
// ---- standard output: a stream owned by the simulator
struct Out {
	std::string data;            // bytes delivered to the host side
	std::vector<u64> fail_at;    // call numbers of the stream's write function that fail
	u64 calls = 0, failed = 0, shortw = 0;
	bool partial = false;        // the first failing write still takes half of its bytes, as a full disk does
	u64 fail_from = ~0ull;       // from this call on every write fails
};
Out& out();
void install_stdout(int bufmode = 1, size_t bufsize = 4096); // 0 unbuffered, 1 full, 2 line; also resets Out
std::string take();          // flush and return what was delivered since the last take
// ---- allocation: every operator new of the process and every mmap/munmap of the library
struct Alloc {
	bool on = false;             // count, fail and account from here
	u64 n = 0, failed = 0;       // allocations seen, failed
	u64 fail_at = ~0ull, fail_count = 1; // fail allocations number fail_at .. fail_at+fail_count-1
	u64 max_single = ~0ull;      // larger requests fail, as on a machine without that much memory
	i64 live = 0, live_bytes = 0; // balance of allocations made while on (frees count whenever they happen)
	i64 maps = 0, map_bytes = 0; // the same for anonymous mappings
	u64 bad_unmaps = 0;          // munmap of something that was not mapped through here
	u32 epoch = 0;
	bool failing(size_t size) { u64 k = n++; if ((k >= fail_at && k - fail_at < fail_count) || size > max_single) { failed++; return true; } return false; }
};
Alloc& alloc();
void alloc_reset();              // off, and forget what is live
struct AllocScope { AllocScope() { alloc().on = true; } ~AllocScope() { alloc().on = false; } };
// what a variant with its own scheduler wants to know of allocations
struct Hook { bool (*fail)(size_t); void (*alloc)(void*, size_t); bool (*free)(void*, size_t, void* pc); void (*map)(void*, size_t); bool (*unmap)(void*, size_t); };
extern Hook g_hook;
// memory the test donates: munmap of it by the library is recorded, not done
void protect_map(void* p, size_t n); void unprotect_maps(); u64 protected_unmaps();
// ---- clocks
struct Clock {
	bool on = false; std::map<int, i64> now; // ns per clock id
	std::set<int> fail; bool tod_fail = false; // these clocks cannot be read
	i64 step = 0; u64 calls = 0;             // every reading advances all clocks by this
	struct Rd { int id; i64 ns; bool failed; }; std::vector<Rd> log;
};
Clock& clock();
} // namespace seam
