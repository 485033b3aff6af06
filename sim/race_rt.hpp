// Several host threads under one scheduler: the library is compiled with the compiler's thread instrumentation, but linked with this
// runtime instead of the sanitizer's. One thread runs at a time; it can be stopped at every instrumented memory access, atomic
// operation, lock, one-time initialisation and allocation. The runtime follows happens-before with vector clocks.
#pragma once
#include <stddef.h>
#include <stdint.h>
namespace race {
constexpr int THREADS = 4;
struct Step { int thread; uint32_t count; bool all; };   // let a thread run for this many points: shared ones only, or all
struct Report {                                          // in memory shared with the parent process
	int failed; char cls[40]; char msg[400]; uint64_t pc[2];
	uint64_t points, shared_points, switches, sync, atomics, allocs, failed_allocs, blocked, trace, order, preempted_in_lib;
};
void init(Report* r, const Step* steps, size_t n, int threads); // before the threads are made
void begin_thread(int tid);                              // called by each thread; returns when it is its turn
void end_thread();
void go();                                               // called by the main thread when all threads exist
void finished();                                         // all threads have ended
void fail_alloc(int64_t nth, int64_t count);             // of the calling thread: its nth allocation from here on, and so many after it, fail
bool alloc_failed();                                     // ... and whether one did since
[[noreturn]] void fail(const char* cls, const char* msg);
struct Quiet { Quiet(); ~Quiet(); };                     // code of the harness: not instrumented, no points
}
