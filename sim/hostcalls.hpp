// Stand-ins for the host's system interface, for one simulator program: while `armed`, a call is recorded and
// answered by the simulator, and nothing of it reaches the host. Include in one source file only.
#pragma once
#include "core.hpp"
#include <cstdarg>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
namespace hostcalls {
using namespace sim;
inline bool armed = false, diag = false; inline u64 ndiag = 0; // diag: writes to standard output are the library's own trace
 inline int answer = 0; // 0: every call fails; 1: every call succeeds
inline char calls[8][32]; inline u64 ncalls = 0;
inline long rec(const char* name, long ok = 0) { if (ncalls < 8) { strncpy(calls[ncalls], name, 31); calls[ncalls][31] = 0; } ncalls++; if (!answer) { errno = ENOSYS; return -1; } return ok; }
template <typename F> F next(const char* name) { bool a = armed; armed = false; F f = (F)dlsym(RTLD_NEXT, name); armed = a; return f; }
} // namespace hostcalls
#define HC_NEXT(name) static auto real = hostcalls::next<decltype(&name)>(#name)
#define HC(ret, name, params, args, okval) ret name params { HC_NEXT(name); if (hostcalls::armed) return (ret)hostcalls::rec(#name, okval); return real args; }
extern "C" {
HC(ssize_t, read, (int fd, void* b, size_t n), (fd, b, n), long(n))
ssize_t write(int fd, const void* b, size_t n) { HC_NEXT(write); if (hostcalls::armed) { if (hostcalls::diag && fd == 1) { hostcalls::ndiag += n; return n; } return (ssize_t)hostcalls::rec("write", long(n)); } return real(fd, b, n); }
HC(ssize_t, pread, (int fd, void* b, size_t n, off_t o), (fd, b, n, o), long(n))
HC(ssize_t, pwrite, (int fd, const void* b, size_t n, off_t o), (fd, b, n, o), long(n))
HC(ssize_t, readv, (int fd, const struct iovec* v, int n), (fd, v, n), 1)
HC(ssize_t, writev, (int fd, const struct iovec* v, int n), (fd, v, n), 1)
HC(int, close, (int fd), (fd), 0)
HC(int, dup, (int fd), (fd), 77)
HC(int, dup2, (int a, int b) noexcept, (a, b), b)
HC(off_t, lseek, (int fd, off_t o, int w) noexcept, (fd, o, w), 0)
HC(int, ftruncate, (int fd, off_t o) noexcept, (fd, o), 0)
HC(int, fsync, (int fd), (fd), 0)
HC(int, pipe, (int* p) noexcept, (p), 0)
HC(int, stat, (const char* p, struct stat* s) noexcept, (p, s), 0)
HC(int, lstat, (const char* p, struct stat* s) noexcept, (p, s), 0)
HC(int, fstat, (int fd, struct stat* s) noexcept, (fd, s), 0)
HC(int, fstatat, (int fd, const char* p, struct stat* s, int f) noexcept, (fd, p, s, f), 0)
HC(int, access, (const char* p, int m) noexcept, (p, m), 0)
HC(int, faccessat, (int fd, const char* p, int m, int f) noexcept, (fd, p, m, f), 0)
HC(ssize_t, readlink, (const char* p, char* b, size_t n) noexcept, (p, b, n), 1)
HC(ssize_t, readlinkat, (int fd, const char* p, char* b, size_t n) noexcept, (fd, p, b, n), 1)
HC(char*, realpath, (const char* p, char* r) noexcept, (p, r), 0)
HC(char*, getcwd, (char* b, size_t n) noexcept, (b, n), 0)
HC(int, unlink, (const char* p) noexcept, (p), 0)
HC(int, unlinkat, (int fd, const char* p, int f) noexcept, (fd, p, f), 0)
HC(int, remove, (const char* p) noexcept, (p), 0)
HC(int, rename, (const char* a, const char* b) noexcept, (a, b), 0)
HC(int, mkdir, (const char* p, mode_t m) noexcept, (p, m), 0)
HC(int, rmdir, (const char* p) noexcept, (p), 0)
HC(int, chdir, (const char* p) noexcept, (p), 0)
HC(int, chmod, (const char* p, mode_t m) noexcept, (p, m), 0)
HC(DIR*, opendir, (const char* p), (p), 0)
HC(int, poll, (struct pollfd* p, nfds_t n, int t), (p, n, t), 0)
HC(int, ppoll, (struct pollfd* p, nfds_t n, const struct timespec* t, const sigset_t* s), (p, n, t, s), 0)
HC(int, select, (int n, fd_set* a, fd_set* b, fd_set* c, struct timeval* t), (n, a, b, c, t), 0)
HC(int, socket, (int a, int b, int c) noexcept, (a, b, c), 77)
HC(int, connect, (int fd, const struct sockaddr* a, socklen_t n), (fd, a, n), 0)
HC(ssize_t, send, (int fd, const void* b, size_t n, int f), (fd, b, n, f), long(n))
HC(ssize_t, recv, (int fd, void* b, size_t n, int f), (fd, b, n, f), 0)
HC(int, kill, (pid_t p, int s) noexcept, (p, s), 0)
HC(int, raise, (int s) noexcept, (s), 0)
HC(int, pthread_kill, (pthread_t t, int s) noexcept, (t, s), 0)
HC(int, sigaction, (int s, const struct sigaction* a, struct sigaction* o) noexcept, (s, a, o), 0)
HC(sighandler_t, signal, (int s, sighandler_t h) noexcept, (s, h), 0)
HC(int, sigprocmask, (int h, const sigset_t* a, sigset_t* o) noexcept, (h, a, o), 0)
HC(int, pthread_sigmask, (int h, const sigset_t* a, sigset_t* o) noexcept, (h, a, o), 0)
HC(int, sigaltstack, (const stack_t* a, stack_t* o) noexcept, (a, o), 0)
HC(pid_t, fork, () noexcept, (), 77)
HC(int, execve, (const char* p, char* const* a, char* const* e) noexcept, (p, a, e), 0)
HC(int, system, (const char* p), (p), 0)
HC(FILE*, popen, (const char* p, const char* m), (p, m), 0)
HC(FILE*, fopen, (const char* p, const char* m), (p, m), 0)
HC(pid_t, waitpid, (pid_t p, int* s, int o), (p, s, o), 77)
HC(pid_t, getpid, () noexcept, (), 4711)
HC(pid_t, getppid, () noexcept, (), 4711)
HC(pid_t, gettid, () noexcept, (), 4711)
HC(uid_t, getuid, () noexcept, (), 4711)
HC(uid_t, geteuid, () noexcept, (), 4711)
HC(gid_t, getgid, () noexcept, (), 4711)
HC(gid_t, getegid, () noexcept, (), 4711)
HC(int, sched_getaffinity, (pid_t p, size_t n, cpu_set_t* m) noexcept, (p, n, m), 0)
HC(int, sched_setaffinity, (pid_t p, size_t n, const cpu_set_t* m) noexcept, (p, n, m), 0)
HC(int, prlimit, (pid_t p, __rlimit_resource r, const struct rlimit* a, struct rlimit* o) noexcept, (p, r, a, o), 0)
HC(int, getrlimit, (__rlimit_resource_t r, struct rlimit* o) noexcept, (r, o), 0)
HC(int, setrlimit, (__rlimit_resource_t r, const struct rlimit* o) noexcept, (r, o), 0)
HC(int, getrusage, (__rusage_who_t r, struct rusage* o) noexcept, (r, o), 0)
HC(long, sysconf, (int n) noexcept, (n), 1)
HC(int, usleep, (useconds_t n), (n), 0)
HC(unsigned, sleep, (unsigned n), (n), 0)
HC(int, nanosleep, (const struct timespec* a, struct timespec* b), (a, b), 0)
HC(int, clock_nanosleep, (clockid_t c, int f, const struct timespec* a, struct timespec* b), (c, f, a, b), 0)
HC(int, sched_yield, () noexcept, (), 0)
HC(ssize_t, getrandom, (void* b, size_t n, unsigned f), (b, n, f), long(n))
HC(int, getentropy, (void* b, size_t n), (b, n), 0)
HC(int, rand, () noexcept, (), 7)
HC(long, random, () noexcept, (), 7)
HC(char*, getenv, (const char* n) noexcept, (n), 0)
HC(char*, secure_getenv, (const char* n) noexcept, (n), 0)
HC(int, setenv, (const char* n, const char* v, int o) noexcept, (n, v, o), 0)
HC(void*, sbrk, (intptr_t n) noexcept, (n), 0)
HC(int, brk, (void* p) noexcept, (p), 0)
int open(const char* p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); HC_NEXT(open); if (hostcalls::armed) return hostcalls::rec("open", 77); return real(p, f, m); }
int openat(int d, const char* p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); HC_NEXT(openat); if (hostcalls::armed) return hostcalls::rec("openat", 77); return real(d, p, f, m); }
int ioctl(int fd, unsigned long r, ...) noexcept { va_list a; va_start(a, r); void* x = va_arg(a, void*); va_end(a); HC_NEXT(ioctl); if (hostcalls::armed) return hostcalls::rec("ioctl"); return real(fd, r, x); }
int fcntl(int fd, int c, ...) { va_list a; va_start(a, c); void* x = va_arg(a, void*); va_end(a); HC_NEXT(fcntl); if (hostcalls::armed) return hostcalls::rec("fcntl"); return real(fd, c, x); }
int prctl(int o, ...) noexcept { va_list a; va_start(a, o); unsigned long x[4]; for (auto& v : x) v = va_arg(a, unsigned long); va_end(a); static auto real = hostcalls::next<int (*)(int, ...)>("prctl"); if (hostcalls::armed) return hostcalls::rec("prctl"); return real(o, x[0], x[1], x[2], x[3]); }
int mprotect(void* p, size_t n, int f) noexcept { HC_NEXT(mprotect); if (hostcalls::armed) return hostcalls::rec("mprotect"); return real(p, n, f); }
int madvise(void* p, size_t n, int f) noexcept { HC_NEXT(madvise); if (hostcalls::armed) return hostcalls::rec("madvise"); return real(p, n, f); }
long syscall(long n, ...) noexcept { va_list a; va_start(a, n); long x[6]; for (auto& v : x) v = va_arg(a, long); va_end(a); static auto real = hostcalls::next<long (*)(long, ...)>("syscall"); if (hostcalls::armed && n != 9 && n != 11 && n != 228) return hostcalls::rec("syscall"); return real(n, x[0], x[1], x[2], x[3], x[4], x[5]); }
}
