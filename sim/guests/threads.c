// Threads, mutexes and condition variables: deterministic because guest threads switch only at system calls.
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
// the library does not implement the instruction glibc uses in pthread_cond_signal, so: sequence-counter events
static int ev[2];
static void ev_signal(int* e, int n) { __atomic_add_fetch(e, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, e, FUTEX_WAKE_BITSET | 128, n, 0, 0, ~0u); }
static void ev_wait(int* e, int seen) { syscall(SYS_futex, e, FUTEX_WAIT_BITSET | 128, seen, 0, 0, ~0u); }
static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
static int queue[8], qn, done, total; static long sums[8]; static int rounds;
static void* worker(void* a) {
	long id = (long)a;
	for (;;) {
		pthread_mutex_lock(&m);
		while (!qn && !done) { int s = ev[0]; pthread_mutex_unlock(&m); ev_wait(&ev[0], s); pthread_mutex_lock(&m); }
		if (!qn && done) { pthread_mutex_unlock(&m); break; }
		int v = queue[--qn]; ev_signal(&ev[1], 1); sums[id] += v; total += v;
		pthread_mutex_unlock(&m);
		if (v % 3 == 0) sched_yield();
		for (volatile int i = 0; i < v % 50; i++) {}
	}
	printf("worker %ld sum %ld\n", id, sums[id]);
	return (void*)(sums[id] & 0xff);
}
int main(int argc, char** argv) {
	int seed = argc > 1 ? atoi(argv[1]) : 1; int n = 1 + seed % 4; rounds = 10 + seed % 23; pthread_t t[8];
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 128 * 1024);
	for (long i = 0; i < n; i++) if (pthread_create(&t[i], &at, worker, (void*)i)) { puts("create failed"); return 7; }
	for (int i = 0; i < rounds; i++) {
		pthread_mutex_lock(&m);
		while (qn == 8) { int s = ev[1]; pthread_mutex_unlock(&m); ev_wait(&ev[1], s); pthread_mutex_lock(&m); }
		queue[qn++] = i * seed; ev_signal(&ev[0], 1);
		pthread_mutex_unlock(&m);
		if (i % 4 == 1) sched_yield();
	}
	pthread_mutex_lock(&m); done = 1; ev_signal(&ev[0], 100); pthread_mutex_unlock(&m);
	long r = 0; for (int i = 0; i < n; i++) { void* x; pthread_join(t[i], &x); r += (long)x; }
	int want = 0; for (int i = 0; i < rounds; i++) want += i * seed;
	printf("total %d want %d ret %ld\n", total, want, r);
	return total == want ? 0 : 1;
}
