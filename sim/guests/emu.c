// The program the emulator is given: prints its arguments, then does what the last one says.
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern char** environ;
static volatile long sink;
static int code;
static void* printer(void* v) { printf("t %ld\n", (long)v); fflush(stdout); return v; }
static void* quitter(void* v) { (void)v; exit(code); }
static long deep(long n) { volatile char pad[512]; pad[n & 511] = (char)n; return n <= 0 ? pad[0] : deep(n - 1) + pad[n & 511]; }
int main(int argc, char** argv) {
	printf("argc %d\n", argc);
	for (int i = 0; i < argc; i++) { printf("%d %zu:", i, strlen(argv[i])); fwrite(argv[i], 1, strlen(argv[i]), stdout); putchar('\n'); }
	fflush(stdout);
	for (char** e = environ; *e; e++) if (strstr(*e, "HOSTSECRET")) { printf("host environment: %s\n", *e); fflush(stdout); }
	const char* c = argc > 1 ? argv[argc - 1] : "";
	while (*c) {
		char k = *c++; long n = strtol(c, (char**)&c, 10); if (*c == ',') c++; pthread_t t;
		switch (k) {
		case 'p': printf("p %ld\n", n); break;
		case 'w': for (long i = 0; i < n; i++) putchar('a' + i % 23); putchar('\n'); break;
		case 'W': { char* b = malloc(n + 1); if (!b) { printf("no memory\n"); break; } for (long i = 0; i < n; i++) b[i] = 'A' + i % 25; b[n] = '\n'; write(1, b, n + 1); free(b); break; }
		case 'E': { char b[40]; int l = snprintf(b, sizeof b, "err %ld\n", n); write(2, b, l); break; }
		case 'b': for (long i = 0; i < n; i++) sink += i; break;
		case 'm': { char* p = malloc((size_t)n << 20); if (p) for (long i = 0; i < n; i++) p[((size_t)i << 20) + 77] = (char)i; printf("m %ld %s %d\n", n, p ? "ok" : "failed", p ? (int)(((unsigned long)p >> 20) + n) : 0); break; }
		case 'd': printf("d %ld %d\n", n, deep(n) != -1); break;
		case 't': if (pthread_create(&t, 0, printer, (void*)n)) printf("no thread\n"); else { void* r = 0; pthread_join(t, &r); printf("joined %ld\n", (long)r); } break;
		case 'q': code = (int)n; if (pthread_create(&t, 0, quitter, 0)) printf("no thread\n"); else pthread_join(t, 0); break;
		case 's': for (;;) sink++;
		case 'f': *(volatile int*)16 = 1; break;
		case 'g': sink = *(volatile long*)0x7ffffffff000; break;
		case 'i': __asm__ volatile(".word 0xffffffff"); break;
		case 'a': abort();
		case 'e': exit((int)n);
		case 'x': fflush(stdout); _exit((int)n);
		case 'r': return (int)n;
		default: printf("? %c\n", k);
		}
		fflush(stdout);
	}
	return 0;
}
