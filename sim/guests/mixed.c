// Compute, allocate, print: the same output however it is sliced.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <math.h>
static unsigned long long h = 1469598103934665603ull;
static void mixin(unsigned long long v) { h = (h ^ v) * 1099511628211ull; }
struct node { struct node* next; int v; char name[24]; };
static int cmp(const void* a, const void* b) { int x = *(const int*)a, y = *(const int*)b; return (x > y) - (x < y); }
int fib(int n) { return n < 2 ? n : fib(n - 1) + fib(n - 2); }
int main(int argc, char** argv) {
	int seed = argc > 1 ? atoi(argv[1]) : 1; srand(seed);
	int n = 30 + rand() % 60; int* v = malloc(n * sizeof(int));
	for (int i = 0; i < n; i++) v[i] = rand() % 1000;
	qsort(v, n, sizeof(int), cmp);
	for (int i = 0; i < n; i++) mixin(v[i]);
	struct node* list = NULL;
	for (int i = 0; i < 20; i++) { struct node* p = calloc(1, sizeof *p); p->v = rand(); snprintf(p->name, sizeof p->name, "n%d", p->v % 999); p->next = list; list = p; }
	double acc = 0; float facc = 1;
	for (struct node* p = list; p; p = p->next) { acc += (double)p->v / 3.0; facc *= 1.0f + (p->v % 7) / 100.0f; mixin(strlen(p->name)); }
	printf("sum %.6f %.4f fib %d hash %llx\n", acc, facc, fib(8 + seed % 4), h);
	char buf[300]; memset(buf, 'a' + seed % 26, sizeof buf); buf[299] = 0; char* d = strdup(buf); memmove(d + 3, d, 200); buf[298] = 33; puts(d);
	for (int i = 0; i < 5; i++) { char line[64]; int k = snprintf(line, sizeof line, "line %d %08x\n", i, (unsigned)(h >> i)); if (write(1 + i % 2, line, k) != k) return 9; }
	while (list) { struct node* p = list->next; free(list); list = p; }
	free(v); free(d);
	for (int i = 0; i < 3; i++) printf("%s%c", argv[0], i == 2 ? '\n' : ' ');
	return seed % 100;
}
