// Functions the simulator calls from the host (no C library).
typedef unsigned long u64; typedef long i64; typedef unsigned u32; typedef int i32;
#define KEEP __attribute__((noinline, used))
__asm__(".globl _start\n_start: .word 0x00150000\n.globl vm_exit\n.type vm_exit,@function\nvm_exit: .word 0x00150000\n.globl _exit\n.type _exit,@function\n_exit: ori $a7,$zero,507\n syscall 0\n"
	".globl sys6\n.type sys6,@function\nsys6: move $t0,$a0\n move $a0,$a1\n move $a1,$a2\n move $a2,$a3\n move $a3,$a4\n move $a4,$a5\n move $a5,$a6\n move $a7,$t0\n syscall 0\n jr $ra\n");
volatile u64 scratch[64]; const u64 rodata[8] = {1, 2, 3, 5, 8, 13, 21, 34}; u64 counters[16] = {7};
i64 sys6(i64 n, i64 a, i64 b, i64 c, i64 d, i64 e, i64 f);
KEEP i64 add2(i64 a, i64 b) { return a + b; }
KEEP i64 mix8(i64 a, i64 b, i64 c, i64 d, i64 e, i64 f, i64 g, i64 h) { return ((((((a * 31 + b) * 31 + c) * 31 + d) * 31 + e) * 31 + f) * 31 + g) * 31 + h; }
KEEP i64 mix10(i64 a, i64 b, i64 c, i64 d, i64 e, i64 f, i64 g, i64 h, i64 i, i64 j) { return (mix8(a, b, c, d, e, f, g, h) * 31 + i) * 31 + j; }
KEEP i32 cmp_u32(u32 a, u32 b) { scratch[1] = b; u32 v = *(volatile u32*)&scratch[1]; return (a == v) + 2 * (a < v) + 4 * (a > v); }
KEEP i32 cmp_i32(i32 a, i32 b) { return (a == b) + 2 * (a < b) + 4 * (a > b); }
KEEP i64 small(signed char a, unsigned char b, short c, unsigned short d, u32 e, _Bool f) { return a + 1000L * b + 1000000L * c + 100000000000L * d + (i64)e * 7 + f; }
KEEP double fmix(double a, float b, double c, float d) { return a * 2 + b * 3 + c * 5 + d * 7; }
KEEP float fret(float a, double b) { return a - (float)b; }
KEEP double fmix10(double a, double b, double c, double d, double e, double f, double g, double h, double i, double j) { return a + 2 * b + 3 * c + 5 * d + 7 * e + 11 * f + 13 * g + 17 * h + 19 * i + 23 * j; }
KEEP i64 both(i64 a, double x, i64 b, float y, i64 c) { return a + (i64)x * 3 + b * 5 + (i64)y * 7 + c * 11; }
KEEP u64 hashstr(const char* s, u64 n) { u64 h = 5381; for (u64 i = 0; s[i]; i++) h = h * 33 + (unsigned char)s[i]; return h * 33 + n; }
KEEP u64 hashmem(const unsigned char* s, u64 n) { u64 h = 5381; for (u64 i = 0; i < n; i++) h = h * 33 + s[i]; return h * 33 + s[n]; }
// many strings
#define HS(x) h = hashstr(x, h)
KEEP u64 strs3(const char* a, const char* b, const char* c) { u64 h = 1; HS(a); HS(b); HS(c); return h; }
KEEP u64 strs11(const char* a, const char* b, const char* c, const char* d, const char* e, const char* f, const char* g, const char* i, const char* j, const char* k, const char* l) { u64 sp; __asm__ volatile("move %0, $sp" : "=r"(sp)); u64 h = sp & 15; HS(a); HS(b); HS(c); HS(d); HS(e); HS(f); HS(g); HS(i); HS(j); HS(k); HS(l); return h; }
struct sstr { const unsigned char* p; u64 n; unsigned char in[16]; };
// a C++ string: its characters, that they end with a zero, and whether they are within the object
KEEP u64 hashstd(const struct sstr* s, u64 k) { u64 h = 5381; for (u64 i = 0; i < s->n; i++) h = h * 33 + s->p[i]; h = h * 33 + k; return h * 8 + 2 * (s->p[s->n] == 0) + (s->p == s->in); }
struct wide { u64 w[3]; };
// alignment of what a call is given, and how much of it arrived
KEEP i64 aligns(const char* s, struct wide* w, i64 k) { u64 sp; __asm__ volatile("move %0, $sp" : "=r"(sp)); return (i64)(sp & 15) * 0x100 + (i64)((u64)w & 15) * (k & 1) * 0x10000 + (w->w[0] ^ w->w[2] ^ (u64)k ^ (unsigned char)s[0]) * 0x1000000; }
struct pt { i32 x, y; double z; char tag[8]; };
KEEP double usept(struct pt* p, i64 k) { return p->x + 2.0 * p->y + 3.0 * p->z + p->tag[k & 7]; }
KEEP i64 twopt(struct pt* p, const char* s, struct pt* q) { return p->x * 7 + q->y * 5 + s[0] * 3 + s[1]; }
KEEP i64 rec(i64 n) { volatile i64 pad[6]; pad[n & 3] = n; i64 r = n <= 0 ? 1 : rec(n - 1) * 3 + pad[n & 3]; return r; }
KEEP i64 spin(i64 n) { i64 s = 0; for (i64 i = 0; i < n; i++) { s += i ^ (s << 1); scratch[i & 31] = s; } return s; }
KEEP i64 forever(void) { for (;;) scratch[0]++; }
KEEP i64 deref(u64* p) { return *p + 1; }
KEEP i64 faultmid(i64 n, u64* p) { i64 s = 0; for (i64 i = 0; i < n; i++) { s += i * 3; scratch[i & 31] += s; if (i == n / 2) s += *p; } return s; }
KEEP i64 callsys(i64 n, i64 a, i64 b) { i64 r = 0; for (i64 i = 0; i < b; i++) { r = r * 3 + sys6(n, a, i, b, 4, 5, 6); scratch[32 + (i & 7)] = r; } return r; }
KEEP i64 count_up(i64 k) { return counters[0] += k; }
// a nest: the host is called in the middle, with live values in every kind of register and on the stack
KEEP i64 nest(i64 id, i64 depth, double x) { volatile i64 loc[8]; for (int i = 0; i < 8; i++) loc[i] = id * 100 + i; double y = x * 1.5 + depth; i64 r = sys6(505, id, depth, (i64)loc, 0, 0, 0);
	i64 s = 0; for (int i = 0; i < 8; i++) s += loc[i] * (i + 1); return r * 1000003 + s + (i64)(y * 4); }
KEEP void* memcpy(void* d, const void* s, u64 n) { char* a = d; const char* b = s; while (n--) *a++ = *b++; return d; }
KEEP void* memset(void* d, int c, u64 n) { char* a = d; while (n--) *a++ = c; return d; }
