// Memory, string and heap functions of a guest, under the names the library replaces (no C library).
typedef unsigned long u64; typedef long i64; typedef unsigned char u8;
#define KEEP __attribute__((noinline, used))
#ifdef SPLIT // some of the functions in an executable segment of their own
#define FAR __attribute__((noinline, used, section(".hot")))
#else
#define FAR KEEP
#endif
#define AT_aligned KEEP
#define AT_lasx KEEP
#define AT_lsx FAR
#define AT_unaligned FAR
#define AT(S) AT_##S
__asm__(".globl _start\n_start: .word 0x00150000\n.globl vm_exit\n.type vm_exit,@function\nvm_exit: .word 0x00150000\n"
	".globl sys3\n.type sys3,@function\nsys3: move $a7,$a3\n syscall 0\n jr $ra\n");
extern i64 sys3(i64, i64, i64, i64);
#ifndef SPLIT // the last instruction of the executable section: nothing follows
__asm__(".section .text.zz,\"ax\"\n.globl last_insn\n.type last_insn,@function\nlast_insn: addi.d $a0,$a0,5\n.size last_insn,4\n.previous\n");
#endif
u8 pool[32768] __attribute__((aligned(64))); const u8 rodata[256] = {1, 2, 3, 0, 5};
#define FUNCS(S) \
AT(S) void* __memcpy_##S(void* d, const void* s, u64 n) { u8* a = d; const u8* b = s; for (u64 i = 0; i < n; i++) a[i] = b[i]; return d; } \
AT(S) void* __memset_##S(void* d, int c, u64 n) { u8* a = d; for (u64 i = 0; i < n; i++) a[i] = c; return d; } \
AT(S) void* __memmove_##S(void* d, const void* s, u64 n) { u8* a = d; const u8* b = s; if (a < b) for (u64 i = 0; i < n; i++) a[i] = b[i]; else for (u64 i = n; i > 0; i--) a[i - 1] = b[i - 1]; return d; }
#define FUNCS2(S) FUNCS(S) \
AT(S) int __memcmp_##S(const void* x, const void* y, u64 n) { const u8 *a = x, *b = y; for (u64 i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; } \
AT(S) u64 __strlen_##S(const char* s) { u64 n = 0; while (s[n]) n++; return n; } \
AT(S) u64 __strnlen_##S(const char* s, u64 m) { u64 n = 0; while (n < m && s[n]) n++; return n; } \
AT(S) int __strcmp_##S(const char* x, const char* y) { const u8 *a = (const u8*)x, *b = (const u8*)y; while (*a && *a == *b) a++, b++; return *a == *b ? 0 : *a < *b ? -1 : 1; } \
AT(S) int __strncmp_##S(const char* x, const char* y, u64 n) { const u8 *a = (const u8*)x, *b = (const u8*)y; for (; n; n--, a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) break; } return 0; }
FUNCS2(aligned) FUNCS2(lsx) FUNCS2(lasx) FUNCS(unaligned)
KEEP void* __memchr_aligned(const void* s, int c, u64 n) { const u8* a = s; for (u64 i = 0; i < n; i++) if (a[i] == (u8)c) return (void*)(a + i); return 0; }
FAR void* __memchr_lsx(const void* s, int c, u64 n) { const u8* a = s; for (u64 i = 0; i < n; i++) if (a[i] == (u8)c) return (void*)(a + i); return 0; }
// code that falls through into a replaced function: memchr_more(s, c, n) is memchr(s, c, n + 1)
__asm__(".globl memchr_more\n.type memchr_more,@function\nmemchr_more: addi.d $a2,$a2,1\n.size memchr_more,4\n.globl __memchr_lasx\n.type __memchr_lasx,@function\n__memchr_lasx: andi $a1,$a1,255\n"
	"1: beqz $a2,3f\n ld.bu $t0,$a0,0\n beq $t0,$a1,2f\n addi.d $a0,$a0,1\n addi.d $a2,$a2,-1\n b 1b\n3: move $a0,$zero\n2: jr $ra\n.size __memchr_lasx,.-__memchr_lasx\n");
// a heap that only grows
u64 heap_at; u8 heap[65536] __attribute__((aligned(64)));
FAR void* malloc(u64 n) { n = n ? (n + 15) & ~15ul : 16; if (n + 16 > sizeof heap - heap_at) return 0; u8* p = heap + heap_at; *(u64*)p = n; heap_at += n + 16; return p + 16; }
KEEP void free(void* p) { if (p) ((u64*)p)[-1] |= 1; }
KEEP void* calloc(u64 a, u64 b) { u8* p = malloc(a * b); if (p) for (u64 i = 0; i < a * b; i++) p[i] = 0; return p; }
FAR void* realloc(void* p, u64 n) { u8* q = malloc(n); if (p && q) { u64 o = ((u64*)p)[-2] & ~15ul; for (u64 i = 0; i < o && i < n; i++) q[i] = ((u8*)p)[i]; } free(p); return q; }
// a program that uses all of them: its result depends only on its arguments
KEEP u64 work(u64 seed, u64 rounds) {
	u64 h = seed; char buf[200], cpy[200];
	for (u64 r = 0; r < rounds; r++) {
		h = h * 6364136223846793005ul + 1442695040888963407ul; u64 n = 1 + (h >> 40) % 150;
		for (u64 i = 0; i < n; i++) buf[i] = 1 + ((h >> (i % 40)) & 63); buf[n] = 0;
		__memset_aligned(cpy, (int)(h & 255), sizeof cpy); __memcpy_aligned(cpy, buf, n + 1); h += __strlen_lsx(cpy) * 7; h += (__strcmp_aligned(buf, cpy) == 0) * 3;
		u64 k = (h >> 20) % n; cpy[k] ^= 1; if (!cpy[k]) cpy[k] = 9; int c = __strncmp_aligned(buf, cpy, n); h += (c < 0) * 11 + (c > 0) * 13; c = __memcmp_aligned(buf, cpy, n); h += (c < 0) * 17 + (c > 0) * 19;
		__memmove_lsx(cpy + 1, cpy, n); char* f = __memchr_aligned(cpy, buf[n / 2], n); h += f ? f - cpy : 999; h += __strnlen_aligned(buf, k) * 23;
		char* m = malloc(n); char* z = calloc(n, 3); if (m && z) { __memcpy_aligned(m, buf, n); for (u64 i = 0; i < n * 3; i++) h += z[i]; m = realloc(m, n * 2); if (m) h += __memcmp_aligned(m, buf, n) == 0; }
		h += (m != 0) * 29 + (z != 0) * 31; free(m); free(z);
	}
	return h;
}
// tail calls and calls through pointers reach replacements too
KEEP u64 tail_strlen(const char* s) { __asm__ volatile(""); return __strlen_aligned(s + 1); }
KEEP i64 via_pointer(u64 (*f)(u64, u64, u64), u64 a, u64 b, u64 c) { u64 x = f(a, b, c); return (i64)(x + 1); }
KEEP u64 spinner(u64 n) { u64 s = 1; for (u64 i = 0; i < n; i++) s = s * 3 + i; return s; }
