// Runs the project's kernels on behalf of the explorers, on a processor (real or emulated) other than theirs: a freestanding program that shares
// memory with the explorer (harness/rpc.cc), maps it with the same inaccessible pages, and executes one call after the other.
#include "common.h"
#include "encoder.h"
#include "decoder.h"
#include "crc.h"
#ifndef __linux__
# error
#endif
typedef uint32_t u32; typedef uint64_t u64; typedef uintptr_t W;
#include "../rpc.h"
#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
static u32 le(u32 v) { return __builtin_bswap32(v); } static u64 le(u64 v) { return __builtin_bswap64(v); }
#else
static u32 le(u32 v) { return v; } static u64 le(u64 v) { return v; }
#endif

// ---- system calls
#if defined(__x86_64__)
enum { N_WRITE = 1, N_MMAP = 9, N_PROT = 10, N_YIELD = 24, N_EXIT = 231 };
static W sys(W n, W a = 0, W b = 0, W c = 0, W d = 0, W e = 0, W f = 0) { W r; register W r10 asm("r10") = d; register W r8 asm("r8") = e; register W r9 asm("r9") = f; asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); return r; }
asm(".globl _start\n_start: mov %rsp,%rdi\nand $-16,%rsp\ncall vf_start\n");
#elif defined(__i386__)
enum { N_WRITE = 4, N_MMAP = 192, N_PROT = 125, N_YIELD = 158, N_EXIT = 252 };
asm(".globl vf_sys\nvf_sys: push %ebx\npush %esi\npush %edi\npush %ebp\nmov 20(%esp),%eax\nmov 24(%esp),%ebx\nmov 28(%esp),%ecx\nmov 32(%esp),%edx\nmov 36(%esp),%esi\nmov 40(%esp),%edi\nmov 44(%esp),%ebp\nint $0x80\npop %ebp\npop %edi\npop %esi\npop %ebx\nret\n");
extern "C" W vf_sys(W, W, W, W, W, W, W);
static W sys(W n, W a = 0, W b = 0, W c = 0, W d = 0, W e = 0, W f = 0) { return vf_sys(n, a, b, c, d, e, f); }
asm(".globl _start\n_start: mov %esp,%eax\nand $-16,%esp\nsub $12,%esp\npush %eax\ncall vf_start\n");
#elif defined(__aarch64__)
enum { N_WRITE = 64, N_MMAP = 222, N_PROT = 226, N_YIELD = 124, N_EXIT = 94 };
static W sys(W n, W a = 0, W b = 0, W c = 0, W d = 0, W e = 0, W f = 0) { register W x8 asm("x8") = n; register W x0 asm("x0") = a; register W x1 asm("x1") = b; register W x2 asm("x2") = c; register W x3 asm("x3") = d; register W x4 asm("x4") = e; register W x5 asm("x5") = f; asm volatile("svc #0" : "+r"(x0) : "r"(x8), "r"(x1), "r"(x2), "r"(x3), "r"(x4), "r"(x5) : "memory"); return x0; }
asm(".globl _start\n_start: mov x0,sp\nbl vf_start\n");
#elif defined(__arm__)
enum { N_WRITE = 4, N_MMAP = 192, N_PROT = 125, N_YIELD = 158, N_EXIT = 248 };
static W sys(W n, W a = 0, W b = 0, W c = 0, W d = 0, W e = 0, W f = 0) { register W r7 asm("r7") = n; register W r0 asm("r0") = a; register W r1 asm("r1") = b; register W r2 asm("r2") = c; register W r3 asm("r3") = d; register W r4 asm("r4") = e; register W r5 asm("r5") = f; asm volatile("svc #0" : "+r"(r0) : "r"(r7), "r"(r1), "r"(r2), "r"(r3), "r"(r4), "r"(r5) : "memory"); return r0; }
asm(".globl _start\n_start: mov r0,sp\nbic r1,r0,#15\nmov sp,r1\nbl vf_start\n");
#elif defined(__riscv)
enum { N_WRITE = 64, N_MMAP = 222, N_PROT = 226, N_YIELD = 124, N_EXIT = 94 };
static W sys(W n, W a = 0, W b = 0, W c = 0, W d = 0, W e = 0, W f = 0) { register W a7 asm("a7") = n; register W a0 asm("a0") = a; register W a1 asm("a1") = b; register W a2 asm("a2") = c; register W a3 asm("a3") = d; register W a4 asm("a4") = e; register W a5 asm("a5") = f; asm volatile("ecall" : "+r"(a0) : "r"(a7), "r"(a1), "r"(a2), "r"(a3), "r"(a4), "r"(a5) : "memory"); return a0; }
asm(".globl _start\n_start:\n.option push\n.option norelax\nla gp, __global_pointer$\n.option pop\nmv a0,sp\nandi sp,sp,-16\ncall vf_start\n");
#elif defined(__s390x__)
enum { N_WRITE = 4, N_MMAP = 90, N_PROT = 125, N_YIELD = 158, N_EXIT = 248 };
static W sys(W n, W a = 0, W b = 0, W c = 0, W d = 0, W e = 0, W f = 0) { W args[6] = {a, b, c, d, e, f}; register W r1 asm("r1") = n; register W r2 asm("r2") = n == N_MMAP ? (W)args : a; register W r3 asm("r3") = b; register W r4 asm("r4") = c; asm volatile("svc 0" : "+d"(r2) : "d"(r1), "d"(r3), "d"(r4) : "memory"); return r2; }
asm(".globl _start\n_start: lgr %r2,%r15\naghi %r15,-160\nbrasl %r14,vf_start\n");
#elif defined(__powerpc__) && !defined(__powerpc64__)
enum { N_WRITE = 4, N_MMAP = 192, N_PROT = 125, N_YIELD = 158, N_EXIT = 234 };
static W sys(W n, W a = 0, W b = 0, W c = 0, W d = 0, W e = 0, W f = 0) { register W r0 asm("r0") = n; register W r3 asm("r3") = a; register W r4 asm("r4") = b; register W r5 asm("r5") = c; register W r6 asm("r6") = d; register W r7 asm("r7") = e; register W r8 asm("r8") = f; asm volatile("sc\nbns+ 1f\nneg 3,3\n1:" : "+r"(r3), "+r"(r0), "+r"(r4), "+r"(r5), "+r"(r6), "+r"(r7), "+r"(r8) :: "cr0", "ctr", "r9", "r10", "r11", "r12", "memory"); return r3; }
asm(".globl _start\n_start: mr 3,1\nrlwinm 1,1,0,0,27\nli 0,0\nstwu 0,-32(1)\nbl vf_start\n");
#endif
static void say(const char* s) { sys(N_WRITE, 2, (W)s, strlen(s)); }
[[noreturn]] static void leave(int c) { for(;;) sys(N_EXIT, c); }

// ---- the C library
static W feat[2]; static bool real; // features claimed; whether they come from the system
extern "C" {
void* memcpy(void* d, const void* s, size_t n) { char* p = (char*)d; const char* q = (const char*)s; while(n--) { *p++ = *q++; asm volatile("" ::: "memory"); } return d; }
void* memmove(void* d, const void* s, size_t n) { char* p = (char*)d; const char* q = (const char*)s; if(p < q) return memcpy(d, s, n); while(n--) { p[n] = q[n]; asm volatile("" ::: "memory"); } return d; }
void* memset(void* d, int c, size_t n) { char* p = (char*)d; while(n--) { *p++ = c; asm volatile("" ::: "memory"); } return d; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b; for(; n--; p++, q++) if(*p != *q) return *p - *q; return 0; }
size_t strlen(const char* s) { size_t n = 0; while(s[n]) { n++; asm volatile(""); } return n; }
int strcmp(const char* a, const char* b) { while(*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
static char heap[4 << 20] __attribute__((aligned(4096))); static size_t used;
void* aligned_alloc(size_t al, size_t n) { used = (used + al - 1) & ~(al - 1); if(used + n > sizeof heap) { say("out of memory\n"); leave(3); } void* p = heap + used; used += n; return p; }
void* malloc(size_t n) { return aligned_alloc(16, n); }
void* calloc(size_t n, size_t m) { return malloc(n * m); }
void free(void*) {}
int posix_memalign(void** p, size_t al, size_t n) { *p = aligned_alloc(al, n); return 0; }
void abort(void) { leave(134); }
char* getenv(const char*) { return 0; }
unsigned long getauxval(unsigned long k) { return k == 16 ? feat[0] : k == 26 ? feat[1] : 0; }
long syscall(long n, ...) { // riscv_hwprobe
	__builtin_va_list a; __builtin_va_start(a, n); struct P { int64_t key; u64 value; }* p = __builtin_va_arg(a, P*); long cnt = __builtin_va_arg(a, long); __builtin_va_end(a);
	if(n != 258) return -1;
	if(real) return sys(258, (W)p, cnt, 0, 0, 0) ? -1 : 0;
	for(long i = 0; i < cnt; i++) if(p[i].key == 4) p[i].value = feat[1]; else { p[i].key = -1; p[i].value = 0; }
	return 0;
}
int vf_isa, vf_crc;
int __cxa_guard_acquire(u64* g) { return !*(char*)g; } void __cxa_guard_release(u64* g) { *(char*)g = 1; } void __cxa_guard_abort(u64*) {}
void __cxa_pure_virtual() { abort(); } int __cxa_atexit(void (*)(void*), void*, void*) { return 0; } void* __dso_handle;
typedef void (*Fn)(); extern Fn __init_array_start[] __attribute__((weak)), __init_array_end[] __attribute__((weak));
}
void* operator new(size_t n) { return malloc(n); } void* operator new[](size_t n) { return malloc(n); }
void operator delete(void*) noexcept {} void operator delete[](void*) noexcept {} void operator delete(void*, size_t) noexcept {} void operator delete[](void*, size_t) noexcept {}
#ifdef PLATFORM_X86
namespace RapidYenc { int cpu_supports_isa() { return vf_isa; } int cpu_supports_crc_isa() { return vf_crc; } }
#endif

static W number(const char* s) { W n = 0; while(*s) n = n * 10 + (*s++ - '0'); return n; }
static inline void relax() {
#if defined(__x86_64__) || defined(__i386__)
	__builtin_ia32_pause();
#else
	asm volatile("" ::: "memory");
#endif
}
extern "C" void vf_start(W* sp) {
	char** argv = (char**)(sp + 1); // program, file descriptor, size, features, features, 1 to run the dispatchers
	if(*sp < 6) leave(3);
	int fd = number(argv[1]); W size = number(argv[2]); feat[0] = number(argv[3]); feat[1] = number(argv[4]); vf_isa = feat[0]; vf_crc = feat[1];
	if(number(argv[5]) == 2) {
		W* a = sp + 1 + *sp + 1; while(*a) a++;
		real = true; feat[0] = feat[1] = 0;
		for(a++; *a; a += 2) if(a[0] == 16) feat[0] = a[1]; else if(a[0] == 26) feat[1] = a[1];
	}
	for(Fn* f = __init_array_start; f != __init_array_end; f++) (*f)();
	W at = sys(N_MMAP, 0, size, 3, 1, fd, 0);
	if(at > (W)-4096 || !at) { say("mmap failed\n"); leave(3); }
	char* base = (char*)at; volatile Ctl* c = (volatile Ctl*)base;
	for(u32 i = 0; i < le(c->nguards); i++) if(sys(N_PROT, at + (W)le(c->guard[i]), 4096, 0)) { say("mprotect failed\n"); leave(3); }
	using namespace RapidYenc;
	if(number(argv[5])) { encoder_init(); decoder_init(); }
	crc32_init();
	c->isa[0] = le((u32)_decode_isa); c->isa[1] = le((u32)_encode_isa); c->isa[2] = le((u32)_crc32_isa);
	__sync_synchronize(); c->done = le((u32)1);
	u32 seq = 1;
	for(;;) {
		for(unsigned n = 0; le(c->req) == seq; n++) { relax(); if(n > 200) sys(N_YIELD); }
		__sync_synchronize(); seq = le(c->req);
		u64 a[8]; for(int i = 0; i < 8; i++) a[i] = le(c->a[i]);
		u64 r[4] = {0, 0, 0, 0};
		const void* src = base + (W)a[0]; void* dst = base + (W)a[1]; size_t len = (size_t)a[2];
		YencDecoderState st = (YencDecoderState)(int)a[3]; int col = (int)a[3];
		switch(le(c->op)) {
			case OP_DECODE: r[0] = decode((int)a[4], src, dst, len, a[5] ? &st : NULL); r[1] = st; break;
			case OP_DECODE_END: r[0] = decode_end(&src, &dst, len, &st); r[1] = st; r[2] = (W)((const char*)src - base); r[3] = (W)((char*)dst - base); break;
			case OP_ENCODE: r[0] = encode((int)a[4], &col, src, dst, len, (int)a[5]); r[1] = (u32)col; break;
			case OP_CRC: r[0] = crc32(src, len, (u32)a[3]); break;
			case OP_SHIFT: r[0] = crc32_shift((u32)a[0], (u32)a[1]); break;
			case OP_MUL: r[0] = crc32_multiply((u32)a[0], (u32)a[1]); break;
			case OP_COMBINE: r[0] = crc32_combine((u32)a[0], (u32)a[1], a[2]); break;
			case OP_ZEROS: r[0] = crc32_zeros((u32)a[0], a[1]); break;
			case OP_UNZERO: r[0] = crc32_unzero((u32)a[0], a[1]); break;
			case OP_2POW: r[0] = crc32_2pow((int64_t)a[0]); break;
			case OP_256POW: r[0] = crc32_256pow(a[0]); break;
			default: say("unknown operation\n"); leave(3);
		}
		for(int i = 0; i < 4; i++) c->r[i] = le(r[i]);
		__sync_synchronize(); c->done = le(seq);
	}
}
