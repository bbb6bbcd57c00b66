// Explores what the library selects and executes on every CPU: the CPUID/XGETBV instructions of the project's own
// objects (linked as a shared library) are replaced by traps that answer from a feature vector, for every consistent
// vector; then, for every selection found, every instruction some CPU with that selection lacks becomes a breakpoint
// while the selected kernels run.
// table file (written by vf/isa.py from the disassembly): P off (cpuid) / X off (xgetbv) / I off mask / S off size (writable)
#include "mc.h"
#include <dlfcn.h>
#include <link.h>
#include <cpuid.h>
#include <ucontext.h>
#include <setjmp.h>
#include <algorithm>
#include <new>
using namespace RapidYenc;
extern "C" { extern const VfLevel vf_levels[] = {{"cpu", 0, 0}, {0, 0, 0}}; int vf_isa, vf_crc; void (*vf_probe_hook)(int); }

enum { SSE3 = 1, SSSE3 = 2, SSE41 = 4, SSE42 = 8, POPCNT = 16, LZCNT = 32, PCLMUL = 64, AVX = 128, AVX2 = 256, BMI1 = 512, BMI2 = 1024, VPCLMUL = 2048,
       F512 = 1<<12, VL = 1<<13, BW = 1<<14, DQ = 1<<15, VBMI = 1<<16, VBMI2 = 1<<17, CD = 1<<18, OTHER = 1<<19, ZMM = 1<<20, NBITS = 21 };
static const char* FN[] = {"SSE3","SSSE3","SSE4.1","SSE4.2","POPCNT","LZCNT","PCLMUL","AVX","AVX2","BMI1","BMI2","VPCLMULQDQ","AVX512F","AVX512VL","AVX512BW","AVX512DQ","AVX512_VBMI","AVX512_VBMI2","AVX512CD","another extension","512-bit vectors"};

// ---- allocations made by the library while a vector is tried: an arena, reset per vector -------------------------
static bool in_lib; static u8* pool; static size_t pool_at; static const size_t POOL = 256 << 20;
static void* pool_get(size_t n, size_t al) { if(al < 64) al = 64; pool_at = (pool_at + al - 1) & ~(al - 1); void* p = pool + pool_at; pool_at += n; if(pool_at > POOL) { dprintf(2, "pool exhausted\n"); _exit(3); } return p; }
extern "C" void* aligned_alloc(size_t al, size_t n) { if(in_lib) return pool_get(n, al); void* p = 0; static int (*f)(void**, size_t, size_t); if(!f) f = (int(*)(void**, size_t, size_t))dlsym(RTLD_NEXT, "posix_memalign"); return f(&p, al < 8 ? 8 : al, n) ? 0 : p; }
extern "C" int posix_memalign(void** p, size_t al, size_t n) { if(in_lib) { *p = pool_get(n, al); return 0; } static int (*f)(void**, size_t, size_t); if(!f) f = (int(*)(void**, size_t, size_t))dlsym(RTLD_NEXT, "posix_memalign"); return f(p, al, n); }
static bool from_pool(void* p) { return pool && (u8*)p >= pool && (u8*)p < pool + POOL; }
void* operator new(size_t n) { if(in_lib) return pool_get(n, 64); void* p = malloc(n ? n : 1); if(!p) _exit(3); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if(!from_pool(p)) free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ---- the library under test --------------------------------------------------------------------------------------
static u8* base; static u8 *text_lo, *text_hi;
struct Ins { u32 off, mask; };
static std::vector<Ins> ins; static std::vector<u32> probes, xprobes;
struct Sec { u8* p; size_t n; std::vector<u8> init; };
static std::vector<Sec> secs;
static std::string where(u8* p) {
	Dl_info d; char b[300];
	if(dladdr(p, &d) && d.dli_sname) snprintf(b, sizeof b, "%s+0x%lx", d.dli_sname, (long)(p - (u8*)d.dli_saddr)); else snprintf(b, sizeof b, "offset 0x%lx", (long)(p - base));
	return b;
}
static int find_lib(struct dl_phdr_info* i, size_t, void*) {
	if(!strstr(i->dlpi_name, "libyenc-under-test")) return 0;
	base = (u8*)i->dlpi_addr;
	for(int k = 0; k < i->dlpi_phnum; k++) if(i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
		text_lo = (u8*)((uintptr_t)(base + i->dlpi_phdr[k].p_vaddr) & ~4095ull); text_hi = (u8*)(((uintptr_t)(base + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz) + 4095) & ~4095ull);
	}
	return 1;
}
static void load_table(const char* path) {
	dl_iterate_phdr(find_lib, 0);
	if(!base || !text_lo) { fprintf(stderr, "library not found\n"); exit(3); }
	FILE* f = fopen(path, "r"); if(!f) { perror(path); exit(3); }
	char k; unsigned a, b; static char line[600];
	while(fgets(line, sizeof line, f)) { a = b = 0; k = line[0]; if(sscanf(line + 1, "%x %x", &a, &b) < 1) continue;
		if(k == 'P') probes.push_back(a); else if(k == 'X') xprobes.push_back(a); else if(k == 'I') ins.push_back({a, b});
		else if(k == 'S') secs.push_back({base + a, b, {}}); }
	fclose(f);
	for(auto& s : secs) s.init.assign(s.p, s.p + s.n);
}
static void text_writable() { if(mprotect(text_lo, text_hi - text_lo, PROT_READ|PROT_WRITE|PROT_EXEC)) { perror("mprotect"); exit(3); } }
static void patch_probes() {
	for(u32 o : probes) { if(base[o] != 0x0f || base[o+1] != 0xa2) { fprintf(stderr, "table does not match\n"); exit(3); } base[o+1] = 0x0b; }
	for(u32 o : xprobes) { if(base[o] != 0x0f || base[o+1] != 1 || base[o+2] != 0xd0) { fprintf(stderr, "table does not match\n"); exit(3); } base[o+1] = 0x0b; base[o+2] = 0x90; }
}

// ---- feature vectors ----------------------------------------------------------------------------------------------
struct Vec {
	u32 eax1; int chain; // 0 none 1 SSE3 2 SSSE3 3 SSE4.1 4 SSE4.2 5 AVX 6 AVX2 7 AVX512F
	int pop;    // 0 none 1 POPCNT 2 POPCNT+ABM
	bool clmul; int save; u32 xcr0; // save: 0 no XSAVE, 1 XSAVE, 2 XSAVE+OSXSAVE
	bool bmi1, bmi2, vpcl, vl, bw, vbmi2; int avx10; // 0 none, else version*2 + (512 bits ? 1 : 0)
	bool noise; // every other feature bit set
};
static std::string vecname(const Vec& v) {
	static const char* CH[] = {"SSE2","SSE3","SSSE3","SSE4.1","SSE4.2","AVX","AVX2","AVX512F"}; char b[400];
	snprintf(b, sizeof b, "CPU signature %x, up to %s%s%s%s%s%s%s%s%s%s%s, %s XCR0 %x%s", v.eax1, CH[v.chain], v.pop ? " POPCNT" : "", v.pop == 2 ? " ABM" : "", v.clmul ? " PCLMUL" : "", v.bmi1 ? " BMI1" : "", v.bmi2 ? " BMI2" : "",
		v.vpcl ? " VPCLMULQDQ" : "", v.vl ? " AVX512VL" : "", v.bw ? " AVX512BW" : "", v.vbmi2 ? " AVX512_VBMI2" : "", v.avx10 ? (v.avx10 & 1 ? " AVX10/512" : " AVX10/256") : "", v.save == 2 ? "OSXSAVE" : v.save ? "no OSXSAVE" : "no XSAVE", v.save == 2 ? v.xcr0 : 0, "");
	return b;
}
static u32 have(const Vec& v) { // features whose instructions run
	u32 m = 0;
	if(v.chain >= 1) m |= SSE3;
	if(v.chain >= 2) m |= SSSE3;
	if(v.chain >= 3) m |= SSE41;
	if(v.chain >= 4) m |= SSE42;
	if(v.pop) m |= POPCNT;
	if(v.pop == 2) m |= LZCNT;
	if(v.clmul) m |= PCLMUL;
	bool ymm = v.save == 2 && (v.xcr0 & 6) == 6, zmm = ymm && (v.xcr0 & 0xe0) == 0xe0;
	if(ymm) {
		if(v.chain >= 5) { m |= AVX; if(v.bmi1) m |= BMI1; if(v.bmi2) m |= BMI2; if(v.vpcl) m |= VPCLMUL; }
		if(v.chain >= 6) m |= AVX2;
	}
	if(zmm) {
		if(v.chain >= 7) { m |= F512 | CD | ZMM; if(v.vl) m |= VL; if(v.bw) m |= BW | DQ; if(v.vbmi2) m |= VBMI | VBMI2; }
		if(v.avx10) m |= F512 | CD | VL | BW | DQ | VBMI | VBMI2 | (v.avx10 & 1 ? ZMM : 0);
	}
	return m;
}
static void emu_cpuid(const Vec& v, u32 leaf, u32 sub, u32 r[4]) {
	r[0] = r[1] = r[2] = r[3] = 0;
	bool amd = (v.eax1 >> 8 & 15) == 15;
	switch(leaf) {
	case 0: r[0] = v.avx10 ? 0x24 : 0xd; if(amd) { r[1] = 0x68747541; r[3] = 0x69746e65; r[2] = 0x444d4163; } else { r[1] = 0x756e6547; r[3] = 0x49656e69; r[2] = 0x6c65746e; } break;
	case 1: r[0] = v.eax1; r[3] = 0x178bfbff; r[2] = (v.chain >= 1) | (v.clmul << 1) | ((v.chain >= 2) << 9) | ((v.chain >= 3) << 19) | ((v.chain >= 4) << 20) | ((v.pop > 0) << 23) | ((v.save >= 1) << 26) | ((v.save == 2) << 27) | ((v.chain >= 5) << 28); break;
	case 7: if(sub == 0) {
			r[0] = v.avx10 ? 1 : 0;
			r[1] = (v.bmi1 << 3) | ((v.chain >= 6) << 5) | (v.bmi2 << 8) | ((v.chain >= 7) << 16) | ((v.chain >= 7 && v.bw) << 17) | ((v.chain >= 7) << 28) | ((u32)v.bw << 30) | ((u32)v.vl << 31);
			r[2] = ((v.vbmi2) << 1) | (v.vbmi2 << 6) | (v.vpcl << 10);
		} else if(sub == 1) r[3] = v.avx10 ? 1 << 19 : 0;
		break;
	case 0xd: if(sub == 0 && v.save) { r[0] = v.xcr0; r[1] = r[2] = 0xa88; } break;
	case 0x24: if(v.avx10 && sub == 0) r[1] = (v.avx10 >> 1) | 1 << 16 | 1 << 17 | (v.avx10 & 1) << 18; break;
	case 0x80000000: r[0] = 0x80000008; break;
	case 0x80000001: r[2] = 1 | (v.pop == 2) << 5; r[3] = 0x2c100800; break;
	}
	if(v.noise) switch(leaf) {
	case 1: r[2] |= ~0x1c980203u; r[3] |= ~0u; break;
	case 7: if(sub == 0) { r[1] |= ~0xd0030128u; r[2] |= ~0x442u; r[3] |= ~0u; } else if(sub == 1) { r[0] |= ~0u; r[3] |= ~0x80000u; } break;
	case 0x80000001: r[2] |= ~0x20u; r[3] |= ~0u; break;
	}
}
// eax of leaf 1 (family/model), ordinary CPUs and those the project treats specially
static const u32 MODELS[] = {
	0x306a9 /*Ivy Bridge*/, 0x870f10 /*Zen 2*/,
	0x106ca, 0x20661, 0x30661, 0x30651, 0x30661, 0x30678, 0x406a8, 0x406c3, 0x406d8, 0x506a0, 0x506d0 /*Bonnell, Silvermont*/,
	0x506c9, 0x506f1, 0x706a1, 0x906c0 /*Goldmont, Tremont*/, 0x500f00, 0x500f10, 0x500f20 /*Bobcat*/,
	0x6fb /*Core 2*/, 0x10676, 0x600f12 /*Bulldozer*/, 0x700f01 /*Jaguar*/, 0xf4a /*Pentium 4*/, 0x606a6 /*Ice Lake*/, 0xa60f12 /*Zen 4*/, 0x50654 /*Skylake-X*/,
};
static const int NMODELS = sizeof MODELS / sizeof *MODELS;
static void each_vec(const std::function<void(const Vec&)>& f) {
	static const u32 XCR[] = {1, 3, 7, 0x1f, 0xe7, 0x602e7};
	for(int m = 0; m < NMODELS; m++) for(int chain = 0; chain <= 7; chain++) {
		for(int pop = 0; pop < 3; pop++) for(int cl = 0; cl < 2; cl++) for(int sv = 0; sv < 3; sv++) for(int x = 0; x < (sv == 2 ? 6 : 1); x++) {
			if(chain >= 5 && sv == 0) continue; // AVX implies XSAVE
			for(int b = 0; b < (chain >= 5 ? 8 : 1); b++) {
				if((b & 4) && !cl) continue;    // VPCLMULQDQ implies PCLMULQDQ
				for(int q = 0; q < (chain == 7 ? 8 : 1); q++) {
					if((q & 4) && !(q & 2)) continue; // VBMI2 implies BW
					for(int a = 0; a < (chain >= 6 ? 5 : 1); a++) {
						int av = a == 0 ? 0 : a + 1; // 0, 2 (10.1/256), 3 (10.1/512), 4, 5 (10.2)
						if(av && (b & 3) != 3) continue;
						if(av & 1 && !(chain == 7 && q == 7)) continue;  // AVX10/512 comes with all of AVX-512
						if(av && !(av & 1) && chain == 7) continue;      // AVX10/256: without AVX512F
						f(Vec{MODELS[m], chain, pop, (bool)cl, sv, sv == 2 ? XCR[x] : 0, (bool)(b & 1), (bool)(b & 2), (bool)(b & 4), (bool)(q & 1), (bool)(q & 2), (bool)(q & 4), av, false});
						if(m < 2 || (m & 7) == 5) f(Vec{MODELS[m], chain, pop, (bool)cl, sv, sv == 2 ? XCR[x] : 0, (bool)(b & 1), (bool)(b & 2), (bool)(b & 4), (bool)(q & 1), (bool)(q & 2), (bool)(q & 4), av, true});
					}
				}
			}
		}
	}
	// every family and model, with CPUs of every level
	for(int fam = 0; fam <= 0x1a; fam++) for(int mod = 0; mod < 256; mod++) for(int chain = 0; chain <= 7; chain++) for(int q = mod & 1; q < 8; q += 2) {
		u32 e = (u32)(mod & 15) << 4 | (u32)(mod >> 4) << 16 | (fam < 15 ? fam << 8 : 15 << 8 | (fam - 15) << 20);
		int sv = chain >= 5 && !(q & 1) ? 2 : q & 1;
		f(Vec{e, chain, chain < 4 ? 0 : q & 2 ? 2 : 1, chain >= 2 && (q & 4), sv, sv == 2 ? (q & 4 ? 0xe7u : 7u) : 0, chain >= 5, chain >= 5 && (q & 2), chain >= 6 && (q & 4), chain == 7, chain == 7, chain == 7 && (q & 2), 0, (mod ^ fam ^ q) % 2 == 1});
	}
}

// ---- traps ---------------------------------------------------------------------------------------------------------
static sigjmp_buf skip_jmp; static bool can_skip; static u32 real, want_missing; static Vec* who;
static Vec vec; static volatile u64 n_probe, n_brk; static volatile bool bad_xgetbv; static u8* bad_at;
static std::vector<u8>* orig_text;
static void on_ill(int sig, siginfo_t*, void* uc_) {
	ucontext_t* uc = (ucontext_t*)uc_; greg_t* g = uc->uc_mcontext.gregs; u8* ip = (u8*)g[REG_RIP];
	if(ip >= text_lo && ip < text_hi && ip[0] == 0x0f && ip[1] == 0x0b) {
		u32 o = ip - base;
		if(std::binary_search(probes.begin(), probes.end(), o)) {
			u32 r[4]; emu_cpuid(vec, (u32)g[REG_RAX], (u32)g[REG_RCX], r); g[REG_RAX] = r[0]; g[REG_RBX] = r[1]; g[REG_RCX] = r[2]; g[REG_RDX] = r[3]; g[REG_RIP] += 2; n_probe++; return;
		}
		if(std::binary_search(xprobes.begin(), xprobes.end(), o)) {
			n_probe++;
			if(vec.save != 2 && !bad_xgetbv) { bad_xgetbv = true; bad_at = ip; }
			g[REG_RAX] = vec.save == 2 && (u32)g[REG_RCX] == 0 ? vec.xcr0 : 0; g[REG_RDX] = 0; g[REG_RIP] += 3; return;
		}
	}
	auto it = std::lower_bound(ins.begin(), ins.end(), (u32)(ip - base), [](const Ins& a, u32 b) { return a.off < b; });
	if(can_skip && it != ins.end() && it->off == (u32)(ip - base) && (it->mask & ~real)) siglongjmp(skip_jmp, 1); // this machine lacks it
	on_fault(sig);
}
static void on_trap(int sig, siginfo_t*, void* uc_) {
	ucontext_t* uc = (ucontext_t*)uc_; greg_t* g = uc->uc_mcontext.gregs; u8* ip = (u8*)g[REG_RIP] - 1;
	if(!(ip >= text_lo && ip < text_hi)) on_fault(sig);
	u32 o = ip - base; auto it = std::lower_bound(ins.begin(), ins.end(), o, [](const Ins& a, u32 b) { return a.off < b; });
	if(it == ins.end() || it->off != o) on_fault(sig);
	if(it->mask & want_missing) {
		std::string need; for(int i = 0; i < NBITS; i++) if(it->mask & want_missing & 1u << i) { if(who) vec = who[i]; need += std::string(need.empty() ? "" : ", ") + FN[i]; }
		violation("an instruction that needs %s is executed (in %s) on a CPU without it: %s", need.c_str(), where(ip).c_str(), vecname(vec).c_str());
	}
	*ip = (*orig_text)[ip - text_lo]; g[REG_RIP] = (greg_t)ip; n_brk++; // allowed instruction, first execution: counted
}
static void arm_traps() {
	struct sigaction sa = {}; sa.sa_flags = SA_SIGINFO|SA_ONSTACK|SA_NODEFER;
	sa.sa_sigaction = on_ill; sigaction(SIGILL, &sa, 0); sa.sa_sigaction = on_trap; sigaction(SIGTRAP, &sa, 0);
}

// ---- running the library -------------------------------------------------------------------------------------------
static void restore() { for(auto& s : secs) memcpy(s.p, s.init.data(), s.n); pool_at = 0; }
static void init_all() { cur.kind = "init"; in_lib = true; encoder_init(); decoder_init(); crc32_init(); in_lib = false; n_exec += 3; }
static std::string selection() { // every word of the library's data that points into its code, and every other word that changed
	std::string s;
	for(auto& q : secs) for(size_t i = 0; i + 8 <= q.n; i += 8) {
		u64 w; memcpy(&w, q.p + i, 8); u64 w0; memcpy(&w0, &q.init[i], 8); if(w == w0) continue;
		char b[64];
		if((u8*)w >= text_lo && (u8*)w < text_hi) snprintf(b, sizeof b, "%lx:t%lx ", (long)(q.p + i - base), (long)((u8*)w - base));
		else if(from_pool((void*)w)) snprintf(b, sizeof b, "%lx:h ", (long)(q.p + i - base));
		else if((u8*)w >= base && (u8*)w < base + (64 << 20)) snprintf(b, sizeof b, "%lx:d%lx ", (long)(q.p + i - base), (long)((u8*)w - base));
		else if(w < 0x100000000ull) snprintf(b, sizeof b, "%lx:v%lx ", (long)(q.p + i - base), (long)w);
		else { u32 h = (u32)(w >> 32); snprintf(b, sizeof b, "%lx:%s ", (long)(q.p + i - base), h > 0x7000 ? "o" : "x"); }
		s += b;
	}
	return s;
}
static u32 crc_tab[256];
static u32 ref_crc(const u8* d, size_t n, u32 init) { u32 c = ~init; for(size_t i = 0; i < n; i++) c = (c >> 8) ^ crc_tab[(c ^ d[i]) & 255]; return ~c; }
static u64 workload(bool small) {
	// every kernel, over lengths, fillers and line sizes; results must agree with each other
	static u8 in[5000], enc[12000], dec[12000]; u64 h = 1; static const int LS[] = {1, 2, 3, 64, 127, 128, 129, 256};
	std::vector<size_t> lens; for(size_t n = 0; n <= (small ? 140u : 300u); n += small ? 7 : 1) lens.push_back(n);
	for(size_t n : {511, 512, 513, 1000, 1024, 2048, 4096}) lens.push_back(n);
	for(int f = 0; f < 5; f++) for(size_t n : lens) {
		u32 x = 77 + n; for(size_t i = 0; i < n; i++) { x = x * 1664525 + 1013904223; u8 r = x >> 24; in[i] = f == 0 ? r : f == 1 ? 214 : f == 2 ? 'a' : f == 3 ? (i % 7 ? 'a' : "\xd6\x13\xe3\x04\xe0\xdf\xf6"[(r >> 2) % 7]) : (r & 1 ? 214 : 'b'); }
		cur.in = in; cur.len = n; cur.p[0] = f;
		for(int ls : LS) { if(small && ls != 128 && ls != 64) continue; if(n == 0 || (n > 600 && ls != 128)) continue;
			cur.kind = "encode"; cur.p[1] = ls; int col = 0; size_t e = encode(ls, &col, in, enc, n, 1); n_exec++; h = fnv(enc, e, h);
			for(int raw = 0; raw < 2; raw++) { cur.kind = "decode"; YencDecoderState st = YDEC_STATE_CRLF; size_t d = decode(raw, enc, dec, e, &st); n_exec++;
				if(!raw && (d != n || memcmp(dec, in, n))) violation("decoding the encoder's output does not return the input (length %zu, line size %d): %s", n, ls, vecname(vec).c_str()); h = fnv(dec, d, h); }
			cur.kind = "decode_end"; YencDecoderState st = YDEC_STATE_CRLF; const void* s = enc; void* d = dec; memcpy(enc + e, "\r\n=y", 4); YencDecoderEnd r = decode_end(&s, &d, e + 4, &st); n_exec++;
			if(r != YDEC_END_CONTROL || (u8*)s != enc + e + 4) violation("decoding to the end marker stops elsewhere (length %zu, line size %d): %s", n, ls, vecname(vec).c_str()); h = fnv(dec, (u8*)d - dec, h);
		}
		cur.kind = "decode"; for(int raw = 0; raw < 2; raw++) { memcpy(enc, in, n); if(f == 3) for(size_t i = 0; i < n; i++) if(in[i] != 'a') enc[i] = "\r\n.=y\r\n"[i % 7]; YencDecoderState st = YDEC_STATE_NONE; size_t d = decode(raw, enc, dec, n, &st); n_exec++; h = fnv(dec, d, h); 
			st = YDEC_STATE_CRLF; const void* s = enc; void* dd = dec; decode_end(&s, &dd, n, &st); n_exec++; h = fnv(dec, (u8*)dd - dec, h); }
		cur.kind = "crc"; for(u32 i0 : {0u, 0xdeadbeefu}) { u32 c = crc32(in, n, i0); n_exec++; if(c != ref_crc(in, n, i0)) violation("crc32 of %zu bytes is wrong: %s", n, vecname(vec).c_str()); h = h * 31 + c; }
	}
	cur.kind = "crc arithmetic"; for(u32 a = 1; a; a <<= 3) for(u32 b = 1; b; b <<= 1) { u32 m = crc32_multiply(a, b), m2 = crc32_multiply(b, a); if(m != m2) violation("crc32_multiply is not commutative: %s", vecname(vec).c_str()); h = h * 31 + m; h = h * 31 + crc32_shift(a, b - 1); n_exec += 3; }
	cur.kind = "idle"; return h;
}
static u32 real_have() { // what this machine can run
	__builtin_cpu_init(); u32 m = 0;
#define T(n, b) if(__builtin_cpu_supports(n)) m |= b;
	T("sse3", SSE3) T("ssse3", SSSE3) T("sse4.1", SSE41) T("sse4.2", SSE42) T("popcnt", POPCNT) T("lzcnt", LZCNT) T("pclmul", PCLMUL) T("avx", AVX) T("avx2", AVX2) T("bmi", BMI1) T("bmi2", BMI2) T("vpclmulqdq", VPCLMUL)
	T("avx512f", F512|ZMM) T("avx512vl", VL) T("avx512bw", BW) T("avx512dq", DQ) T("avx512vbmi", VBMI) T("avx512vbmi2", VBMI2) T("avx512cd", CD)
	return m | OTHER;
}

// ---- vector of the CPU this runs on, for the conformance runs ---------------------------------------------------------
static Vec host_vec() {
	u32 a, b, c, d; Vec v = {}; __cpuid(1, a, b, c, d); v.eax1 = a;
	u32 b7 = 0, c7 = 0, d71 = 0, x, y; u32 mx = __get_cpuid_max(0, 0); if(mx >= 7) { __cpuid_count(7, 0, a, b7, c7, d); u32 sub = a; if(sub >= 1) __cpuid_count(7, 1, a, x, y, d71); }
	v.chain = !(c & 1) ? 0 : !(c & 1 << 9) ? 1 : !(c & 1 << 19) ? 2 : !(c & 1 << 20) ? 3 : !(c & 1 << 28) ? 4 : !(b7 & 32) ? 5 : !(b7 & 1 << 16) ? 6 : 7;
	u32 c1x; __cpuid(0x80000001, a, b, c1x, d); v.pop = c1x & 32 ? 2 : c & 1 << 23 ? 1 : 0;
	v.clmul = c >> 1 & 1; v.save = c & 1 << 27 ? 2 : c & 1 << 26 ? 1 : 0; if(v.save == 2) { u32 lo, hi; __asm__ volatile("xgetbv" : "=a"(lo), "=d"(hi) : "c"(0)); v.xcr0 = lo; }
	v.bmi1 = b7 >> 3 & 1; v.bmi2 = b7 >> 8 & 1; v.vpcl = c7 >> 10 & 1; v.bw = b7 >> 30 & 1; v.vl = b7 >> 31; v.vbmi2 = c7 >> 6 & 1;
	if(d71 & 1 << 19) { __cpuid_count(0x24, 0, a, b, c, d); v.avx10 = (b & 0xff) * 2 + (b >> 18 & 1); }
	return v;
}
static void on_host_fault(int sig, siginfo_t*, void* uc_) {
	u8* ip = (u8*)((ucontext_t*)uc_)->uc_mcontext.gregs[REG_RIP];
	if(ip >= text_lo && ip < text_hi) { char b[400]; int n = snprintf(b, sizeof b, "FAULT signal %d in %s\n", sig, where(ip).c_str()); if(write(1, b, n)) {} _exit(1); }
	signal(sig, SIG_DFL);
}
static int host_run() { // prints selection with the real CPUID, selection with the emulated one, and a digest of the workload
	struct sigaction sa = {}; sa.sa_flags = SA_SIGINFO; sa.sa_sigaction = on_host_fault; for(int g : {SIGILL, SIGSEGV, SIGBUS, SIGFPE}) sigaction(g, &sa, 0);
	restore(); init_all(); std::string a = selection(); in_lib = true; u64 h = workload(true); in_lib = false;
	printf("REAL %s\n", a.c_str()); printf("DIGEST %llx\n", (unsigned long long)h); fflush(stdout);
	vec = host_vec(); text_writable(); patch_probes(); arm_traps();
	restore(); init_all(); printf("EMUL %s\nVEC %s\n", selection().c_str(), vecname(vec).c_str()); fflush(stdout);
	return 0;
}

int main(int argc, char** argv) {
	parse_args(argc, argv);
	for(u32 i = 0; i < 256; i++) { u32 c = i; for(int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; crc_tab[i] = c; }
	load_table(opt.str("table").c_str());
	pool = (u8*)mmap(0, POOL, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	std::sort(ins.begin(), ins.end(), [](const Ins& a, const Ins& b) { return a.off < b.off; }); std::sort(probes.begin(), probes.end()); std::sort(xprobes.begin(), xprobes.end());
	if(opt.has("host")) return host_run();
	text_writable(); patch_probes();
	std::vector<u8> text(text_lo, text_hi); orig_text = &text;
	real = real_have(); level_setup = [](int) {};
	auto body = [&](const Task& t) {
		arm_traps();
		struct Sel { u32 missing = 0; Vec v; Vec who[NBITS]; };
		std::map<std::string, Sel> sels; u64 idx = 0, nv = 0;
		auto poison = [&](u32 missing, u32 mark) { memcpy(text_lo, text.data(), text.size()); want_missing = missing; for(auto& i : ins) if(i.mask & (missing | mark)) base[i.off] = 0xcc; };
		// pass 1: what each CPU selects. Initialisation itself runs with the instructions it lacks poisoned
		u32 poisoned_for = ~0u; u64 late = 0;
		auto visit = [&](const Vec& v, bool calls) {
			vec = v; u32 miss = ~have(v) & ((1u << NBITS) - 1);
			if(miss != poisoned_for) { poison(miss, 0); poisoned_for = miss; }
			restore(); bad_xgetbv = false; init_all(); n_states++; nv++;
			if(calls && !sigsetjmp(skip_jmp, 1)) { can_skip = true; in_lib = true; workload(true); } can_skip = false; in_lib = false;
			if(bad_xgetbv) violation("XGETBV is executed (in %s) although the OS has not enabled it: %s", where(bad_at).c_str(), vecname(v).c_str());
			if(calls) return;
			auto& e = sels[selection()]; if(!e.missing) e.v = v;
			for(int i = 0; i < NBITS; i++) if(miss & ~e.missing & 1u << i) e.who[i] = v;
			e.missing |= miss;
		};
		each_vec([&](const Vec& v) { if((int)(idx++ % t.nshards) == t.shard && !out_of_time()) visit(v, false); });
		// pass 2: run everything each selection can reach, with every instruction that some CPU making this selection
		// lacks turned into a breakpoint
		for(auto& k : sels) { Sel& e = k.second;
			vec = e.v; poison(0, 0); restore(); init_all(); who = e.who;
			poison(e.missing, (1u << NBITS) - 1); u64 b0 = n_brk, p0 = n_probe;
			if(!sigsetjmp(skip_jmp, 1)) { can_skip = true; in_lib = true; workload(false); } else count("selections with kernels this machine cannot run");
			can_skip = false; in_lib = false; n_trans++; who = 0;
			count("extension instructions executed under watch", n_brk - b0); late += n_probe - p0;
			outcome(fnv((const u8*)k.first.data(), k.first.size()));
		}
		// should calls probe the CPU again, the selection does not decide what they do: then every vector runs the kernels
		if(late) { idx = 0; poisoned_for = ~0u; each_vec([&](const Vec& v) { if((int)(idx++ % t.nshards) == t.shard && !out_of_time()) visit(v, true); }); }
		if(samples.empty()) for(auto& k : sels) sample("%s -> %zu words of state set", vecname(k.second.v).c_str(), (size_t)std::count(k.first.begin(), k.first.end(), ':'));
		count("CPU feature vectors", nv); count("selections (per process)", sels.size()); if(late) count("probes after initialisation", late);
		cur.kind = "idle"; memcpy(text_lo, text.data(), text.size());
	};
	if(!opt.replay.empty()) { Task t{0, 0, 1}; cur.level = 0; arm(); report_fd = 1; body(t); printf("no violation\n"); return 0; }
	return explore({0}, opt.jobs * 3, body);
}
