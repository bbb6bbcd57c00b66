// Stands in for the project's kernels in an explorer: passes every call on to an executor (bare/exec.cc) that runs them on another processor.
// Buffers of the explorer (Arena) live in memory both share; anything else is copied, keeping its alignment and ending at an inaccessible page.
#include <errno.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdint.h>
#include <string>
#include <vector>
#include "common.h"
#include "encoder.h"
#include "decoder.h"
#include "crc.h"
#include "rpc.h"
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;

struct VfLevel { const char* name; int isa; int crc; };
struct How { std::vector<std::string> cmd; unsigned long a, b; int init; };
static How* how;
extern "C" { VfLevel vf_levels[65]; int vf_isa, vf_crc; void (*vf_probe_hook)(int); }
void (*vf_rpc_dead)(const char*); // reports the executor's death

static const size_t SIZE = 24u << 20, PG = 4096, SCRATCH = 2u << 20;
static u8 *base, *next_arena; static volatile Ctl* ctl; static size_t gap[64]; static unsigned ngaps; static u8 *scratch_end[2]; static pid_t kid;
__attribute__((constructor)) static void setup() {
	const char* t = getenv("VF_RPC"); int n = 0; how = new How[64];
	while(t && *t && n < 64) { // name|command|word|word|init
		const char* e = strchr(t, '\n'); std::string l(t, e ? e - t : strlen(t)); t = e ? e + 1 : 0;
		std::vector<std::string> f; size_t p = 0; for(;;) { size_t q = l.find('|', p); f.push_back(l.substr(p, q - p)); if(q == std::string::npos) break; p = q + 1; }
		if(f.size() != 5) continue;
		vf_levels[n].name = strdup(f[0].c_str()); how[n].a = strtoul(f[2].c_str(), 0, 10); how[n].b = strtoul(f[3].c_str(), 0, 10); how[n].init = atoi(f[4].c_str());
		for(p = 0;;) { size_t q = f[1].find(' ', p); how[n].cmd.push_back(f[1].substr(p, q - p)); if(q == std::string::npos) break; p = q + 1; }
		n++;
	}
	base = (u8*)mmap(0, SIZE, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); if(base == MAP_FAILED) { perror("mmap"); _exit(3); }
	next_arena = base + PG; ctl = (Ctl*)base;
}
// [inaccessible][size][inaccessible]
u8* vf_rpc_arena(size_t size) {
	if(next_arena + size + 2*PG > base + SIZE || ngaps + 2 > 64) { fprintf(stderr, "rpc: out of shared memory\n"); _exit(3); }
	gap[ngaps++] = next_arena - base; u8* p = next_arena + PG; next_arena = p + size; gap[ngaps++] = next_arena - base; next_arena += PG;
	return p;
}
static void dead() {
	int ws; char b[100]; if(waitpid(kid, &ws, 0) != kid) return;
	if(WIFSIGNALED(ws)) snprintf(b, sizeof b, "the kernel died from signal %d (%s)", WTERMSIG(ws), strsignal(WTERMSIG(ws)));
	else snprintf(b, sizeof b, "the executor ended with status %d", WEXITSTATUS(ws));
	kid = 0;
	if(WIFEXITED(ws) && WEXITSTATUS(ws) == 3) { fprintf(stderr, "rpc: %s\n", b); _exit(3); } // trouble of its own
	if(vf_rpc_dead) vf_rpc_dead(b);
	fprintf(stderr, "rpc: %s\n", b); _exit(3);
}
static u32 wait_done(u32 seq) {
	for(u64 n = 0; ctl->done != seq; n++) {
		__builtin_ia32_pause();
		if(n > 60) { sched_yield(); if(n % 512 == 0) { siginfo_t si; si.si_pid = 0; if(!waitid(P_PID, kid, &si, WEXITED|WNOHANG|WNOWAIT) && si.si_pid == kid) dead(); } }
	}
	__sync_synchronize(); return seq;
}
// a new executor for this process
void vf_rpc_start(int level) {
	if(kid) { kill(kid, SIGKILL); waitpid(kid, 0, 0); kid = 0; }
	static bool first = true;
	if(first) for(auto& s : scratch_end) s = vf_rpc_arena(SCRATCH) + SCRATCH;
	first = false;
	int fd = memfd_create("vf", 0); if(fd < 0 || ftruncate(fd, SIZE)) { perror("memfd"); _exit(3); }
	std::vector<u8> keep; // what the explorer has put there already
	keep.assign(base, base + PG);
	if(mmap(base, SIZE, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_FIXED, fd, 0) != base) { perror("mmap"); _exit(3); }
	memset((void*)ctl, 0, PG); ctl->nguards = ngaps; ctl->req = 1;
	for(unsigned i = 0; i < ngaps; i++) { ctl->guard[i] = gap[i]; if(mprotect(base + gap[i], PG, PROT_NONE)) { perror("mprotect"); _exit(3); } }
	How& h = how[level]; std::vector<std::string> a = h.cmd;
	for(unsigned long v : {(unsigned long)fd, (unsigned long)SIZE, h.a, h.b, (unsigned long)h.init}) a.push_back(std::to_string(v));
	std::vector<char*> av; for(auto& s : a) av.push_back((char*)s.c_str()); av.push_back(0);
	pid_t me = getpid(); kid = fork();
	if(kid < 0) { perror("fork"); _exit(3); }
	if(!kid) { prctl(PR_SET_PDEATHSIG, SIGKILL); if(getppid() != me) _exit(3); sigset_t s; sigemptyset(&s); sigprocmask(SIG_SETMASK, &s, 0); for(int i = 1; i < 32; i++) signal(i, SIG_DFL); int nul = open("/dev/null", O_RDONLY); dup2(nul, 0); execvp(av[0], av.data()); perror(av[0]); _exit(3); }
	close(fd); wait_done(1);
	static bool told = false; if(!told && getenv("VF_RPC_SAY")) { told = true; fprintf(stderr, "%s: decoder %x encoder %x crc %x\n", vf_levels[level].name, ctl->isa[0], ctl->isa[1], ctl->isa[2]); }
}
void vf_rpc_isa(u32* o) { for(int i = 0; i < 3; i++) o[i] = ctl->isa[i]; }
void vf_rpc_stop() { if(kid) { kill(kid, SIGKILL); waitpid(kid, 0, 0); kid = 0; } }

static u64 call(u32 op, const u64* a, int n, u64* r = 0) {
	for(int i = 0; i < n; i++) ctl->a[i] = a[i];
	u32 seq = ctl->req + 1; ctl->op = op; __sync_synchronize(); ctl->req = seq; wait_done(seq);
	if(r) for(int i = 0; i < 4; i++) r[i] = ctl->r[i];
	return ctl->r[0];
}
static bool shared(const void* p) { return (u8*)p >= base + PG && (u8*)p < base + SIZE; }
struct Lent { // a buffer the executor can see
	void* orig; u8* p; size_t n; bool own, back;
	Lent(const void* q, size_t len, int slot, bool in, bool out) : orig((void*)q), n(len), own(!shared(q)), back(out) {
		if(!own) { p = (u8*)q; return; }
		if(len > SCRATCH - PG) { fprintf(stderr, "rpc: buffer too large\n"); _exit(3); }
		p = scratch_end[slot] - len; p -= ((uintptr_t)p - (uintptr_t)q) & 63; // same alignment
		if(in) memcpy(p, q, len);
	}
	u64 off() const { return p - base; }
	void done(size_t len) { if(own && back) memcpy(orig, p, len); }
};
using namespace RapidYenc;
static YencDecoderEnd dec(int raw, const unsigned char** src, unsigned char** dest, size_t len, YencDecoderState* st) {
	Lent s(*src, len, 0, true, false), d(*dest, len, 1, false, true); u64 r[4];
	u64 a[] = {s.off(), d.off(), len, st ? (u64)*st : 0, (u64)raw, (u64)!!st}; call(OP_DECODE, a, 6, r);
	if(st) *st = (YencDecoderState)r[1]; d.done(r[0]); *dest += r[0]; *src += len; return YDEC_END_NONE;
}
static YencDecoderEnd dec0(const unsigned char** s, unsigned char** d, size_t n, YencDecoderState* st) { return dec(0, s, d, n, st); }
static YencDecoderEnd dec1(const unsigned char** s, unsigned char** d, size_t n, YencDecoderState* st) { return dec(1, s, d, n, st); }
static YencDecoderEnd dec2(const unsigned char** src, unsigned char** dest, size_t len, YencDecoderState* st) {
	Lent s(*src, len, 0, true, false), d(*dest, len, 1, false, true); u64 r[4];
	u64 a[] = {s.off(), d.off(), len, (u64)*st}; call(OP_DECODE_END, a, 4, r);
	*st = (YencDecoderState)r[1]; size_t w = r[3] - d.off(); d.done(w <= len ? w : len); *src += r[2] - s.off(); *dest += w; return (YencDecoderEnd)r[0];
}
static size_t enc(int ls, int* col, const unsigned char* src, unsigned char* dest, size_t len, int end) {
	Lent s(src, len, 0, true, false), d(dest, len * 2 + 2 * (len * 2 / (ls > 0 ? ls : 128) + 2) + 4, 1, false, true); u64 r[4];
	u64 a[] = {s.off(), d.off(), len, (u64)(int64_t)*col, (u64)(int64_t)ls, (u64)end}; call(OP_ENCODE, a, 6, r);
	*col = (int)(int64_t)r[1]; d.done(r[0]); return r[0];
}
static u32 crc(const void* p, size_t len, u32 init) { Lent s(p, len, 0, true, false); u64 a[] = {s.off(), 0, len, init}; return (u32)call(OP_CRC, a, 4); }
static u32 shift(u32 x, u32 y) { u64 a[] = {x, y}; return (u32)call(OP_SHIFT, a, 2); }
static u32 mul(u32 x, u32 y) { u64 a[] = {x, y}; return (u32)call(OP_MUL, a, 2); }
namespace RapidYenc {
YencDecoderEnd (*_do_decode)(const unsigned char**, unsigned char**, size_t, YencDecoderState*) = dec0;
YencDecoderEnd (*_do_decode_raw)(const unsigned char**, unsigned char**, size_t, YencDecoderState*) = dec1;
YencDecoderEnd (*_do_decode_end_raw)(const unsigned char**, unsigned char**, size_t, YencDecoderState*) = dec2;
size_t (*_do_encode)(int, int*, const unsigned char* HEDLEY_RESTRICT, unsigned char* HEDLEY_RESTRICT, size_t, int) = enc;
crc_func _do_crc32_incremental = crc; crc_mul_func _crc32_shift = shift, _crc32_multiply = mul;
int _decode_isa, _encode_isa, _crc32_isa;
void encoder_init() {} void decoder_init() {} void crc32_init() {}
u32 vf_combine(u32 x, u32 y, u64 n) { u64 a[] = {x, y, n}; return (u32)call(OP_COMBINE, a, 3); }
u32 vf_zeros(u32 x, u64 n) { u64 a[] = {x, n}; return (u32)call(OP_ZEROS, a, 2); }
u32 vf_unzero(u32 x, u64 n) { u64 a[] = {x, n}; return (u32)call(OP_UNZERO, a, 2); }
u32 vf_2pow(int64_t n) { u64 a[] = {(u64)n}; return (u32)call(OP_2POW, a, 1); }
u32 vf_256pow(u64 n) { u64 a[] = {n}; return (u32)call(OP_256POW, a, 1); }
}
