// Controlled scheduler for two threads inside the addon (a Node addon and, at the same time, the library the monitored addon is linked to).
// All memory the addon's threads could share - its .data/.bss and everything it allocates - is kept inaccessible; every access faults, is
// recorded (and may be a context switch), and is then single-stepped with the page open. JavaScript (plans/threads.js) enumerates schedules.
#include <node.h>
#include <node_api.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <link.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <atomic>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace {
const size_t PG = 4096, REGION = (size_t)64 << 30, MAXLOG = 1 << 20;
const unsigned OWNCAP = 64;
[[noreturn]] void die(const char* what, const void* p = 0) { char b[200]; int n = snprintf(b, sizeof b, "vfmon: %s %p\n", what, p); if(write(2, b, n)) {} abort(); }

struct Lock { std::atomic_flag f = ATOMIC_FLAG_INIT; void lock() { while(f.test_and_set(std::memory_order_acquire)) usleep(20); } void unlock() { f.clear(std::memory_order_release); } } mu;
struct Guard { Guard() { mu.lock(); } ~Guard() { mu.unlock(); } };

// ---- memory
enum { LIVE, DEAD, GIVEN };
struct Blk { uint8_t* p; size_t n, room; int st, owner; unsigned seq; unsigned hits; bool open, dirty, hot; std::vector<uint8_t>* saved; };
// what a block that stays closed allows: a table made while loading that nothing was ever seen to write to may be read unobserved
int shut(const Blk& b) { return b.st == GIVEN ? PROT_READ|PROT_WRITE : b.st == LIVE && b.saved && !b.hot ? PROT_READ : PROT_NONE; }
unsigned hotter = 0;
uint8_t *reg = 0, *top = 0;
std::vector<Blk>& blks() { static auto* v = new std::vector<Blk>; return *v; }
Blk* find(const void* a) {
	auto& v = blks(); size_t lo = 0, hi = v.size();
	while(lo < hi) { size_t m = (lo + hi) / 2; if(v[m].p <= (uint8_t*)a) lo = m + 1; else hi = m; }
	if(!lo) return 0; Blk& b = v[lo-1];
	return (uint8_t*)a < b.p + b.room ? &b : 0;
}
uint8_t *dlo = 0, *dhi = 0; // the addon's writable data
std::vector<uint8_t> image[2]; size_t nblk[2];
bool in_region(const void* a) { return reg && a >= reg && a < reg + REGION; }
bool in_data(const void* a) { return dlo && a >= dlo && a < dhi; }

// ---- threads and schedules
struct Rec { uint64_t key; uint32_t off; uint8_t w, cap; };
struct Thr { bool in; unsigned points, seq; int cut; bool finished; pid_t tid; std::vector<Rec> log; uint8_t* open[8]; int nopen; struct { uint64_t rip; unsigned n; } at[4096]; unsigned used; bool again(uint64_t rip, unsigned lim) { for(unsigned h = (rip * 0x9E3779B97F4A7C15ull) >> 52;; h = (h + 1) & 4095) { if(!at[h].rip) { if(used > 4000) return false; used++; at[h].rip = rip; } if(at[h].rip == rip) return at[h].n++ < lim; } } };
Thr thr[2];
thread_local int me = -1; thread_local bool stepping = false;
std::atomic<int> turn{-1}, posted{-1}, ready{0};
std::atomic<bool> freerun{false}; bool blockedOnce = false; int pointmode = 0; // 0: no switches, 1: accesses in the conflict set, 2: also all of .data/.bss
unsigned perSite = 2, switches = 0, accesses = 0;
std::unordered_set<uint64_t>& conf() { static auto* s = new std::unordered_set<uint64_t>; return *s; }
std::string report;

void fwait(std::atomic<int>& a, int old, int ms) { timespec t{ms/1000, ms ? (ms%1000)*1000000L : 300000L}; syscall(SYS_futex, (int*)&a, FUTEX_WAIT_PRIVATE, old, &t, 0, 0); }
void fset(std::atomic<int>& a, int v) { a.store(v); syscall(SYS_futex, (int*)&a, FUTEX_WAKE_PRIVATE, 100, 0, 0, 0); }
bool sleeping(pid_t tid) {
	char p[64], b[512]; snprintf(p, sizeof p, "/proc/self/task/%d/stat", (int)tid);
	FILE* f = fopen(p, "r"); if(!f) return false; size_t n = fread(b, 1, sizeof b - 1, f); fclose(f); b[n] = 0;
	char* q = strrchr(b, ')'); return q && q[1] == ' ' && q[2] == 'S';
}
// waits for the turn; when the other thread is blocked (on a lock held by this one), both run on
void await(int t) {
	int quiet = 0;
	for(;;) {
		int v = turn.load(); if(v == t || freerun) return;
		fwait(turn, v, quiet ? 0 : 1);
		if(turn.load() == v && v == !t && thr[!t].tid && ready.load() == 3 && !thr[!t].finished) { if(sleeping(thr[!t].tid)) { if(++quiet > 10) { freerun = true; blockedOnce = true; return; } } else quiet = 0; }
	}
}
void pass(int t) { fset(turn, t); }

// pages that lie under a call into the kernel (futexes of locks): they stay open as long as it lasts
struct Win { uint8_t* page; int n; }; Win wins[16];
bool windowed(uint8_t* page) { for(auto& w : wins) if(w.n && w.page == page) return true; return false; }
void protect(void* p, size_t n, int pr) {
	if(pr == PROT_NONE) for(auto& w : wins) if(w.n && w.page >= (uint8_t*)p && w.page < (uint8_t*)p + n) { // around them
		if(w.page > (uint8_t*)p) protect(p, w.page - (uint8_t*)p, pr);
		if(w.page + PG < (uint8_t*)p + n) protect(w.page + PG, (uint8_t*)p + n - w.page - PG, pr);
		return;
	} if(mprotect(p, n, pr)) die("mprotect", p); }
void close_all() { for(auto& b : blks()) if(b.open) { protect(b.p, b.room, shut(b)); b.open = false; b.hits = 0; } }

void seen(uint8_t* a, uint64_t key, uint32_t off, bool w, bool capped, uint64_t rip) { // an access: recorded, and possibly a context switch
	if(me >= 0 && thr[me].in) {
		Thr& t = thr[me];
		if(!stepping && pointmode && !freerun) {
			bool pt = pointmode == 2 && !key;
			for(int d = -1; d < 2 && !pt; d++) pt = conf().count(key << 26 | (uint32_t)((off >> 6) + d + 1));
			if(!pt && key) pt = conf().count(key << 26 | 0x3ffffff);
			if(pt && t.again(rip, perSite)) {
				int k = t.points++;
				if(k == t.cut) {
					switches++; { Guard g; close_all(); }
					if(!thr[!me].finished) { pass(!me); await(me); }
					{ Guard g; Blk* b = in_region(a) ? find(a) : 0; if(b && b->st == DEAD) die("access to freed memory", a); }
				}
			}
		}
		accesses++;
		if(t.log.size() < MAXLOG) t.log.push_back({key, off, w, capped});
	}
}
struct sigaction oldsegv, oldtrap;
void on_segv(int sig, siginfo_t* si, void* ctx) {
	ucontext_t* u = (ucontext_t*)ctx; uint8_t* a = (uint8_t*)si->si_addr;
	bool w = u->uc_mcontext.gregs[REG_ERR] & 2;
	if(!in_region(a) && !in_data(a)) {
		signal(SIGSEGV, SIG_DFL); return; // a genuine crash: happens again
	}
	uint64_t key; uint32_t off; bool capped = false;
	uint8_t* page = (uint8_t*)((uintptr_t)a & ~(PG-1));
	{
		Guard g;
		if(in_region(a)) {
			Blk* b = find(a); if(!b) die("access outside any block", a);
			if(b->st == DEAD) die("access to freed memory", a);
			if(b->st == GIVEN) { protect(b->p, b->room, PROT_READ|PROT_WRITE); return; }
			key = 1 + b->owner + 1 + 4 * (uint64_t)b->seq; off = a - b->p; if(w || b->owner == me || me < 0 || !thr[me].in) b->dirty = true; if(w && b->saved && !b->hot) { b->hot = true; hotter++; }
			if(me >= 0 && thr[me].in && b->owner == me && ++b->hits > OWNCAP) { capped = true; b->open = true; }
			else if(me < 0 || !thr[me].in) { b->open = true; protect(b->p, b->room, PROT_READ|PROT_WRITE); return; } // nobody observes this thread: closed again by begin()
			if(b->open) protect(b->p, b->room, PROT_READ|PROT_WRITE);
		} else { key = 0; off = a - dlo; }
	}
	seen(a, key, off, w, capped, u->uc_mcontext.gregs[REG_RIP]);
	if(capped) { Guard g; Blk* b = find(a); if(b) { protect(b->p, b->room, PROT_READ|PROT_WRITE); b->open = true; } return; }
	protect(page, PG, PROT_READ|PROT_WRITE);
	int i = me < 0 ? 0 : me; Thr& t = thr[i]; bool have = false;
	for(int k = 0; k < t.nopen; k++) have |= t.open[k] == page;
	if(!have && t.nopen < 8) t.open[t.nopen++] = page;
	stepping = true; u->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
void on_trap(int, siginfo_t*, void* ctx) {
	ucontext_t* u = (ucontext_t*)ctx;
	if(!stepping) { signal(SIGTRAP, SIG_DFL); return; }
	u->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; stepping = false;
	Thr& t = thr[me < 0 ? 0 : me];
	for(int k = 0; k < t.nopen; k++) {
		Guard g; Blk* b = in_region(t.open[k]) ? find(t.open[k]) : 0;
		if(!b) protect(t.open[k], PG, PROT_NONE); else if(!b->open) protect(t.open[k], PG, shut(*b));
	}
	t.nopen = 0;
}
void install() {
	static bool done = false; if(done) return; done = true;
	struct sigaction s; memset(&s, 0, sizeof s); s.sa_flags = SA_SIGINFO | SA_NODEFER; sigemptyset(&s.sa_mask);
	s.sa_sigaction = on_segv; sigaction(SIGSEGV, &s, &oldsegv);
	s.sa_sigaction = on_trap; sigaction(SIGTRAP, &s, &oldtrap);
	reg = (uint8_t*)mmap(0, REGION, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); if(reg == MAP_FAILED) die("mmap");
	top = reg + PG;
}
void take(int k) { // remembers data and live blocks
	Guard g; close_all();
	protect(dlo, dhi - dlo, PROT_READ|PROT_WRITE); image[k].assign(dlo, dhi); protect(dlo, dhi - dlo, PROT_NONE);
	for(auto& b : blks()) if(b.st == LIVE) { b.owner = -1; b.seq = &b - &blks()[0]; b.dirty = false; if(!b.saved) b.saved = new std::vector<uint8_t>; protect(b.p, b.room, PROT_READ|PROT_WRITE); b.saved->assign(b.p, b.p + b.n); protect(b.p, b.room, shut(b)); }
	nblk[k] = blks().size();
}
void retire(Blk& b) { madvise(b.p, b.room, MADV_DONTNEED); protect(b.p, b.room, PROT_NONE); b.st = DEAD; b.open = false; }
void put(int k) {
	Guard g; close_all(); auto& v = blks();
	protect(dlo, dhi - dlo, PROT_READ|PROT_WRITE); memcpy(dlo, image[k].data(), image[k].size()); protect(dlo, dhi - dlo, PROT_NONE);
	for(size_t i = 0; i < v.size(); i++) { Blk& b = v[i];
		if(i < nblk[k]) { if(b.saved && b.st != GIVEN && (b.dirty || b.st == DEAD || k == 0)) { b.dirty = false; b.st = LIVE; b.n = b.saved->size(); protect(b.p, b.room, PROT_READ|PROT_WRITE); memcpy(b.p, b.saved->data(), b.n); protect(b.p, b.room, shut(b)); } }
		else if(b.st == LIVE && !b.saved) retire(b); }
	size_t o = nblk[k]; for(size_t i = o; i < v.size(); i++) if(v[i].st != DEAD || v[i].saved) v[o++] = v[i]; // forgotten: any access to them is an error
	v.resize(o);
	thr[0].seq = thr[1].seq = 0;
}
int find_data(dl_phdr_info* i, size_t, void* arg) {
	bool mine = false; uintptr_t a = (uintptr_t)arg, wlo = 0, whi = 0, rhi = 0;
	for(int k = 0; k < i->dlpi_phnum; k++) { auto& h = i->dlpi_phdr[k]; uintptr_t lo = i->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
		if(h.p_type == PT_LOAD && a >= lo && a < hi) mine = true;
		if(h.p_type == PT_LOAD && (h.p_flags & PF_W)) { wlo = lo; whi = hi; }
		if(h.p_type == PT_GNU_RELRO) rhi = hi; }
	if(!mine) return 0;
	if(rhi > wlo) wlo = rhi;
	dlo = (uint8_t*)(wlo & ~(PG-1)); dhi = (uint8_t*)((whi + PG - 1) & ~(PG-1));
	if((uintptr_t)dlo < (rhi & ~(PG-1))) die("data shares a page with relocated data");
	return 1;
}
void* get(size_t n) {
	Guard g; install();
	size_t room = (n + PG - 1) & ~(PG-1); if(!room) room = PG;
	if(top + room + PG > reg + REGION) die("region exhausted");
	uint8_t* p = top; top += room + PG;
	int o = me >= 0 && thr[me].in ? me : -1;
	blks().push_back({p, n, room, LIVE, o, o >= 0 ? thr[o].seq++ : (unsigned)blks().size() - 1, 0, false, false, false, 0});
	if(o < 0) { blks().back().open = true; protect(p, room, PROT_READ|PROT_WRITE); }
	return p;
}
}
extern "C" {
#define X __attribute__((visibility("default")))
// a synchronisation primitive at p is about to be / has been operated on
X void vfm_enter(void* p) {
	uint8_t* a = (uint8_t*)p; uint64_t key = 0; uint32_t off = 0;
	if(!in_region(a) && !in_data(a)) return;
	{ Guard g; if(in_region(a)) { Blk* b = find(a); if(!b || b->st == DEAD) die("use of a lock in freed memory", a); key = 1 + b->owner + 1 + 4 * (uint64_t)b->seq; off = a - b->p; b->dirty = true; if(b->saved && !b->hot) { b->hot = true; hotter++; } } else off = a - dlo; }
	seen(a, key, off, true, false, (uint64_t)__builtin_return_address(0));
	Guard g; uint8_t* page = (uint8_t*)((uintptr_t)a & ~(PG-1));
	for(auto& w : wins) if(w.n && w.page == page) { w.n++; return; }
	for(auto& w : wins) if(!w.n) { w.page = page; w.n = 1; protect(page, PG, PROT_READ|PROT_WRITE); return; }
	die("too many locks");
}
X void vfm_leave(void* p) {
	uint8_t* a = (uint8_t*)p; if(!in_region(a) && !in_data(a)) return;
	Guard g; uint8_t* page = (uint8_t*)((uintptr_t)a & ~(PG-1));
	for(auto& w : wins) if(w.n && w.page == page) { if(!--w.n) { Blk* b = in_region(a) ? find(a) : 0; if(!b || !b->open) protect(page, PG, b ? shut(*b) : PROT_NONE); } return; }
}
X void* vfm_malloc(size_t n) { return get(n); }
X void vfm_free(void* p) { if(!p) return; if(!in_region(p)) { free(p); return; } Guard g; Blk* b = find(p); if(!b || b->p != p || b->st == DEAD) die("free of memory that is not allocated", p); retire(*b); }
X void* vfm_realloc(void* p, size_t n) {
	if(!p) return get(n);
	if(!in_region(p)) return realloc(p, n);
	{ Guard g; Blk* b = find(p); if(!b || b->p != p || b->st == DEAD) die("realloc of memory that is not allocated", p); if(!n) { retire(*b); return 0; } if(n <= b->room) { b->n = n; return p; } }
	void* q = get(n); Guard g; Blk *b = find(p), *c = find(q);
	protect(b->p, b->room, PROT_READ|PROT_WRITE); protect(c->p, c->room, PROT_READ|PROT_WRITE); memcpy(q, p, b->n < n ? b->n : n); if(!c->open) protect(c->p, c->room, shut(*c));
	retire(*b); return q;
}
X void vfm_loaded(void* addr) { { Guard g; install(); if(!dl_iterate_phdr(find_data, addr)) die("addon not found"); } take(0); }
}

// ---- JavaScript interface
static int64_t num(napi_env e, napi_value v) { int64_t n = 0; napi_get_value_int64(e, v, &n); return n; }
static napi_value mk(napi_env e, double d) { napi_value r; napi_create_double(e, d, &r); return r; }
#define F(name) static napi_value name(napi_env env, napi_callback_info info) { size_t argc = 4; napi_value a[4]; napi_get_cb_info(env, info, &argc, a, 0, 0);
F(js_save) take((int)num(env, a[0])); return 0; }
F(js_restore) put((int)num(env, a[0])); return 0; }
// arm(pointmode, cut0, cut1): prepares a run in which thread 0 goes first
F(js_arm)
	pointmode = (int)num(env, a[0]); for(int t = 0; t < 2; t++) { thr[t].cut = (int)num(env, a[1 + t]); thr[t].points = 0; thr[t].finished = false; thr[t].log.clear(); thr[t].log.reserve(4096); if(thr[t].used) { memset(thr[t].at, 0, sizeof thr[t].at); thr[t].used = 0; } }
	if(argc > 3) perSite = (unsigned)num(env, a[3]);
	freerun = false; blockedOnce = false; report.clear(); ready = 0; turn = 0; return 0; }
F(js_begin) int t = (int)num(env, a[0]); me = t; thr[t].tid = syscall(SYS_gettid); ready |= 1 << t; await(t); { Guard g; close_all(); } thr[t].in = true; return 0; }
F(js_end) int t = (int)num(env, a[0]); thr[t].in = false; thr[t].finished = true; me = -1; { Guard g; close_all(); } if(!thr[!t].finished) pass(!t); return 0; }
F(js_give) // the block behind a Buffer now belongs to JavaScript
	void* p; size_t n; if(napi_get_buffer_info(env, a[0], &p, &n) == napi_ok && in_region(p)) { Guard g; Blk* b = find(p); if(!b || b->st == DEAD) die("a result lies in freed memory", p); b->st = GIVEN; protect(b->p, b->room, PROT_READ|PROT_WRITE); } return 0; }
F(js_post) fset(posted, (int)num(env, a[0])); return 0; }
F(js_wait) // the worker waits for its next program
	for(;;) { int v = posted.load(); if(v >= 0 || v == -2) { posted = -1; return mk(env, v); } fwait(posted, v, 1000); } }
static std::atomic<int> answered{0};
F(js_answer) char b[2000]; size_t n = 0; napi_get_value_string_utf8(env, a[0], b, sizeof b, &n); { Guard g; report.assign(b, n); } fset(answered, 1); return 0; }
F(js_join) // -> what the worker reported; undefined: it never came back
	int idle = 0; while(!answered.load()) { fwait(answered, 0, 100); if(!answered.load() && thr[1].tid && sleeping(thr[1].tid)) { if(++idle > 200) return 0; } else idle = 0; }
	answered = 0; napi_value r; Guard g; napi_create_string_utf8(env, report.data(), report.size(), &r); return r; }
F(js_points) return mk(env, thr[num(env, a[0])].points); }
F(js_accesses) return mk(env, thr[num(env, a[0])].log.size()); }
F(js_blocked) return mk(env, blockedOnce); }
F(js_clear) conf().clear(); return 0; }
F(js_conflicts) // adds what both threads accessed (one of them writing) to the set of scheduling points; -> how many were new
	std::unordered_map<uint64_t, int> seen[2]; // line -> 1 read, 2 written
	for(int t = 0; t < 2; t++) for(auto& r : thr[t].log) { uint64_t k = r.key << 26 | (r.cap ? 0x3ffffff : (r.off >> 6) + 1); seen[t][k] |= r.w ? 2 : 1; if(r.key) seen[t][r.key << 26] |= (r.w ? 2 : 1) | (r.cap ? 4 : 0); }
	size_t before = conf().size();
	for(auto& x : seen[0]) {
		uint64_t blk = x.first >> 26, line = x.first & 0x3ffffff; if(!line) { auto y = seen[1].find(x.first); if(y != seen[1].end() && ((x.second | y->second) & 6) == 6) conf().insert(blk << 26 | 0x3ffffff); continue; }
		for(int d = -1; d < 2; d++) { auto y = seen[1].find(blk << 26 | (line + d)); if(line == 0x3ffffff || line + d == 0 || y == seen[1].end()) continue; if((x.second | y->second) & 2) { conf().insert(x.first); conf().insert(y->first); } }
	}
	size_t n = conf().size() - before + hotter; hotter = 0; return mk(env, n); }
F(js_dump) std::string s; for(auto k : conf()) { char b[60]; snprintf(b, sizeof b, "%llx:%x ", (unsigned long long)(k >> 26), (unsigned)(k & 0x3ffffff)); s += b; } napi_value r; napi_create_string_utf8(env, s.data(), s.size(), &r); return r; }
// init(exports, addon): the addon's initialisation, called as Node does on the first load: without a lock
F(js_init)
	char path[4096]; size_t n = 0; napi_get_value_string_utf8(env, a[1], path, sizeof path, &n);
	void* h = dlopen(path, RTLD_NOW | RTLD_NOLOAD); char sym[64]; snprintf(sym, sizeof sym, "node_register_module_v%d", NODE_MODULE_VERSION);
	auto f = h ? (void (*)(v8::Local<v8::Object>, v8::Local<v8::Value>, v8::Local<v8::Context>))dlsym(h, sym) : 0;
	if(!f) { napi_throw_error(env, 0, "the addon has no initialiser"); return 0; }
	v8::Local<v8::Value> e; memcpy((void*)&e, &a[0], sizeof e);
	f(e.As<v8::Object>(), e, v8::Isolate::GetCurrent()->GetCurrentContext()); dlclose(h); return 0; }
F(js_quit) _exit((int)num(env, a[0])); } // does not wait for the worker
F(js_monitored) return mk(env, dhi - dlo); }
NAPI_MODULE_INIT() {
	struct { const char* n; napi_callback f; } fs[] = {{"save", js_save}, {"restore", js_restore}, {"arm", js_arm}, {"begin", js_begin}, {"end", js_end}, {"give", js_give}, {"post", js_post}, {"wait", js_wait}, {"answer", js_answer}, {"join", js_join}, {"points", js_points}, {"accesses", js_accesses}, {"blocked", js_blocked}, {"clear", js_clear}, {"conflicts", js_conflicts}, {"dump", js_dump}, {"monitored", js_monitored}, {"init", js_init}, {"quit", js_quit}};
	for(auto& x : fs) { napi_value f; napi_create_function(env, x.n, NAPI_AUTO_LENGTH, x.f, 0, &f); napi_set_named_property(env, exports, x.n, f); }
	return exports;
}
