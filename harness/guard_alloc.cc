// malloc/realloc/free of the addon (linked with --wrap): every block ends at an inaccessible page (up to 16-byte alignment,
// the slack holds canaries), starts filled with junk and becomes inaccessible when freed.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <mutex>
#include <unordered_map>

extern "C" {
void* __real_malloc(size_t); void* __real_realloc(void*, size_t); void __real_free(void*); void* __real_calloc(size_t, size_t);
void (*vf_alloc_hook)(int); // scheduling point for the interleaving explorers
}
#include <atomic>
// how many blocks are in use; which of the following requests (counted from 0) are refused
static std::atomic<long> vf_calls, vf_from{-1}, vf_to{-1}, vf_unguarded;
extern "C" {
long vf_alloc_live();
long vf_alloc_calls() { return vf_calls; }
void vf_alloc_fail(long from, long n) { vf_calls = 0; vf_from = from; vf_to = from + n; }
}
namespace {
bool refused() { long c = vf_calls++; return c >= vf_from && c < vf_to; }
struct Blk { uint8_t* map; size_t maplen, n; };
std::mutex& mu() { static std::mutex* m = new std::mutex; return *m; }
std::unordered_map<void*, Blk>& live() { static auto* m = new std::unordered_map<void*, Blk>; return *m; }
[[noreturn]] void die(const char* what) { fprintf(stderr, "guard_alloc: %s\n", what); abort(); }
const size_t PG = 4096; const uint8_t CAN = 0xC5;

void* get(size_t n) {
	{ std::lock_guard<std::mutex> g(mu()); if(live().size() > 15000) { vf_unguarded++; return __real_malloc(n); } } // the kernel limits the number of mappings
	size_t room = (n + 15) & ~(size_t)15, data = (room + PG - 1) & ~(PG - 1); if(!data) data = PG;
	uint8_t* m = (uint8_t*)mmap(0, data + 2*PG, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if(m == MAP_FAILED) return 0;
	mprotect(m, PG, PROT_NONE); mprotect(m + PG + data, PG, PROT_NONE);
	uint8_t *lo = m + PG, *hi = lo + data, *p = hi - room;
	size_t before = p - lo; if(before > 256) before = 256;
	memset(p - before, CAN, before); memset(p + n, CAN, hi - (p + n));
	memset(p, 0xA7, n < 65536 ? n : 65536);
	std::lock_guard<std::mutex> g(mu());
	live()[p] = {m, data + 2*PG, n};
	return p;
}
bool take(void* p, Blk& b) { // removes and verifies
	{ std::lock_guard<std::mutex> g(mu()); auto i = live().find(p); if(i == live().end()) return false; b = i->second; live().erase(i); }
	uint8_t *lo = b.map + PG, *hi = b.map + b.maplen - PG, *q = (uint8_t*)p;
	for(uint8_t* x = q + b.n; x < hi; x++) if(*x != CAN) die("bytes behind an allocated block were modified");
	for(uint8_t* x = q - ((size_t)(q - lo) > 256 ? 256 : q - lo); x < q; x++) if(*x != CAN) die("bytes before an allocated block were modified");
	return true;
}
}
extern "C" {
long vf_alloc_live() { std::lock_guard<std::mutex> g(mu()); return live().size(); }
void* __wrap_malloc(size_t n) { if(vf_alloc_hook) vf_alloc_hook(0); if(refused()) return 0; return get(n); }
void* __wrap_calloc(size_t a, size_t b) { if((b && a > SIZE_MAX/b) || refused()) return 0; void* p = get(a*b); if(p) memset(p, 0, a*b); return p; }
void __wrap_free(void* p) { if(!p) return; if(vf_alloc_hook) vf_alloc_hook(1); Blk b; if(take(p, b)) munmap(b.map, b.maplen); else __real_free(p); }
void* __wrap_realloc(void* p, size_t n) {
	if(vf_alloc_hook) vf_alloc_hook(2);
	if(n && refused()) return 0; // the block stays as it is
	if(!p) return get(n);
	Blk b; if(!take(p, b)) return __real_realloc(p, n);
	if(!n) { munmap(b.map, b.maplen); return 0; }
	void* q = get(n); if(!q) die("out of memory");
	memcpy(q, p, n < b.n ? n : b.n);
	munmap(b.map, b.maplen);
	return q;
}
}
