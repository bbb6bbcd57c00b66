// Linked into the monitored addon: its allocations and its load go to the scheduler (vfmon.cc).
#include <stddef.h>
#include <string.h>
#include <new>
extern "C" {
void* vfm_malloc(size_t); void vfm_free(void*); void* vfm_realloc(void*, size_t); void vfm_loaded(void*);
void* __wrap_malloc(size_t n) { return vfm_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if(b && a > (size_t)-1/b) return 0; return vfm_malloc(a*b); } // fresh pages are zero
void __wrap_free(void* p) { vfm_free(p); }
void* __wrap_realloc(void* p, size_t n) { return vfm_realloc(p, n); }
void* __wrap_aligned_alloc(size_t, size_t n) { return vfm_malloc(n); } // blocks are page-aligned
void* __wrap_memalign(size_t, size_t n) { return vfm_malloc(n); }
void* __wrap_valloc(size_t n) { return vfm_malloc(n); }
int __wrap_posix_memalign(void** p, size_t, size_t n) { *p = vfm_malloc(n); return 0; }
void* __wrap__Znwm(size_t n) { return vfm_malloc(n); }
void* __wrap__Znam(size_t n) { return vfm_malloc(n); }
void* __wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t&) { return vfm_malloc(n); }
void* __wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t&) { return vfm_malloc(n); }
void* __wrap__ZnwmSt11align_val_t(size_t n, size_t) { return vfm_malloc(n); }
void* __wrap__ZnamSt11align_val_t(size_t n, size_t) { return vfm_malloc(n); }
void __wrap__ZdlPv(void* p) { vfm_free(p); }
void __wrap__ZdaPv(void* p) { vfm_free(p); }
void __wrap__ZdlPvm(void* p, size_t) { vfm_free(p); }
void __wrap__ZdaPvm(void* p, size_t) { vfm_free(p); }
void __wrap__ZdlPvSt11align_val_t(void* p, size_t) { vfm_free(p); }
void __wrap__ZdaPvSt11align_val_t(void* p, size_t) { vfm_free(p); }
void __wrap__ZdlPvmSt11align_val_t(void* p, size_t, size_t) { vfm_free(p); }
void __wrap__ZdaPvmSt11align_val_t(void* p, size_t, size_t) { vfm_free(p); }

// synchronisation: the C library passes these objects to the kernel, so their pages have to be accessible meanwhile
void vfm_enter(void*); void vfm_leave(void*);
#define SYNC(f) int __real_##f(void*); int __wrap_##f(void* p) { vfm_enter(p); int r = __real_##f(p); vfm_leave(p); return r; }
#define VSYNC(f) void __real_##f(void*); void __wrap_##f(void* p) { vfm_enter(p); __real_##f(p); vfm_leave(p); }
SYNC(pthread_mutex_lock) SYNC(pthread_mutex_trylock) SYNC(pthread_mutex_unlock) SYNC(pthread_rwlock_rdlock) SYNC(pthread_rwlock_wrlock) SYNC(pthread_rwlock_unlock)
SYNC(uv_mutex_init) SYNC(uv_mutex_trylock) VSYNC(uv_mutex_lock) VSYNC(uv_mutex_unlock) VSYNC(uv_mutex_destroy)
SYNC(uv_rwlock_init) VSYNC(uv_rwlock_rdlock) VSYNC(uv_rwlock_rdunlock) VSYNC(uv_rwlock_wrlock) VSYNC(uv_rwlock_wrunlock) VSYNC(uv_rwlock_destroy)
SYNC(__cxa_guard_acquire) VSYNC(__cxa_guard_release) VSYNC(__cxa_guard_abort) SYNC(pthread_spin_lock) SYNC(pthread_spin_unlock)
typedef void (*once_fn)(void);
static thread_local once_fn run; static thread_local void* what; // (each thread's own: not monitored)
static void inside() { void* p = what; once_fn f = run; vfm_leave(p); f(); vfm_enter(p); }
int __real_pthread_once(void*, once_fn); int __wrap_pthread_once(void* p, once_fn f) { vfm_enter(p); what = p; run = f; int r = __real_pthread_once(p, inside); vfm_leave(p); return r; }
void __real_uv_once(void*, once_fn); void __wrap_uv_once(void* p, once_fn f) { vfm_enter(p); what = p; run = f; __real_uv_once(p, inside); vfm_leave(p); }
long __real_syscall(long, long, long, long, long, long, long); long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) { vfm_enter((void*)a); long r = __real_syscall(n, a, b, c, d, e, f); vfm_leave((void*)a); return r; }
}
__attribute__((constructor)) static void loaded() { vfm_loaded((void*)&loaded); }
