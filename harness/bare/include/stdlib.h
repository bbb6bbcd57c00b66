// The C library as far as the kernels need it, for processors this machine has no C library for (see ../exec.cc).
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void* malloc(size_t); void* calloc(size_t, size_t); void* realloc(void*, size_t); void free(void*); int posix_memalign(void**, size_t, size_t); void* aligned_alloc(size_t, size_t);
void abort(void) __attribute__((noreturn)); char* getenv(const char*);
static inline int abs(int n) { return n < 0 ? -n : n; } static inline long labs(long n) { return n < 0 ? -n : n; } static inline long long llabs(long long n) { return n < 0 ? -n : n; }
#ifdef __cplusplus
}
#endif
