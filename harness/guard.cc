// Node addon of the explorer: Buffers over memory that is enclosed in inaccessible pages.
#include <node_api.h>
#include <sys/mman.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>

static napi_value arena(napi_env env, napi_callback_info info) { // arena(size) -> Buffer; lives as long as the process
	size_t argc = 1; napi_value a[1]; napi_get_cb_info(env, info, &argc, a, 0, 0);
	int64_t n = 0; napi_get_value_int64(env, a[0], &n); n = (n + 4095) & ~4095ll;
	uint8_t* m = (uint8_t*)mmap(0, n + 8192, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if(m == MAP_FAILED) { napi_throw_error(env, 0, "mmap failed"); return 0; }
	mprotect(m, 4096, PROT_NONE); mprotect(m + 4096 + n, 4096, PROT_NONE);
	napi_value r; if(napi_create_external_buffer(env, n, m + 4096, 0, 0, &r) != napi_ok) { napi_throw_error(env, 0, "no external buffer"); return 0; }
	return r;
}
// tile(pattern, total, private) -> Buffer of `total` bytes that shows the same physical pages (a copy of pattern, whole pages) over and
// over (shared: writes show everywhere; private: they don't), enclosed in inaccessible pages: inputs and outputs of many GiB without the memory
static napi_value tile(napi_env env, napi_callback_info info) {
	size_t argc = 3; napi_value a[3]; napi_get_cb_info(env, info, &argc, a, 0, 0); bool priv = false; napi_get_value_bool(env, a[2], &priv);
	void* pat; size_t pn; int64_t n = 0; napi_get_buffer_info(env, a[0], &pat, &pn); napi_get_value_int64(env, a[1], &n);
	int fd = memfd_create("vf", 0);
	if(!pn || pn % 4096 || fd < 0 || ftruncate(fd, pn) || pwrite(fd, pat, pn, 0) != (ssize_t)pn) { napi_throw_error(env, 0, "tile failed"); return 0; }
	size_t room = (n + 4095) & ~4095ll;
	uint8_t* m = (uint8_t*)mmap(0, room + 8192, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if(m == MAP_FAILED) { napi_throw_error(env, 0, "mmap failed"); return 0; }
	for(size_t o = 0; o < room; o += pn)
		if(mmap(m + 4096 + o, room - o < pn ? room - o : pn, PROT_READ|PROT_WRITE, (priv ? MAP_PRIVATE : MAP_SHARED)|MAP_FIXED, fd, 0) == MAP_FAILED) { napi_throw_error(env, 0, "mmap failed"); return 0; }
	close(fd);
	napi_value r; if(napi_create_external_buffer(env, n, m + 4096, 0, 0, &r) != napi_ok) { napi_throw_error(env, 0, "no external buffer"); return 0; }
	return r;
}
static napi_value untile(napi_env env, napi_callback_info info) { // gives the memory back; the Buffer must not be used any more
	size_t argc = 1; napi_value a[1]; napi_get_cb_info(env, info, &argc, a, 0, 0);
	void* p; size_t n; napi_get_buffer_info(env, a[0], &p, &n); n = (n + 4095) & ~(size_t)4095;
	mmap((uint8_t*)p, n, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED, -1, 0);
	return 0;
}
// alloc(path of the addon, what, a, b): asks the addon's allocator (guard_alloc.cc). what: 0 blocks in use, 1 requests so far, 2 refuse b requests from the a-th on
static napi_value alloc(napi_env env, napi_callback_info info) {
	size_t argc = 4; napi_value a[4]; napi_get_cb_info(env, info, &argc, a, 0, 0); char path[4096]; size_t n; int64_t w = 0, x = 0, y = 0, r = -1;
	napi_get_value_string_utf8(env, a[0], path, sizeof path, &n); napi_get_value_int64(env, a[1], &w); if(argc > 3) { napi_get_value_int64(env, a[2], &x); napi_get_value_int64(env, a[3], &y); }
	void* h = dlopen(path, RTLD_LAZY | RTLD_NOLOAD);
	if(h) { void* f = dlsym(h, w == 0 ? "vf_alloc_live" : w == 1 ? "vf_alloc_calls" : "vf_alloc_fail"); if(f) { if(w < 2) r = ((long(*)())f)(); else { ((void(*)(long, long))f)(x, y); r = 0; } } dlclose(h); }
	napi_value v; napi_create_int64(env, r, &v); return v;
}
NAPI_MODULE_INIT() {
	napi_value al; napi_create_function(env, "alloc", NAPI_AUTO_LENGTH, alloc, 0, &al); napi_set_named_property(env, exports, "alloc", al);
	napi_value u; napi_create_function(env, "untile", NAPI_AUTO_LENGTH, untile, 0, &u); napi_set_named_property(env, exports, "untile", u);
	napi_value g; napi_create_function(env, "tile", NAPI_AUTO_LENGTH, tile, 0, &g); napi_set_named_property(env, exports, "tile", g);
	napi_value f; napi_create_function(env, "arena", NAPI_AUTO_LENGTH, arena, 0, &f); napi_set_named_property(env, exports, "arena", f);
	return exports;
}
