// Exhaustive exploration of the CRC32 kernels and of the CRC arithmetic against bit-by-bit references.
// plans: value (whole buffers), incr (chunk histories and combine), field (multiply/shift/zeroes)
#include "mc.h"
using namespace RapidYenc;

static const size_t ROOM = 1 << 21;
static Arena* A;
static u32 tab[256];
static u32 upd(u32 c, u8 b) { return (c >> 8) ^ tab[(c ^ b) & 255]; }
static u32 ref(const u8* d, size_t n, u32 init = 0) { n_trans += n; u32 c = ~init; for(size_t i = 0; i < n; i++) c = upd(c, d[i]); return ~c; }
// product of two polynomials modulo the CRC polynomial, reflected representation (bit 31 = x^0)
static u32 mulx(u32 a) { return a & 1 ? (a >> 1) ^ 0xEDB88320u : a >> 1; }
static u32 mul(u32 a, u32 b) { n_trans++; u32 r = 0; for(int i = 31; i >= 0; i--) { if(b >> i & 1) r ^= a; a = mulx(a); } return r; }
static u32 xpow(unsigned __int128 n) { u32 r = 0x80000000u, s = 0x40000000u; while(n) { if(n & 1) r = mul(r, s); s = mul(s, s); n >>= 1; } return r; } // x^n
static u32 xpow_neg(unsigned __int128 n) { // x^-n: the multiplicative order of x divides 2^32-1
	u64 m = (u64)(n % 0xffffffffu); return xpow((0xffffffffu - m) % 0xffffffffu);
}
static void setcase(const char* kind, const u8* d, size_t n, long a = 0, long b = 0, long c = 0) { n_states++; cur.kind = kind; cur.in = d; cur.len = n; cur.p[0] = a; cur.p[1] = b; cur.p[2] = c; }
static void expect(u32 got, u32 want, const char* what) { if(got != want) violation("%s: got %08x, expected %08x (level %s, length %zu, params %ld %ld %ld)", what, got, want, level_name(cur.level), cur.len, cur.p[0], cur.p[1], cur.p[2]); outcome(got); }

static bool T; static u64 item; static Task task;
static bool mine() { return (int)(item++ % task.nshards) == task.shard && !out_of_time(); }

static void one(const u8* d, size_t n, u32 init, u32 want) { setcase("value", d, n, init); n_exec++; expect(RapidYenc::crc32(d, n, init), want, "crc32 of a buffer"); }

enum { Z, O, L1, ALT, NFILL };
static void fill(u8* d, size_t n, int f) { u32 x = 99; for(size_t i = 0; i < n; i++) switch(f) { case Z: d[i] = 0; break; case O: d[i] = 255; break; case ALT: d[i] = i * 37; break; default: x = x * 1664525 + 1013904223; d[i] = x >> 24; } }

static void plan_value() {
	static const u32 INITS[] = {0, 0xffffffff, 0x80000000, 1, 0xdeadbeef};
	// every length x every alignment of the end (and start) x filler x init, ending right before a guard page or not
	for(size_t n = 0; n <= (T ? 2200 : 1100); n++) { if(!mine()) continue;
		for(int off = 0; off < 64; off++) for(int f = 0; f < NFILL; f++) {
			if(!T && n > 400 && (n + off + f) % 4) continue;
			u8* d = A->end() - off - n; fill(d, n, f); memset(d + n, 0x5a, off); if(n < 4000) memset(d - 64, 0xa5, 64);
			for(u32 in : INITS) one(d, n, in, ref(d, n, in));
		}
	}
	// every byte value at every position (the checksum is affine: this covers every single-byte dependence)
	for(size_t n = 1; n <= (T ? 700 : 400); n += n < 300 ? 1 : 13) { if(!mine()) continue;
		u8* d = A->end() - n - (n % 16); fill(d, n, L1); u32 pre = 0xffffffff;
		std::vector<u32> contrib; // suffix is linear: recompute per value with the table only
		for(size_t p = 0; p < n; p++) {
			u8 keep = d[p];
			for(int v = 0; v < 256; v += (n > 90 && !T) ? 17 : 1) {
				u32 c = upd(pre, v); for(size_t i = p + 1; i < n; i++) c = upd(c, d[i]);
				d[p] = v; n_trans += n - p; one(d, n, 0, ~c);
			}
			d[p] = keep; pre = upd(pre, keep);
		}
		count("byte sweeps");
	}
	// complete: all inputs of length 1, 2 and 3, all initial values in a basis
	for(int a = 0; a < 256; a++) { if(!mine()) continue;
		u8* d = A->end() - 3; d[0] = a; one(d + 0, 1, 0, ref(d, 1));
		u8* e = A->end() - 1; *e = a; for(int b = 0; b < 32; b++) one(e, 1, 1u << b, ref(e, 1, 1u << b));
		for(int b = 0; b < 256; b++) { u8* q = A->end() - 2; q[0] = a; q[1] = b; one(q, 2, 0, ref(q, 2)); d = A->end() - 3; for(int c = 0; c < 256; c++) { d[0] = a; d[1] = b; d[2] = c; u32 r = upd(upd(upd(~0u, a), b), c); one(d, 3, 0, ~r); } }
		count("short words");
	}
	// two set bits anywhere in a buffer of several kernel blocks
	for(size_t n : {(size_t)160, (size_t)271}) for(size_t p = 0; p < n; p++) { if(!mine()) continue;
		u8* d = A->end() - n; fill(d, n, Z);
		for(size_t q = p + 1; q < n; q += T ? 1 : 3) { d[p] = 1 << (p & 7); d[q] = 1 << (q & 7); one(d, n, 0, ref(d, n)); d[q] = 0; }
	}
	// large buffers around powers of two and kernel block multiples
	for(int k = 10; k <= 20; k++) for(int dd = -17; dd <= 17; dd++) { if(!mine()) continue;
		size_t n = ((size_t)1 << k) + dd; u8* d = A->end() - n - (k % 16); fill(d, n, L1); u32 r = ref(d, n); for(int sh = 0; sh < 2; sh++) one(d, n, sh ? 0x12345678 : 0, sh ? ref(d, n, 0x12345678) : r);
	}
	// longer buffers at every alignment of the end
	for(size_t n : {(size_t)1500, (size_t)2048, (size_t)3001, (size_t)4096, (size_t)4097, (size_t)8192, (size_t)16384, (size_t)65536, (size_t)100001, (size_t)1 << 20}) for(int off = 0; off < 64; off++) { if(!mine()) continue;
		u8* d = A->end() - off - n; fill(d, n, L1); memset(d + n, 0x5a, off); u32 r = ref(d, n); one(d, n, 0, r); one(d, n, 0xdeadbeef, r ^ mul(0xdeadbeef, xpow((unsigned __int128)n * 8))); }
	if(samples.empty()) sample("length 777, all 64 end alignments, 4 fillers, 5 initial values; all 2^24 three-byte buffers; every value of every byte of a 63-byte buffer");
}

static void plan_incr() {
	// every split of a buffer into two and three chunks; the running value is carried by the implementation
	for(size_t n : {(size_t)7, (size_t)64, (size_t)300, (size_t)513}) {
		u8* d = A->end() - n - 3; fill(d, n, L1); u32 w = ref(d, n);
		for(size_t a = 0; a <= n; a++) { if(!mine()) continue;
			setcase("incr", d, n, a); n_exec += 2;
			u32 c1 = RapidYenc::crc32(d, a, 0), c2 = RapidYenc::crc32(d + a, n - a, 0);
			expect(RapidYenc::crc32(d + a, n - a, c1), w, "crc32 in two chunks");
			expect(crc32_combine(c1, c2, n - a), w, "crc32_combine of two chunks");
			for(size_t b = a; b <= n; b += (n > 100 && !T) ? 5 : 1) {
				setcase("incr", d, n, a, b); n_exec += 2;
				u32 m = RapidYenc::crc32(d + a, b - a, c1);
				expect(RapidYenc::crc32(d + b, n - b, m), w, "crc32 in three chunks");
				u32 cb = RapidYenc::crc32(d + a, b - a, 0), cc = RapidYenc::crc32(d + b, n - b, 0); n_exec += 2;
				expect(crc32_combine(crc32_combine(c1, cb, b - a), cc, n - b), w, "crc32_combine, left to right");
				expect(crc32_combine(c1, crc32_combine(cb, cc, n - b), n - a), w, "crc32_combine, right to left");
			}
			count("split points");
		}
	}
	// all chunk histories of a short buffer: every composition
	{ size_t n = T ? 14 : 11; u8* d = A->end() - n; fill(d, n, ALT); u32 w = ref(d, n);
		for(u32 m = 0; m < 1u << (n-1); m++) { if(!mine()) continue;
			u32 c = 0, k = 0; size_t at = 0; setcase("history", d, n, m);
			for(size_t i = 1; i <= n; i++) if(i == n || (m >> (i-1) & 1)) { n_exec++; c = RapidYenc::crc32(d + at, i - at, c); k = crc32_combine(k, RapidYenc::crc32(d + at, i - at, 0), i - at); at = i; }
			expect(c, w, "crc32 over a history of chunks"); expect(k, w, "crc32_combine over a history of chunks");
			count("compositions");
		} }
	// combine with every kind of length, against x^(8 len)
	for(int k = 0; k < 64; k++) for(int dd = -9; dd <= 9; dd++) { if(!mine()) continue;
		u64 n = ((u64)1 << k) + dd; u32 x = xpow((unsigned __int128)n * 8);
		for(int b = 0; b < 32; b++) { u32 c1 = 1u << b; setcase("combine", 0, 0, k, dd, b); n_exec++; expect(crc32_combine(c1, 0xabcdef01u, n), mul(c1, x) ^ 0xabcdef01u, "crc32_combine for a large length"); }
		u32 c1 = 0x9e3779b9u * (k + 1) + dd; n_exec++; expect(crc32_combine(c1, 0, n), mul(c1, x), "crc32_combine for a large length");
	}
	for(u64 base : {0xffffffffull, 0x1fffffffeull, 0x1ffffffffull, 0x20000000ull * 0xffull, 0xfffffffeffffffffull, 0xffffffff00000000ull}) for(int dd = -40; dd <= 40; dd++) { if(!mine()) continue;
		u64 n = base + dd; u32 x = xpow((unsigned __int128)n * 8); setcase("combine2", 0, 0, (long)base, dd); for(u32 c1 : {1u, 0x80000000u, 0xdeadbeefu}) { n_exec++; expect(crc32_combine(c1, 0x11223344, n), mul(c1, x) ^ 0x11223344u, "crc32_combine near the group order"); }
	}
	// every small length
	for(u64 n0 = 0; n0 < (T ? 70000u : 20000u); n0 += 256) { if(!mine()) continue; u32 x = xpow(n0 * 8); for(u64 n = n0; n < n0 + 256; n++) { setcase("combine3", 0, 0, n); n_exec++; expect(crc32_combine(0x13579bdfu, 0x2468ace0u, n), mul(0x13579bdfu, x) ^ 0x2468ace0u, "crc32_combine for a small length"); for(int i = 0; i < 8; i++) x = mulx(x); } }
	if(samples.empty()) sample("every composition of an 11-byte buffer into chunks; combine for len2 = 2^k+d, k<64, |d|<=9, times all 32 basis values of crc1");
}

static void plan_field() {
	// multiply is bilinear: all pairs of basis vectors plus dense operands
	for(int a = 0; a < 32; a++) { if(!mine()) continue;
		for(int b = 0; b < 32; b++) { setcase("mul", 0, 0, a, b); n_exec++; expect(crc32_multiply(1u << a, 1u << b), mul(1u << a, 1u << b), "crc32_multiply of two basis elements"); }
		for(u32 hi = 0; hi < 65536; hi += T ? 1 : 3) { setcase("mul2", 0, 0, a, hi); n_exec += 2; u32 y = hi * 0x10001u ^ 0x5a5a; expect(crc32_multiply(1u << a, y), mul(1u << a, y), "crc32_multiply"); expect(crc32_multiply(y, (1u << a) | 1), mul(y, (1u << a) | 1), "crc32_multiply"); }
	}
	// exponents are reduced modulo 2^32-1: every set of up to three exponent bits, and dense ones
	for(int a = 0; a < 32; a++) { if(!mine()) continue;
		for(int b = a; b < 32; b++) for(int c = b; c < 32; c++) { u32 n = (1u << a) | (1u << b) | (1u << c); u32 x = xpow(n); setcase("shift", 0, 0, n); for(u32 v : {0x80000000u, 1u, 0xdeadbeefu}) { n_exec++; expect(crc32_shift(v, n), mul(v, x), "crc32_shift"); } u32 m = ~n; x = xpow(m); n_exec++; expect(crc32_shift(0xcafef00du, m), mul(0xcafef00du, x), "crc32_shift"); } }
	for(u32 n0 = 0; n0 < (T ? 1u << 20 : 1u << 17); n0 += 4096) { if(!mine()) continue; u32 x = xpow(n0); for(u32 n = n0; n < n0 + 4096; n++) { setcase("shift", 0, 0, n); n_exec++; expect(crc32_shift(0x80000000u, n), x, "crc32_shift"); x = mulx(x); } }
	// zeroes / unzeroes
	for(int k = 0; k < 63; k++) for(int dd = -7; dd <= 7; dd++) { if(!mine()) continue;
		u64 n = ((u64)1 << k) + dd; u32 x = xpow((unsigned __int128)n * 8), ix = xpow_neg((unsigned __int128)n * 8);
		for(u32 c : {0u, 1u, 0xffffffffu, 0x80000000u, 0x12345678u}) { setcase("zeroes", 0, 0, k, dd, c); n_exec += 3;
			u32 z = crc32_zeros(c, n); expect(z, ~mul(~c, x), "crc32_zeroes"); expect(crc32_unzero(c, n), ~mul(~c, ix), "crc32_zeroes with a negative count"); expect(crc32_unzero(z, n), c, "adding and removing null bytes"); }
	}
	{ u32 c[3] = {0, 0xffffffff, 0x12345678}, r[3] = {0, 0xffffffff, 0x12345678};
		if(mine()) for(int n = 0; n < (T ? 60000 : 8000); n++) for(int j = 0; j < 3; j++) { setcase("zeroes2", 0, 0, n, j); n_exec += 2; expect(crc32_zeros(c[j], n), r[j], "crc32_zeroes of a small count"); expect(crc32_unzero(r[j], n), c[j], "removing null bytes"); r[j] = ~upd(~r[j], 0); } }
	if(samples.empty()) sample("crc32_multiply on all 32x32 basis pairs; crc32_shift for all n < 2^17 and all exponents of <=3 or >=29 set bits; zeroes for n = 2^k+d, k<63");
}

static void plan_small() { // all of the above at bounds an emulated processor can manage
	bool X = opt.thorough;
	for(size_t n = 0; n <= (X ? 700 : 330); n++) { if(!mine()) continue;
		for(int off = 0; off < 64; off += X ? 1 : 1 + 2 * (n > 80)) for(int f = 0; f < NFILL; f++) { if(f != L1 && (n + off + f) % 4) continue; u8* d = A->end() - off - n; fill(d, n, f); memset(d + n, 0x5a, off); memset(d - 64, 0xa5, 64); for(u32 in : {0u, 0xdeadbeefu}) one(d, n, in, ref(d, n, in)); } }
	for(size_t n = 1; n <= 300; n += n < 34 ? 1 : n < 160 ? 9 : 67) { if(!mine()) continue;
		u8* d = A->end() - n - (n % 16); fill(d, n, L1); u32 pre = 0xffffffff;
		for(size_t p = 0; p < n; p++) { u8 keep = d[p]; for(int v = 0; v < 256; v += n > 40 && !X ? 5 : 1) { u32 c = upd(pre, v); for(size_t i = p + 1; i < n; i++) c = upd(c, d[i]); d[p] = v; n_trans += n - p; one(d, n, 0, ~c); } d[p] = keep; pre = upd(pre, keep); } }
	for(int a = 0; a < 256; a++) { if(!mine()) continue; u8* e = A->end() - 1; *e = a; for(int b = 0; b < 32; b++) one(e, 1, 1u << b, ref(e, 1, 1u << b)); for(int b = 0; b < 256; b++) { u8* q = A->end() - 2; q[0] = a; q[1] = b; one(q, 2, 0, ref(q, 2)); } }
	for(size_t n : {(size_t)160}) for(size_t p = 0; p < n; p++) { if(!mine()) continue; u8* d = A->end() - n; fill(d, n, Z); for(size_t q = p + 1; q < n; q += X ? 1 : 7) { d[p] = 1 << (p & 7); d[q] = 1 << (q & 7); one(d, n, 0, ref(d, n)); d[q] = 0; } }
	for(int k = 10; k <= (X ? 20 : 15); k++) for(int dd = -17; dd <= 17; dd++) { if(!mine()) continue; size_t n = ((size_t)1 << k) + dd; u8* d = A->end() - n - (k % 16); fill(d, n, L1); one(d, n, 0, ref(d, n)); one(d, n, 0x12345678, ref(d, n, 0x12345678)); }
	for(size_t n : {(size_t)7, (size_t)64, (size_t)300}) { u8* d = A->end() - n - 3; fill(d, n, L1); u32 w = ref(d, n);
		for(size_t a = 0; a <= n; a++) { if(!mine()) continue; setcase("incr", d, n, a); n_exec += 4; u32 c1 = RapidYenc::crc32(d, a, 0), c2 = RapidYenc::crc32(d + a, n - a, 0); expect(RapidYenc::crc32(d + a, n - a, c1), w, "crc32 in two chunks"); expect(crc32_combine(c1, c2, n - a), w, "crc32_combine of two chunks"); } }
	for(int k = 0; k < 64; k++) for(int dd = -9; dd <= 9; dd++) { if(!mine()) continue; u64 n = ((u64)1 << k) + dd; u32 x = xpow((unsigned __int128)n * 8); for(int b = 0; b < 32; b += X ? 1 : 3) { u32 c1 = 1u << b; setcase("combine", 0, 0, k, dd, b); n_exec++; expect(crc32_combine(c1, 0xabcdef01u, n), mul(c1, x) ^ 0xabcdef01u, "crc32_combine for a large length"); } }
	for(u64 base : {0xffffffffull, 0x1fffffffeull, 0x1ffffffffull, 0x20000000ull * 0xffull, 0xfffffffeffffffffull, 0xffffffff00000000ull}) for(int dd = -40; dd <= 40; dd++) { if(!mine()) continue; u64 n = base + dd; u32 x = xpow((unsigned __int128)n * 8); setcase("combine2", 0, 0, (long)base, dd); for(u32 c1 : {1u, 0x80000000u, 0xdeadbeefu}) { n_exec++; expect(crc32_combine(c1, 0x11223344, n), mul(c1, x) ^ 0x11223344u, "crc32_combine near the group order"); } }
	for(u64 n0 = 0; n0 < (X ? 20000u : 3000u); n0 += 256) { if(!mine()) continue; u32 x = xpow(n0 * 8); for(u64 n = n0; n < n0 + 256; n++) { setcase("combine3", 0, 0, n); n_exec++; expect(crc32_combine(0x13579bdfu, 0x2468ace0u, n), mul(0x13579bdfu, x) ^ 0x2468ace0u, "crc32_combine for a small length"); for(int i = 0; i < 8; i++) x = mulx(x); } }
	for(int a = 0; a < 32; a++) { if(!mine()) continue;
		for(int b = 0; b < 32; b++) { setcase("mul", 0, 0, a, b); n_exec++; expect(crc32_multiply(1u << a, 1u << b), mul(1u << a, 1u << b), "crc32_multiply of two basis elements"); }
		for(u32 hi = 0; hi < 65536; hi += X ? 17 : 257) { setcase("mul2", 0, 0, a, hi); n_exec += 2; u32 y = hi * 0x10001u ^ 0x5a5a; expect(crc32_multiply(1u << a, y), mul(1u << a, y), "crc32_multiply"); expect(crc32_multiply(y, (1u << a) | 1), mul(y, (1u << a) | 1), "crc32_multiply"); }
		for(int b = a; b < 32; b++) for(int c = b; c < 32; c++) { u32 n = (1u << a) | (1u << b) | (1u << c); u32 x = xpow(n); setcase("shift", 0, 0, n); n_exec++; expect(crc32_shift(0xdeadbeefu, n), mul(0xdeadbeefu, x), "crc32_shift"); u32 m = ~n; x = xpow(m); n_exec++; expect(crc32_shift(0xcafef00du, m), mul(0xcafef00du, x), "crc32_shift"); } }
	for(u32 n0 = 0; n0 < 16384u; n0 += 1024) { if(!mine()) continue; u32 x = xpow(n0); for(u32 n = n0; n < n0 + 1024; n++) { setcase("shift", 0, 0, n); n_exec++; expect(crc32_shift(0x80000000u, n), x, "crc32_shift"); x = mulx(x); } }
	for(int k = 0; k < 63; k++) for(int dd = -7; dd <= 7; dd++) { if(!mine()) continue; u64 n = ((u64)1 << k) + dd; u32 x = xpow((unsigned __int128)n * 8), ix = xpow_neg((unsigned __int128)n * 8);
		for(u32 c : {0u, 0x80000000u, 0x12345678u}) { setcase("zeroes", 0, 0, k, dd, c); n_exec += 3; u32 z = crc32_zeros(c, n); expect(z, ~mul(~c, x), "crc32_zeroes"); expect(crc32_unzero(c, n), ~mul(~c, ix), "crc32_zeroes with a negative count"); expect(crc32_unzero(z, n), c, "adding and removing null bytes"); } }
	for(int k = -53; k < 54; k++) for(int dd = -3; dd <= 3; dd++) { if(!mine()) continue; int64_t n = (k < 0 ? -((int64_t)1 << -k) : (int64_t)1 << k) + dd; setcase("2pow", 0, 0, k, dd); n_exec++; unsigned __int128 m = n < 0 ? -(__int128)n : n; expect(crc32_2pow(n), n < 0 ? xpow_neg(m) : xpow(m), "crc32_2pow"); if(n >= 0) { n_exec++; expect(crc32_256pow(n), xpow(m * 8), "crc32_256pow"); } }
}

int main(int argc, char** argv) {
	parse_args(argc, argv); T = true; A = new Arena(ROOM);
	for(int i = 0; i < 256; i++) { u32 c = i; for(int j = 0; j < 8; j++) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; tab[i] = c; }
	if(!opt.replay.empty()) { // the plans are cheap: replaying means walking the plan of the recorded kind at that level again
		ReplayCase r; if(!load_replay(opt.replay, r)) return 3;
		cur.level = r.level; arm(); level_init(r.level);
		if(r.kind == "value") { size_t n = r.in.size(); u8* d = A->end() - n; memcpy(d, r.in.data(), n); one(d, n, (u32)r.p[0], ref(d, n, (u32)r.p[0])); for(int off = 1; off < 64; off++) { d = A->end() - n - off; memcpy(d, r.in.data(), n); one(d, n, (u32)r.p[0], ref(d, n, (u32)r.p[0])); } }
		else { task = {r.level, 0, 1}; if(r.kind == "incr" || r.kind == "history" || r.kind.substr(0, 7) == "combine") plan_incr(); else plan_field(); plan_small(); }
		printf("replay: no violation\n"); return 0;
	}
	std::string plan = opt.str("plan");
	std::vector<int> levels = levels_of({"sse41", "avx2v"});
	if(opt.has("levels")) { std::vector<int> k; for(int l : levels) if(("," + opt.str("levels") + ",").find(std::string(",") + level_name(l) + ",") != std::string::npos) k.push_back(l); levels = k; }
	return explore(levels, opt.num("shards", 8), [&](const Task& t) {
		task = t; item = 0;
		if(plan == "value") plan_value(); else if(plan == "incr") plan_incr(); else if(plan == "field") plan_field(); else if(plan == "small") plan_small();
		else { fprintf(stderr, "unknown plan\n"); _exit(3); }
		cur.kind = "idle";
	});
}
