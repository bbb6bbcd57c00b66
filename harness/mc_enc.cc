// Exhaustive exploration of the yEnc encoders against a column-machine reference.
// plans: spec (col 0), col (column offsets), chain (pieces of incremental encoding), round (decode what was encoded), safe (line invariants), mem (buffer confinement)
#include "mc.h"
using namespace RapidYenc;

// ---- reference model: state = column -------------------------------------------------------------------------
static inline u8* put(u8* o, int& col, int ls, u8 b) {
	if(col >= ls) { *o++ = '\r'; *o++ = '\n'; col = 0; }
	u8 c = b + 42;
	bool esc = c == 0 || c == '\r' || c == '\n' || c == '=' || (col == 0 && (c == '\t' || c == ' ' || c == '.')) || (col == ls - 1 && (c == '\t' || c == ' '));
	if(esc) { *o++ = '='; *o++ = c + 64; col += 2; } else { *o++ = c; col++; }
	return o;
}
static inline u8* finish(u8* o) { // nothing may end in a blank
	u8 c = o[-1];
	if(c == '\t' || c == ' ') { o[-1] = '='; *o++ = c + 64; }
	return o;
}
static size_t max_size(size_t len, size_t ls) { return len*2 + 2*((len*2)/ls) + 2 + 64; } // as documented for maxSize

static const size_t ROOM = 1 << 16;
static Arena *A_src, *A_dst, *A_dec;
static u8 ref_buf[ROOM*2], back[ROOM];

// symbols by encoded value
#define R(c) ((u8)((c) - 42))
static const u8 AL4[] = {R('a'), R('='), R('\t'), R('.')};
static const u8 AL2[] = {R('a'), R('=')};
static const u8 AL2B[] = {R('a'), R('\r')};
static const u8 AL2C[] = {R(' '), R(0)};
static const u8 AL8[] = {R('a'), R('='), R('\t'), R('.'), R(' '), R('\r'), R('\n'), R(0)};
enum { F_N, F_ESC, F_ALT, F_TAB, F_DOT, F_S15, F_S31, F_S7, F_LCG, F_SP, F_ALT2, F_MIX, NF };
static void fill(u8* d, size_t n, int f) {
	u32 x = 12345;
	for(size_t i = 0; i < n; i++) switch(f) {
		case F_N: d[i] = R('a'); break;
		case F_ESC: d[i] = R("=\r\n\0"[i & 3]); break;
		case F_ALT: d[i] = i & 1 ? R('=') : R('a'); break;
		case F_ALT2: d[i] = i & 1 ? R('b') : R(0); break;
		case F_TAB: d[i] = R('\t'); break;
		case F_SP: d[i] = R(' '); break;
		case F_DOT: d[i] = R('.'); break;
		case F_S15: d[i] = i % 15 == 14 ? R('\n') : R('a'); break;
		case F_S31: d[i] = i % 31 == 30 ? R('\r') : R('.'); break;
		case F_S7: d[i] = i % 7 == 3 ? R('=') : R('\t'); break;
		case F_MIX: d[i] = AL8[(i * 5 + i / 7) & 7]; break;
		default: x = x * 1664525 + 1013904223; d[i] = x >> 24;
	}
}

static bool want_round, want_safe, want_spec = true, part = false; // part: one piece of an incremental encode, more may follow
static int dst_mode; // 0: exactly max_size bytes before the guard page; 1: canaries around, plus poison behind the source

// line-level guarantees, judged on the output alone
static void safe_check(const u8* o, size_t n, int ls, int col) {
	int line = 0; // characters of this line (the column offset counts as already present)
	int chars = col; bool first = col == 0;
	for(size_t i = 0; i < n; ) {
		u8 c = o[i];
		if(c == '\r') {
			if(i + 1 >= n || o[i+1] != '\n') violation("bare CR in the output at %zu", i);
			if(chars < ls) violation("line broken early: %d characters of %d (output position %zu)", chars, ls, i);
			if(i && (o[i-1] == '\t' || o[i-1] == ' ') ) violation("line ends in a blank at %zu", i);
			if(i + 2 >= n) violation("output ends in a line break");
			i += 2; chars = 0; first = true; line++; continue;
		}
		if(c == '\n' || c == 0) violation("forbidden byte %02x in the output at %zu", c, i);
		if(first && (c == '.' || c == '\t' || c == ' ')) violation("line starts with byte %02x at %zu", c, i);
		if(c == '=') {
			if(i + 1 >= n) violation("dangling escape at the end of the output");
			u8 e = o[i+1]; if(e == '\r' || e == '\n' || e == 0 || e == '=' || (first && e == 'y')) violation("escape followed by byte %02x at %zu", e, i);
			i += 2; chars += 2;
		} else { i++; chars++; }
		first = false;
		if(chars > ls + 1) violation("line of %d characters exceeds line_size %d + 1 at output position %zu", chars, ls, i);
	}
	if(n && (o[n-1] == '\t' || o[n-1] == ' ')) violation("output ends in a blank");
}

static void run_one(const u8* in, size_t L, int ls, int col, const u8* exp, size_t en, int ecol = 0) {
	size_t cap = max_size(L, ls);
	u8* dst = dst_mode ? A_dst->base + 512 : A_dst->end() - cap;
	if(dst_mode) { memset(dst - 64, 0xC3, 64); memset(dst + cap, 0xC3, 64); }
	else memset(dst - 64, 0xC3, 64);
	int c = col; n_exec++;
	size_t n = RapidYenc::encode(ls, &c, in, dst, L, !part);
	if(n > cap) violation("encoded length %zu exceeds the documented maximum %zu (length %zu, line_size %d, column %d)", n, cap, L, ls, col);
	if(want_spec && (n != en || memcmp(dst, exp, en))) {
		size_t i = 0; while(i < n && i < en && dst[i] == exp[i]) i++;
		violation("encoding differs from the reference: level %s length %zu line_size %d column %d: %zu bytes (expected %zu), first difference at %zu (%02x, expected %02x)",
			level_name(cur.level), L, ls, col, n, en, i, i < n ? dst[i] : 0, i < en ? exp[i] : 0);
	}
	if(part && c != ecol) violation("column after a piece: level %s length %zu line_size %d column %d: %d, expected %d", level_name(cur.level), L, ls, col, c, ecol);
	for(int k = 0; k < 64; k += 8) if(*(u64*)(dst - 64 + k) != 0xC3C3C3C3C3C3C3C3ull) violation("bytes before the output were modified");
	if(dst_mode) for(int k = 0; k < 64; k++) if(dst[cap + k] != 0xC3) violation("bytes beyond the documented maximum output size were modified (offset %d)", k);
	if(want_safe) safe_check(dst, n, ls, col);
	if(want_round) {
		u8* db = A_dec->end() - n;
		for(int raw = 0; raw < 2; raw++) {
			if(raw && col == 0 ? false : raw && col) continue; // a continued line isn't at the start of a line
			size_t m = RapidYenc::decode(raw, dst, db, n, NULL); n_exec++;
			if(m != L || memcmp(db, in, L)) { size_t i = 0; while(i < m && i < L && db[i] == in[i]) i++; violation("decode%s(encode(data)) differs from data: %zu bytes (expected %zu), first difference at %zu; line_size %d column %d", raw ? " with dot-unstuffing" : "", m, L, i, ls, col); }
		}
		YencDecoderState st = col ? YDEC_STATE_NONE : YDEC_STATE_CRLF; const void* sp = dst; void* dp = db; n_exec++;
		int e = (int)RapidYenc::decode_end(&sp, &dp, n, &st);
		if(e || (size_t)((u8*)dp - db) != L || memcmp(db, in, L)) violation("incremental decode of the encoded data: ended %d after %zu of %zu bytes; line_size %d", e, (size_t)((u8*)dp - db), L, ls);
	}
}

// all words of length K over an alphabet at position p of a filled buffer of length L
struct Win { int ls, col; const u8* al; int A, K, f; size_t L; long off; };
static void windows(const Win& w, size_t p) {
	if(p + w.K > w.L) return;
	u8* in = w.off < 0 ? A_src->end() - w.L : A_src->base + 256 + w.off;
	fill(in, w.L, w.f);
	if(w.off >= 0) { memset(in - 64, R('='), 64); memset(in + w.L, R('='), 64); }
	int ls = w.ls;
	// prefix
	u8* o = ref_buf; int col = w.col;
	for(size_t i = 0; i < p; i++) { o = put(o, col, ls, in[i]); n_trans++; }
	// suffixes by column, on demand
	struct Suf { bool have; u8* at; size_t n; int col; };
	static std::vector<Suf> suf; suf.assign(ls + 3 > 700 ? 700 : ls + 3, Suf{false, 0, 0, 0});
	static std::vector<u8> pool; static const size_t POOL = 48 * ROOM; pool.resize(POOL); size_t used = 0;
	cur.kind = "enc"; cur.in = in; cur.len = w.L; cur.p[0] = ls; cur.p[1] = w.col; cur.p[2] = w.off; cur.p[3] = dst_mode; cur.p[4] = want_round; cur.p[5] = want_safe; cur.p[6] = want_spec; cur.p[7] = part;
	int ix[24], cs[24]; u8* op[24]; int d = 0; ix[0] = 0; cs[0] = col; op[0] = o; u64 leaf = 0;
	for(;;) {
		if(d == w.K) {
			u8* e = op[d]; int c = cs[d]; bool rest = p + w.K < w.L;
			if(rest) {
				Suf local = {false, 0, 0, 0}; Suf& s = (size_t)c < suf.size() ? suf[c] : local;
				if(!s.have) {
					if(used + w.L * 5 + 16 > POOL) { used = 0; for(auto& x : suf) x.have = false; }
					s.at = pool.data() + used; u8* q = s.at; int cc = c;
					for(size_t i = p + w.K; i < w.L; i++) { q = put(q, cc, ls, in[i]); n_trans++; }
					s.n = q - s.at; s.col = cc; s.have = true; used += s.n + 8; n_states++;
				}
				memcpy(e, s.at, s.n); e += s.n; c = s.col;
			}
			u8 last = e[-1]; u8* f = part ? e : finish(e);
			run_one(in, w.L, ls, w.col, ref_buf, f - ref_buf, c);
			e[-1] = last;
			if(!(leaf++ & 255)) outcome((f - ref_buf) * 131 + c);
			d--; if(d < 0) break; ix[d]++; continue;
		}
		if(ix[d] == w.A) { d--; if(d < 0) break; ix[d]++; continue; }
		in[p + d] = w.al[ix[d]];
		int c = cs[d]; op[d+1] = put(op[d], c, ls, in[p+d]); cs[d+1] = c; n_trans++; d++; ix[d] = 0;
	}
	if(leaf && samples.size() < 2 && p > 8) sample("line_size=%d column=%d length=%zu filler#%d window@%zu: all %llu words of length %d over %d symbols", ls, w.col, w.L, w.f, p, (unsigned long long)leaf, w.K, w.A);
	count("windows");
}

static bool T;
static u64 item; static Task task;
static bool mine() { return (int)(item++ % task.nshards) == task.shard && !out_of_time(); }
static u8 ALL[256];

static void lines(int K, int fstep) { // every line size, words around the first two line ends
	static const int F3[] = {F_N, F_S15, F_LCG, F_ALT, F_DOT, F_S7};
	for(int ls = 1; ls <= (T ? 420 : 300); ls++) for(int fi = 0; fi < 6; fi++) {
		if(!T && fi >= 2 && (ls + fi) % fstep) continue;
		size_t L = (size_t)ls * 2 + 150; if(L < 230) L = 230;
		for(int d = -K - 2; d <= 2; d++) for(int line = 1; line <= 2; line++) {
			long p = (long)ls * line + d; if(p < 0) continue;
			if(!mine()) continue;
			windows({ls, 0, AL4, 4, K, F3[fi], L, -1}, p);
		}
	}
}

static void plan_spec() {
	// every byte value at every position, alone
	for(int ls : {128, 45, 64}) for(size_t p = 0; p < 300; p++) if(mine()) { windows({ls, 0, ALL, 256, 1, F_N, 300, -1}, p); windows({ls, 0, ALL, 256, 1, F_S7, 300, -1}, p); }
	// pairs of byte values around a line end
	for(int p = 120; p < 131; p++) if(mine()) windows({128, 0, ALL, 256, 2, F_N, 300, -1}, p);
	for(int p = 40; p < 46; p += T ? 1 : 2) if(mine()) windows({45, 0, ALL, 256, 2, F_S15, 300, -1}, p);
	// complete short inputs
	for(int ls : {1, 2, 3, 4, 5, 6, 128}) for(int K = 1; K <= (T ? 7 : 6); K++) if(mine()) windows({ls, 0, AL8, 8, K, F_N, (size_t)K, -1}, 0);
	lines(T ? 6 : 5, 4);
	// every escape pattern of 16 consecutive bytes (table-driven expansion) at every vector phase, including line ends
	struct M { const u8* al; int ls; int f; } ms[] = {{AL2, 128, F_N}, {AL2B, 40, F_N}, {AL2, 64, F_ALT}, {AL2C, 100, F_N}};
	for(auto& m : ms) for(size_t p = 0; p + 16 <= 260; p += T ? 1 : 3) if(mine()) windows({m.ls, 0, m.al, 2, 16, m.f, 330, -1}, p);
	// words anywhere
	for(size_t p = 0; p + 6 <= 290; p++) for(int f : {F_N, F_ESC, F_LCG, F_MIX}) if(mine()) windows({128, 0, AL4, 4, T ? 7 : 5, f, 290, -1}, p);
	// every length (what the vector loop leaves over), several line sizes, words at the end
	for(size_t L = 4; L <= (T ? 700 : 400); L++) for(int ls : {12, 16, 17, 33, 64, 128, 200}) { if(!mine()) continue; for(int f : {F_N, F_ALT, F_TAB, F_S31}) windows({ls, 0, AL4, 4, 4, f, L, -1}, L - 4); }
	// huge line sizes, long inputs
	for(int ls : {997, 4096, 1 << 20, 0x7fffffff}) for(int f = 0; f < NF; f++) for(size_t p : {(size_t)0, (size_t)900, (size_t)992, (size_t)4090, (size_t)4094, (size_t)4996}) if(mine()) windows({ls, 0, AL4, 4, 3, f, 5000, -1}, p);
}

static void plan_col() {
	for(int ls = 1; ls <= (T ? 260 : 140); ls++) for(int col = 0; col < ls; col++) {
		if(!T && ls > 48 && ls != 64 && ls != 128 && ls != 127 && ls != 129 && ls != 100) continue;
		if(!mine()) continue;
		for(int f : {F_N, F_S7, F_ESC}) {
			size_t L = 330;
			windows({ls, col, AL4, 4, 4, f, L, -1}, 0);
			long p = ls - col - 3; if(p > 0) windows({ls, col, AL4, 4, 4, f, L, -1}, p);
		}
		windows({ls, col, ALL, 256, 1, F_N, 300, -1}, 0);
		windows({ls, col, ALL, 256, 1, F_N, 300, -1}, 1);
		for(size_t L = 1; L <= 5; L++) windows({ls, col, AL8, 8, L > 4 ? 4 : (int)L, F_N, L, -1}, 0);
		for(size_t L : {(size_t)60, (size_t)66, (size_t)129, (size_t)131}) windows({ls, col, AL4, 4, 3, F_ALT, L, -1}, L - 3);
	}
	for(int ls : {128, 64}) for(int col = 0; col < ls; col += 3) for(size_t p = 0; p < 3; p++) if(mine()) windows({ls, col, AL2, 2, 12, F_N, 330, -1}, ls > col + 8 ? ls - col - 8 + p : p);
}

// A piece from every column a previous one can have ended at (one beyond the line size, if that ended in an escape). As the column
// is all that is passed on, this decides every sequence of pieces.
static void plan_chain() {
	part = true; int B = T ? 260 : 140;
	for(int ls = 1; ls <= B; ls++) for(int col = 0; col <= ls + 1; col++) {
		if(!T && ls > 36 && ls != 48 && ls != 64 && ls != 128 && ls != 127 && ls != 129 && ls != 100) continue;
		if(!mine()) continue;
		for(size_t L = 1; L <= 4; L++) windows({ls, col, AL8, 8, (int)L, F_N, L, -1}, 0);
		windows({ls, col, ALL, 256, 1, F_N, 1, -1}, 0);
		for(int f : {F_N, F_ESC, F_S7}) {
			windows({ls, col, AL4, 4, 4, f, 330, -1}, 0);
			long p = ls - col - 3; if(p > 0) windows({ls, col, AL4, 4, 4, f, 330, -1}, p);
		}
		// ends in and around a line end: in the first line, and after the vectorised part
		for(int f : {F_N, F_ALT}) for(int far = 0; far < 2; far++) for(int d = -2; d <= 2; d++) {
			long L = ls - col + d; if(far) while(L < 150) L += ls;
			if(f == F_ALT) L = (ls - col) / 2 + d + (far ? (150 / ls + 1) * ((ls + 1) / 2) : 0); // lines of half as many bytes
			if(L >= 4) windows({ls, col, AL4, 4, 4, f, (size_t)L, -1}, L - 4);
		}
		if(ls < 3 || ls > 30) for(int v = 0; v < 256; v += 16) windows({ls, col, ALL + v, 16, 1, F_N, (size_t)(ls > 2 && ls > col ? ls - col : 3), -1}, ls > 2 && ls > col ? ls - col - 1 : 2);
	}
	for(size_t L = 1; L <= (T ? 500 : 300); L++) for(int ls : {1, 2, 11, 12, 16, 33, 64, 128}) for(int col : {0, 1, ls - 1, ls, ls + 1}) { if((col == 1 && ls < 3) || (!T && (L + ls + col) % 2) || !mine()) continue; int K = L < 3 ? L : 3;
		for(int f : {F_N, F_TAB, F_LCG, F_ESC}) windows({ls, col, AL4, 4, K, f, L, -1}, L - K); }
	for(int ls : {997, 4096, 1 << 20, 0x7ffffffe}) for(int f = 0; f < NF; f++) for(int k = 0; k < 5; k++) for(size_t L : {(size_t)1, (size_t)3, (size_t)200, (size_t)1100}) { if(!mine()) continue; int col = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? ls - 1 : k == 3 ? ls : ls - 300;
		windows({ls, col, AL4, 4, L < 3 ? (int)L : 3, f, L, -1}, L < 3 ? 0 : L - 3); windows({ls, col, AL4, 4, L < 3 ? (int)L : 3, f, L, -1}, 0); }
	part = false;
}

static void plan_round() {
	for(int ls : {1, 2, 3, 4, 128}) for(int K = 1; K <= (T ? 7 : 6); K++) if(mine()) windows({ls, 0, AL8, 8, K, F_N, (size_t)K, -1}, 0);
	for(int ls : {128, 61}) for(size_t p = 0; p < 300; p++) if(mine()) { windows({ls, 0, ALL, 256, 1, F_N, 300, -1}, p); windows({ls, 0, ALL, 256, 1, F_MIX, 300, -1}, p); }
	for(int p = 122; p < 131; p += 2) if(mine()) windows({128, 0, ALL, 256, 2, F_N, 300, -1}, p);
	lines(T ? 5 : 3, 5);
	for(size_t L = 4; L <= (T ? 700 : 330); L++) for(int ls : {12, 33, 128}) if(mine()) { for(int f : {F_N, F_ALT, F_TAB, F_LCG}) windows({ls, 0, AL4, 4, 4, f, L, -1}, L - 4); }
	for(int f = 0; f < NF; f++) for(size_t p = 0; p + 5 <= 290; p += T ? 1 : 3) if(mine()) windows({128, 0, AL4, 4, 5, f, 290, -1}, p);
	for(int ls : {128, 64}) for(size_t p = 0; p + 16 <= 160; p += T ? 4 : 32) if(mine()) windows({ls, 0, AL2, 2, 16, F_N, 200, -1}, p);
	for(int ls : {40, 128}) for(int col = 1; col < ls; col++) if(mine()) windows({ls, col, AL4, 4, 5, F_N, 200, -1}, 0);
	for(int ls : {128, 997}) for(int f = 0; f < NF; f++) if(mine()) windows({ls, 0, AL4, 4, 4, f, 12000, -1}, 11990);
}

static void plan_mem() { // the output buffer has exactly the documented maximum size; the source ends (or starts) at a guard page
	for(int mode = 0; mode < 2; mode++) {
		for(size_t L = 1; L <= (T ? 500 : 300); L++) for(int ls : {1, 2, 3, 11, 12, 15, 16, 17, 31, 33, 64, 128, 255}) {
			if(!T && mode && (L + ls) % 4) continue;
			if(!mine()) continue;
			dst_mode = mode;
			for(int f : {F_N, F_ESC, F_ALT, F_TAB, F_LCG}) {
				int K = L < 3 ? L : 3;
				windows({ls, 0, AL4, 4, K, f, L, mode ? (long)(L * 7 % 64) : -1}, L - K);
				if(f == F_ESC || f == F_N) windows({ls, ls - 1, AL4, 4, K, f, L, mode ? (long)(L * 5 % 64) : -1}, 0);
				if(ls > 1 && f == F_ESC) windows({ls, ls / 2, AL4, 4, K, f, L, mode ? (long)(L * 5 % 64) : -1}, L / 2 + K <= L ? L / 2 : 0);
			}
		}
		dst_mode = mode;
		for(long off = 0; off < 64; off++) for(int f : {F_N, F_ESC, F_LCG}) if(mine()) { dst_mode = mode; windows({128, 0, AL4, 4, 4, f, 333, off}, 0); windows({128, 5, AL4, 4, 4, f, 333, off}, 329); }
		for(int ls : {12, 64, 128, 997}) for(int f : {F_N, F_ESC, F_ALT, F_LCG}) for(size_t L : {(size_t)4096, (size_t)8191}) if(mine()) { dst_mode = mode; windows({ls, 0, AL4, 4, 3, f, L, -1}, L - 3); windows({ls, ls - 1, AL4, 4, 3, f, L, -1}, 0); }
		// source starting right after a guard page (vector code looks at the byte before)
		for(size_t L : {(size_t)130, (size_t)200, (size_t)333}) for(int col : {0, 1, 5, 126, 127}) if(mine()) {
			dst_mode = mode;
			u8* in = A_src->base; fill(in, L, F_LCG); u8* o = ref_buf; int c = col; for(size_t i = 0; i < L; i++) o = put(o, c, 128, in[i]); o = finish(o);
			cur.kind = "enc"; cur.in = in; cur.len = L; cur.p[0] = 128; cur.p[1] = col; cur.p[2] = -2; cur.p[3] = mode; cur.p[4] = cur.p[5] = 0; cur.p[6] = 1;
			run_one(in, L, 128, col, ref_buf, o - ref_buf);
		}
	}
	dst_mode = 0;
}

static void plan_small() { // all of the above at bounds an emulated processor can manage
	int X = T ? 1 : 0;
	int B = 64; if(const char* v = strstr(level_name(task.level), "rvv")) { int n = atoi(v + 3) / 4; if(n > B) B = n; } // block size (scalable vectors: two registers); lines shorter than two blocks aren't vectorised
	size_t D = 3 * (B - 64); int S = B * 2;
	auto near = [&](size_t p) { return B == 64 || T || p % B < 6 || p % (size_t)B > (size_t)B - 7 || p % 5 == 0; };
	for(size_t p = 0; p < 300 + D; p++) if(near(p) && mine()) { windows({S, 0, ALL, 256, 1, F_N, 300 + D, -1}, p); if(T || p % 3 == 0) windows({B == 64 ? 45 : S + 5, 0, ALL, 256, 1, F_S7, 300 + D, -1}, p); }
	for(int p = S - 2; p < S; p++) for(int h = 0; h < 256; h += 32) if(mine()) windows({S, 0, ALL + h, 32, 2, F_N, 200 + 2 * D, -1}, p);
	want_round = want_safe = true;
	for(int ls : {1, 2, 3, 4, 5, 128}) for(int K = 1; K <= 4 + X; K++) if(mine()) windows({ls, 0, AL8, 8, K, F_N, (size_t)K, -1}, 0);
	for(size_t p = 0; p + 3 + X <= 290 + 2 * D; p++) for(int f : {F_N, F_LCG, F_MIX}) if(near(p) && mine()) windows({S, 0, AL4, 4, 3 + X, f, 290 + 2 * D, -1}, p);
	for(size_t L = 4; L <= (T ? 400 : 200) + D; L++) for(int ls : {16, 64, 128, S + 1}) if(mine()) for(int f : {F_N, F_ALT, F_TAB, F_S31}) windows({ls, 0, AL4, 4, 2 + X, f, L, -1}, L - 2 - X);
	want_round = want_safe = false;
	static const int F3[] = {F_N, F_S15, F_LCG, F_ALT, F_DOT, F_S7, F_ESC};
	for(int ls = 1; ls <= (int)((T ? 300 : 260) + D); ls += T || ls < 140 || (ls > S - 12 && ls < S + 20) ? 1 : 5) for(int fi = 0; fi < 7; fi++) { if(!T && fi && (ls + fi) % 6) continue;
		size_t L = (size_t)ls + 130 + D; if(L < 180) L = 180;
		for(int d = -5; d <= 2; d++) { long p = (long)ls + d; if(p < 0 || !mine()) continue; windows({ls, 0, AL4, 4, 3 + X, F3[fi], L, -1}, p); } }
	struct M { const u8* al; int ls; int f; } ms[] = {{AL2, 128, F_N}, {AL2B, 40, F_N}, {AL2, 64, F_ALT}, {AL2C, 100, F_N}};
	for(auto& m : ms) for(size_t p : {(size_t)16, (size_t)48, (size_t)61, (size_t)88}) { if(!T && p != 48 && !(p == 61 && m.ls == 64)) continue; if(mine()) windows({B == 64 ? m.ls : S + m.ls, 0, m.al, 2, 16, m.f, 160 + D, -1}, p); }
	for(int ls : {12, 33, 64, 128, S + 2}) for(int col = 0; col < ls; col++) if(near(col) && mine()) for(int f : {F_N, F_ESC}) { windows({ls, col, AL4, 4, 3, f, 200 + D, -1}, 0); long p = ls - col - 3; if(p > 0) windows({ls, col, AL4, 4, 3, f, 200 + D, -1}, p); }
	for(int ls : {997, 4096, 0x7fffffff}) for(int f = 0; f < NF; f++) for(size_t p : {(size_t)0, (size_t)992, (size_t)4090, (size_t)4996}) if(mine()) windows({ls, 0, AL4, 4, 2, f, 5000, -1}, p);
	// pieces of incremental encoding
	part = true;
	for(int ls : {3, 12, 33, 64, 128, S + 2}) for(int col = 0; col <= ls + 1; col++) if((near(col) || col > ls - 4) && mine()) for(int far = 0; far < 2; far++) for(int d = 0; d < 2 + X; d++) { long L = ls - col + d; if(far) while(L < 160 + (long)D) L += ls; if(L >= 3) windows({ls, col, AL4, 4, 3, F_N, (size_t)L, -1}, L - 3); }
	part = false;
	// surroundings
	for(int mode = 0; mode < 2; mode++) for(size_t L = 1; L <= (T ? 330 : 200) + D; L++) for(int ls : {1, 3, 12, 16, 33, S}) { if((!T && (L + ls) % 2) || !mine()) continue; dst_mode = mode; int K = L < 2 ? L : 2;
		for(int f : {F_N, F_ESC, F_ALT, F_LCG}) { windows({ls, 0, AL4, 4, K, f, L, mode ? (long)(L * 7 % 64) : -1}, L - K); if(f == F_ESC) windows({ls, ls - 1, AL4, 4, K, f, L, mode ? (long)(L * 5 % 64) : -1}, 0); } }
	dst_mode = 0;
	for(long off = 0; off < 64; off++) for(int f : {F_N, F_ESC}) if(mine()) { windows({S, 0, AL4, 4, 3, f, 233 + D, off}, 0); windows({S, 5, AL4, 4, 3, f, 233 + D, off}, 230 + D); }
}

int main(int argc, char** argv) {
	parse_args(argc, argv); T = opt.thorough;
	A_src = new Arena(ROOM); A_dst = new Arena(ROOM * 5); A_dec = new Arena(ROOM * 3);
	for(int i = 0; i < 256; i++) ALL[i] = i;
	if(!opt.replay.empty()) {
		ReplayCase r; if(!load_replay(opt.replay, r)) return 3;
		if(!level_runs_here(r.level)) { printf("level not available on this CPU\n"); return 3; }
		cur.level = r.level; arm(); level_init(r.level);
		size_t L = r.in.size(); u8* in = r.p[2] == -2 ? A_src->base : r.p[2] < 0 ? A_src->end() - L : A_src->base + 256 + r.p[2];
		memcpy(in, r.in.data(), L);
		if(r.p[2] >= 0) { memset(in - 64, R('='), 64); memset(in + L, R('='), 64); }
		dst_mode = r.p[3]; want_round = r.p[4]; want_safe = r.p[5]; want_spec = r.p[6]; part = r.p[7];
		u8* o = ref_buf; int c = r.p[1]; for(size_t i = 0; i < L; i++) o = put(o, c, r.p[0], in[i]); if(!part) o = finish(o);
		cur.kind = "enc"; cur.in = in; cur.len = L; memcpy(cur.p, r.p, sizeof cur.p);
		run_one(in, L, r.p[0], r.p[1], ref_buf, o - ref_buf, c);
		printf("replay: no violation\n");
		return 0;
	}
	std::string plan = opt.str("plan");
	std::vector<int> levels = levels_of({"sse2", "ssse3", "avx", "avx2", "avx3", "vbmi2"});
	if(opt.has("levels")) { std::vector<int> k; for(int l : levels) if(("," + opt.str("levels") + ",").find(std::string(",") + level_name(l) + ",") != std::string::npos) k.push_back(l); levels = k; }
	return explore(levels, opt.num("shards", 8), [&](const Task& t) {
		task = t; item = 0;
		if(plan == "spec") plan_spec();
		else if(plan == "col") plan_col();
		else if(plan == "chain") plan_chain();
		else if(plan == "round") { want_spec = false; want_round = true; plan_round(); }
		else if(plan == "safe") { want_spec = false; want_safe = true; plan_round(); plan_col(); }
		else if(plan == "small") plan_small();
		else if(plan == "mem") { want_spec = false; plan_mem(); }
		else { fprintf(stderr, "unknown plan\n"); _exit(3); }
		cur.kind = "idle";
	});
}
