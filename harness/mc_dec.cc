// Exhaustive exploration of the yEnc decoders against a 7-state reference automaton.
// mode 0: plain decode    mode 1: decode with dot-unstuffing    mode 2: incremental decode with end detection
#include "mc.h"
using namespace RapidYenc;

// ---- reference model ------------------------------------------------------------------------------------------
enum { S_CRLF, S_EQ, S_CR, S_NONE, S_DT, S_DTCR, S_CEQ, S_ENDC, S_ENDA };
static const char* SN[] = {"CRLF", "EQ", "CR", "NONE", "CRLF.", "CRLF.CR", "CRLF=", "END=y", "END."};
// one byte: appends at most one byte at *o; returns the next state
static inline int step(int mode, int s, u8 c, u8*& o) {
	if(s >= S_ENDC) return s;
	if(s == S_CEQ) { if(c == 'y') return S_ENDC; s = S_EQ; }
	if(s == S_EQ) { *o++ = c - 106; return mode && c == '\r' ? S_CR : S_NONE; }
	if(s == S_CR && c == '\n') return S_CRLF;
	if(s == S_DTCR && c == '\n') return S_ENDA;
	if(mode && s == S_CRLF && c == '.') return mode == 2 ? S_DT : S_NONE;
	if(mode == 2 && (s == S_CRLF || s == S_DT) && c == '=') return S_CEQ;
	if(mode == 2 && s == S_DT && c == '\r') return S_DTCR;
	if(c == '\r') return mode ? S_CR : S_NONE;
	if(c == '\n') return S_NONE;
	if(c == '=') return S_EQ;
	*o++ = c - 42;
	return S_NONE;
}
struct Exp { const u8* out; size_t n, read; int state; };

// ---- one execution of the implementation ----------------------------------------------------------------------
struct Got { size_t n, read; int state, ended; };
static inline Got impl(int mode, const u8* src, u8* dst, size_t len, int s0) {
	Got g; n_exec++;
	if(mode < 2) { g.n = RapidYenc::decode(mode, src, dst, len, NULL); g.read = len; g.state = -1; g.ended = 0; return g; }
	YencDecoderState st = (YencDecoderState)s0;
	const void* sp = src; void* dp = dst;
	g.ended = (int)RapidYenc::decode_end(&sp, &dp, len, &st);
	g.n = (u8*)dp - dst; g.read = (const u8*)sp - src; g.state = st;
	return g;
}
static void mismatch(int mode, const Got& g, const u8* out, size_t len, const Exp& e, const char* what) {
	size_t i = 0; while(i < e.n && i < g.n && e.out[i] == out[i]) i++;
	violation("%s: mode %d level %s len %zu: wrote %zu bytes (expected %zu), first difference at %zu, read %zu (expected %zu), ended %d, state %s (expected %s)",
		what, mode, level_name(cur.level), len, g.n, e.n, i, g.read, e.read, g.ended, g.state < 0 ? "-" : g.ended ? "ended" : g.state < 7 ? SN[g.state] : "?", SN[e.state]);
}
static inline void check_meta(int mode, const Got& g, const u8* out, size_t len, const Exp& e, const char* what) {
	bool ok = g.n == e.n;
	if(mode == 2) {
		int want_end = e.state == S_ENDC ? YDEC_END_CONTROL : e.state == S_ENDA ? YDEC_END_ARTICLE : YDEC_END_NONE;
		ok = ok && g.read == e.read && g.ended == want_end && (want_end || g.state == e.state);
	}
	if(!ok) mismatch(mode, g, out, len, e, what);
}

// ---- places: where source and destination live ------------------------------------------------------------------
static const size_t ROOM = 8192;
static Arena* A_src; static Arena* A_dst;
enum Place { END_FLUSH, START_FLUSH, OFFSET };
static u8* src_at(Place pl, size_t len, size_t off) {
	if(pl == END_FLUSH) return A_src->end() - len;
	if(pl == START_FLUSH) return A_src->base;
	return A_src->base + 256 + off;
}

// ---- fillers ------------------------------------------------------------------------------------------------
static const char* FILL[] = {
	"a", "=", "=a", "\r\n", "\r\n.a", ".", "\r", "=\r", "=\r\n.", "\n", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\r\n", "\r\n..", "aaaaaaa=", "=y", "y",
	"=\n", "\n.", "\r\n=a", "a.", "=.", "\r\r\n", "aaaaaaaaaaaaaaaaaaaaaaaaaaaa\r\n.", "==a",
};
static const int NFILL = sizeof FILL / sizeof *FILL;
static void fill(u8* d, size_t n, int f, int phase) { size_t k = strlen(FILL[f]); for(size_t i = 0; i < n; i++) d[i] = FILL[f][(i + phase) % k]; }

// ---- windows: all words of length K over an alphabet, at one position of a filled buffer ---------------------------
struct Win {
	int mode, s0; const u8* al; int A, K; int f, phase; size_t L; Place pl; size_t off; bool insitu; int poison; bool flushdst;
};
static const char* POISON[] = {"", ".", "\r\n.", "=y", "\n.=y\r\n", "y", "=", "\r\n.\r\n"};
static void poison_fill(u8* from, u8* to, int k) { size_t n = strlen(POISON[k]); if(!n) return; for(size_t i = 0; from + i < to; i++) from[i] = POISON[k][i % n]; }

static u8 exp_buf[ROOM], suf_buf[9][ROOM];
static void windows(const Win& w, size_t p) {
	size_t L = w.L; int mode = w.mode;
	static std::vector<u8> work; work.resize(L + 1);
	u8* src = src_at(w.pl, L, w.off);
	u8* in = w.insitu ? work.data() : src; // the word under exploration lives here
	fill(in, L, w.f, w.phase);
	u8* dst; size_t dcan = 0;
	if(w.insitu) dst = src;
	else if(w.flushdst) dst = A_dst->end() - L;
	else { dst = A_dst->base + 1024; dcan = 64; }
	if(w.poison) {
		if(w.pl == OFFSET) { poison_fill(src - 64, src, w.poison); poison_fill(src + L, src + L + 64, w.poison); }
		else if(w.pl == END_FLUSH) poison_fill(src - 64, src, w.poison);
		else poison_fill(src + L, src + L + 64, w.poison);
	}
	if(!w.insitu) { memset(dst - 64, 0xC3, 64); if(dcan) memset(dst + L, 0xC3, 64); }
	static u8 save_before[64], save_after[64];
	if(w.insitu) { if(w.pl != START_FLUSH) memcpy(save_before, src - 64, 64); if(w.pl != END_FLUSH) memcpy(save_after, src + L, 64); }

	// prefix
	u8* o = exp_buf; int s = w.s0;
	for(size_t i = 0; i < p; i++) { s = step(mode, s, in[i], o); n_trans++; if(s >= S_ENDC) return; }
	// suffix from every state
	struct Suf { size_t n, read; int state; } suf[9];
	for(int k = 0; k < 7; k++) {
		u8* q = suf_buf[k]; int t = k; size_t i = p + w.K;
		while(i < L && t < S_ENDC) { t = step(mode, t, in[i], q); i++; n_trans++; }
		suf[k] = {(size_t)(q - suf_buf[k]), i, t}; n_states++;
	}
	cur.kind = w.insitu ? "insitu" : "window"; cur.in = src; cur.len = L;
	cur.p[0] = mode; cur.p[1] = w.s0; cur.p[2] = w.pl; cur.p[3] = w.off; cur.p[4] = w.insitu; cur.p[5] = w.poison; cur.p[6] = w.flushdst;
	static std::vector<u8> snap; if(w.insitu) { snap.resize(L); cur_copy = &snap; } else cur_copy = 0;

	int st[20]; u8* op[20]; size_t endpos[20]; int ix[20];
	st[0] = s; op[0] = o; endpos[0] = 0; int d = 0; ix[0] = 0; u64 leaf = 0;
	for(;;) {
		if(d == w.K) {
			int t = st[d]; Exp e; e.out = exp_buf;
			size_t head = op[d] - exp_buf;
			if(t >= S_ENDC) { e.n = head; e.read = endpos[d]; e.state = t; }
			else { e.n = head + suf[t].n; e.read = suf[t].read; e.state = suf[t].state; }
			if(w.insitu) { memcpy(src, in, L); memcpy(snap.data(), in, L); }
			Got g = impl(mode, src, dst, L, w.s0);
			bool ok = !memcmp(dst, exp_buf, head < g.n ? head : g.n) && (t >= S_ENDC || g.n != e.n || !memcmp(dst + head, suf_buf[t], suf[t].n));
			if(t < S_ENDC && (!ok || g.n != e.n)) memcpy(exp_buf + head, suf_buf[t], suf[t].n);
			if(!ok) mismatch(mode, g, dst, L, e, "output differs from the reference");
			check_meta(mode, g, dst, L, e, "result differs from the reference");
			if(!w.insitu) {
				for(int k = 0; k < 64; k += 8) if(*(u64*)(dst - 64 + k) != 0xC3C3C3C3C3C3C3C3ull) violation("bytes before the destination were modified");
				if(dcan) for(int k = 0; k < 64; k += 8) if(*(u64*)(dst + L + k) != 0xC3C3C3C3C3C3C3C3ull) violation("bytes after the destination (length of the input) were modified");
			} else {
				if(w.pl != START_FLUSH && memcmp(save_before, src - 64, 64)) violation("in-situ decode modified bytes before the buffer");
				if(w.pl != END_FLUSH && memcmp(save_after, src + L, 64)) violation("in-situ decode modified bytes after the buffer");
			}
			if(!(leaf++ & 1023)) outcome(g.n * 31 + g.read * 7 + g.ended * 3 + (g.state + 1));
			d--; if(d < 0) break; ix[d]++; continue;
		}
		if(ix[d] == w.A) { d--; if(d < 0) break; ix[d]++; continue; }
		u8 c = w.al[ix[d]]; in[p + d] = c;
		u8* q = op[d]; int t = step(mode, st[d], c, q); n_trans++;
		endpos[d+1] = st[d] >= S_ENDC ? endpos[d] : p + d + 1;
		st[d+1] = t; op[d+1] = q; d++; ix[d] = 0;
	}
	if(leaf && samples.size() < 2 && p == w.L/2) sample("mode=%d start=%s filler#%d L=%zu window@%zu K=%d: %llu words", mode, SN[w.s0], w.f, L, p, w.K, (unsigned long long)leaf);
	cur_copy = 0;
	count("windows");
}

// ---- events: strings dropped at chosen positions ---------------------------------------------------------------
static const char* EV[] = {"=", "==", "\r\n", "\r\n.", "\r\n=y", "\r\n.\r\n", "\r\n.=y", "=\r\n.", ".", "\r", "\n", "=y", "\r\n=a", "=\r", "\r\n..", "\r\n.=\r\n.", "===", "\n=y"};
static const int NEV = sizeof EV / sizeof *EV;
static void full_check(int mode, int s0, const u8* src, size_t L, u8* dst, const char* what) {
	static u8 ob[ROOM]; u8* o = ob; int s = s0; size_t i = 0;
	while(i < L && s < S_ENDC) { s = step(mode, s, src[i], o); i++; n_trans++; }
	n_states++;
	Exp e = {ob, (size_t)(o - ob), i, s};
	Got g = impl(mode, src, dst, L, s0);
	if(g.n != e.n || memcmp(dst, ob, e.n)) mismatch(mode, g, dst, L, e, what);
	check_meta(mode, g, dst, L, e, what);
	outcome(g.n * 31 + g.read * 7 + g.ended * 3 + (g.state + 1));
}

// ---- splits ---------------------------------------------------------------------------------------------------
// feeds the chunks one after another, carrying the state the implementation returns; split_mode 0/1: decode() without/with
// dot-unstuffing (encoded in case parameter 0)
static int split_mode = 2;
static void split_check(const u8* in, size_t L, const size_t* cuts, int ncuts, int s0, u8* sb, u8* db) {
	static u8 ob[ROOM]; u8* o = ob; int s = s0; size_t i = 0;
	while(i < L && s < S_ENDC) { s = step(split_mode, s, in[i], o); i++; n_trans++; }
	n_states += ncuts + 2;
	size_t total = o - ob, endpos = i;
	YencDecoderState st = (YencDecoderState)s0; size_t pos = 0, w = 0; int ended = 0;
	for(int c = 0; c <= ncuts && !ended; c++) {
		size_t to = c == ncuts ? L : cuts[c]; if(to == pos) continue;
		size_t n = to - pos;
		u8* src = sb - n; memcpy(src, in + pos, n); // every chunk ends at the guard page
		u8* dst = db - n;
		const void* sp = src; void* dp = dst; n_exec++;
		if(split_mode < 2) { dp = dst + RapidYenc::decode(split_mode, src, dst, n, &st); sp = src + n; }
		else ended = (int)RapidYenc::decode_end(&sp, &dp, n, &st);
		size_t k = (u8*)dp - dst, r = (const u8*)sp - src;
		if(w + k > total || memcmp(dst, ob + w, k)) violation("split decode: chunk %d of %d at offset %zu gives wrong output (state %s after it)", c, ncuts + 1, pos, st < 7 ? SN[st] : "?");
		if(!ended && r != n) violation("split decode: chunk not fully read although the end was not reached");
		w += k; pos += r;
	}
	int want_end = s == S_ENDC ? YDEC_END_CONTROL : s == S_ENDA ? YDEC_END_ARTICLE : YDEC_END_NONE;
	if(ended != want_end || w != total || pos != endpos || (split_mode == 2 && !ended && (int)st != s))
		violation("split decode: ended=%d (expected %d), %zu bytes (expected %zu), read %zu (expected %zu), state %s (expected %s)", ended, want_end, w, total, pos, endpos, st < 7 ? SN[st] : "?", SN[s]);
	outcome(total * 31 + endpos * 7 + ended * 3 + s);
}

static const u8 AL6[] = {'a', '\r', '\n', '.', '=', 'y'};

// ---- the plans --------------------------------------------------------------------------------------------------
static void plan_spec(const Task& t, int mode) {
	bool T = opt.thorough; u64 item = 0;
	auto mine = [&]() { return (int)(item++ % t.nshards) == t.shard && !out_of_time(); };
	u8 all[256]; for(int i = 0; i < 256; i++) all[i] = i;
	// every short input from every start state (scalar path), complete words
	int NS = T ? 8 : 7;
	for(int s0 = 0; s0 < (mode == 2 ? 7 : 1); s0++) for(int K = 1; K <= NS; K++)
		if(mine()) windows({mode, s0, AL6, 6, K, 0, 0, (size_t)K, END_FLUSH, 0, false, 0, true}, 0);
	// every byte value, alone and after each critical byte
	for(size_t L : {(size_t)200, (size_t)263}) for(size_t p = 0; p < L; p++) if(mine()) {
		windows({mode, 0, all, 256, 1, 0, 0, L, END_FLUSH, 0, false, 0, true}, p);
		windows({mode, 0, all, 256, 1, 2, 1, L, END_FLUSH, 0, false, 0, true}, p); // "a=" filler: escaped values
		windows({mode, 0, all, 256, 1, 2, 0, L, END_FLUSH, 0, false, 0, true}, p);
	}
	// every pair of byte values
	for(size_t p = 0; p < 200; p += T ? 1 : 21) if(mine()) windows({mode, 0, all, 256, 2, 0, 0, 200, END_FLUSH, 0, false, 0, true}, p);
	// initial state x alignment x words at the start of the buffer
	for(int s0 = 0; s0 < (mode == 2 ? 7 : 1); s0++) for(size_t off = 0; off < 64; off++) for(size_t p = 0; p < 3; p++) if(mine())
		windows({mode, s0, AL6, 6, T ? 5 : 4, 0, 0, 230, OFFSET, off, false, 0, true}, p);
	// all words of length K at every position, plain filler
	for(size_t p = 0; p + 7 <= 210; p++) if(mine())
		windows({mode, 0, AL6, 6, T ? 8 : 7, 0, 0, 210, END_FLUSH, 0, false, 0, true}, p);
	// every alignment of both ends of the source x every filler, words at the end (what the vector loop leaves over) and
	// at the start in every initial state
	for(size_t off = 0; off < 64; off++) for(size_t eo = 0; eo < 64; eo++) {
		if(!mine()) continue;
		size_t L = 131 + ((eo - off) & 63);
		for(int f = 0; f < NFILL; f++) windows({mode, 0, AL6, 6, T ? 4 : 3, f, (int)((off + eo) % strlen(FILL[f])), L, OFFSET, off, false, 0, true}, L - (T ? 4 : 3));
		for(int s0 = 0; s0 < (mode == 2 ? 7 : 1); s0++) windows({mode, s0, AL6, 6, T ? 4 : 3, 0, 0, L, OFFSET, off, false, 0, true}, 0);
	}
	// every filler and phase
	for(int f = 1; f < NFILL; f++) for(int ph = 0; ph < (int)strlen(FILL[f]) && ph < 4; ph++) for(size_t p = 0; p + 5 <= 205; p++) if(mine())
		windows({mode, 0, AL6, 6, T ? 5 : 4, f, ph, 205, END_FLUSH, 0, false, 0, true}, p);
	// every length (and with it every alignment, the end being fixed)
	for(size_t L = 5; L <= (T ? 420 : 210); L++) for(size_t p = 0; p + 3 <= L; p++) if(mine())
		windows({mode, 0, AL6, 6, 3, (int)(L % 3 ? 0 : 2), 0, L, END_FLUSH, 0, false, 0, true}, p);
	// every 2-symbol pattern of 16 bytes in each 16-byte lane (lookup table indices)
	static const u8 PAIRS[][2] = {{'a','\n'}, {'a','='}, {'a','\r'}, {'=','\n'}, {'a','.'}};
	for(auto& al : PAIRS) for(size_t p = 0; p + 16 <= 224; p += T ? 8 : 16) if(mine())
		windows({mode, 0, al, 2, 16, 0, 0, 224, END_FLUSH, 0, false, 0, true}, p);
	if(T) for(auto& al : PAIRS) for(int f : {2, 3, 12}) for(size_t p = 0; p + 16 <= 224; p += 16) if(mine())
		windows({mode, 0, al, 2, 16, f, 0, 224, END_FLUSH, 0, false, 0, true}, p);
	// two and three events anywhere in two kernel blocks
	u8* src = src_at(END_FLUSH, 256, 0); u8* dst = A_dst->end() - 256; size_t L = 256;
	cur.kind = "window"; cur.in = src; cur.len = L; memset(cur.p, 0, sizeof cur.p); cur.p[0] = mode; cur.p[6] = 1;
	for(int a = 0; a < NEV; a++) for(int b = 0; b < NEV; b++) {
		if(!mine()) continue;
		size_t la = strlen(EV[a]), lb = strlen(EV[b]);
		for(size_t p = 0; p + la < 136; p++) for(size_t q = p + la; q + lb <= (T ? 224 : 136); q++) {
			cur.kind = "window"; cur.in = src; cur.len = L; cur.p[0] = mode; cur.p[1] = 0; cur.p[2] = END_FLUSH; cur.p[4] = 0; cur.p[6] = 1;
			memset(src, 'a', L); memcpy(src + p, EV[a], la); memcpy(src + q, EV[b], lb);
			full_check(mode, 0, src, L, dst, "two events");
		}
		count("event-pairs");
		if(!T) continue;
		for(int c = 0; c < NEV; c++) { size_t lc = strlen(EV[c]);
			for(size_t p = 60; p < 70; p++) for(size_t q = p + la; q < p + la + 40; q++) for(size_t r = q + lb; r < q + lb + 24; r++) {
				memset(src, 'a', L); memcpy(src + p, EV[a], la); memcpy(src + q, EV[b], lb); memcpy(src + r, EV[c], lc);
				full_check(mode, 0, src, L, dst, "three events");
			}
		}
	}
	// large inputs, an event at every 4 KiB boundary neighbourhood (also: long runs without anything special)
	if(mode == 2 || T) for(size_t big : {(size_t)4096, (size_t)6000}) for(int a = 0; a < NEV; a++) {
		if(!mine()) continue;
		size_t la = strlen(EV[a]); u8* bs = src_at(END_FLUSH, big, 0); u8* bd = A_dst->end() - big;
		for(size_t p = 0; p + la <= big; p += p < 300 || p + 300 > big ? 1 : 17) {
			memset(bs, 'a', big); memcpy(bs + p, EV[a], la);
			cur.kind = "window"; cur.in = bs; cur.len = big; cur.p[0] = mode; cur.p[2] = END_FLUSH; cur.p[6] = 1;
			full_check(mode, 0, bs, big, bd, "one event in a long input");
		}
	}
	cur.kind = "idle";
}

static void plan_split(const Task& t) {
	bool T = opt.thorough; u64 item = 0;
	auto mine = [&]() { return (int)(item++ % t.nshards) == t.shard && !out_of_time(); };
	u8* sb = A_src->end(); u8* db = A_dst->end();
	for(split_mode = 2; split_mode >= 0; split_mode--) {
		int low = split_mode < 2, S = low ? 4 : 7; // decode() knows no pending end markers
		// product of model and implementation, one byte at a time: every state, every byte
		if(mine()) for(int s0 = 0; s0 < S; s0++) for(int c = 0; c < 256; c++) {
			u8 b = c; cur.kind = "split"; cur.in = &b; cur.len = 1; memset(cur.p, 0, sizeof cur.p); cur.p[0] = s0 + 16 * (2 - split_mode);
			split_check(&b, 1, 0, 0, s0, sb, db); count("single-byte transitions");
		}
		// every short word, every composition into chunks, every start state
		int N = (T ? 7 : 6) - low;
		for(int s0 = 0; s0 < S; s0++) for(int n = 2; n <= N; n++) {
			u64 words = 1; for(int i = 0; i < n; i++) words *= 6;
			for(u64 part = 0; part < words; part += 7776) {
				if(!mine()) continue;
				for(u64 x = part; x < words && x < part + 7776; x++) {
					u8 w[8]; u64 y = x; for(int i = 0; i < n; i++) { w[i] = AL6[y % 6]; y /= 6; }
					for(int m = 0; m < 1 << (n-1); m++) {
						size_t cuts[8]; int k = 0; for(int i = 0; i < n-1; i++) if(m >> i & 1) cuts[k++] = i+1;
						cur.kind = "split"; cur.in = w; cur.len = n; cur.p[0] = s0 + 16 * (2 - split_mode); cur.p[1] = k; for(int i = 0; i < k && i < 6; i++) cur.p[2+i] = cuts[i];
						split_check(w, n, cuts, k, s0, sb, db);
					}
				}
				count("short-word blocks");
			}
		}
		// long inputs: all words of length K around the cut, both sides long enough for vector kernels
		static u8 in[1024]; int K = (T ? 6 : 5) - low; u64 words = 1; for(int i = 0; i < K; i++) words *= 6;
		size_t Ls[] = {340};
		for(size_t L : Ls) for(int f : {0, 2}) for(size_t cut = 1; cut < L; cut += (T ? 1 : cut < 20 || (cut > 128 && cut < 140) || cut > 320 ? 1 : 5)) for(int d = -K; d <= 1; d++) {
			if((long)cut + d < 0 || cut + d + K > L) continue;
			if(!mine()) continue;
			size_t p = cut + d; fill(in, L, f, 0);
			for(u64 x = 0; x < words; x++) {
				u64 y = x; for(int i = 0; i < K; i++) { in[p+i] = AL6[y % 6]; y /= 6; }
				cur.kind = "split"; cur.in = in; cur.len = L; cur.p[0] = 16 * (2 - split_mode); cur.p[1] = 1; cur.p[2] = cut;
				split_check(in, L, &cut, 1, 0, sb, db);
			}
			if(p == L/2) sample("one cut at %zu, all %llu words at %zu..%zu, filler#%d, both chunks decoded separately", cut, (unsigned long long)words, p, p+K, f);
			count("cut positions");
		}
		// two cuts a few bytes apart (a tiny chunk between two long ones), and three
		int K2 = (T ? 5 : 4) - low; words = 1; for(int i = 0; i < K2; i++) words *= 6;
		for(size_t cut : {(size_t)150, (size_t)160, (size_t)177, (size_t)192}) for(size_t gap = 1; gap <= 5; gap++) for(int d = -4; d <= 4; d++) {
			if(!mine()) continue;
			size_t L = 340, p = cut + d; fill(in, L, 0, 0);
			for(u64 x = 0; x < words; x++) {
				u64 y = x; for(int i = 0; i < K2; i++) { in[p+i] = AL6[y % 6]; y /= 6; }
				for(int third = 0; third < 2; third++) {
					size_t cuts[3] = {cut, cut + gap, cut + gap + 1};
					cur.kind = "split"; cur.in = in; cur.len = L; cur.p[0] = 16 * (2 - split_mode); cur.p[1] = 2 + third; for(int i = 0; i < 3; i++) cur.p[2+i] = cuts[i];
					split_check(in, L, cuts, 2 + third, 0, sb, db);
				}
			}
			count("double/triple cuts");
		}
		cur.kind = "idle";
	}
	split_mode = 2;
}

static void plan_mem(const Task& t) {
	bool T = opt.thorough; u64 item = 0;
	auto mine = [&]() { return (int)(item++ % t.nshards) == t.shard && !out_of_time(); };
	for(int mode = 0; mode < 3; mode++) {
		for(size_t L = 1; L <= (T ? 330 : 200); L++) for(int pl = 0; pl < 3; pl++) for(int f : {0, 1, 3}) {
			if(!T && f && L % 4 != (size_t)f) continue;
			for(size_t p = 0; p + 3 <= L || p == 0; p += (L > 24 && p > 6 && p + 12 < L && p % 16 > 3 ? 3 : 1)) {
				if(p + (L < 3 ? L : 3) > L) break;
				if(!mine()) continue;
				int K = L < 3 ? L : 3;
				windows({mode, 0, AL6, 6, K, f, 0, L, (Place)pl, (L * 7 + p) % 64, false, (int)(1 + (L + p) % 7), true}, p);
				if((L + p) % 3 == 0) windows({mode, 0, AL6, 6, K, f, 0, L, (Place)pl, (L * 5 + p) % 64, false, (int)(1 + (L + p) % 7), false}, p);
			}
		}
		// every poison x every alignment, words against both ends of the source
		for(int po = 1; po < 8; po++) for(size_t off = 0; off < 64; off++) for(size_t L : {(size_t)129, (size_t)160, (size_t)197}) {
			if(!mine()) continue;
			windows({mode, 0, AL6, 6, 4, 0, 0, L, OFFSET, off, false, po, true}, L - 4);
			windows({mode, 0, AL6, 6, 4, 0, 0, L, OFFSET, off, false, po, false}, L - 5);
			windows({mode, 0, AL6, 6, 3, 0, 0, L, OFFSET, off, false, po, true}, 0);
		}
	}
	cur.kind = "idle";
}

static void plan_insitu(const Task& t) {
	bool T = opt.thorough; u64 item = 0;
	auto mine = [&]() { return (int)(item++ % t.nshards) == t.shard && !out_of_time(); };
	for(int mode = 0; mode < 3; mode++) {
		for(size_t L : {(size_t)210, (size_t)137}) for(size_t p = 0; p + 5 <= L; p++) if(mine())
			windows({mode, 0, AL6, 6, T ? 6 : 5, 0, 0, L, END_FLUSH, 0, true, 0, true}, p);
		for(int f = 1; f < NFILL; f++) for(int ph = 0; ph < (int)strlen(FILL[f]) && ph < 3; ph++) for(size_t p = 0; p + 4 <= 200; p++) if(mine())
			windows({mode, 0, AL6, 6, T ? 4 : 3, f, ph, 200, END_FLUSH, 0, true, 0, true}, p);
		for(size_t off = 0; off < 64; off++) for(size_t p = 0; p < 200; p += 3) if(mine())
			windows({mode, 0, AL6, 6, 3, (int)(p % 2 ? 2 : 4), 0, 203, OFFSET, off, true, 2, true}, p);
		for(size_t L = 1; L < 200; L++) for(size_t p = 0; p + (L < 3 ? L : 3) <= L; p += 2) if(mine())
			windows({mode, 0, AL6, 6, (int)(L < 3 ? L : 3), 1, 0, L, START_FLUSH, 0, true, 3, true}, p);
	}
	cur.kind = "idle";
}

// all of the above at bounds an emulated processor can manage
static void plan_small(const Task& t) {
	bool T = opt.thorough; u64 item = 0;
	auto mine = [&]() { return (int)(item++ % t.nshards) == t.shard && !out_of_time(); };
	u8 all[256]; for(int i = 0; i < 256; i++) all[i] = i;
	u8* sb = A_src->end(); u8* db = A_dst->end(); int X = T ? 1 : 0;
	// lengths and positions follow the size of the blocks a kernel works in (scalable vectors: two registers)
	size_t B = 64; if(const char* v = strstr(level_name(t.level), "rvv")) { size_t n = atoi(v + 3) / 4; if(n > B) B = n; }
	size_t D = 3 * (B - 64);
	auto near = [&](size_t p) { return B == 64 || T || p % B < 6 || p % B > B - 7 || p % 5 == 0; };
	for(int mode = 0; mode < 3; mode++) {
		int NS0 = mode == 2 ? 7 : 1;
		for(int s0 = 0; s0 < NS0; s0++) for(int K = 1; K <= 5 + X; K++) if(mine()) windows({mode, s0, AL6, 6, K, 0, 0, (size_t)K, END_FLUSH, 0, false, 0, true}, 0);
		for(size_t p = 0; p < 200 + D; p++) if(near(p) && mine()) { windows({mode, 0, all, 256, 1, 0, 0, 200 + D, END_FLUSH, 0, false, 0, true}, p); windows({mode, 0, all, 256, 1, 2, (int)(p & 1), 200 + D, END_FLUSH, 0, false, 0, true}, p); }
		for(size_t p : {(size_t)3, (size_t)63, (size_t)100}) { if(!T && (p == 63) != (mode == 1)) continue; for(int h = 0; h < 256; h += 32) if(mine()) windows({mode, 0, all + h, 32, 2, 0, 0, 200 + D, END_FLUSH, 0, false, 0, true}, p); }
		// words everywhere, with what lies around the buffer looking like a continuation
		for(size_t p = 0; p + 4 + X <= 210 + D; p++) if(near(p) && mine()) windows({mode, 0, AL6, 6, 4 + X, 0, 0, 210 + D, END_FLUSH, 0, false, (int)(p % 8), true}, p);
		for(size_t off = 0; off < 64; off++) if(mine()) {
			for(int s0 = 0; s0 < NS0; s0++) windows({mode, s0, AL6, 6, 3, 0, 0, 131 + D + (off * 5) % 64, OFFSET, off, false, (int)(1 + off % 7), true}, 0);
			for(int f = 0; f < NFILL; f++) windows({mode, 0, AL6, 6, 2 + X, f, (int)(off % strlen(FILL[f])), 131 + D + (off * 37 + f * 11) % 64, OFFSET, off, false, (int)(1 + (off + f) % 7), (f & 1) != 0}, 131 + D + (off * 37 + f * 11) % 64 - (2 + X));
		}
		for(int f = 1; f < NFILL; f++) for(int ph = 0; ph < (int)strlen(FILL[f]) && ph < (T ? 4 : 2); ph++) for(size_t p = 0; p + 2 + X <= 205 + D; p += 1) if(near(p) && mine()) windows({mode, 0, AL6, 6, 2 + X, f, ph, 205 + D, END_FLUSH, 0, false, 0, true}, p);
		for(size_t L = 1; L <= (T ? 330 : 200) + D; L++) for(int pl = 0; pl < 3; pl++) if(mine()) {
			int K = L < 3 ? L : 3;
			windows({mode, 0, AL6, 6, K, pl == 1 ? 3 : 0, 0, L, (Place)pl, (L * 7) % 64, false, (int)(1 + L % 7), L % 2 == 0}, L - K);
			windows({mode, 0, AL6, 6, K, pl == 2 ? 1 : 0, 0, L, (Place)pl, (L * 11) % 64, false, (int)(1 + L % 7), true}, pl ? 0 : L / 2 + K <= L ? L / 2 : 0);
		}
		static const u8 PAIRS[][2] = {{'a','\n'}, {'a','='}, {'a','\r'}, {'=','\n'}, {'a','.'}};
		for(auto& al : PAIRS) for(size_t p = B; p < B + 32; p += T ? 8 : 16) for(int h = 0; h < 1; h++) { if(!T && p == B + 16 && al[1] != '=') continue; if(mine()) windows({mode, 0, al, 2, 16, 0, 0, 160 + D, END_FLUSH, 0, false, 0, true}, p); }
		{ u8* src = src_at(END_FLUSH, 192 + D, 0); u8* dst = A_dst->end() - (192 + D); size_t L = 192 + D;
			for(int a = 0; a < NEV; a++) for(int b = 0; b < NEV; b++) { if(!mine()) continue; size_t la = strlen(EV[a]), lb = strlen(EV[b]);
				for(size_t p = B - (T ? 24 : 2); p < B + (T ? 16 : 3); p++) for(size_t q = p + la; q + lb <= p + (T ? 80 : 40); q++) {
					cur.kind = "window"; cur.in = src; cur.len = L; memset(cur.p, 0, sizeof cur.p); cur.p[0] = mode; cur.p[6] = 1;
					memset(src, 'a', L); memcpy(src + p, EV[a], la); memcpy(src + q, EV[b], lb); full_check(mode, 0, src, L, dst, "two events");
				}
				count("event-pairs");
			} }
		// runs of = of every length and position
		{ size_t L = 131 + D; u8* src = src_at(END_FLUSH, L, 0); u8* dst = A_dst->end() - L;
			for(size_t p = 0; p < 2 * B; p++) { if(!near(p) || !mine()) continue;
				for(size_t n = 1; p + n < L; n += 1) for(int tail = 0; tail < 2; tail++) { cur.kind = "window"; cur.in = src; cur.len = L; memset(cur.p, 0, sizeof cur.p); cur.p[0] = mode; cur.p[6] = 1; memset(src, 'a', L); memset(src + p, '=', n); if(tail) memset(src + p + n + 1, '=', L - p - n - 1); full_check(mode, 0, src, L, dst, "a run of escapes"); }
				count("escape runs"); } }
		// in place
		for(size_t p = 0; p + 3 + X <= 210 + D; p++) if(near(p) && mine()) windows({mode, 0, AL6, 6, 3 + X, 0, 0, 210 + D, END_FLUSH, 0, true, 0, true}, p);
		for(int f = 1; f < NFILL; f++) for(size_t p = 0; p + 2 <= 200 + D; p += T ? 1 : 3) if(near(p) && mine()) windows({mode, 0, AL6, 6, 2, f, (int)(p % 2), 200 + D, OFFSET, (p * 7) % 64, true, 2, true}, p);
		for(size_t big : {(size_t)4096, (size_t)6001}) for(int a = 0; a < NEV; a++) { if(!mine()) continue; size_t la = strlen(EV[a]); u8* bs = src_at(END_FLUSH, big, 0); u8* bd = A_dst->end() - big;
			for(size_t p = 0; p + la <= big; p += p < 70 || p + 70 > big ? 1 : T ? 17 : 331) { memset(bs, 'a', big); memcpy(bs + p, EV[a], la); cur.kind = "window"; cur.in = bs; cur.len = big; memset(cur.p, 0, sizeof cur.p); cur.p[0] = mode; cur.p[2] = END_FLUSH; cur.p[6] = 1; full_check(mode, 0, bs, big, bd, "one event in a long input"); } }
	}
	// chunked
	for(int s0 = 0; s0 < 7; s0++) for(int c = 0; c < 256; c += 16) { if(!mine()) continue; for(int k = c; k < c + 16; k++) { u8 b = k; cur.kind = "split"; cur.in = &b; cur.len = 1; memset(cur.p, 0, sizeof cur.p); cur.p[0] = s0; split_check(&b, 1, 0, 0, s0, sb, db); } count("single-byte transitions", 16); }
	for(int s0 = 0; s0 < 7; s0++) for(int n = 2; n <= (T ? 5 : 4); n++) { u64 words = 1; for(int i = 0; i < n; i++) words *= 6;
		for(u64 part = 0; part < words; part += 216) { if(!mine()) continue;
			for(u64 x = part; x < words && x < part + 216; x++) { u8 w[8]; u64 y = x; for(int i = 0; i < n; i++) { w[i] = AL6[y % 6]; y /= 6; }
				for(int m = 0; m < 1 << (n-1); m++) { size_t cuts[8]; int k = 0; for(int i = 0; i < n-1; i++) if(m >> i & 1) cuts[k++] = i+1; cur.kind = "split"; cur.in = w; cur.len = n; cur.p[0] = s0; cur.p[1] = k; for(int i = 0; i < k && i < 6; i++) cur.p[2+i] = cuts[i]; split_check(w, n, cuts, k, s0, sb, db); } }
			count("short-word blocks"); } }
	static u8 in[2048]; int K = T ? 4 : 3; u64 words = T ? 1296 : 216; size_t L = 340 + 2 * D;
	for(int f : {0, 2}) for(size_t cut = 1; cut < L; cut += cut < 8 || (cut > 2 * B - 2 && cut < 2 * B + 12) || (cut > 2 * B + 32 && cut < 2 * B + 42) || cut > L - 10 ? 1 : T ? 3 : 9) for(int d = -K; d <= 1; d++) {
		if((long)cut + d < 0 || cut + d + K > L || !mine()) continue;
		size_t p = cut + d; fill(in, L, f, 0);
		for(u64 x = 0; x < words; x++) { u64 y = x; for(int i = 0; i < K; i++) { in[p+i] = AL6[y % 6]; y /= 6; } cur.kind = "split"; cur.in = in; cur.len = L; cur.p[0] = 0; cur.p[1] = 1; cur.p[2] = cut; split_check(in, L, &cut, 1, 0, sb, db); }
		count("cut positions");
	}
	cur.kind = "idle";
}

int main(int argc, char** argv) {
	parse_args(argc, argv);
	A_src = new Arena(ROOM + 4096); A_dst = new Arena(ROOM + 4096);
	if(!opt.replay.empty()) {
		ReplayCase r; if(!load_replay(opt.replay, r)) return 3;
		if(!level_runs_here(r.level)) { printf("level not available on this CPU\n"); return 3; }
		cur.level = r.level; arm(); level_init(r.level);
		size_t L = r.in.size();
		cur.kind = strdup(r.kind.c_str()); memcpy(cur.p, r.p, sizeof cur.p); cur.len = L;
		if(r.kind == "split") {
			size_t cuts[6]; for(int i = 0; i < r.p[1] && i < 6; i++) cuts[i] = r.p[2+i];
			cur.in = r.in.data();
			split_mode = 2 - (r.p[0] >> 4); split_check(r.in.data(), L, cuts, r.p[1] > 6 ? 6 : r.p[1], r.p[0] & 15, A_src->end(), A_dst->end());
		} else {
			u8* src = src_at((Place)r.p[2], L, r.p[3]); memcpy(src, r.in.data(), L);
			if(r.p[5]) { if(r.p[2] != START_FLUSH) poison_fill(src - 64, src, r.p[5]); if(r.p[2] != END_FLUSH) poison_fill(src + L, src + L + 64, r.p[5]); }
			cur.in = src;
			std::vector<u8> ref = r.in; static std::vector<u8> snap; snap = ref; cur_copy = &snap;
			u8* dst = r.p[4] ? src : r.p[6] ? A_dst->end() - L : A_dst->base + 1024;
			static u8 ob[ROOM*2]; u8* o = ob; int s = r.p[1]; size_t i = 0; int mode = r.p[0];
			while(i < L && s < S_ENDC) { s = step(mode, s, ref[i], o); i++; }
			Exp e = {ob, (size_t)(o - ob), i, s};
			if(!r.p[4]) { memset(dst - 64, 0xC3, 64); if(!r.p[6]) memset(dst + L, 0xC3, 64); }
			Got g = impl(mode, src, dst, L, r.p[1]);
			if(g.n != e.n || memcmp(dst, ob, e.n)) mismatch(mode, g, dst, L, e, "replay");
			check_meta(mode, g, dst, L, e, "replay");
			if(!r.p[4]) for(int k = 1; k <= 64; k++) if(dst[-k] != 0xC3 || (!r.p[6] && dst[L + k - 1] != 0xC3)) violation("replay: bytes outside the destination modified");
		}
		printf("replay: no violation\n");
		return 0;
	}
	std::string plan = opt.str("plan");
	std::vector<int> levels = levels_of({"sse2", "ssse3", "avx", "avx2", "vbmi2"});
	if(opt.has("levels")) { std::vector<int> k; for(int l : levels) if(("," + opt.str("levels") + ",").find(std::string(",") + level_name(l) + ",") != std::string::npos) k.push_back(l); levels = k; }
	return explore(levels, opt.num("shards", 8), [&](const Task& t) {
		if(plan == "spec") plan_spec(t, opt.num("mode", 0));
		else if(plan == "split") plan_split(t);
		else if(plan == "mem") plan_mem(t);
		else if(plan == "insitu") plan_insitu(t);
		else if(plan == "small") plan_small(t);
		else { fprintf(stderr, "unknown plan\n"); _exit(3); }
	});
}
