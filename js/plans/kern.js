"use strict";
// The kernel-level properties seen through the package's own functions: all words of length K over the critical alphabet at
// every position of buffers long enough for the vector code, plus every byte value at every position.
//   D01 decode   D02 decode with dot-unstuffing   D03 decodeChunk   D06 in-situ   E01 encode   E02 round trip   E04 column   E05 line rules
const DAL = [0x61, 13, 10, 46, 61, 121], EAL = ['a', '=', '\t', '.', ' ', '\r', '\n', '\0'].map(x => (x.charCodeAt(0) - 42) & 255);
exports.cases = function*(T, M) {
	const P = M.opt.prop, dec = P[0] === 'D';
	const Ls = dec ? [210, 131] : [200, 137];
	const BIG = T ? 5300000 : 1048600;
	if(dec) {
		for(let w = 0; w < PW.length; w++) for(const pad of [0, 13]) for(let ph = 0; ph < (pad || PW[w].length); ph++) yield {k: 'per', w, pad, ph, L: BIG};
		if(P === 'D03') for(const B of BLK) for(let w = 0; w < PW.length; w++) yield {k: 'blk', B, w};
		for(let n = 1; n <= (T ? 6 : 5); n++) yield {k: 'short', n};
		for(const L of Ls) for(let p = 0; p + 3 <= L; p++) for(const f of ['n', 'q', 'l']) yield {k: 'win', L, p, f, K: T ? 4 : 3};
		for(const L of Ls) for(let p = 0; p < L; p++) yield {k: 'byte', L, p};
		for(let L = 0; L < 300; L++) yield {k: 'len', L};
		for(const L of [1000, 4096, 5000, 66000]) yield {k: 'len', L};
	} else {
		for(const ls of [128, 127, 64, 13, 997]) for(const f of ['n', 'e', 'd', 't', 'm', 'r']) for(const ph of P === 'E04' ? [1, 7] : [0, 3]) yield {k: 'eper', ls, f, ph, L: BIG};
		for(let n = 1; n <= (T ? 5 : 4); n++) for(const ls of [1, 2, 3, 128]) yield {k: 'eshort', n, ls};
		for(const ls of [128, 64, 1, 7, 33, 130]) for(let p = 0; p + 3 <= 270; p += 1) yield {k: 'ewin', ls, p, K: T ? 3 : 2, L: 270};
		for(let p = 0; p < 200; p++) yield {k: 'ebyte', p};
		for(let L = 0; L < 300; L++) yield {k: 'elen', L};
		for(const L of [1000, 4096, 5000, 66000]) yield {k: 'elen', L};
		for(let ls = 1; ls <= 300; ls++) yield {k: 'els', ls};
		for(const ls of [997, 1024, 4096, 65536, 1000000]) yield {k: 'els', ls};
	}
};
// long inputs made of one sequence over and over, in every phase: whatever the size of the blocks something is done in, the
// sequence lies across their ends in every way
const PW = ['\r\n', '\r\n..', '=J', '==', '\r\n.=y', '\r\n.\r\n', '\r\n=', '.\r', '=\r\n.', '\r\n=y', '\r\n=.='];
const BLK = [4096, 8192, 16384, 32768, 65536, 100000, 131072, 262144, 524288, 1000000, 1048576, 2097152];
function dfill(M, n, f) { const s = f === 'q' ? '=a' : f === 'l' ? 'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\r\n' : 'a'; const b = Buffer.alloc(n); for(let i = 0; i < n; i++) b[i] = s.charCodeAt(i % s.length); return b; }
function dec(M, d, s) {
	const y = M.y, P = M.opt.prop; M.calls++;
	const what = () => ' of ' + M.show(d);
	if(P === 'D01' || P === 'D02') {
		const raw = P === 'D02', ref = M.refDecode(raw ? 1 : 0, d).out;
		const r = raw ? y.decode(d, true) : y.decode(d); if(!r.equals(ref)) M.eq(r, ref, 'decode' + (raw ? ' with stripDots' : '') + what());
		if(!raw) { const q = y.decode(d, false); if(!q.equals(ref)) M.eq(q, ref, 'decode, stripDots false,' + what()); }
		const o = at(M, 1, d.length), n = raw ? y.decodeTo(d, o, true) : y.decodeTo(d, o); if(n !== ref.length || !o.subarray(0, n).equals(ref)) { M.is(n, ref.length, 'decodeTo' + what()); M.eq(o.subarray(0, n), ref, 'decodeTo' + what()); }
		M.outcome(ref.length * 3 + (ref[0] || 0));
	} else if(P === 'D03') {
		for(const st of s ? [s] : ['\r\n', '', '=']) {
			const ref = M.refDecode(2, d, st), r = y.decodeChunk(d, st);
			M.is(r.written, ref.out.length, 'decodeChunk' + what() + ' .written'); M.is(r.read, ref.read, 'decodeChunk' + what() + ' .read'); M.is(r.ended, ref.ended, 'decodeChunk .ended' + what()); M.is(r.state, ref.state, 'decodeChunk .state' + what());
			if(!r.output.equals(ref.out)) M.eq(r.output, ref.out, 'decodeChunk' + what());
			M.outcome(r.written * 7 + r.read);
		}
	} else { // D06
		for(const mode of [0, 1, 2]) { const ref = M.refDecode(mode, d); const b = at(M, 2, d); let n;
			if(mode === 2) { const r = y.decodeChunk(b, '\r\n', b); n = r.written; M.is(r.read, ref.read, 'in-situ decodeChunk .read' + what()); M.is(r.state, ref.state, 'in-situ decodeChunk .state' + what()); M.is(r.ended, ref.ended, 'in-situ decodeChunk .ended' + what()); }
			else n = y.decodeTo(b, b, !!mode);
			M.is(n, ref.out.length, 'in-situ decode' + what()); if(!b.subarray(0, n).equals(ref.out)) M.eq(b.subarray(0, n), ref.out, 'in-situ decode, mode ' + mode + what()); M.outcome(n); }
	}
}
const y0 = M => M.y;
const at = (M, k, d) => { const n = typeof d === 'number' ? d : d.length; return n < 100000 ? M.atEnd(k, d) : typeof d === 'number' ? Buffer.alloc(n) : Buffer.from(d); };
function lines(M, o, ls, col, what) { // E05 on the output alone
	const rows = o.toString('latin1').split('\r\n'), bad = m => { throw M.Bad(what + ': ' + m + ' in ' + M.show(o)); };
	M.steps += o.length;
	rows.forEach((r, i) => {
		const first = i > 0 || !col, last = i === rows.length - 1;
		if(/[\r\n\0]/.test(r)) bad('bare CR, LF or NUL');
		if(/=$|=[=\r\n\0]/.test(r.replace(/=[^=]/g, ''))) bad('dangling escape');
		if(first && /^[.\t ]/.test(r)) bad('line starts with a dot or blank'); if(first && /^=y/.test(r)) bad('line starts with =y');
		if(/[\t ]$/.test(r.replace(/=[\s\S]/g, 'xx'))) bad('line ends in a blank');
		const n = r.length + (i ? 0 : col); if(n > ls + 1) bad('line of ' + n + ' characters'); if(!last && n < ls) bad('line broken after ' + n + ' characters'); if(last && i && !r.length) bad('ends in a line break');
	});
}
function enc(M, d, ls, cols) {
	const y = M.y, P = M.opt.prop; M.calls++;
	for(const col of P === 'E04' ? cols || [1, ls >> 1, ls - 2, ls - 1, ls].filter(c => c >= 0) : [0]) {
		const what = 'encode of ' + M.show(d) + ' line size ' + ls + ' column ' + col;
		const o = P === 'E04' ? y.encode(d, ls, col) : ls === 128 ? y.encode(d) : y.encode(d, ls);
		if(P === 'E01' || P === 'E04') { const ref = M.refEncode(d, ls, col); if(!o.equals(ref)) M.eq(o, ref, what);
			if(d.length) { const out = at(M, 1, y.maxSize(d.length, ls)), n = P === 'E04' ? y.encodeTo(d, out, ls, col) : y.encodeTo(d, out, ls); if(n !== ref.length || !out.subarray(0, n).equals(ref)) { M.is(n, ref.length, 'encodeTo: ' + what); M.eq(out.subarray(0, n), ref, 'encodeTo: ' + what); } } }
		else if(P === 'E05') { if(d.length) lines(M, o, ls, col, what); }
		else if(P === 'E02') {
			M.steps += o.length;
			for(const raw of [false, true]) { const b = y.decode(o, raw); if(!b.equals(d)) M.eq(b, d, 'decode' + (raw ? ' with stripDots' : '') + ' of ' + what); }
			const r = y.decodeChunk(o); if(o.length) { M.is(r.ended, false, 'decodeChunk of ' + what); if(!r.output.equals(d)) M.eq(r.output, d, 'decodeChunk of ' + what); }
			const b = Buffer.from(o); const n = o.length ? y.decodeTo(b, b) : 0; if(!b.subarray(0, n).equals(d)) M.eq(b.subarray(0, n), d, 'in-situ decode of ' + what);
		}
		M.outcome(o.length);
	}
}
exports.run = function(c, M) {
	switch(c.k) {
	case 'per': { const p = PW[c.w] + 'a'.repeat(Math.max(0, c.pad - PW[c.w].length)); dec(M, Buffer.from(('a'.repeat(c.ph) + p.repeat(Math.ceil(c.L / p.length))).slice(0, c.L)), '\r\n'); break; }
	case 'eper': enc(M, Buffer.concat([M.fill(c.ph, 'n'), M.fill(c.L, c.f)]), c.ls, [c.ph]); break;
	case 'blk': for(let at = c.B - PW[c.w].length - 1; at <= c.B + 1; at++) { const d = Buffer.alloc(c.B + 70, 0x61); d.write(PW[c.w], at, 'latin1'); // a marker lying across the end of a block
		const ref = M.refDecode(2, d.subarray(at), ''), r = y0(M).decodeChunk(d, ''); M.calls++;
		M.is(r.read, at + ref.read, 'decodeChunk .read'); M.is(r.written, at + ref.out.length, 'decodeChunk .written'); M.is(r.ended, ref.ended, 'decodeChunk .ended'); M.is(r.state, ref.state, 'decodeChunk .state'); M.eq(r.output.subarray(at), ref.out, 'decodeChunk output'); for(let i = 0; i < at; i += 4093) M.is(r.output[i], 0x61 - 42, 'decodeChunk output'); } break;
	case 'short': { const W = Math.pow(6, c.n); for(let w = 0; w < W; w++) { const d = at(M, 0, c.n); let x = w; for(let i = 0; i < c.n; i++) { d[i] = DAL[x % 6]; x = x / 6 | 0; } if(M.opt.prop === 'D03') for(const s of M.STATES) dec(M, d, s); else dec(M, d); } break; }
	case 'win': { const d = at(M, 0, dfill(M, c.L, c.f)), keep = Buffer.from(d.subarray(c.p, c.p + c.K)), W = Math.pow(6, Math.min(c.K, c.L - c.p)); void keep;
		for(let w = 0; w < W; w++) { let x = w; for(let i = 0; i < c.K && c.p + i < c.L; i++) { d[c.p + i] = DAL[x % 6]; x = x / 6 | 0; } dec(M, d); } break; }
	case 'byte': { for(const f of ['n', 'q']) { const d = at(M, 0, dfill(M, c.L, f)); for(let v = 0; v < 256; v++) { d[c.p] = v; dec(M, d, ''); } } break; }
	case 'len': for(const f of ['n', 'q', 'l']) dec(M, at(M, 0, dfill(M, c.L, f))); { const d = at(M, 0, M.fill(c.L, 'r')); dec(M, d); dec(M, at(M, 0, M.refEncode(d, 128))); dec(M, at(M, 0, M.refEncode(M.fill(c.L, 'm'), 20).subarray(0, c.L))); } break;
	case 'eshort': { const W = Math.pow(8, c.n); for(let w = 0; w < W; w++) { const d = at(M, 0, c.n); let x = w; for(let i = 0; i < c.n; i++) { d[i] = EAL[x % 8]; x = x / 8 | 0; } enc(M, d, c.ls); } break; }
	case 'ewin': for(const f of ['n', 'm']) { const d = at(M, 0, M.fill(c.L, f)), W = Math.pow(8, c.K); for(let w = 0; w < W; w++) { let x = w; for(let i = 0; i < c.K; i++) { d[c.p + i] = EAL[x % 8]; x = x / 8 | 0; } enc(M, d, c.ls, [1, c.ls - 1, c.ls >> 1]); } } break;
	case 'ebyte': { const d = at(M, 0, M.fill(200, 'n')); for(let v = 0; v < 256; v++) { d[c.p] = v; enc(M, d, 128, [77]); if(v % 8 === 0) enc(M, d, 50, [49]); } break; }
	case 'elen': for(const f of ['n', 'e', 'd', 't', 'm', 'r']) for(const ls of [128, 64, 1, 5]) enc(M, at(M, 0, M.fill(c.L, f)), ls); break;
	case 'els': for(const f of ['n', 'e', 't', 'm', 'd']) for(const L of [c.ls - 1, c.ls, c.ls + 1, 2 * c.ls, 300]) if(L >= 0 && L <= 5000) enc(M, at(M, 0, M.fill(L, f)), c.ls, c.ls < 100 ? Array.from({length: c.ls + 1}, (_, i) => i) : undefined); break;
	}
};
