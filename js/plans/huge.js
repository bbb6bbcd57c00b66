"use strict";
// Lengths around and beyond 2^31 and 2^32, for every function that takes data. Inputs and outputs are tiled (guard.cc): the same
// megabyte shows up over and over, so the expected result follows from the reference models by cycle detection.
const TS = 1 << 20;
const LENS = [Math.pow(2, 31) - 1, Math.pow(2, 31), Math.pow(2, 31) + 77, Math.pow(2, 32) - 1, Math.pow(2, 32), Math.pow(2, 32) + 77];
const FEW = [Math.pow(2, 31) + 77, Math.pow(2, 32) + 77];
exports.cases = function*(T, M) {
	const P = M.opt.prop, L = T ? LENS : M.opt.level === 'vbmi2' || P === 'A01' ? LENS : FEW;
	if(P === 'C01') for(const n of L) for(const init of [undefined, 0x12345678]) yield {k: 'crc', n, init};
	if(P === 'D01' || P === 'A01') for(const n of L) yield {k: 'decodeTo', n, raw: false};
	if(P === 'D02' || P === 'A01') for(const n of L) yield {k: 'decodeTo', n, raw: true};
	if(P === 'E01' || P === 'A01' || P === 'E04') for(const n of T ? LENS : FEW) for(const ls of P === 'E01' ? [128, 997, 13, 5] : P === 'E04' && n === FEW[0] ? [128, 13] : [128]) if(ls > 99 || T || n === FEW[0]) for(const col of P === 'E04' ? [5, ls - 1] : [0]) yield {k: 'encodeTo', n, ls, col};
	if(P === 'D03' || P === 'A03') for(const n of T ? LENS : FEW) for(const e of ['\r\n=y', '\r\n.\r\n', '\r\n.=y', '']) yield {k: 'chunk', n, e};
	if(P === 'D04') for(const n of T ? LENS : [FEW[1]]) for(const e of ['\r\n=y', '\r\n.\r\n', '=', '\r\n.']) for(let s = 1; s <= e.length; s++) yield {k: 'split', n, e, s};
	if(P === 'A01') { for(const n of FEW) { yield {k: 'encode', n}; yield {k: 'decode', n}; } }
	if(P === 'C02') for(const n of FEW) yield {k: 'crc', n, init: 0x12345678};
	if(P === 'E02' || P === 'D06') for(const ls of P === 'E02' ? [128, 13, 7] : [128]) yield {k: 'round', n: FEW[0], ls, insitu: P === 'D06'};
	if(P === 'P02') yield {k: 'multi'};
	if(P === 'P03') for(const n of [LENS[0]]) yield {k: 'from', n};
	if(P === 'P01') yield {k: 'post'};
};
let pats = {};
function pat(M, kind) { // tiles that start and end with an ordinary character
	if(pats[kind]) return pats[kind];
	let b = M.fill(TS, 'r');
	if(kind === 'art') { b = Buffer.alloc(TS, 0x62); const ev = ['\r\n', '=J', '\r\n..', '\r\n=J', 'q', '=', '.', 'y', '\r', '\n']; for(let i = 0, j = 1; j + 8 < TS; i++, j += 5 + (i * 7) % 120) b.write(ev[i % ev.length], j, 'latin1'); b[TS - 1] = 0x63; b[TS - 2] = 0x63; }
	return pats[kind] = b;
}
const first = (M, t, n) => t.subarray(0, n % TS);
function crcOf(M, t, n, init) { // CRC register over the tile repeated
	const q = Math.floor(n / TS); let c = init || 0;
	const ct = M.crc(t), x = M.xpow(BigInt(TS) * 8n);
	for(let i = 0; i < q; i++) c = (M.mul(c, x) ^ ct) >>> 0;
	return M.crc(first(M, t, n), c);
}
function decLen(M, mode, t, n) { // states at tile boundaries: CRLF for the first tile, none for the others
	const a = M.refDecode(mode, t), b = M.refDecode(mode, t, '');
	if(a.state !== '' || b.state !== '' || a.ended || b.ended) throw M.harness('tile');
	const q = Math.floor(n / TS), r = M.refDecode(mode, first(M, t, n), q ? '' : '\r\n');
	return {len: a.out.length + (q - 1) * b.out.length + r.out.length, tail: Buffer.concat([b.out, r.out]).subarray(-60000), state: r.state};
}
function encLen(M, t, n, ls, col) {
	const memo = new Map();
	const step = (c, part) => { // length and column after it
		if(part === undefined && memo.has(c)) return memo.get(c);
		const d = part === undefined ? t : part; let len = 0, k = c === ls ? 0 : c; M.steps += d.length;
		if(c === ls) { k = ls; } // a full line: the next byte starts a new one
		for(let i = 0; i < d.length; i++) {
			if(k >= ls) { len += 2; k = 0; }
			const e = (d[i] + 42) & 255;
			const esc = e === 0 || e === 10 || e === 13 || e === 61 || (k === 0 && (e === 9 || e === 32 || e === 46)) || (k === ls - 1 && (e === 9 || e === 32));
			len += esc ? 2 : 1; k += esc ? 2 : 1;
		}
		const r = [len, k]; if(part === undefined) memo.set(c, r); return r;
	};
	const q = Math.floor(n / TS); let len = 0, c = col === ls ? 0 : col;
	for(let i = 0; i < q; i++) { const r = step(c); len += r[0]; c = r[1]; }
	const before = c, rest = first(M, t, n), r = step(c, rest); len += r[0];
	return {len, c: r[1], before, rest};
}
exports.run = function(c, M) {
	if(!M.guarded) throw M.harness('tiles need the guard addon');
	const y = M.y, G = M.G, bufs = [], inp = (t, n) => { const b = G.tile(t, n, true); bufs.push(b); return b; }, outp = n => { const b = G.tile(Buffer.alloc(TS), n, false); bufs.push(b); return b; };
	const tail = (b, n, want, what) => M.eq(b.subarray(n - want.length, n), want, what + ': last bytes');
	M.calls++;
	try {
	if(c.k === 'crc') {
		const t = pat(M, 'r'), b = inp(t, c.n), want = crcOf(M, t, c.n, c.init);
		const r = c.init === undefined ? y.crc32(b) : y.crc32(b, M.pack(c.init));
		M.is(r.toString('hex'), M.hex(want), 'crc32 of ' + c.n + ' bytes'); M.outcome(want % 4093);
	} else if(c.k === 'decodeTo') {
		const t = pat(M, 'art'), b = inp(t, c.n), o = outp(c.n), want = decLen(M, c.raw ? 1 : 0, t, c.n), what = 'decodeTo of ' + c.n + ' bytes, raw=' + c.raw;
		M.is(M.doesNotThrow(() => y.decodeTo(b, o, c.raw), what), want.len, what); tail(o, want.len, want.tail, what); M.outcome(want.len % 4093);
	} else if(c.k === 'encodeTo') {
		const t = pat(M, 'r'), b = inp(t, c.n), o = outp(y.maxSize(c.n, c.ls)), what = 'encodeTo of ' + c.n + ' bytes, line size ' + c.ls + ', column ' + c.col;
		const w = encLen(M, t, c.n, c.ls, c.col), wr = M.refEncode(w.rest, c.ls, w.before); // the reference also escapes the last character
		const body = encLen(M, w.rest, w.rest.length, c.ls, w.before).len, len = w.len + (wr.length - body);
		M.is(M.doesNotThrow(() => y.encodeTo(b, o, c.ls, c.col), what), len, what); tail(o, len, wr.subarray(-50000), what); M.outcome(len % 4093);
	} else if(c.k === 'chunk' || c.k === 'split') {
		const t = pat(M, 'art'), b = inp(t, c.n), o = outp(c.n), X = 'zz' + c.e; // the end marker and a few bytes behind it at the very end
		const after = c.k === 'chunk' ? 'abc' : '', at = c.n - X.length - after.length;
		b.fill(0x62, c.n - 4096); b.write(X + after, at, 'latin1');
		const q = Math.floor((c.n - 4096) / TS) * TS, s1 = M.refDecode(2, t), s2 = M.refDecode(2, t, ''), what = 'decodeChunk of ' + c.n + ' bytes ending in ' + JSON.stringify(c.e);
		if(s1.state !== '' || s2.state !== '') throw M.harness('tile');
		const r2 = M.refDecode(2, b.subarray(q), ''), len = s1.out.length + (q / TS - 1) * s2.out.length + r2.out.length;
		const judge = (r, len, read, ended, state, w) => { M.is(r.read, read, w + ' .read'); M.is(r.written, len, w + ' .written'); M.is(r.ended, ended, w + ' .ended'); M.is(r.state, state, w + ' .state'); };
		if(c.k === 'chunk') { const r = M.doesNotThrow(() => y.decodeChunk(b, '\r\n', o), what); judge(r, len, q + r2.read, r2.ended, r2.state, what); tail(o, len, r2.out.subarray(-4000), what); }
		else { // cut s bytes before the end
			const cut = c.n - c.s, ra = M.refDecode(2, b.subarray(q, cut), ''), w = what + ' cut ' + c.s + ' before the end', la = len - r2.out.length + ra.out.length;
			let r = M.doesNotThrow(() => y.decodeChunk(b.subarray(0, cut), '\r\n', o), w); judge(r, la, cut, false, ra.state, w);
			const rb = M.refDecode(2, b.subarray(cut), ra.state);
			r = M.doesNotThrow(() => y.decodeChunk(b.subarray(cut), r.state, o), w); judge(r, rb.out.length, rb.read, rb.ended, rb.state, w + ', second chunk');
		}
		M.outcome(len % 4093);
	} else if(c.k === 'encode') {
		const t = pat(M, 'r'), b = inp(t, c.n), w = encLen(M, t, c.n, 128, 0), wr = M.refEncode(w.rest, 128, w.before), len = w.len + wr.length - encLen(M, w.rest, w.rest.length, 128, w.before).len;
		const r = M.doesNotThrow(() => y.encode(b), 'encode of ' + c.n + ' bytes'); M.is(r.length, len, 'length of encode of ' + c.n + ' bytes'); tail(r, len, wr.subarray(-50000), 'encode');
	} else if(c.k === 'decode') {
		const t = pat(M, 'art'), b = inp(t, c.n), w = decLen(M, 0, t, c.n);
		const r = M.doesNotThrow(() => y.decode(b), 'decode of ' + c.n + ' bytes'); M.is(r.length, w.len, 'length of decode of ' + c.n + ' bytes'); tail(r, w.len, w.tail, 'decode');
	} else if(c.k === 'round') { // the decoder's output compared with the tile, all the way
		const t = pat(M, 'r'), b = inp(t, c.n), e = M.doesNotThrow(() => y.encode(b, c.ls), 'encode of ' + c.n + ' bytes'), what = 'decoding the encoding of ' + c.n + ' bytes, line size ' + c.ls + (c.insitu ? ' in place' : '');
		let r; if(c.insitu) { const n = M.doesNotThrow(() => y.decodeTo(e, e), what); M.is(n, c.n, what); r = e.subarray(0, n); } else r = M.doesNotThrow(() => y.decode(e), what);
		M.is(r.length, c.n, what);
		for(let i = 0; i < c.n; i += TS) if(!r.subarray(i, i + TS).equals(t.subarray(0, Math.min(TS, c.n - i)))) M.eq(r.subarray(i, i + TS), t.subarray(0, Math.min(TS, c.n - i)), what + ', from byte ' + i);
	} else if(c.k === 'multi') { // positions beyond 2^31 and 2^32
		const t = pat(M, 'r'), A = Math.pow(2, 31) - 100, s = y.multi_post('x', 2 * A + 400, 4); let pos = 0, crc = 0;
		for(const [i, n] of [A, 150, A, 250].entries()) {
			const b = inp(t, n), p = M.doesNotThrow(() => s.encode(b), 'part ' + (i + 1)), head = p.toString('latin1', 0, 200).split('\r\n'), end = p.toString('latin1', p.length - 200).split('\r\n').pop(), cr = crcOf(M, t, n), what = 'part ' + (i + 1) + ' of a huge file';
			M.is(head[0], '=ybegin part=' + (i + 1) + ' total=4 line=128 size=' + (2 * A + 400) + ' name=x', what); M.is(head[1], '=ypart begin=' + (pos + 1) + ' end=' + (pos + n), what);
			crc = crcOf(M, t, n, crc); pos += n;
			M.is(end, '=yend size=' + n + ' part=' + (i + 1) + ' pcrc32=' + M.hex(cr) + (i === 3 ? ' crc32=' + M.hex(crc) : ''), what);
			G.untile(b); bufs.splice(bufs.indexOf(b), 1); M.calls++;
		}
	} else if(c.k === 'from') {
		const t = pat(M, 'art'), b = inp(t, c.n), X = Buffer.from('From: x\r\n\r\n=ybegin line=128 size=' + c.n + ' name=x\r\n'), E = '\r\n=yend size=' + c.n + '\r\n';
		b.fill(0x62, 0, 4096); X.copy(b); b.fill(0x62, c.n - 4096); b.write(E, c.n - E.length, 'latin1');
		const ds = X.length, de = c.n - E.length, w1 = M.refDecode(1, b.subarray(ds, TS)), q = Math.floor((c.n - 4096) / TS), w2 = M.refDecode(1, t, ''), w3 = M.refDecode(1, b.subarray(q * TS, de), '');
		if(w1.state !== '' || w2.state !== '') throw M.harness('tile');
		const r = M.doesNotThrow(() => y.from_post(b, true), 'from_post'), len = w1.out.length + (q - 1) * w2.out.length + w3.out.length, what = 'from_post of a post of ' + c.n + ' bytes: ';
		if(r instanceof Error) throw M.Bad(what + r.message);
		M.is(r.yencStart, 11, what + 'yencStart'); M.is(r.dataStart, ds, what + 'dataStart'); M.is(r.dataEnd, de, what + 'dataEnd'); M.is(r.yencEnd, c.n, what + 'yencEnd');
		M.is(r.data.length, len, what + 'data length'); tail(r.data, len, w3.out.subarray(-4000), what); M.is(r.warnings && r.warnings.map(w => w.code).join(), 'data_size_mismatch', what + 'warnings');
	} else if(c.k === 'post') {
		const n = Math.pow(2, 31) + 77, t = pat(M, 'r'), b = inp(t, n), p = M.doesNotThrow(() => y.post('x', b), 'post'), w = encLen(M, t, n, 128, 0), wr = M.refEncode(w.rest, 128, w.before);
		const head = '=ybegin line=128 size=' + n + ' name=x\r\n', end = '\r\n=yend size=' + n + ' crc32=' + M.hex(crcOf(M, t, n));
		M.is(p.toString('latin1', 0, head.length), head, 'post'); M.is(p.toString('latin1', p.length - end.length), end, 'post');
		M.is(p.length, head.length + end.length + w.len + wr.length - encLen(M, w.rest, w.rest.length, 128, w.before).len, 'post length');
	}
	} finally { for(const b of bufs) G.untile(b); }
};
