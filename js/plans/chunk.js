"use strict";
// A03: decodeChunk as a session machine. The product of the reference automaton and the implementation is walked for every
// word over the critical alphabet, every composition into chunks, every start state and every calling convention.
const BIGO = [1000, 4096, 8192, 65536, 70000, 131073, 1048577, 5000000];
const BCH = [4096, 8192, 16384, 32768, 65536, 100000, 131072, 262144, 524288, 1048576];
const AL = [0x61, 13, 10, 46, 61, 121];
exports.cases = function*(T, M) {
	if(M.opt.only === 'conv') { for(let n = 1; n < 300; n += T || n < 70 ? 1 : 3) yield {k: 'conv', n}; return; }
	const N = T ? 6 : 5;
	for(let s = 0; s < 7; s++) for(let n = 1; n <= N; n++) { const W = Math.pow(6, n); for(let w = 0; w < W; w += 36) yield {k: 'word', s, n, w, m: Math.min(W, w + 36)}; }
	for(let s = 0; s < 7; s++) for(let b = 0; b < 256; b++) yield {k: 'byte', s, b};
	for(let i = 0; i < EVENTS.length; i++) for(let j = 0; j < EVENTS.length; j++) for(const pad of [0, 1, 20, 31, 64, 150]) yield {k: 'stream', i, j, pad};
	for(let i = 0; i < PREV.length; i++) yield {k: 'prev', i};
	for(let n = 1; n < 200; n += T ? 1 : 3) yield {k: 'conv', n};
	for(let i = 0; i < BCH.length; i++) for(let e = 1; e < EVENTS.length; e++) yield {k: 'big', i, e};
	yield {k: 'empty'};
	yield {k: 'bad'};
};
const EVENTS = ['', '=', '\r\n', '\r\n.', '\r\n=y', '\r\n.\r\n', '\r\n.=y', '=\r\n.\r\n', '\r', '\r\n..', '\r\n.=a', 'y', '.\r\n', '=y', '\n.\r\n', '==', '=\r', '.=y'];
// arbitrary state strings: the last (up to four) characters already seen
const PREV = ['', '=', '\r', '\r\n', '\r\n.', '\r\n.\r', '\r\n=', 'a', 'aa', 'aaaa', 'a=', 'a\r', 'a\r\n', 'aa\r\n', 'a\r\n.', 'a\r\n=', 'x=', '\n', '.', '\n.', 'a\n', '\r\r', 'a.', '==', '\r\n.=', 'zz\r\n.\r', 'abcdefgh\r\n', 'abcdefgh=', '\r\n=y', '\r\n.\r\n', '=y'];
function words(c) { const r = []; for(let w = c.w; w < c.m; w++) { const b = Buffer.alloc(c.n); let x = w; for(let i = 0; i < c.n; i++) { b[i] = AL[x % 6]; x = x / 6 | 0; } r.push(b); } return r; }
// one call, checked against the automaton
function call(M, data, s, args, what) {
	const ref = M.refDecode(2, data, s), keep = Buffer.from(data);
	M.calls++;
	let r; try { r = M.y.decodeChunk(data, ...args); } catch(e) { throw M.Bad(what + ' threw ' + e.message); }
	M.is(r.read, ref.read, what + ' .read'); M.is(r.written, ref.out.length, what + ' .written');
	M.is(r.ended, ref.ended, what + ' .ended'); M.is(r.state, ref.state, what + ' .state');
	if(!Buffer.isBuffer(r.output)) throw M.Bad(what + ' .output is not a Buffer');
	M.eq(r.output.subarray(0, r.written), ref.out, what + ' .output');
	const supplied = args.find(a => Buffer.isBuffer(a) && a.vfOut);
	if(supplied) { if(r.output !== supplied) throw M.Bad(what + ' .output is not the supplied buffer'); }
	else M.is(r.output.length, ref.out.length, what + ' length of the allocated output');
	if(!supplied || supplied !== data) M.eq(data, keep, what + ': the input afterwards');
	M.outcome(r.state + r.ended + r.written);
	return r;
}
function session(M, d, cuts, s0, what) {
	const ref = M.refDecode(2, d, s0); let s = s0, at = 0, outs = [], ended = false;
	for(let i = 0; i <= cuts.length && !ended; i++) {
		const to = i === cuts.length ? d.length : cuts[i]; if(to === at) continue;
		const r = call(M, M.atEnd(0, d.subarray(at, to)), s, [s], what);
		outs.push(Buffer.from(r.output)); at += r.read; s = r.state; ended = r.ended;
	}
	M.is(at, ref.read, what + ': total read'); M.is(s, ref.state, what + ': final state'); M.is(ended, ref.ended, what + ': ended'); M.eq(Buffer.concat(outs), ref.out, what + ': total output');
}
exports.run = function(c, M) {
	const y = M.y, S = M.STATES;
	if(c.k === 'word') {
		for(const w of words(c)) for(let m = 0; m < 1 << (c.n - 1); m++) {
			const cuts = []; for(let i = 0; i < c.n - 1; i++) if(m >> i & 1) cuts.push(i + 1);
			session(M, w, cuts, S[c.s], 'chunks ' + JSON.stringify(w.toString('latin1')) + ' cut at ' + cuts + ' from state ' + JSON.stringify(S[c.s]));
		}
	} else if(c.k === 'byte') call(M, Buffer.from([c.b]), S[c.s], [S[c.s]], 'byte ' + c.b + ' in state ' + JSON.stringify(S[c.s]));
	else if(c.k === 'stream') {
		const d = Buffer.from('a'.repeat(c.pad) + EVENTS[c.i] + 'b'.repeat(c.pad) + EVENTS[c.j] + 'c'.repeat(c.pad), 'latin1');
		for(let cut = 0; cut <= d.length; cut += d.length > 120 && cut > 5 && cut + 5 < d.length && Math.abs(cut - c.pad) > 8 && Math.abs(cut - 2 * c.pad) > 10 ? 9 : 1)
			session(M, d, [cut], '\r\n', 'stream ' + JSON.stringify(EVENTS[c.i]) + '/' + JSON.stringify(EVENTS[c.j]) + ' pad ' + c.pad + ' cut at ' + cut);
		// a state of null or nothing starts a new article
		for(const a of [[], [null], [undefined], [null, undefined], [undefined, null]]) if(d.length) call(M, d, '\r\n', a, 'new article');
	} else if(c.k === 'big') { // large chunks, with an event lying across the end of the first one or of the second
		const B = BCH[c.i], ev = Buffer.from(EVENTS[c.e], 'latin1'), L = 2 * B + 300;
		for(const B1 of [B, 2 * B]) for(let at = B1 - ev.length; at <= B1; at += B > 99999 ? 2 : 1) { // everything before the event is ordinary
			const d = Buffer.alloc(L, 0x61); ev.copy(d, at); let s = '\r\n', pos = 0, r, rs = null, first = Buffer.alloc(at, 0x61 - 42), got = [], what = 'chunks of ' + B + ' bytes with ' + JSON.stringify(EVENTS[c.e]) + ' at ' + at;
			do { const to = Math.min(L, pos + B); M.calls++; r = M.doesNotThrow(() => y.decodeChunk(d.subarray(pos, to), s), what); if(r.output.length !== r.written) throw M.Bad(what + ' .output'); got.push(r.output); pos += r.read; s = r.state; M.outcome(s); if(!r.ended && pos !== to) throw M.Bad(what + ' .read is ' + r.read); } while(!r.ended && pos < L);
			rs = M.refDecode(2, d.subarray(at), at ? '' : '\r\n'); M.is(pos, at + rs.read, what + ': total read'); M.is(s, rs.state, what + ': final state'); M.is(r.ended, rs.ended, what + ': ended'); const all = Buffer.concat(got), w = Buffer.concat([first, rs.out]); if(!all.equals(w)) M.eq(all, w, what + ': total output');
		}
	} else if(c.k === 'prev') {
		// the state is the text already seen: feeding the text through the automaton tells what it stands for
		const p = PREV[c.i];
		if(p === '\r\n=y' || p === '\r\n.\r\n') { for(const d of ['abc', '\r\n', '=', '']) M.doesNotThrow(() => y.decodeChunk(Buffer.from(d), p), 'decodeChunk with the state of an ended article'); return; }
		const sfx = s => S.filter(x => x && (s.endsWith(x) || (x === '\r\n=' && s.endsWith('\r\n.=')))).sort((a, b) => b.length - a.length)[0] || '';
		const s = p === '\r\n.=' ? '\r\n=' : sfx(p);
		for(const t of ['a', '=', '\r', '\n', '.', 'y', '\r\n', '.\r\n', '\n.', '=y', '\r\n.\r\n', 'abcdef']) {
			const d = Buffer.from(t);
			call(M, d, s, [p], 'state ' + JSON.stringify(p) + ' with ' + JSON.stringify(t));
		}
	} else if(c.k === 'conv') {
		// calling conventions; output exactly as long as the data, longer, too short, in-situ
		const src = M.refEncode(M.fill(c.n, 'm'), 11).subarray(0, c.n), n = src.length;
		for(const s of S) {
			const mk = size => { const o = M.atEnd(1, size); o.fill(0x5c); o.vfOut = true; return o; };
			for(const size of [n, n + 1, n + 70]) {
				call(M, M.atEnd(0, src), s, [s, mk(size)], 'decodeChunk(data, state, output)');
				call(M, M.atEnd(0, src), s, [mk(size), s], 'decodeChunk(data, output, state)');
				if(s === '\r\n') { call(M, M.atEnd(0, src), s, [mk(size)], 'decodeChunk(data, output)'); call(M, M.atEnd(0, src), s, [null, mk(size)], 'decodeChunk(data, null, output)'); call(M, M.atEnd(0, src), s, [mk(size), null], 'decodeChunk(data, output, null)'); call(M, M.atEnd(0, src), s, [undefined, mk(size)], 'decodeChunk(data, undefined, output)'); }
			}
			if(c.n % 23 === 1) for(const size of BIGO) { const mk = () => { const o = Buffer.alloc(size, 0x5c); o.vfOut = true; return o; };
				call(M, src, s, [s, mk()], 'decodeChunk(data, state, output of ' + size + ')'); call(M, src, s, [mk(), s], 'decodeChunk(data, output of ' + size + ', state)'); }
			for(const at of [M.atEnd, M.atStart]) {
				const b = at(2, src); b.vfOut = true;
				call(M, b, s, [s, b], 'in-situ decodeChunk');
			}
			for(const size of [n - 1, n - 2, n - 3, n - 16, n - 31, n - 32, n - 33, n - 63, n - 64, n >> 1, 1, 0]) if(size >= 0 && size < n) {
				for(const f of [o => y.decodeChunk(src, s, o), o => y.decodeChunk(src, o, s)]) {
					const o = M.atEnd(1, size); o.fill(0x5c);
					M.throws(() => f(o), 'decodeChunk of ' + n + ' bytes into ' + size);
					for(let i = 0; i < size; i++) if(o[i] !== 0x5c) throw M.Bad('decodeChunk threw but wrote to the output');
				}
			}
		}
	} else if(c.k === 'empty') {
		for(const s of S) for(const o of [null, Buffer.alloc(0), Buffer.alloc(5)]) for(const order of [0, 1]) {
			const a = o ? order ? [o, s] : [s, o] : [s], r = M.doesNotThrow(() => y.decodeChunk(Buffer.alloc(0), ...a), 'decodeChunk of nothing');
			M.is(r.read, 0, 'empty .read'); M.is(r.written, 0, 'empty .written'); M.is(r.ended, false, 'empty .ended'); M.is(r.state, s, 'empty .state');
			if(!Buffer.isBuffer(r.output) || (o && r.output !== o)) throw M.Bad('empty .output');
		}
		const r = y.decodeChunk(Buffer.alloc(0)); M.is(r.state, '\r\n', 'empty new article .state');
	} else if(c.k === 'bad') for(const b of [undefined, null, 'abc', 5, {length: 3}, [1, 2]]) M.throws(() => y.decodeChunk(b), 'decodeChunk of ' + JSON.stringify(b));
};
