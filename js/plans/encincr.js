"use strict";
// E06: pieces encoded one after the other, through the addon's encodeIncr (which the package itself doesn't pass on).
const path = require('path');
const AL = ['a', '=', '\t', '.', ' ', '\n'].map(x => (x.charCodeAt(0) - 42) & 255);
exports.cases = function*(T) {
	for(const ls of [1, 2, 3, 5]) for(let n = 1; n <= (T ? 6 : 5); n++) for(let a = 0; a < AL.length; a++) yield {k: 'word', ls, n, a};
	for(const ls of [1, 2, 4, 11, 12, 13, 31, 64, 100, 128]) for(const f of ['n', 'e', 't', 'm', 'r', 'd']) yield {k: 'cut', ls, f};
	for(const ls of [1, 3, 12, 20, 64, 128]) for(const s of [1, 2, 3, 5, 7, 16, 31, 64, 100, 128, 129, 200]) for(const f of ['n', 'e', 't', 'm', 'r']) yield {k: 'even', ls, s, f, N: T ? 2000 : 700};
	for(const ls of [3, 64, 128, 997]) for(const s of [4096, 16384, 65535, 65536, 100000, 300001, 1000000]) for(const f of ['e', 't', 'm', 'r']) yield {k: 'even', ls, s, f, N: 1100000};
	for(let n = 1; n <= (T ? 300 : 160); n++) for(const ls of [1, 12, 128]) yield {k: 'size', n, ls};
	for(const n of [1000, 5000, 66000]) for(const ls of [1, 12, 128]) yield {k: 'size', n, ls};
	yield {k: 'args'};
};
exports.run = function(c, M) {
	const E = require(path.join(path.dirname(M.index), 'build/Release/yencode.node')).encodeIncr, y = M.y;
	if(typeof E !== 'function') { M.count('the addon has no encodeIncr'); return; }
	const whole = new Map();
	// the reference for the whole: what encode is claimed to give (E01), without the treatment of a final blank
	const ref = (d, ls) => { const k = d.toString('latin1') + ls; if(!whole.has(k)) { if(whole.size > 999) whole.clear(); whole.set(k, M.refEncode(Buffer.concat([d, Buffer.from([25])]), ls)); } return whole.get(k); }; // one more ordinary byte ('C'), to be cut off again
	const check = (ps, ls, into) => {
		let col = 0; const out = []; M.calls++;
		for(const p of ps) { M.steps++;
			const room = into ? (p.length > 50000 ? Buffer.alloc : M.atEnd.bind(null, 1))(p.length ? y.maxSize(p.length, ls) : 66) : null, keep = Buffer.from(p), r = M.doesNotThrow(() => into ? E(p, room, ls, col) : E(p, ls, col), 'encodeIncr at column ' + col + ' of ' + ls);
			if(!p.equals(keep)) throw M.Bad('encodeIncr changed its input');
			if(!into && p.length) M.is(r.written, r.output.length, 'encodeIncr written'); if(into && r.output !== undefined) throw M.Bad('encodeIncr returned an output besides the given one');
			if(p.length) out.push(Buffer.from(into ? room.subarray(0, r.written) : r.output)); else M.is(r.written, 0, 'encodeIncr of nothing: written');
			col = r.col; }
		const d = Buffer.concat(ps), got = Buffer.concat(out); let want = ref(d, ls); want = want.subarray(0, want.length - 1); if(want.length > 1 && want[want.length - 1] === 10 && want[want.length - 2] === 13) want = want.subarray(0, -2);
		if(!got.equals(want)) M.eq(got, want, 'pieces of ' + ps.map(p => p.length) + ' bytes, line size ' + ls + ', of ' + M.show(d));
		const s = want.toString('latin1'), i = s.lastIndexOf('\r\n'); if(d.length) M.is(col, s.length - (i < 0 ? 0 : i + 2), 'column after ' + ps.map(p => p.length) + ' bytes, line size ' + ls); M.outcome(got.length * 7 + col);
	};
	if(c.k === 'word') {
		const d = Buffer.alloc(c.n); for(let w = 0; w < Math.pow(AL.length, c.n - 1); w++) { let x = w; d[0] = AL[c.a]; for(let i = 1; i < c.n; i++) { d[i] = AL[x % AL.length]; x = x / AL.length | 0; }
			for(let m = 0; m < 1 << (c.n - 1); m++) { const ps = []; let s = 0; for(let i = 1; i <= c.n; i++) if(i === c.n || m >> (i - 1) & 1) { ps.push(d.subarray(s, i)); s = i; } check(ps, c.ls, (w + m) & 1); } }
	} else if(c.k === 'cut') {
		const d = M.fill(2 * c.ls + 150, c.f); for(let i = 0; i <= d.length; i++) { check([d.subarray(0, i), d.subarray(i)], c.ls, i & 1); check([d.subarray(0, i), d.subarray(i, i + 1), Buffer.alloc(0), d.subarray(i + 1)], c.ls, !(i & 1)); }
	} else if(c.k === 'even') {
		const d = M.fill(c.N, c.f), ps = []; for(let i = 0; i < d.length; i += c.s) ps.push(d.subarray(i, i + c.s)); check(ps, c.ls, false); check(ps, c.ls, true);
	} else if(c.k === 'size') {
		for(const f of ['n', 'e', 'm']) for(const col of [0, 1, c.ls - 1, c.ls, c.ls + 1]) { if(col < 0 || col > c.ls + 1) continue; const d = M.atEnd(0, M.fill(c.n, f)), need = y.maxSize(c.n, c.ls), a = E(d, c.ls, col); M.calls++;
			if(a.written > need) throw M.Bad('encodeIncr wrote ' + a.written + ' bytes, maxSize is ' + need);
			const o = M.atEnd(1, need), b = M.doesNotThrow(() => E(d, o, c.ls, col), 'encodeIncr into maxSize bytes'); M.is(b.written, a.written, 'written'); M.is(b.col, a.col, 'col'); if(c.n) M.eq(o.subarray(0, b.written), a.output, 'output');
			const s = M.atEnd(1, need - 1).fill(0x55), k = Buffer.from(s); M.throws(() => E(d, s, c.ls, col), 'encodeIncr into too little room'); M.eq(s, k, 'the output after the error'); M.outcome(a.written); }
	} else {
		const d = Buffer.from('abc'), o = Buffer.alloc(y.maxSize(3, 128));
		for(const a of [[], [1], ['abc'], [d, -1], [d, 8, -1], [d, 8, 10], [d, 8, 100], [d, o, -1], [d, o, 8, -1], [d, o, 8, 10]]) M.throws(() => E(...a), 'encodeIncr with invalid arguments');
		for(const a of [[d], [d, 0], [d, 128], [d, 128, 0], [d, o], [d, o, 0], [d, o, 128, 0]]) { const r = E(...a); M.is(r.col, 3, 'col'); M.is(r.written, 3, 'written'); }
	}
};
