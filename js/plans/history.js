"use strict";
// A04: every sequence of API calls up to a depth: each call's result depends on its own arguments only, results stay as
// they were returned, inputs are never changed, results never share memory - also when earlier results are overwritten.
let OPS;
function ops(M) {
	const y = M.y, L = [];
	const add = (name, make) => L.push({name, make});
	const inp = (n, f) => M.fill(n, f);
	const data = {s: inp(5, 't'), m: inp(300, 'm'), e: inp(129, 'e'), b: inp(4100, 'r')};
	const enc = {}; for(const k in data) enc[k] = {a: M.refEncode(data[k], 128), b: M.refEncode(data[k], 4, 2)};
	const art = M.R('hello'), raw = Buffer.from('..a\r\n..b=\r\n.\r\n.c=J');
	for(const k of ['s', 'm', 'b']) add('encode ' + k, () => { const i = Buffer.from(data[k]); return {ins: [i], f: () => [y.encode(i)], want: [enc[k].a]}; });
	add('encode s 4,2', () => { const i = Buffer.from(data.s); return {ins: [i], f: () => [y.encode(i, 4, 2)], want: [enc.s.b]}; });
	add('encode nothing', () => ({ins: [], f: () => [y.encode(Buffer.alloc(0))], want: [Buffer.alloc(0)]}));
	for(const k of ['s', 'e']) add('encodeTo ' + k, () => { const i = Buffer.from(data[k]), o = Buffer.alloc(y.maxSize(i.length)); return {ins: [i], f: () => { const n = y.encodeTo(i, o); return [o.subarray(0, n)]; }, want: [enc[k].a]}; });
	for(const r of [false, true]) { add('decode raw=' + r, () => { const i = Buffer.from(raw); return {ins: [i], f: () => [y.decode(i, r)], want: [M.refDecode(r ? 1 : 0, raw).out]}; });
		add('decodeTo raw=' + r, () => { const i = Buffer.from(enc.m.a), o = Buffer.alloc(i.length); return {ins: [i], f: () => [o.subarray(0, y.decodeTo(i, o, r))], want: [M.refDecode(r ? 1 : 0, enc.m.a).out]}; }); }
	add('decode to nothing', () => ({ins: [], f: () => [y.decode(Buffer.from('\r\n'))], want: [Buffer.alloc(0)]}));
	add('decode big', () => { const i = Buffer.from(enc.b.a); return {ins: [i], f: () => [y.decode(i)], want: [data.b]}; });
	for(const [s, t] of [['\r\n', '.\r\n'], ['=', 'a=y'], ['', 'xyz'], ['\r\n.', '=y'], ['\r', '\n=']]) add('decodeChunk ' + JSON.stringify([s, t]), () => { const i = Buffer.from(t), w = M.refDecode(2, i, s); return {ins: [i], f: () => { const r = y.decodeChunk(i, s); return [r.output, Buffer.from(r.state + '|' + r.ended + r.read)]; }, want: [w.out, Buffer.from(w.state + '|' + w.ended + w.read)]}; });
	add('decodeChunk to output', () => { const i = Buffer.from(enc.m.a), o = Buffer.alloc(i.length), w = M.refDecode(2, i); return {ins: [i], f: () => { const r = y.decodeChunk(i, null, o); return [r.output.subarray(0, r.written)]; }, want: [w.out]}; });
	for(const k of ['s', 'm']) add('crc32 ' + k, () => { const i = Buffer.from(data[k]); return {ins: [i], f: () => [y.crc32(i)], want: [M.pack(M.crc(data[k]))]}; });
	add('crc32 continued', () => { const i = Buffer.from(data.e), p = M.pack(0x12345678); return {ins: [i, p], f: () => [y.crc32(i, p)], want: [M.pack(M.crc(data.e, 0x12345678))]}; });
	add('crc32_combine', () => { const a = M.pack(0x1111), b = M.pack(0x22220000); return {ins: [a, b], f: () => [y.crc32_combine(a, b, 77)], want: [M.pack((M.mul(0x1111, M.xpow(616n)) ^ 0x22220000) >>> 0)]}; });
	add('crc32_zeroes', () => { const a = M.pack(0x1234); return {ins: [a], f: () => [y.crc32_zeroes(9, a), y.crc32_zeroes(-9)], want: [M.pack(M.crc(Buffer.alloc(9), 0x1234)), M.pack(~M.mul(0xffffffff, M.xpow(-72n)) >>> 0)]}; });
	add('crc32_multiply/shift', () => { const a = M.pack(0x1234), b = M.pack(0x77); return {ins: [a, b], f: () => [y.crc32_multiply(a, b), y.crc32_shift(5), y.crc32_shift(-3, a)], want: [M.pack(M.mul(0x1234, 0x77)), M.pack(M.xpow(5n)), M.pack(M.mul(0x1234, M.xpow(-3n)))]}; });
	const postOf = (name, d) => Buffer.concat([Buffer.from('=ybegin line=128 size=' + d.length + ' name=' + name + '\r\n'), M.refEncode(d), Buffer.from('\r\n=yend size=' + d.length + ' crc32=' + M.hex(M.crc(d)))]);
	add('post', () => { const i = Buffer.from(data.m); return {ins: [i], f: () => [y.post('a b.bin', i)], want: [postOf('a b.bin', data.m)]}; });
	add('multi_post', () => { const i = Buffer.from(data.s); return {ins: [i], f: () => { const q = y.multi_post('f', 8, 2, 64); const a = q.encode(i), b = q.encode([1, 2, 3]); return [a, b, q.crc]; },
		want: [Buffer.concat([Buffer.from('=ybegin part=1 total=2 line=64 size=8 name=f\r\n=ypart begin=1 end=5\r\n'), M.refEncode(data.s, 64), Buffer.from('\r\n=yend size=5 part=1 pcrc32=' + M.hex(M.crc(data.s)))]),
			Buffer.concat([Buffer.from('=ybegin part=2 total=2 line=64 size=8 name=f\r\n=ypart begin=6 end=8\r\n+,-\r\n=yend size=3 part=2 pcrc32=' + M.hex(M.crc([1, 2, 3])) + ' crc32=' + M.hex(M.crc(Buffer.concat([data.s, Buffer.from([1, 2, 3])]))))]),
			M.pack(M.crc(Buffer.concat([data.s, Buffer.from([1, 2, 3])])))]}; });
	add('from_post', () => { const i = Buffer.concat([postOf('x', data.m), Buffer.from('\r\n')]); return {ins: [i], f: () => { const r = y.from_post(i); return [r.data, r.crc32, Buffer.from(JSON.stringify(r.props) + !!r.warnings)]; }, want: [data.m, M.pack(M.crc(data.m)), Buffer.from(JSON.stringify({begin: {line: '128', size: '300', name: 'x'}, end: {size: '300', crc32: M.hex(M.crc(data.m))}}) + 'false')]}; });
	add('sizes', () => ({ins: [], f: () => [Buffer.from(y.maxSize(1000) + ' ' + y.minSize(1000, 100))], want: [Buffer.from('2096 1018')]}));
	add('failing calls', () => ({ins: [], f: () => { let n = 0; for(const f of [() => y.encodeTo(data.m, Buffer.alloc(3)), () => y.decodeTo(data.m, Buffer.alloc(3)), () => y.encode(data.m, -1), () => y.crc32('x'), () => y.multi_post('a', 5, 1).encode([1]), () => y.encode(data.m, 5, 9)]) try { f(); } catch(e) { n++; } return [Buffer.from([n])]; }, want: [Buffer.from([6])]}));
	return L;
}
exports.ops = ops;
// the same Buffer objects, used again with other contents: a result follows what the arguments are at the call
function reuse(M) {
	const y = M.y, j = x => Buffer.from(JSON.stringify(x)), P = (n, f) => y.post(n, f);
	return [['encode', a => y.encode(a)], ['encode 4,2', a => y.encode(a, 4, 2)], ['encodeTo', (a, o) => o.subarray(0, y.encodeTo(a, o))], ['decode', a => y.decode(a)], ['decode raw', a => y.decode(a, true)], ['decodeTo', (a, o) => o.subarray(0, y.decodeTo(a, o, true))],
		['decodeChunk', a => { const r = y.decodeChunk(a); return Buffer.concat([r.output, j([r.read, r.written, r.ended, r.state])]); }], ['decodeChunk output', (a, o) => { const r = y.decodeChunk(a, '=', o); return Buffer.concat([o.subarray(0, r.written), j([r.output === o, r.read, r.ended, r.state])]); }],
		['crc32', a => y.crc32(a)], ['crc32 from', (a, o) => y.crc32(o, a.subarray(0, 4))], ['crc32_combine', (a, o) => y.crc32_combine(a.subarray(0, 4), o.subarray(0, 4), 77)], ['crc32_zeroes', a => y.crc32_zeroes(7, a.subarray(0, 4))], ['crc32_multiply', (a, o) => y.crc32_multiply(a.subarray(0, 4), o.subarray(0, 4))], ['crc32_shift', a => y.crc32_shift(5, a.subarray(0, 4))],
		['post', a => P('f', a)], ['multi_post', (a, o) => { const q = y.multi_post('f', a.length + o.length, 2); return Buffer.concat([q.encode(a), q.encode(o), q.crc]); }],
		['from_post', a => { const r = y.from_post(a); return j(r instanceof Error ? r.code : [r.props, r.yencStart, r.dataStart, r.dataEnd, r.yencEnd, r.data && r.data.toString('hex'), r.crc32 && r.crc32.toString('hex'), r.warnings]); }],
		['from_post raw', a => { const r = y.from_post(a, true); return j(r instanceof Error ? r.code : [r.props, r.yencEnd, r.data && r.data.toString('hex'), r.crc32 && r.crc32.toString('hex'), r.warnings]); }]];
}
function reused(c, M) {
	const F = reuse(M), y = M.y, D = [Buffer.from([1, 2, 3, 214, 227, 4, 5]), Buffer.from([5, 4, 4, 19, 227, 9, 9]), Buffer.from([19, 214, 3, 3, 3, 3, 3])].map(d => Buffer.concat([y.post('a.b', d), Buffer.from('\r\n')])), n = D[0].length;
	if(D.some(d => d.length !== n)) throw M.Bad('the posts differ in length');
	D.push(Buffer.alloc(n, 61), Buffer.from('\r\n.=y'.repeat(n)).subarray(0, n), M.fill(n, 'r'));
	for(let g = 0; g < F.length; g++) for(let a = 0; a < D.length; a++) for(let b = 0; b < D.length; b++) for(let o = 0; o < 2; o++) {
		const buf = Buffer.from(D[a]), out = Buffer.alloc(4 * n, 7), what = F[c.reuse][0] + ' then ' + F[g][0] + ' with the same Buffers, their contents changed'; let r, w;
		try { M.calls += 3; Buffer.from(F[c.reuse][1](buf, out)); D[b].copy(buf); out.fill(o + 1); r = Buffer.from(F[g][1](buf, out)); w = Buffer.from(F[g][1](Buffer.from(D[b]), Buffer.alloc(4 * n, o + 1))); } catch(e) { throw e.bad ? e : M.Bad(what + ' threw ' + e.message); }
		M.eq(r, w, what); M.outcome(r.length % 997);
	}
}
exports.cases = function*(T, M) {
	OPS = ops(M); const n = OPS.length;
	for(let r = reuse(M).length; r--;) yield {reuse: r};
	for(let a = 0; a < n; a++) for(let b = 0; b < n; b++) for(let sc = 0; sc < 2; sc++) yield {a, b, sc};
	if(T) for(let a = 0; a < n; a++) for(let b = 0; b < n; b++) for(let c = 0; c < n; c++) for(let sc = 0; sc < 2; sc++) yield {a, b, c, sc};
};
function one(seq, scribble, M) {
	const done = [];
	for(const i of seq) {
		const op = OPS[i].make(), keep = op.ins.map(b => Buffer.from(b)), what = seq.slice(0, done.length + 1).map(j => OPS[j].name).join(' ; ') + (scribble ? ' (earlier results overwritten)' : '');
		M.calls++; M.steps++;
		let outs; try { outs = op.f(); } catch(e) { throw M.Bad(what + ': threw ' + e.message); }
		op.want.forEach((w, k) => M.eq(outs[k], w, what + ', result ' + k));
		op.ins.forEach((b, k) => { if(!b.equals(keep[k])) throw M.Bad(what + ': input ' + k + ' was changed'); });
		if(!scribble) done.forEach(d => { d.outs.forEach((o, k) => { if(!o.equals(d.want[k])) throw M.Bad(what + ': result ' + k + ' of an earlier call changed'); }); d.ins.forEach((b, k) => { if(!b.equals(d.keep[k])) throw M.Bad(what + ': an earlier input changed'); }); });
		outs.forEach(o => { if(o.length) for(const x of op.ins) if(x.length && o.buffer === x.buffer && o.byteOffset < x.byteOffset + x.length && x.byteOffset < o.byteOffset + o.length) throw M.Bad(what + ': the result shares memory with the input'); });
		outs.forEach(o => { if(o.length) for(const d of done) for(const x of d.outs) if(x.length && o.buffer === x.buffer && o.byteOffset < x.byteOffset + x.length && x.byteOffset < o.byteOffset + o.length) throw M.Bad(what + ': two results share memory'); });
		outs.forEach(o => { if(o.slice(0).length !== o.length) throw M.Bad(what + ': not an ordinary Buffer'); });
		// the caller owns results and inputs
		if(scribble) { outs.forEach(o => o.fill(0xEE)); op.ins.forEach(b => b.fill(0xDD)); }
		done.push({outs, want: op.want, ins: op.ins, keep});
	}
	M.outcome(done[done.length - 1].want[0].length % 997);
}
exports.run = function(c, M) {
	if(!OPS) OPS = ops(M);
	if('reuse' in c) return reused(c, M);
	if('c' in c) for(let d = 0; d < OPS.length; d++) one([c.a, c.b, c.c, d], c.sc, M);
	else for(let d = 0; d < OPS.length; d++) { one([c.a, c.b, d], c.sc, M); M.count('sequences'); }
};
