"use strict";
// A05: after every sequence of calls, with every choice of what is kept of the results: the memory of what is kept stays as it is, all
// other memory comes back, exactly once, and nothing given to or returned by a call is held on to.
// A06: every request for memory a call makes is refused: the call throws or succeeds, nothing is lost, and later calls work.
const path = require('path'), history = require('./history.js');
const KEEP = ['nothing', 'result', 'slice', 'arraybuffer', 'input'];
let OPS, ADDON;
function setup(M) {
	if(OPS) return; if(!M.guarded) throw M.harness('needs the guard addon');
	OPS = history.ops(M); ADDON = path.join(path.dirname(M.index), 'build/Release/yencode.node');
	const E = require(ADDON).encodeIncr; // not part of the package, but of the addon
	if(typeof E === 'function') for(const n of [5, 300]) OPS.push({name: 'encodeIncr ' + n, make: () => { const i = M.fill(n, 'm'); return {ins: [i], f: () => [E(i, 128, 0).output], want: [M.refEncode(Buffer.concat([i, Buffer.from([25])])).subarray(0, -1)]}; }});
	const d = M.fill(300, 'm'), y = M.y, small = Buffer.alloc(2), big = Buffer.alloc(2000, 5);
	OPS.push({name: 'in place', make: () => { const a = M.refEncode(d), b = Buffer.from(a), c = Buffer.from(a); return {ins: [a, b, c], f: () => { const n = y.decodeTo(a, a, true), m = y.decodeTo(b, b), r = y.decodeChunk(c, c); return [a.subarray(0, n), b.subarray(0, m), r.output.subarray(0, r.written)]; }, want: [d, d, d], writes: true}; }});
	// objects that refer to what they were given
	const part = (q, i) => [q.encode(i)];
	OPS.push({name: 'unfinished session', make: () => { const i = M.fill(300, 'm'), j = M.fill(300, 'm'), q = y.multi_post('f', 1000, 3); return {ins: [i, j], objs: [q], f: () => [...part(q, i), ...part(q, j)], want: [], writes: true}; }});
	OPS.push({name: 'session that failed', make: () => { const i = M.fill(300, 'm'), q = y.multi_post('f', 500, 3); return {ins: [i], objs: [q], f: () => { const o = part(q, i); try { part(q, i); } catch(e) { return o; } throw M.Bad('no error'); }, want: [], writes: true}; }});
	OPS.push({name: 'session of two parts', make: () => { const i = M.fill(300, 'm'), j = M.fill(300, 'm'), q = y.multi_post('f', 600, 2); return {ins: [i, j], objs: [q], f: () => [...part(q, i), ...part(q, j), q.crc], want: [], writes: true}; }});
	OPS.push({name: 'session of one part', make: () => { const i = M.fill(300, 'm'), q = y.multi_post('f', 300, 1); return {ins: [i], objs: [q], f: () => [...part(q, i), q.crc], want: [], writes: true}; }});
	OPS.push({name: 'returned objects', make: () => { const i = Buffer.concat([y.post('x', d), Buffer.from('\r\n')]), j = M.refEncode(d), objs = []; return {ins: [i, j], objs, f: () => { const a = y.from_post(i), b = y.decodeChunk(j), c = y.from_post(j); objs.push(a, a.props, b, c); return [a.data, a.crc32, b.output]; }, want: []}; }});
	// every call that fails after having got its arguments
	const fails = [['encode', (d, small, big) => y.encode(d, -1)], ['encode col', (d, small, big) => y.encode(d, 5, 9)], ['encodeTo', (d, small, big) => y.encodeTo(d, small)], ['encodeTo ls', (d, small, big) => y.encodeTo(d, Buffer.alloc(2000), -5)], ['encodeTo col', (d, small, big) => y.encodeTo(d, Buffer.alloc(2000), 5, 6)], ['decodeTo', (d, small, big) => y.decodeTo(d, small)], ['decodeChunk', (d, small, big) => y.decodeChunk(d, small)], ['crc32', (d, small, big) => y.crc32(d, small)], ['combine', (d, small, big) => y.crc32_combine(small, small, 5)], ['decode', (d, small, big) => y.decode('x')], ['zeroes', (d, small, big) => y.crc32_zeroes(4, small)], ['shift', (d, small, big) => y.crc32_shift(4, small)], ['multiply', (d, small, big) => y.crc32_multiply(small, small)], ['from_post', (d, small, big) => { if(y.from_post(d) instanceof Error) throw new Error('no post'); }], ['multi_post', (d, small, big) => y.multi_post('a', 5, 2).encode(d)], ['encodeTo in place', (d, small, big) => y.encodeTo(d, d)], ['encodeTo overlapping', (d, small, big) => y.encodeTo(big.subarray(0, 300), big.subarray(100, 300))], ['decodeTo overlapping', (d, small, big) => y.decodeTo(big.subarray(0, 300), big.subarray(100, 300))], ['decodeChunk overlapping', (d, small, big) => y.decodeChunk(big.subarray(0, 300), big.subarray(100, 300))], ['multi_post, too much', (d, small, big) => { const q = y.multi_post('a', 600, 2); q.encode(d); q.encode(d); q.encode(d); }]];
	if(typeof E === 'function') fails.push(['encodeIncr', (d, small, big) => E(d, small)], ['encodeIncr ls', (d, small, big) => E(d, -1)], ['encodeIncr col', (d, small, big) => E(d, 5, 9)]);
	for(const [n, f] of fails) OPS.push({name: 'failing ' + n, make: () => { const a = Buffer.from(d), b = Buffer.from(small), c = Buffer.from(big); return {ins: [a, b, c], f: () => { try { f(a, b, c); } catch(e) { if(e instanceof Error) return []; throw e; } throw M.Bad(n + ' did not fail'); }, want: [], fails: true}; }});
}
// calls of every length; what they return is of no concern here
const LENS = {
	encode: (y, d, e) => { y.encode(d); y.encode(d, 7, 3); }, 'encode, all escaped': (y, d) => { d.fill(0xe3); y.encode(d); y.encode(d, 1); }, encodeTo: (y, d) => { y.encodeTo(d, Buffer.alloc(y.maxSize(d.length, 30)), 30); },
	decode: (y, d, e) => { y.decode(d); y.decode(d, true); y.decode(e); y.decode(e, true); }, 'decode, nothing left': (y, d) => { d.fill('\r\n'); y.decode(d); d.fill(61); y.decode(d, true); d.fill('\r\n.'); y.decode(d, true); }, decodeTo: (y, d, e) => { y.decodeTo(e, Buffer.alloc(e.length)); y.decodeTo(e, e, true); },
	decodeChunk: (y, d, e) => { for(const s of ['\r\n', '=', '', '\r\n.', '\r']) { y.decodeChunk(d, s); y.decodeChunk(e, s); y.decodeChunk(e, s, Buffer.alloc(e.length)); } }, 'decodeChunk, ends': (y, d, e) => { for(const t of ['\r\n=y', '\r\n.\r\n', '\r\n.=y', '=y', '.\r\n']) { y.decodeChunk(Buffer.from(e.toString('latin1') + t, 'latin1')); y.decodeChunk(Buffer.from(t + e.toString('latin1'), 'latin1')); const b = Buffer.from(e.toString('latin1') + t + 'abc', 'latin1'); y.decodeChunk(b, null, b); } },
	crc32: (y, d, e) => { const c = y.crc32(d); y.crc32(e, c); y.crc32_combine(c, c, d.length); y.crc32_zeroes(d.length, c); y.crc32_shift(-d.length, c); y.crc32_multiply(c, c); },
	post: (y, d) => { y.post('x', d); y.post('y', d.toString('latin1'), 9); y.post('z', [...d]); }, multi_post: (y, d) => { const q = y.multi_post('a', 3 * d.length, 3, 20); q.encode(d); q.encode([...d]); q.encode(d); const r = y.multi_post('a', d.length, 1); r.encode(d); },
	from_post: (y, d) => { const p = y.post('x', d).toString('latin1'); for(const t of ['\r\n', '', '\r\n.\r\n']) { y.from_post(Buffer.from(p + t, 'latin1')); y.from_post(Buffer.from('a\r\n' + p + t, 'latin1'), true); } },
	'from_post, damaged': (y, d) => { const p = y.post('x', d).toString('latin1'); for(const [a, b] of [['=ybegin', '=ybegun'], ['=yend', '=yand'], [' name', ' mane'], ['crc32=', 'crc32=0'], ['size=', 'size=1'], ['\r\n=yend size', '\r\n=yend sise'], ['line=', 'line=x']]) y.from_post(Buffer.from(p.replace(a, b) + '\r\n', 'latin1')); const q = y.post('x', d); y.from_post(q.subarray(0, q.length - 9)); q[q.length >> 1] ^= 1; y.from_post(q); },
};
const live = M => { const n = M.G.alloc(ADDON, 0); if(n < 0) throw M.harness('no allocator'); return n; };
const tick = () => new Promise(setImmediate);
async function settle(M, done) { for(let i = 0; i < 12; i++) { global.gc(); await tick(); if(done()) return true; if(i > 2) { await tick(); await new Promise(r => setTimeout(r, i)); } } return done(); }
exports.cases = function*(T, M) {
	setup(M); const n = OPS.length;
	if(M.opt.prop === 'A06') {
		for(let a = 0; a < n; a++) if(!/^failing/.test(OPS[a].name)) for(let b = 0; b < n; b++) yield {k: 'refuse', a, b};
		return;
	}
	for(let a = 0; a < n; a++) for(let k = 0; k < KEEP.length; k++) yield {k: 'keep', s: [a], keep: k}; // followed by each of the others
	if(T) for(let a = 0; a < n; a++) for(let b = 0; b < n; b++) for(let k = 0; k < KEEP.length; k++) yield {k: 'keep', s: [a, b], keep: k};
	for(const sz of [1, 100, 4096, 65536, 70001, 1048577, 3000001, 17000001]) for(const f of sz > 1e7 ? ['encode', 'decode', 'decodeChunk'] : ['encode', 'decode', 'decodeChunk', 'post', 'from_post', 'multi_post']) yield {k: 'size', sz, f};
	for(const f in LENS) for(let from = 0; from < (T ? 2100 : 700); from += 70) yield {k: 'lens', f, from};
	for(let a = 0; a < n; a++) for(const how of ['end', 'exit', 'terminate']) if(T || how !== 'exit' || a % 3 === 0) yield {k: 'worker', a, how};
};
function call(i, M, refs, held, keep) { // its locals are gone when it returns
	const op = OPS[i].make(), outs = op.f(); M.calls++; M.steps++;
	op.want.forEach((w, k) => M.eq(outs[k], w, OPS[i].name + ', result ' + k));
	outs.forEach((o, k) => { refs.push([new WeakRef(o), 'result of ' + OPS[i].name]); if(o.buffer.byteLength === o.length && o.length) refs.push([new WeakRef(o.buffer), 'memory of the result of ' + OPS[i].name]);
		const w = op.want[k] || Buffer.from(o); if(keep === 1) held.push([o, w]); if(keep === 2 && o.length > 1) held.push([o.subarray(1), w.subarray(1)]); if(keep === 3) held.push([{ab: o.buffer, at: o.byteOffset, n: o.length}, w]); });
	if(op.objs) op.objs.forEach(b => refs.push([new WeakRef(b), 'object of ' + OPS[i].name]));
	op.ins.forEach(b => { refs.push([new WeakRef(b), 'argument of ' + OPS[i].name]); if(keep === 4) held.push([b, Buffer.from(b)]); });
}
const alive = refs => refs.filter(([r]) => r.deref() !== undefined);
async function keepCase(c, M, what) {
	let base = -1, counts = [], last = [];
	for(let rep = 0; rep < 3; rep++) {
		const refs = [], held = [];
		for(let b = c.one ? -1 : 0; b < (c.one ? 0 : OPS.length); b++) { for(const i of c.s) call(i, M, refs, held, c.keep); if(b >= 0) call(b, M, refs, held, c.keep); }
		if(c.keep && rep === 0) { global.gc(); await tick(); global.gc(); await tick(); for(const [h, w] of held) M.eq(h.ab ? Buffer.from(h.ab, h.at, h.n) : h, w, what + ': what was kept, after a collection'); }
		held.length = 0;
		const ok = await settle(M, () => alive(refs).length === 0 && (base < 0 || live(M) <= base));
		const n = live(M); if(base < 0) base = n; counts.push(n); if(rep) last.push(alive(refs));
		if(rep === 0 && ok && n === 0) { M.outcome(c.keep * 50 + refs.length); return; } // all of it came back
		if(rep && ok) break;
	}
	// what stays behind must not become more with every repetition
	if(counts.length === 3 && counts[1] > counts[0] && counts[2] > counts[1]) throw M.Bad(what + ': memory is lost, ' + counts + ' blocks in use after each repetition');
	if(last.length === 2 && last[0].length && last[1].length) { const both = last[1].filter(x => last[0].some(y => y[1] === x[1])); if(both.length) throw M.Bad(what + ': still held on to: ' + both.map(x => x[1])); }
	M.outcome(counts[0]);
}
function worker(M, how, name) {
	return new Promise((res, rej) => {
		const W = require('worker_threads'), w = new W.Worker(__filename, {workerData: {opt: M.opt, name, how}, stderr: false});
		w.on('message', m => { if(m.bad) rej(M.Bad(m.bad)); else if(how === 'terminate') w.terminate(); else w.postMessage(how); }); w.on('error', e => rej(M.Bad('worker: ' + e.message))); w.on('exit', () => res());
	});
}
exports.run = function(c, M) {
	setup(M); const y = M.y;
	if(c.k === 'keep') return keepCase(c, M, c.s.map(i => OPS[i].name).join(' ; ') + ' ; each of the calls, keeping ' + KEEP[c.keep]);
	if(c.k === 'size') {
		const d = M.fill(c.sz, 'm'), e = M.refEncode(d), p = c.f === 'from_post' ? Buffer.concat([y.post('x', d), Buffer.from('\r\n')]) : null; let src = c.f === 'from_post' ? p : /^decode/.test(c.f) ? e : d;
		const f = {encode: () => y.encode(src), decode: () => y.decode(src), decodeChunk: () => y.decodeChunk(src).output, post: () => y.post('x', src), from_post: () => y.from_post(src).data, multi_post: () => { const q = y.multi_post('f', 2 * c.sz, 2); q.encode(src); return q.encode(src); }}[c.f];
		OPS[-1] = {name: c.f + ' of ' + c.sz + ' bytes', make: () => ({ins: [], f: () => [f()], want: []})};
		return keepCase({s: [-1, -1], keep: 0, one: true}, M, OPS[-1].name);
	}
	if(c.k === 'lens') {
		OPS[-1] = {name: c.f + ' of ' + c.from + '..' + (c.from + 69) + ' bytes', make: () => { const ins = []; return {ins, f: () => { for(let n = c.from; n < c.from + 70; n++) { const d = M.fill(n, 'm'), e = M.refEncode(d, 40); ins.push(d, e); LENS[c.f](y, d, e); M.calls++; M.steps += n; } return []; }, want: []}; }};
		return keepCase({s: [-1], keep: 0, one: true}, M, OPS[-1].name);
	}
	if(c.k === 'worker') return (async () => {
		const counts = [], name = OPS[c.a].name; await settle(M, () => live(M) === 0); const base = live(M);
		for(let rep = 0; rep < 3; rep++) { await worker(M, c.how, name); M.calls++; M.steps += 3; await settle(M, () => live(M) <= base); counts.push(live(M)); if(live(M) <= base) break; }
		if(counts.length === 3 && counts[2] > counts[1] && counts[1] > counts[0]) throw M.Bad('memory is lost when a Worker that called ' + name + ' ends (' + c.how + '): ' + counts + ' blocks in use'); M.outcome(counts.length);
	})();
	// A06
	return (async () => {
		const A = OPS[c.a], B = OPS[c.b], G = M.G; let n = 0;
		{ const op = A.make(); G.alloc(ADDON, 2, -1, 0); op.f(); n = G.alloc(ADDON, 1); }
		await settle(M, () => live(M) === 0); const base = live(M);
		for(let k = 0; k < n; k++) for(const many of [1, 1000]) {
			const what = A.name + ' with request ' + k + (many > 1 ? ' for memory and all later ones' : ' for memory') + ' refused';
			const go = () => { const op = A.make(), keep = op.ins.map(b => Buffer.from(b)); let outs, e; G.alloc(ADDON, 2, k, many); try { outs = op.f(); } catch(x) { e = x; } finally { G.alloc(ADDON, 2, -1, 0); } M.calls++; M.steps++;
				if(e && !(e instanceof Error)) throw M.Bad(what + ': threw something else than an Error'); if(e && e.bad) throw e;
				if(outs) op.want.forEach((w, i) => M.eq(outs[i], w, what + ', result ' + i)); if(!op.writes) op.ins.forEach((b, i) => { if(!b.equals(keep[i])) throw M.Bad(what + ': input ' + i + ' was changed'); });
				M.outcome(e ? e.message : 'result');
				const q = B.make(), r = q.f(); M.calls++; q.want.forEach((w, i) => M.eq(r[i], w, what + ', then ' + B.name)); };
			const counts = []; for(let rep = 0; rep < 3; rep++) { go(); if(await settle(M, () => live(M) <= base)) break; counts.push(live(M)); }
			if(counts.length === 3 && counts[2] > counts[1] && counts[1] > counts[0]) throw M.Bad(what + ': memory is lost, ' + counts + ' blocks in use after each repetition');
		}
	})();
};
const W = require('worker_threads');
if(!W.isMainThread && W.workerData && W.workerData.how) {
	const M = require('../lib.js')(W.workerData.opt); let kept;
	try { setup(M); const op = OPS.find(o => o.name === W.workerData.name).make(); kept = [op, op.f()]; op.want.forEach((w, k) => M.eq(kept[1][k], w, 'in a Worker: ' + W.workerData.name)); W.parentPort.once('message', m => { if(m === 'exit') process.exit(0); }); W.parentPort.postMessage({}); } catch(e) { W.parentPort.postMessage({bad: e.message}); }
}
