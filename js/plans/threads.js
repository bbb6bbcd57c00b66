"use strict";
// K02: two threads (this one and a Worker) run calls of the addon under the scheduler of harness/vfmon.cc. Every pair of programs is first run
// one after the other with all accesses to shared memory recorded; if no location is accessed by both (one of them writing), all interleavings
// are equivalent to that run. Otherwise the accesses to such locations become scheduling points, and every schedule with one context switch
// away from the first thread (and, up to a limit, a second one back) is executed - until no new conflicting location turns up.
const W = require('worker_threads');
let S, P, worker, direct = false; // direct: load as Node does the first time, without holding its lock
function programs(M) {
	const y = M.y, addon = require('path').join(require('path').dirname(M.index), 'build/Release/yencode.node');
	const d = {s: M.fill(5, 't'), m: M.fill(300, 'm'), n: M.fill(150, 'n'), r: M.fill(700, 'r')}, e = {};
	for(const k in d) e[k] = M.refEncode(d[k]);
	const ops = {};
	const op = (name, f, want) => { ops[name] = {name, f, want: [].concat(want)}; };
	for(const k in d) op('encode ' + k, () => [y.encode(d[k])], e[k]);
	op('encode r 7,3', () => [y.encode(d.r.subarray(0, 90), 7, 3)], M.refEncode(d.r.subarray(0, 90), 7, 3));
	for(const k of ['m', 'n']) op('encodeTo ' + k, () => { const o = Buffer.alloc(y.maxSize(d[k].length)); return [o.subarray(0, y.encodeTo(d[k], o))]; }, e[k]);
	const raw = Buffer.concat([Buffer.from('..a\r\n..b=\r\n.\r\n.c=J'), e.m, Buffer.from('\r\n..'), e.r]);
	for(const r of [false, true]) { op('decode raw=' + r, () => [y.decode(raw, r)], M.refDecode(r ? 1 : 0, raw).out);
		op('decodeTo raw=' + r, () => { const o = Buffer.alloc(raw.length); return [o.subarray(0, y.decodeTo(raw, o, r))]; }, M.refDecode(r ? 1 : 0, raw).out); }
	op('decode n', () => [y.decode(e.n)], d.n);
	const post = Buffer.concat([e.r, Buffer.from('\r\n=yend size=700\r\n')]);
	for(const [st, t] of [['\r\n', post], ['=', raw], ['', Buffer.from('xyz')], ['\r\n.', Buffer.from('=y')]]) { const w = M.refDecode(2, t, st);
		op('decodeChunk ' + JSON.stringify(st) + ' ' + t.length, () => { const r = y.decodeChunk(t, st); return [r.output, Buffer.from(r.state + '|' + r.ended + r.read)]; }, [w.out, Buffer.from(w.state + '|' + w.ended + w.read)]); }
	for(const k of ['s', 'm', 'r']) op('crc32 ' + k, () => [y.crc32(d[k])], M.pack(M.crc(d[k])));
	op('crc32 continued', () => [y.crc32(d.m, M.pack(0x12345678))], M.pack(M.crc(d.m, 0x12345678)));
	op('crc32_combine', () => [y.crc32_combine(M.pack(0x1111), M.pack(0x22220000), 77)], M.pack((M.mul(0x1111, M.xpow(616n)) ^ 0x22220000) >>> 0));
	op('crc32_zeroes', () => [y.crc32_zeroes(9, M.pack(0x1234)), y.crc32_zeroes(-9)], [M.pack(M.crc(Buffer.alloc(9), 0x1234)), M.pack(~M.mul(0xffffffff, M.xpow(-72n)) >>> 0)]);
	op('crc32_multiply/shift', () => [y.crc32_multiply(M.pack(0x1234), M.pack(0x77)), y.crc32_shift(5), y.crc32_shift(-3, M.pack(0x1234))], [M.pack(M.mul(0x1234, 0x77)), M.pack(M.xpow(5n)), M.pack(M.mul(0x1234, M.xpow(-3n)))]);
	op('failing calls', () => { let n = 0; for(const f of [() => y.encodeTo(d.m, Buffer.alloc(3)), () => y.encode(d.m, -1), () => y.crc32('x')]) try { f(); } catch(x) { n++; } return [Buffer.from([n])]; }, Buffer.from([3]));
	op('load', () => { const m = {exports: {}}; if(direct) S.init(m.exports, addon); else process.dlopen(m, addon); return [Buffer.from(typeof m.exports.encode + typeof m.exports.crc32)]; }, Buffer.from('functionfunction'));
	const L = Object.keys(ops).map(n => [ops[n]]);
	const L1 = L.length;
	for(const n of ['encode m', 'decode raw=true', 'decodeChunk "=" ' + raw.length, 'crc32 r', 'crc32_combine', 'crc32_zeroes']) L.push([ops.load, ops[n]]);
	L.push([ops['encode m'], ops['encode r'], ops['crc32 r']]); L.push([ops['decode raw=true'], ops['decodeChunk "=" ' + raw.length]]); L.push([ops['crc32 m'], ops['crc32_combine'], ops['crc32 r']]);
	return {L, L1, names: L.map(p => p.map(o => o.name).join('; '))};
}
function exec(t, i, M) { // runs program i as thread t -> complaint or ''
	let outs = [], msg = '';
	const prog = P.L[i];
	S.begin(t);
	try { for(const o of prog) outs.push(o.f()); } catch(e) { msg = 'threw ' + (e && e.message); }
	S.end(t);
	for(const l of outs) for(const b of l) S.give(b);
	M.calls += prog.length;
	if(!msg) try { prog.forEach((o, k) => o.want.forEach((w, j) => M.eq(outs[k][j], w, o.name + ', result ' + j))); } catch(e) { msg = e.message; }
	return msg;
}
if(!W.isMainThread && W.workerData && W.workerData.vf) {
	const M = require('../lib.js')(W.workerData.vf);
	S = require(W.workerData.vf.mon); P = programs(M);
	for(let n = 0;;) { const i = S.wait(); if(i < 0) break; S.answer(exec(1, i, M)); if(++n % 200 === 0 && global.gc) global.gc(); }
	process.exit();
}
exports.cases = function*(T, M) {
	const n = (P = programs(M)).L.length, L1 = P.L1;
	for(let a = 0; a < L1; a++) for(let b = 0; b < L1; b++) yield {s: 1, a, b};           // freshly loaded, first use of everything
	for(let a = 0; a < L1; a++) for(let b = 0; b < L1; b++) yield {s: 2, a, b};           // whatever the runs before left behind
	for(let a = L1; a < n; a++) for(let b = L1; b < n; b++) if(T || b >= L1 + 6 || a < L1 + 2 || a >= L1 + 6) yield {s: P.L[a][0].name === 'load' || P.L[b][0].name === 'load' ? P.L[a][0].name === P.L[b][0].name ? 0 : 1 : 1, a, b}; // 0: while the addon is being loaded for the first time
	for(let a = L1; a < n; a++) for(let b = 0; b < L1; b++) { yield {s: 1, a, b}; yield {s: 1, a: b, b: a}; }
};
function setup(M) {
	if(worker) return;
	S = require(M.opt.mon); if(!P) P = programs(M);
	M.count('monitored bytes of static data', S.monitored());
	worker = new W.Worker(__filename, {workerData: {vf: M.opt}, execArgv: [], stdout: false, stderr: false});
	worker.unref();
	S.restore(0); // as before the first load
	S.arm(0, -1, -1);
	const m = exec(0, P.L.findIndex(p => p.length === 1 && p[0].name === 'load'), M); if(m) throw M.Bad('loading: ' + m);
	S.save(1);
}
exports.run = function(c, M) {
	setup(M);
	const names = P.names[c.a] + '  ||  ' + P.names[c.b];
	let sched = 0; const T = M.opt.thorough === '1';
	function go(mode, ka, kb) {
		if(c.s < 2) S.restore(c.s);
		S.arm(mode, ka, kb, T ? 12 : 2); sched++; M.steps++;
		S.post(c.b);
		direct = c.s === 0; const ra = exec(0, c.a, M); direct = false; const rb = S.join();
		const what = () => (['while loading for the first time', 'first use', 'in use'][c.s]) + ': ' + names + (ka < 0 ? ', one after the other' : ', first thread stopped at its scheduling point ' + ka + (kb < 0 ? '' : ', second at its ' + kb));
		if(rb === undefined) throw M.Bad(what() + ': the calls never returned');
		if(ra) throw M.Bad(what() + ': first thread: ' + ra);
		if(rb) throw M.Bad(what() + ': second thread: ' + rb);
		if(S.blocked()) M.count('schedules in which one thread waited for the other');
		return [S.points(0), S.points(1)];
	}
	S.clear();
	const LIM1 = T ? 4000 : c.s === 0 ? 100 : 600, LIM2 = T ? 60 : c.s === 0 ? 6 : 14;
	go(1, -1, -1); M.count('accesses to shared memory', S.accesses(0) + S.accesses(1));
	const done = new Set();
	for(let round = 0; round < 8; round++) {
		const fresh = S.conflicts();
		if(!fresh) break;
		M.count('conflicting locations', fresh);
		let n = go(1, -1, -1)[0], nb = 0;
		if(n > LIM1) M.count('programs with more scheduling points than explored');
		for(let k = 0; k < Math.min(n, LIM1); k++) { const p = go(1, n <= LIM1 ? k : Math.floor(k * n / LIM1), -1); if(p[1] > nb) nb = p[1]; S.conflicts(); }
		const step = (k, m) => m <= LIM2 ? k : Math.floor(k * m / LIM2);
		for(let k = 0; k < Math.min(n, LIM2); k++) for(let l = 0; l < Math.min(nb, LIM2); l++) go(1, step(k, n), step(l, nb));
	}
	// independently of the argument above: a switch before each access to static data
	if(c.s < 2) { const n = Math.min(go(2, -1, -1)[0], c.s ? 12 : 100); for(let k = 0; k < n; k++) go(2, k, -1); }
	M.count('schedules', sched);
	M.outcome(names.length + ' ' + sched);
};
exports.quit = code => { if(S) S.quit(code); };
