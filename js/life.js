"use strict";
// One history of environments loading, using and leaving the addon, in a fresh process: node life.js <index.js> <guard> <events>
const W = require('worker_threads'), path = require('path');
const opt = W.isMainThread ? {index: process.argv[2], guard: process.argv[3]} : W.workerData;
function use(M, y) {
	const d = M.fill(300, 'm'), r = M.fill(2000, 'r');
	for(const x of [d, r]) {
		const e = M.refEncode(x);
		M.eq(y.encode(x, 128, 0), e, 'encode'); M.eq(y.decode(e, false), x, 'decode');
		const st = Buffer.concat([e, Buffer.from('\r\n=yend')]), q = y.decodeIncr(st, 0);
		M.eq(q.output, x, 'decodeChunk');
		M.eq(y.crc32(x), M.pack(M.crc(x)), 'crc32');
	}
	M.eq(y.crc32_multiply(M.pack(0x1234), M.pack(0x77)), M.pack(M.mul(0x1234, 0x77)), 'crc32_multiply');
	M.eq(y.crc32_shift(-3, M.pack(0x1234)), M.pack(M.mul(0x1234, M.xpow(-3n))), 'crc32_shift');
	return [y.encode(d, 128, 0), y.decode(M.refEncode(r), false)];
}
const addon = path.join(path.dirname(opt.index), 'build/Release/yencode.node');
const fail = e => { process.stderr.write('LIFE ' + (e && e.stack || e) + '\n'); process.exit(7); };
if(!W.isMainThread) {
	let M; try { M = require('./lib.js')(opt); const y = require(addon); let kept = use(M, y);
		W.parentPort.on('message', m => { try { if(m === 'exit') process.exit(0); kept = use(M, y); W.parentPort.postMessage('ok'); } catch(e) { W.parentPort.postMessage('bad ' + e.message); } });
		W.parentPort.postMessage('ok');
	} catch(e) { W.parentPort.postMessage('bad ' + e.message); }
} else (async () => {
	const M = require('./lib.js')(Object.assign({nopkg: true}, opt)); const kept = [], workers = []; let y;
	const answer = w => new Promise((res, rej) => { w.once('message', m => m === 'ok' ? res() : rej(m)); w.once('error', rej); w.once('exit', c => rej('worker ended with ' + c)); });
	for(const ev of process.argv[4]) {
		if(ev === 'W') { const w = new W.Worker(__filename, {workerData: opt}); workers.push(w); await answer(w); w.removeAllListeners('exit'); }
		if(ev === 'P') { const a = [0, 1].map(() => new W.Worker(__filename, {workerData: opt})); workers.push(...a); await Promise.all(a.map(answer)); a.forEach(w => w.removeAllListeners('exit')); } // two at the same time
		if(ev === 'R') for(const w of workers) { w.postMessage('use'); await answer(w); w.removeAllListeners('exit'); }
		if(ev === 'x') { const w = workers.shift(); const p = new Promise(r => w.once('exit', r)); w.postMessage('exit'); const c = await p; if(c) throw 'worker exit code ' + c; }
		if(ev === 't') { const w = workers.shift(); w.postMessage('use'); await w.terminate(); }
		if(ev === 'M') { y = require(addon); kept.push(...use(M, y)); }
		if(ev === 'V') { const m = {exports: {}}; process.dlopen(m, addon); kept.push(...use(M, m.exports)); }
		if(ev === 'G') { global.gc(); await new Promise(setImmediate); }
		for(let i = 0; i < kept.length; i += 2) { M.eq(kept[i], M.refEncode(M.fill(300, 'm')), 'an earlier result, after ' + ev); M.eq(kept[i + 1], M.fill(2000, 'r'), 'an earlier result, after ' + ev); }
	}
	if(y) use(M, y);
	process.stdout.write('LIFE-OK\n'); process.exit(0);
})().catch(fail);
