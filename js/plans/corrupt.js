"use strict";
// P05: every single-byte change, loss or insertion in the encoded data or in the =yend size/CRC values, every truncation and
// every lost, repeated or swapped line of a post with a CRC is either harmless (same data) or reported.
const F = require('./frompost.js');
exports.cases = function*(T) {
	for(let v = 0; v < VAR.length; v++) for(let p = 0; p < (T ? 400 : 150); p++) yield {v, p};
	for(let v = 0; v < VAR.length; v++) for(let h = 0; h < 260; h++) yield {v, h};
	for(const [n, s] of [[70000, 997], [1100000, T ? 997 : 16001]].concat(T ? [[9000000, 65521]] : [])) for(const kind of [0, 1, 3]) for(let at = 0; at < n; at += s) yield {big: n, kind, at: Math.min(at, n - 1)};
	for(const n of [70000, 1100000, 2200000]) for(const kind of [0, 1, 3]) for(const at of [0, 1, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536, n - 65537, n - 4097, n - 257, n - 2, n - 1, 1048575, 1048576, 2097151, 2097152]) if(at < n) yield {big: n, kind, at};
};
const VAR = [[40, 'm', 16, 0], [90, 'r', 32, 0], [33, 'e', 128, 0], [25, 't', 5, 1], [60, 'n', 20, 1], [30, 'd', 10, 1], [1, 'n', 128, 0], [130, 'm', 128, 0], [30, 'm', 8, 2], [400, 'r', 64, 0], [35, 'm', 16, 3]];
function judge(M, b, raw, orig, what) {
	M.calls++; M.steps++;
	const r = M.doesNotThrow(() => M.y.from_post(b, raw), what);
	if(r instanceof Error) { M.outcome(r.code); return; }
	if(r.warnings && r.warnings.length) { M.outcome(r.warnings.map(w => w.code).join()); return; }
	if(!r.data || !r.data.equals(orig)) throw M.Bad(what + ': the data differs from the original and nothing is reported');
	M.outcome('same');
}
let bigs = {};
function big(c, M) { // one byte of a long post's data changed, lost or doubled, wherever it is
	const key = c.big + '/' + c.kind, n = c.big, q = bigs[key] || (bigs = {[key]: (() => { const d = M.fill(n, 'm'), crc = M.hex(M.crc(d)); return {d, x: c.kind === 3 ? F.doc(M, {data: d, ls: 128, head: ['=ybegin part=1 total=1 line=128 size=' + n + ' name=x', '=ypart begin=1 end=' + n], end: '=yend size=' + n + ' part=1 pcrc32=' + crc, props: {}}) : F.single(M, {name: 'x', data: d, raw: c.kind === 1})}; })()})[key];
	const b = q.x.b, at = q.x.want.dataStart + c.at, what = 'byte ' + c.at + ' of a post of ' + n + ' bytes ', old = b[at];
	if(c.at === 0 && c.kind) judge(M, b, c.kind === 1, q.d, 'the intact post');
	for(const v of [old ^ 1, old ^ 128, 0x70]) if(v !== old) { b[at] = v; judge(M, b, c.kind === 1, q.d, what + 'changed'); }
	b[at] = old;
	judge(M, Buffer.concat([b.subarray(0, at), b.subarray(at + 1)]), c.kind === 1, q.d, what + 'lost');
	judge(M, Buffer.concat([b.subarray(0, at), b.subarray(at, at + 1), b.subarray(at)]), c.kind === 1, q.d, what + 'doubled');
}
exports.run = function(c, M) {
	if(c.big) return big(c, M);
	const [n, f, ls, kind] = VAR[c.v], d = M.fill(n, f), raw = kind === 1;
	const crc = M.hex(M.crc(d));
	const x = kind === 3 ? F.doc(M, {data: d, ls, head: ['=ybegin part=1 total=1 line=' + ls + ' size=' + n + ' name=x', '=ypart begin=1 end=' + n], end: '=yend size=' + n + ' part=1 pcrc32=' + crc, props: {}}) : kind === 2 ? F.doc(M, {data: d, ls, head: ['=ybegin part=2 total=3 line=' + ls + ' size=100 name=x', '=ypart begin=31 end=60'], end: '=yend size=30 part=2 pcrc32=' + crc, props: {}}) : F.single(M, {name: 'x', data: d, ls, raw});
	const b = x.b, ds = x.want.dataStart, de = x.want.dataEnd, p = c.p;
	const base = M.y.from_post(b, raw); M.calls++;
	if(base instanceof Error || base.warnings || !base.data.equals(d)) throw M.Bad('the intact post is not accepted');
	if(c.h !== undefined) { // damage to a control line together with damage to the data: as long as a CRC is there, the data is checked
		const ctl = Buffer.concat([b.subarray(0, ds), b.subarray(de)]), pos = c.h; if(pos >= ctl.length) return;
		const text = ctl.toString('latin1'), tok = /p?crc32=[0-9a-f]{8}/.exec(text), t0 = tok.index, t1 = t0 + tok[0].length;
		if(pos >= t0 && pos < t1) return;
		const forms = [];
		for(const v of [32, 48, 49, 51, 57, 120, 61, 13, 10, 121, 46]) if(v !== ctl[pos]) forms.push([pos, 1, Buffer.from([v])]);
		forms.push([pos, 1, Buffer.alloc(0)]);
		for(const v of ['0', ' ', 'x', '=', '\r\n', ' part=1', ' total=9', ' part=2', ' size=5', ' x=1 ']) forms.push([pos, 0, Buffer.from(v)]);
		// whole properties and lines lost
		const w = /[^ \r\n]+=[^ \r\n]* ?|=ypart[^\r\n]*\r\n/g; let m; while((m = w.exec(text))) if(m.index === pos && pos + m[0].length <= t0) forms.push([pos, m[0].length, Buffer.alloc(0)]);
		const data = b.subarray(ds, de), hurt = [];
		for(const at of [0, 1, data.length >> 1, data.length - 1]) { const z = Buffer.from(data); z[at] ^= 1; if(z[at] === 61 || z[at] === 46 || z[at] === 10 || z[at] === 13) z[at] = 0x70; if(!z.equals(data) && !M.refDecode(raw ? 1 : 0, z).out.equals(d)) hurt.push(z); }
		{ const z = Buffer.concat([data.subarray(0, 1), Buffer.from('q'), data.subarray(1)]); hurt.push(z); } hurt.push(data.subarray(0, data.length - 1), data.subarray(0, 0), data);
		for(const [at, n, r] of forms) {
			if(at >= ds && (r.includes(13) || r.includes(10))) continue; // would take the CRC off the line
			const x = Buffer.concat([ctl.subarray(0, at), r, ctl.subarray(at + n)]), k = at < ds ? ds + r.length - n : ds;
			for(const z of hurt) judge(M, Buffer.concat([x.subarray(0, k), z, x.subarray(k)]), raw, d, 'control line byte ' + at + ' (' + n + ' bytes replaced by ' + JSON.stringify(r.toString('latin1')) + ') and data damaged');
		}
		return;
	}
	const tail = b.length - de, vals = /size=(\d+)|crc32=([0-9a-f]{8})/g, endLine = b.toString('latin1', de);
	// substitution, deletion, insertion at position p of the data
	if(p < de - ds) {
		const at = ds + p;
		for(let v = 0; v < 256; v++) { if(v === b[at]) continue; const z = Buffer.from(b); z[at] = v; judge(M, z, raw, d, 'byte ' + p + ' of the data changed to ' + v); }
		judge(M, Buffer.concat([b.subarray(0, at), b.subarray(at + 1)]), raw, d, 'byte ' + p + ' of the data lost');
		for(let v = 0; v < 256; v++) judge(M, Buffer.concat([b.subarray(0, at), Buffer.from([v]), b.subarray(at)]), raw, d, 'byte ' + v + ' inserted at ' + p);
		for(let q = p + 1; q <= de - ds; q++) judge(M, Buffer.concat([b.subarray(0, at), b.subarray(ds + q)]), raw, d, 'bytes ' + p + '..' + q + ' of the data lost');
		// two adjacent bytes: all values of the second for a few of the first
		if(p + 1 < de - ds) for(const u of [13, 10, 61, 46, 0, 121]) for(let v = 0; v < 256; v++) { const z = Buffer.from(b); z[at] = u; z[at + 1] = v; judge(M, z, raw, d, 'bytes ' + p + ',' + (p + 1) + ' changed to ' + u + ',' + v); }
	}
	// truncation
	if(p < de - ds + tail - 2) judge(M, b.subarray(0, ds + p), raw, d, 'post truncated after ' + p + ' bytes from the start of the data');
	// the values on the =yend line
	if(p < tail) { let m; while((m = vals.exec(endLine))) { const v0 = m.index + m[0].indexOf('=') + 1, v1 = m.index + m[0].length; if(p < v0 || p >= v1) continue;
		for(let v = 0; v < 256; v++) { if(v === b[de + p] || String.fromCharCode(v).toLowerCase() === String.fromCharCode(b[de + p]).toLowerCase()) continue; if(m[1] && (v === 32 || v === 13 || v === 10 || v === 9)) { /* shortens the number */ }
			const z = Buffer.from(b); z[de + p] = v; M.calls++;
			const r = M.doesNotThrow(() => M.y.from_post(z, raw), 'value on the end line changed');
			if(r instanceof Error || (r.warnings && r.warnings.length)) { M.outcome('reported'); continue; }
			// a blank can cut a value short; it must still say what the data is
			const g = r.props.end;
			if(+g.size !== d.length || (m[2] && (g.crc32 || g.pcrc32 || '') !== crc)) throw M.Bad('=yend ' + m[0] + ' changed at ' + p + ' to byte ' + v + ' and nothing is reported');
		} } }
};
