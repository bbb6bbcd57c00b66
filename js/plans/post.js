"use strict";
// P01: the single-part post is exactly the document the yEnc specification describes, for every filename and data form.
// P02: the multi-part session machine: every sequence of part sizes.
const NC = ['a', ' ', '.', '=', '\r', '\n', '\0', '\u00e9', '\ud83d\ude00', '"', '=y', 'size=3', '\t', '\u010d', '\u010a', '\u0100'];
const ENC = ['utf8', 'latin1', 'ascii', 'binary', 'Latin1', 'utf16le'];
exports.cases = function*(T, M) {
	if(M.opt.prop === 'P01') {
		for(let a = 0; a < NC.length; a++) for(let b = 0; b < NC.length; b++) { yield {k: 'name', a, b, c: -1}; for(let c = 0; c < NC.length; c++) yield {k: 'name', a, b, c}; }
		for(const n of [0, 1, 254, 255, 256, 257, 258, 300, 1000]) for(const e of ['utf8', 'latin1']) yield {k: 'long', n, e};
		for(let n = 230; n < 260; n++) for(let b = 0; b < 10; b++) yield {k: 'longbad', n, b, parts: 0};
		for(const w of LW) for(const n of [100, 127, 128, 129, 200, 253, 254, 255, 256, 257, 300, 5000]) for(const e of ['utf8', 'latin1', 'utf16le']) yield {k: 'longw', w, n, e, parts: 0};
		for(const e of ENC) for(let i = 0; i < NC.length; i++) for(let j = 0; j < NC.length; j++) yield {k: 'enc', e, i, j};
		for(let n = 0; n < (T ? 600 : 320); n++) for(const ls of [undefined, 0, 1, 5, 64, 128, 200]) yield {k: 'data', n, ls};
		for(const n of [1000, 4096, 20000, 65535, 65536, 65537, 100001, 131072, 1048577, 3000001]) for(const ls of [undefined, 64, 127, 4096]) if(n < 200000 || !ls || ls === 127) yield {k: 'data', n, ls};
		yield {k: 'forms'};
	} else {
		for(let parts = 1; parts <= (T ? 4 : 3); parts++) for(let size = 0; size <= (T ? 5 : 4); size++) for(let via = 0; via < 3; via++) for(const e of ['utf8', 'latin1']) yield {k: 'seq', parts, size, via, e};
		for(let n = 230; n < 260; n++) for(let b = 0; b < 10; b++) for(const parts of [1, 3]) yield {k: 'longbad', n, b, parts};
		for(const n of [0, 1, 254, 255, 256, 257, 258, 300, 1000]) for(const parts of [1, 3]) yield {k: 'longbad', n, b: 0, parts};
		for(const w of LW) for(const n of [100, 127, 128, 129, 254, 255, 256, 257, 300]) for(const e of ['utf8', 'latin1']) for(const parts of [1, 2]) yield {k: 'longw', w, n, e, parts};
		for(const parts of T ? [127, 128, 255, 256, 257, 999, 1000, 1001, 9999, 10001, 32769, 65537, 70000] : [128, 257, 1001, 10001, 65538]) yield {k: 'many', parts};
		for(let m = 0; m < 64; m++) for(const p of [[3, 3], [1, 2], [2, 1]]) yield {k: 'two', m, p};
		for(let n = 1; n <= (T ? 700 : 300); n++) for(const parts of [1, 2, 3, 10]) for(const ls of [undefined, 0, 13, 128]) yield {k: 'file', n, parts, ls};
		for(const n of [5000, 100000, 1500000]) for(const parts of [1, 7, 11, 101]) if(n < 1e6 || parts < 9) yield {k: 'file', n, parts};
		for(let a = 0; a < NC.length; a++) for(let b = 0; b < NC.length; b++) for(const parts of [1, 2]) for(const e of ENC.slice(0, 4)) yield {k: 'mname', a, b, parts, e};
	}
};
const LW = ['\u00e9', 'a\u00e9', '\ud83d\ude00', '\u20ac', 'abc\u4e00'];
const clean = s => s.replace(/[\r\n\0]/g, '');
// a character outside a single byte encoding is cut to its low byte; the line must not be broken by that
const bytes = (s, e) => { const b = Buffer.from(s, e); return /^(latin1|binary|ascii)$/i.test(e) ? b.filter(x => x !== 0 && x !== 10 && x !== 13) : b; };
function expPost(M, name, d, ls, e) {
	return Buffer.concat([Buffer.from('=ybegin line=' + (ls || 128) + ' size=' + d.length + ' name='), bytes(name, e || 'utf8'), Buffer.from('\r\n'), M.refEncode(d, ls || 128), Buffer.from('\r\n=yend size=' + d.length + ' crc32=' + M.hex(M.crc(d)))]);
}
function expPart(M, name, o) { // one part of several
	return Buffer.concat([Buffer.from('=ybegin part=' + o.part + ' total=' + o.total + ' line=' + o.ls + ' size=' + o.size + ' name='), bytes(name, o.e || 'utf8'), Buffer.from('\r\n=ypart begin=' + (o.pos + 1) + ' end=' + (o.pos + o.d.length) + '\r\n'),
		M.refEncode(o.d, o.ls), Buffer.from('\r\n=yend size=' + o.d.length + ' part=' + o.part + ' pcrc32=' + M.hex(M.crc(o.d)) + (o.part === o.total ? ' crc32=' + M.hex(o.crc) : ''))]);
}
function withEnc(M, e, f) { const o = M.y.encoding; M.y.encoding = e; try { return f(); } finally { M.y.encoding = o; } }
exports.expPost = expPost; exports.expPart = expPart;
exports.run = function(c, M) {
	const y = M.y;
	if(c.k === 'name') {
		const n = NC[c.a] + NC[c.b] + (c.c < 0 ? '' : NC[c.c]), d = M.fill(3, 'n'); M.calls++;
		const p = M.doesNotThrow(() => y.post(n, d), 'post ' + JSON.stringify(n));
		M.eq(p, expPost(M, clean(n), d), 'post ' + JSON.stringify(n)); M.outcome(p.length);
	} else if(c.k === 'long') {
		const n = 'x'.repeat(c.n), d = Buffer.from('abc');
		const p = withEnc(M, c.e, () => M.doesNotThrow(() => y.post(n, d), 'post with a long filename'));
		// a name of up to 256 characters is kept; a longer one is cut to that
		M.eq(p, expPost(M, n.slice(0, 256), d), 'post with a filename of ' + c.n + ' characters'); M.outcome(p.length);
	} else if(c.k === 'longw') {
		// names are cut by characters, not by bytes. A pair of surrogates across the cut may be kept whole, dropped or half replaced
		const nm = c.w.repeat(Math.ceil(c.n / c.w.length)).slice(0, c.n - c.n % (c.w.length === 2 && c.w[0] > '\ud7ff' ? 2 : 1)), d = Buffer.from('abc'); M.calls++;
		const p = withEnc(M, c.e, () => M.doesNotThrow(() => c.parts ? y.multi_post(nm, 3, c.parts).encode(c.parts > 1 ? d.subarray(0, 1) : d) : y.post(nm, d), 'post with a long filename')), k = nm.slice(0, 256);
		M.eq(p, c.parts > 1 ? expPart(M, k, {part: 1, total: c.parts, ls: 128, size: 3, pos: 0, d: d.subarray(0, 1), e: c.e}) : expPost(M, k, d, 128, c.e), 'post with a filename of ' + c.n + ' times ' + c.w + ' in ' + c.e); M.outcome(p.length);
	} else if(c.k === 'many') {
		// sessions with very many parts: nothing about them is counted in too few bits or digits
		const enc = y.multi_post('f.bin', c.parts * 2 - 1, c.parts); let crc = 0;
		for(let i = 0; i < c.parts; i++) { const d = Buffer.from(i + 1 < c.parts ? [i & 255, 19 + (i >> 8)] : [i & 255]); crc = M.crc(d, crc); M.calls++;
			const r = M.doesNotThrow(() => enc.encode(d), 'part ' + (i + 1) + ' of ' + c.parts);
			M.eq(r, expPart(M, 'f.bin', {part: i + 1, total: c.parts, ls: 128, size: c.parts * 2 - 1, pos: i * 2, d, crc}), 'part ' + (i + 1) + ' of ' + c.parts);
			if(enc.part !== i + 1 || enc.pos !== i * 2 + d.length) throw M.Bad('position after part ' + (i + 1) + ' of ' + c.parts); }
		M.is(enc.crc.toString('hex'), M.hex(crc), 'crc'); M.throws(() => enc.encode([1]), 'encode after the last part'); M.outcome(c.parts);
	} else if(c.k === 'longbad') {
		// characters which cannot stay, around where a long name is cut: removed whether that is done before or after the cut
		const raw = 'x'.repeat(c.n) + '\r\n\0'.repeat(c.b) + 'y'.repeat(20), all = clean(raw), d = Buffer.from('abc');
		const p = M.doesNotThrow(() => c.parts ? y.multi_post(raw, 3, c.parts).encode(c.parts > 1 ? d.subarray(0, 1) : d) : y.post(raw, d), 'post with a long filename');
		const ok = [all.slice(0, 256), clean(raw.slice(0, 256))].map(k => c.parts > 1 ? expPart(M, k, {part: 1, total: c.parts, ls: 128, size: 3, pos: 0, d: d.subarray(0, 1)}) : expPost(M, k, d));
		if(!ok.some(k => k.equals(p))) throw M.Bad('post with a filename of ' + c.n + ' characters, then ' + c.b + ' times CR LF NUL: ' + p.toString('latin1').slice(0, 80)); M.outcome(p.length);
	} else if(c.k === 'enc') {
		const n = 'f' + NC[c.i] + '\u00fc' + NC[c.j], d = M.fill(40, 'm');
		const p = withEnc(M, c.e, () => M.doesNotThrow(() => y.post(n, d), 'post'));
		M.eq(p, expPost(M, clean(n), d, 128, c.e), 'post with encoding ' + c.e); M.outcome(p.length);
	} else if(c.k === 'data') {
		for(const f of ['n', 'e', 't', 'm', 'r']) { const d = c.n < 100000 ? M.atEnd(0, M.fill(c.n, f)) : M.fill(c.n, f), keep = Buffer.from(d);
			const p = M.doesNotThrow(() => c.ls === undefined ? y.post('f.bin', d) : y.post('f.bin', d, c.ls), 'post');
			M.eq(p, expPost(M, 'f.bin', keep, c.ls), 'post of ' + c.n + ' bytes, line size ' + c.ls); M.eq(d, keep, 'the data afterwards'); M.outcome(p.length % 1000); }
	} else if(c.k === 'forms') {
		const want = (d) => expPost(M, 'f', Buffer.from(d));
		for(const d of [[], [0, 1, 2, 255], 'h\u00e9llo', '', new Uint8Array([1, 2, 3]), Buffer.from('x')]) M.eq(M.doesNotThrow(() => y.post('f', d), 'post'), want(d), 'post of ' + JSON.stringify(d));
		const p = y.post; M.eq(p('f', [1, 2]), want([1, 2]), 'post called as a function');
		M.eq(y.post('bytes.bin', [0, 1, 2, 3, 4]), Buffer.from('=ybegin line=128 size=5 name=bytes.bin\r\n*+,-.\r\n=yend size=5 crc32=515ad3cc'), 'README');
	} else if(c.k === 'seq') {
		// every sequence of part lengths 0..3 up to one call too many; a call either produces the exact part or throws
		const go = lens => {
			const L = [[], [0], ['é'.length]]; void L;
			const name = 'n\u00e9', enc = withEnc(M, c.e, () => y.multi_post(name, c.size, c.parts, 7));
			M.is(enc.size, c.size, 'size'); M.is(enc.parts, c.parts, 'parts'); M.is(enc.line_size, 7, 'line_size'); M.is(enc.part, 0, 'part before the first'); M.is(enc.pos, 0, 'pos before the first'); M.is(enc.crc.toString('hex'), '00000000', 'crc before the first');
			let pos = 0, part = 0, all = Buffer.alloc(0), what = 'multi_post of ' + c.size + ' bytes in ' + c.parts + ' parts, calls of ' + lens;
			for(const n of lens) {
				const raw = Buffer.from([61 - 42, 4, 230].slice(0, n).map(x => x + part)), d = c.via === 0 ? raw : c.via === 1 ? [...raw] : raw.toString('latin1').replace(/[^\x00-\x7f]/g, 'x'), b = Buffer.from(d);
				M.calls++; M.steps++;
				const legal = c.parts > 1 ? part < c.parts && pos + b.length <= c.size && (part + 1 < c.parts || pos + b.length === c.size) : part === 0 && b.length === c.size;
				let r, e; try { r = withEnc(M, c.e, () => enc.encode(d)); } catch(x) { e = x; }
				if(!legal) { if(!(e instanceof Error)) throw M.Bad(what + ': call ' + (part + 1) + ' should have thrown'); M.outcome(e.message.slice(0, 12)); return false; }
				if(e) throw M.Bad(what + ': call ' + (part + 1) + ' threw ' + e.message);
				part++; all = Buffer.concat([all, b]); const crc = M.crc(all);
				M.eq(r, c.parts > 1 ? expPart(M, name, {part, total: c.parts, ls: 7, size: c.size, pos, d: b, crc, e: c.e}) : expPost(M, name, b, 7, c.e), what + ': part ' + part);
				pos += b.length;
				M.is(enc.pos, pos, what + ': pos'); M.is(enc.part, part, what + ': part'); M.is(enc.crc.toString('hex'), M.hex(crc), what + ': crc'); M.is(enc.size, c.size, 'size'); M.is(enc.parts, c.parts, 'parts'); M.outcome(r.length);
			}
			return true;
		};
		const rec = (lens) => { if(lens.length && !go(lens)) return; if(lens.length > c.parts) return; for(let n = 0; n < 4; n++) rec(lens.concat(n)); };
		rec([]); M.count('session trees');
	} else if(c.k === 'two') {
		// two sessions, their calls interleaved in every order
		const mk = (p, name) => ({e: y.multi_post(name, 3 * p, p), p, name, i: 0, pos: 0, all: Buffer.alloc(0)}), s = [mk(c.p[0], 'A'), mk(c.p[1], 'B')];
		const total = c.p[0] + c.p[1]; let order = c.m;
		for(let k = 0; k < total; k++) {
			let w = order & 1; order >>= 1; if(s[w].i === s[w].p) w ^= 1;
			const q = s[w], d = Buffer.from([k * 5 + 1, 19, 230 + k]); q.all = Buffer.concat([q.all, d]); q.i++; M.calls++; M.steps++;
			const want = q.p === 1 ? expPost(M, q.name, d) : expPart(M, q.name, {part: q.i, total: q.p, ls: 128, size: 3 * q.p, pos: q.pos, d, crc: M.crc(q.all)});
			M.eq(q.e.encode(d), want, 'two sessions interleaved, call ' + k); q.pos += 3; M.is(q.e.pos, q.pos, 'pos'); M.is(q.e.crc.toString('hex'), M.hex(M.crc(q.all)), 'crc');
		}
		for(const q of s) M.throws(() => q.e.encode([1]), 'encode after the last part');
	} else if(c.k === 'file') {
		const file = M.fill(c.n, 'r'), sz = Math.ceil(c.n / c.parts); if(sz * (c.parts - 1) > c.n) return;
		let fcrc = 0; const a = c.ls === undefined ? [] : [c.ls], enc = y.multi_post('f.bin', c.n, c.parts, ...a);
		for(let i = 0; i < c.parts; i++) { const d = file.subarray(i * sz, Math.min(c.n, (i + 1) * sz)); M.calls++;
			const r = M.doesNotThrow(() => enc.encode(d), 'part ' + (i + 1));
			M.eq(r, c.parts > 1 ? expPart(M, 'f.bin', {part: i + 1, total: c.parts, ls: c.ls || 128, size: c.n, pos: i * sz, d, crc: fcrc = M.crc(d, fcrc)}) : expPost(M, 'f.bin', d, c.ls), 'file of ' + c.n + ' in ' + c.parts + ' parts'); M.outcome(r.length % 999); }
		M.throws(() => enc.encode([]), 'encode after the last part');
	} else if(c.k === 'mname') {
		const n = NC[c.a] + 'q' + NC[c.b], d = Buffer.from('ab');
		const e = withEnc(M, c.e, () => y.multi_post(n, 2, c.parts)); const r = withEnc(M, c.e, () => e.encode(c.parts > 1 ? d.subarray(0, 1) : d)); M.calls++;
		M.eq(r, c.parts > 1 ? expPart(M, clean(n), {part: 1, total: 2, ls: 128, size: 2, pos: 0, d: d.subarray(0, 1), e: c.e}) : expPost(M, clean(n), d, 128, c.e), 'multi_post ' + JSON.stringify(n)); M.outcome(r.length);
	}
};
