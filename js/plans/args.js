"use strict";
// A01: the raw functions' contract: argument checks, output sizes, agreement of the *To and allocating variants, confinement.
const LS = [undefined, 0, 1, 2, 3, 7, 16, 64, 127, 128, 129, 200, 256, 997, 4096];
exports.cases = function*(T) {
	const FILLS = T ? ['n', 'e', 'd', 't', 'm', 's', 'r'] : ['n', 'e', 't', 'm', 'r'];
	for(let n = 0; n <= (T ? 420 : 300); n += n < 140 ? 1 : T ? 1 : 7) for(const ls of LS) for(const f of FILLS) yield {k: 'enc', n, ls, f};
	for(const n of [1000, 4095, 4096, 5001, 20000, 65536, 100003]) for(const ls of LS) for(const f of ['e', 'm', 'n']) yield {k: 'enc', n, ls, f};
	for(let n = 0; n <= (T ? 420 : 300); n++) for(const f of FILLS) yield {k: 'dec', n, f};
	for(const n of [1000, 4096, 5001, 65536, 100003]) for(const f of ['e', 'm', 'n', 'r']) yield {k: 'dec', n, f};
	for(const n of [131072, 262144, 500001, 1048577, 2200003]) for(const ls of [undefined, 1, 127, 997]) for(const f of ['e', 'm', 'n']) yield {k: 'large', n, ls, f};
	for(const fn of ['encode', 'encodeTo', 'decode', 'decodeTo', 'decodeChunk', 'crc32', 'crc32_combine', 'crc32_zeroes', 'crc32_multiply', 'crc32_shift'])
		for(let a = 0; a < BADARGS.length; a++) yield {k: 'bad', fn, a};
	for(const ls of [-1, -2, -128, -2147483648]) for(const n of [1, 5, 300]) yield {k: 'badls', ls, n};
	for(const ls of [1, 2, 10, 128, 4096]) for(const d of [1, 2, 100, 100000]) for(const n of [1, 5, 300]) yield {k: 'badcol', ls, col: ls + d, n};
	for(const ls of [1, 2, 10, 128, 4096]) for(const d of [1, 2, 100, 100000]) for(const n of [1, 5, 300]) yield {k: 'badcol', ls, col: -d, n};
	// inputs that are views somewhere in a larger buffer
	for(let off = 0; off < 70; off++) for(const n of [1, 40, 129, 300]) yield {k: 'view', off, n};
};
const BADARGS = [[], [undefined], [null], ['abc'], [5], [[1, 2, 3]], [{}], [true]];

function cols(ls) { const l = ls || 128; return [undefined, 0, 1, l >> 1, l - 1, l].filter((c, i, a) => a.indexOf(c) === i && (c === undefined || c >= 0)); }

exports.run = function(c, M) {
	const y = M.y;
	if(c.k === 'enc') {
		const data = M.atEnd(0, M.fill(c.n, c.f)), keep = Buffer.from(data);
		for(const col of cols(c.ls)) {
			const a = c.ls === undefined ? col === undefined ? [] : [128, col] : col === undefined ? [c.ls] : [c.ls, col];
			const ref = M.refEncode(keep, c.ls || 128, col || 0);
			const got = M.doesNotThrow(() => y.encode(data, ...a), 'encode');
			M.eq(got, ref, 'encode(' + c.n + ' bytes, ' + a + ')');
			// worst case for this length: every character escaped
			const need = c.n ? M.refEncode(Buffer.alloc(c.n, 0xD6), c.ls || 128, col || 0).length : 0, max = y.maxSize(c.n, c.ls);
			M.calls++;
			for(const size of new Set([max, max + 1, max + 200, max - 1, Math.max(max - 32, 0), Math.max(max - 64, 0), need, Math.max(need - 1, 0), ref.length, Math.max(ref.length - 1, 0), c.n, 0, 1])) {
				const out = M.atEnd(1, size); out.fill(0x5c);
				let r, e; M.calls++;
				try { r = y.encodeTo(data, out, ...a); } catch(x) { e = x; }
				const what = 'encodeTo(' + c.n + ' bytes, output of ' + size + ' (maxSize ' + max + '), ' + a + ')';
				if(e) {
					if(size >= max) throw M.Bad(what + ' threw ' + e.message);
					if(!(e instanceof Error)) throw M.Bad(what + ' threw something that is not an Error');
					for(let i = 0; i < size; i++) if(out[i] !== 0x5c) throw M.Bad(what + ' threw but wrote to the output');
				} else {
					if(c.n && size < need) throw M.Bad(what + ' did not throw although the output cannot hold the largest possible result (' + need + ')');
					M.is(r, ref.length, what + ' return value');
					M.eq(out.subarray(0, r), ref, what);
				}
			}
			M.outcome(c.n * 3 + ref.length);
		}
		M.eq(data, keep, 'the input after encoding');
	} else if(c.k === 'dec') {
		// data bytes as they would appear in an article, and arbitrary ones
		const src = c.f === 'r' ? M.fill(c.n, 'r') : M.refEncode(M.fill(c.n, c.f), 33, 0).subarray(0, c.n);
		const data = M.atEnd(0, src), keep = Buffer.from(data), n = data.length;
		for(const raw of [undefined, false, true]) {
			const a = raw === undefined ? [] : [raw], ref = M.refDecode(raw ? 1 : 0, keep).out;
			M.eq(M.doesNotThrow(() => y.decode(data, ...a), 'decode'), ref, 'decode(' + n + ' bytes, ' + raw + ')');
			for(const size of new Set([n, n + 1, n + 99, n - 1, n - 2, n - 3, n - 15, n - 16, n - 31, n - 32, n - 63, n - 64, n >> 1, 1, 0])) {
				if(size < 0) continue;
				const out = M.atEnd(1, size); out.fill(0x5c);
				let r, e; M.calls++;
				try { r = y.decodeTo(data, out, ...a); } catch(x) { e = x; }
				const what = 'decodeTo(' + n + ' bytes, output of ' + size + ', ' + raw + ')';
				if(size < n) {
					if(!(e instanceof Error)) throw M.Bad(what + ' did not throw');
					for(let i = 0; i < size; i++) if(out[i] !== 0x5c) throw M.Bad(what + ' threw but wrote to the output');
				} else {
					if(e) throw M.Bad(what + ' threw ' + e.message);
					M.is(r, ref.length, what + ' return value'); M.eq(out.subarray(0, r), ref, what);
				}
			}
			M.eq(data, keep, 'the input after decoding');
			// in-situ, at both ends of a page
			for(const at of [M.atEnd, M.atStart]) {
				const buf = at(2, keep); M.calls++;
				const r = y.decodeTo(buf, buf, ...a);
				M.is(r, ref.length, 'in-situ decodeTo return value'); M.eq(buf.subarray(0, r), ref, 'in-situ decodeTo');
			}
			M.outcome(n * 3 + ref.length);
		}
	} else if(c.k === 'large') {
		const d = M.fill(c.n, c.f), keep = Buffer.from(d), a = c.ls === undefined ? [] : [c.ls], ref = M.refEncode(d, c.ls || 128), max = y.maxSize(c.n, c.ls), what = ' of ' + c.n + ' bytes, line size ' + c.ls, same = (b, w, t) => { M.calls++; if(!b.equals(w)) M.eq(b, w, t + what); };
		same(M.doesNotThrow(() => y.encode(d, ...a), 'encode' + what), ref, 'encode');
		for(const size of [max, max + 70000, 2 * max]) { const o = Buffer.alloc(size, 0x5c), n = M.doesNotThrow(() => y.encodeTo(d, o, ...a), 'encodeTo' + what); M.is(n, ref.length, 'encodeTo' + what); same(o.subarray(0, n), ref, 'encodeTo'); for(let i = max; i < size; i++) if(o[i] !== 0x5c) throw M.Bad('encodeTo' + what + ' wrote past the largest size it may need'); }
		{ const o = Buffer.alloc(c.n, 0x5c); M.throws(() => y.encodeTo(d, o, ...a), 'encodeTo' + what + ' into as many'); for(let i = 0; i < c.n; i++) if(o[i] !== 0x5c) throw M.Bad('encodeTo' + what + ' threw but wrote to the output'); }
		for(const src of [ref, d]) for(const raw of [false, true]) { const w = M.refDecode(raw ? 1 : 0, src).out, k = Buffer.from(src);
			same(M.doesNotThrow(() => y.decode(src, raw), 'decode' + what), w, 'decode');
			for(const extra of [0, 1, 70000]) { const o = Buffer.alloc(src.length + extra, 0x5c), n = M.doesNotThrow(() => y.decodeTo(src, o, raw), 'decodeTo' + what); M.is(n, w.length, 'decodeTo' + what); same(o.subarray(0, n), w, 'decodeTo'); for(let i = src.length; i < o.length; i++) if(o[i] !== 0x5c) throw M.Bad('decodeTo' + what + ' wrote past the length of the input'); }
			for(const less of [1, 2, 64, 65536]) { const o = Buffer.alloc(src.length - less, 0x5c); M.throws(() => y.decodeTo(src, o, raw), 'decodeTo' + what + ' into ' + less + ' bytes less'); for(let i = 0; i < o.length; i++) if(o[i] !== 0x5c) throw M.Bad('decodeTo' + what + ' threw but wrote to the output'); }
			{ const b = Buffer.from(src), n = y.decodeTo(b, b, raw); M.is(n, w.length, 'in-situ decodeTo' + what); same(b.subarray(0, n), w, 'in-situ decodeTo'); }
			same(src, k, 'the input afterwards'); }
		same(d, keep, 'the input afterwards'); M.outcome(ref.length % 997);
	} else if(c.k === 'bad') {
		const bad = BADARGS[c.a], ok = Buffer.from('abcd');
		const f = c.fn, what = f + ' with argument ' + JSON.stringify(bad);
		const num = ['crc32_zeroes', 'crc32_shift'];
		if(!num.includes(f)) { if(f !== 'decodeChunk') M.throws(() => y[f](...bad), what); else M.throws(() => y[f](...(bad.length ? bad : [undefined])), what); }
		else if(!bad.length) M.throws(() => y[f](), what);
		if(f === 'encodeTo' || f === 'decodeTo') M.throws(() => y[f](ok, ...bad), what + ' as output');
		if(f === 'crc32_combine') { M.throws(() => y[f](bad[0], ok, 1), what); M.throws(() => y[f](ok, bad[0], 1), what); M.throws(() => y[f](ok, ok), 'crc32_combine with two arguments'); }
		if(f === 'crc32_multiply') { M.throws(() => y[f](bad[0], ok), what); M.throws(() => y[f](ok, bad[0]), what); M.throws(() => y[f](ok), 'crc32_multiply with one argument'); }
		// CRCs are 4 bytes
		for(const n of [0, 1, 3, 5, 8]) { const b = Buffer.alloc(n);
			if(f === 'crc32') M.throws(() => y.crc32(ok, b), 'crc32 with an initial value of ' + n + ' bytes');
			if(f === 'crc32_zeroes') M.throws(() => y.crc32_zeroes(1, b), 'crc32_zeroes with a CRC of ' + n + ' bytes');
			if(f === 'crc32_shift') M.throws(() => y.crc32_shift(1, b), 'crc32_shift with a CRC of ' + n + ' bytes');
			if(f === 'crc32_combine') { M.throws(() => y.crc32_combine(ok, b, 1), 'crc32_combine with a CRC of ' + n + ' bytes'); M.throws(() => y.crc32_combine(b, ok, 1), 'crc32_combine with a CRC of ' + n + ' bytes'); }
			if(f === 'crc32_multiply') { M.throws(() => y.crc32_multiply(ok, b), 'crc32_multiply with ' + n + ' bytes'); M.throws(() => y.crc32_multiply(b, ok), 'crc32_multiply with ' + n + ' bytes'); }
		}
		M.outcome(f);
	} else if(c.k === 'badls' || c.k === 'badcol') {
		const d = M.fill(c.n, 'n'), out = M.atEnd(1, 2 * c.n + 100 + y.maxSize(c.n, 1)); out.fill(0x5c);
		const a = c.k === 'badls' ? [c.ls] : [c.ls, c.col];
		M.throws(() => y.encode(d, ...a), 'encode with line size and column ' + a);
		M.throws(() => y.encodeTo(d, out, ...a), 'encodeTo with line size and column ' + a);
		for(let i = 0; i < out.length; i++) if(out[i] !== 0x5c) throw M.Bad('encodeTo threw but wrote to the output');
		M.outcome(c.k);
	} else if(c.k === 'view') {
		const big = M.arena(0).subarray(0, 2000); for(let i = 0; i < big.length; i++) big[i] = (i * 29) & 255;
		const d = big.subarray(64 + c.off, 64 + c.off + c.n), keep = Buffer.from(d);
		const out = M.arena(1).subarray(100 + c.off, 100 + c.off + y.maxSize(c.n)), around = M.arena(1).subarray(0, 3000);
		around.fill(0x5c); M.calls += 5;
		M.eq(y.encode(d), M.refEncode(keep), 'encode of a view');
		const r = y.encodeTo(d, out); M.eq(out.subarray(0, r), M.refEncode(keep), 'encodeTo a view');
		for(let i = 0; i < 3000; i++) if((i < 100 + c.off || i >= 100 + c.off + out.length) && around[i] !== 0x5c) throw M.Bad('encodeTo wrote outside the output view, offset ' + (i - 100 - c.off));
		M.eq(y.decode(d), M.refDecode(0, keep).out, 'decode of a view');
		around.fill(0x5c);
		const o2 = M.arena(1).subarray(100 + c.off, 100 + c.off + c.n), r2 = y.decodeTo(d, o2, true); M.eq(o2.subarray(0, r2), M.refDecode(1, keep).out, 'decodeTo a view');
		for(let i = 0; i < 3000; i++) if((i < 100 + c.off || i >= 100 + c.off + c.n) && around[i] !== 0x5c) throw M.Bad('decodeTo wrote outside the output view');
		M.is(M.hex(M.crc(keep)), y.crc32(d).toString('hex'), 'crc32 of a view');
		M.eq(d, keep, 'the view after the calls');
		M.outcome(c.n);
	}
};
