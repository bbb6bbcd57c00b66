"use strict";
// The JavaScript face of the CRC functions. prop C01: crc32; C02: chunking and combining; C03: the field operations.
const B = x => BigInt(x);
exports.cases = function*(T, M) {
	const P = M.opt.prop;
	if(P === 'C01') {
		for(let n = 0; n <= (T ? 1500 : 700); n++) yield {k: 'len', n};
		for(let i = 0; i < 256; i++) { yield {k: 'init', i}; yield {k: 'pair', i}; }
		for(let e = 10; e <= (T ? 25 : 22); e++) yield {k: 'large', e};
	} else if(P === 'C02') {
		for(let n = 0; n <= (T ? 300 : 140); n++) yield {k: 'split', n};
		for(let m = 0; m < (T ? 4096 : 1024); m++) yield {k: 'hist', m, n: T ? 13 : 11};
		for(let e = 0; e <= 52; e++) yield {k: 'clen', e};
		for(let e = 0; e < 50; e++) yield {k: 'csum', e};
		for(const n of [70001, 1100003].concat(T ? [9000001] : [])) for(let e = 0; Math.pow(2, e) < n; e++) yield {k: 'bigsplit', n, e};
		for(let n = 0; n < (T ? 66000 : 9000); n += 100) yield {k: 'csmall', n};
	} else {
		for(let i = 0; i < 32; i++) yield {k: 'mul', i};
		for(let e = 0; e <= 53; e++) yield {k: 'shift', e};
		for(let e = 0; e < 53; e++) yield {k: 'sum', e};
		for(let i = 0; i < ORDS.length; i++) yield {k: 'order', i};
		for(let n = 0; n < (T ? 20000 : 4000); n += 100) yield {k: 'zsmall', n};
		for(let n = 0; n < (T ? 60000 : 6000); n += 100) yield {k: 'ssmall', n};
		for(let e = 0; e <= 52; e++) yield {k: 'zeroes', e};
		yield {k: 'readme'};
	}
};
const ORDS = [1, 3, 5, 15, 17, 51, 85, 255, 257, 65535, 65537, 16711935, 16843009, 252645135, 858993459, 1431655765].map(x => 4294967295 / x);
const VALS = [0, 1, 0x80000000, 0xffffffff, 0x12345678, 0xdeadbeef, 0x00ff00ff, 0x01020304];
exports.run = function(c, M) {
	const y = M.y;
	const q = (got, want, what) => { M.calls++; if(!Buffer.isBuffer(got) || got.length !== 4) throw M.Bad(what + ': not a 4 byte Buffer'); if(got.readUInt32BE(0) !== want) throw M.Bad(what + ': got ' + got.toString('hex') + ', expected ' + M.hex(want)); M.outcome(want % 4093); };
	const p = M.pack;
	switch(c.k) {
	case 'len':
		for(const f of ['r', 'z', 'n', 'm']) { const d = M.atEnd(0, M.fill(c.n, f));
			q(y.crc32(d), M.crc(d), 'crc32 of ' + c.n + ' bytes');
			for(const v of VALS) q(y.crc32(d, p(v)), M.crc(d, v), 'crc32 of ' + c.n + ' bytes continued from ' + M.hex(v)); }
		break;
	case 'init': { // every byte of the initial value is taken from the right place
		for(let s = 0; s < 32; s += 8) for(const d of [Buffer.alloc(0), Buffer.from([0]), Buffer.from('abc'), M.fill(77, 'r')]) q(y.crc32(d, p((c.i << s) >>> 0)), M.crc(d, (c.i << s) >>> 0), 'crc32 initial value ' + M.hex((c.i << s) >>> 0));
		break; }
	case 'pair': { const d = Buffer.alloc(2); d[0] = c.i; q(y.crc32(d.subarray(0, 1)), M.crc(d.subarray(0, 1)), 'crc32 of one byte'); for(let j = 0; j < 256; j++) { d[1] = j; q(y.crc32(d), M.crc(d), 'crc32 of ' + d.toString('hex')); } break; }
	case 'large': for(const dl of [-65, -64, -33, -17, -16, -1, 0, 1, 15, 16, 17, 63, 64]) { const d = M.fill(Math.pow(2, c.e) + dl, 'r'); q(y.crc32(d), M.crc(d), 'crc32 of ' + d.length + ' bytes'); } break;
	case 'split': { const d = M.fill(c.n, 'r'), w = M.crc(d);
		for(let a = 0; a <= c.n; a++) {
			const x = d.subarray(0, a), z = d.subarray(a); M.calls += 3;
			q(y.crc32(z, y.crc32(x)), w, 'crc32 in chunks of ' + a + ' and ' + (c.n - a));
			q(y.crc32_combine(y.crc32(x), y.crc32(z), z.length), w, 'crc32_combine of chunks of ' + a + ' and ' + (c.n - a));
		} break; }
	case 'hist': { const d = M.fill(c.n, 'm'), w = M.crc(d); let at = 0, run = y.crc32(Buffer.alloc(0)), comb = p(0);
		for(let i = 1; i <= c.n; i++) if(i === c.n || c.m >> (i - 1) & 1) { const x = d.subarray(at, i); M.calls += 3; run = y.crc32(x, run); comb = y.crc32_combine(comb, y.crc32(x), x.length); at = i; }
		q(run, w, 'crc32 over the chunk history ' + c.m.toString(2)); q(comb, w, 'crc32_combine over the chunk history ' + c.m.toString(2)); break; }
	case 'clen': for(let dl = -9; dl <= 9; dl++) { const n = Math.pow(2, c.e) + dl; if(n < 0) continue; const x = M.xpow(B(n) * 8n);
		for(const a of VALS) for(const b of [0, 0x89abcdef]) q(y.crc32_combine(p(a), p(b), n), (M.mul(a, x) ^ b) >>> 0, 'crc32_combine with a length of ' + n); } break;
	case 'csum': for(let f = 0; f < c.e; f++) for(const s of [1, -1]) { const n = Math.pow(2, c.e) + s * Math.pow(2, f); if(n > Number.MAX_SAFE_INTEGER) continue; q(y.crc32_combine(p(0xdeadbeef), p(0x01020304), n), (M.mul(0xdeadbeef, M.xpow(B(n) * 8n)) ^ 0x01020304) >>> 0, 'crc32_combine with a length of ' + n); } break;
	case 'bigsplit': { const d = M.fill(c.n, 'r'), w = M.crc(d), at = Math.pow(2, c.e); for(const a of [at - 1, at, at + 1, c.n - at - 1, c.n - at, 3 * at, c.n >> 1]) if(a >= 0 && a <= c.n) { const x = d.subarray(0, a), z = d.subarray(a); M.calls += 3; q(y.crc32(z, y.crc32(x)), w, 'crc32 in chunks of ' + a + ' and ' + z.length); q(y.crc32_combine(y.crc32(x), y.crc32(z), z.length), w, 'crc32_combine of chunks of ' + a + ' and ' + z.length); }
		let r = p(0), k = p(0); for(let i = 0; i < c.n; i += at > 200 ? at : c.n) { const x = d.subarray(i, i + (at > 200 ? at : c.n)); M.calls += 3; r = y.crc32(x, r); k = y.crc32_combine(k, y.crc32(x), x.length); } q(r, w, 'crc32 in chunks of ' + at); q(k, w, 'crc32_combine of chunks of ' + at); break; }
	case 'csmall': { let x = M.xpow(B(c.n) * 8n); const x8 = M.xpow(8n); for(let n = c.n; n < c.n + 100; n++) { q(y.crc32_combine(p(0x13579bdf), p(0x2468ace0), n), (M.mul(0x13579bdf, x) ^ 0x2468ace0) >>> 0, 'crc32_combine with a length of ' + n); x = M.mul(x, x8); } break; }
	case 'mul': { const a = (1 << c.i) >>> 0;
		for(let j = 0; j < 32; j++) { const b = (1 << j) >>> 0; q(y.crc32_multiply(p(a), p(b)), M.mul(a, b), 'crc32_multiply ' + M.hex(a) + ' ' + M.hex(b)); }
		for(const v of VALS) { q(y.crc32_multiply(p(a), p(v)), M.mul(a, v), 'crc32_multiply'); q(y.crc32_multiply(p(v), p(a)), M.mul(a, v), 'crc32_multiply');
			for(const z of VALS) { q(y.crc32_multiply(p(v), p(z)), M.mul(v, z), 'crc32_multiply'); q(y.crc32_multiply(p((v ^ a) >>> 0), p(z)), (M.mul(v, z) ^ M.mul(a, z)) >>> 0, 'crc32_multiply distributes'); } }
		break; }
	case 'shift': for(let dl = -9; dl <= 9; dl++) for(const sg of [1, -1]) { const n = sg * (Math.pow(2, c.e) + dl); if(Math.abs(n) > Number.MAX_SAFE_INTEGER) continue; const x = M.xpow(B(n));
		q(y.crc32_shift(n), x, 'crc32_shift(' + n + ')'); for(const v of VALS) q(y.crc32_shift(n, p(v)), M.mul(v, x), 'crc32_shift(' + n + ', ' + M.hex(v) + ')'); } break;
	case 'sum': for(let f = 0; f < c.e; f++) for(const s of [1, -1]) for(const g of [1, -1]) { const n = g * (Math.pow(2, c.e) + s * Math.pow(2, f)); if(Math.abs(n) > Number.MAX_SAFE_INTEGER) continue;
		q(y.crc32_shift(n, p(0xdeadbeef)), M.mul(0xdeadbeef, M.xpow(B(n))), 'crc32_shift(' + n + ')'); q(y.crc32_zeroes(n, p(0x12345678)), ~M.mul(~0x12345678 >>> 0, M.xpow(B(n) * 8n)) >>> 0, 'crc32_zeroes(' + n + ')'); } break;
	case 'order': for(const mul of [1, 2, 3, 7, 8, 255, 256, 1000, 65536, 99999, 1 << 20, 2097151]) for(let dl = -3; dl <= 3; dl++) for(const g of [1, -1]) for(const div of [1, 8]) { const n = g * (Math.floor(ORDS[c.i] * mul / div) + dl); if(Math.abs(n) > Number.MAX_SAFE_INTEGER) continue; // around multiples of x's order and its divisors
		q(y.crc32_shift(n, p(0xdeadbeef)), M.mul(0xdeadbeef, M.xpow(B(n))), 'crc32_shift(' + n + ')'); q(y.crc32_zeroes(n, p(0x12345678)), ~M.mul(~0x12345678 >>> 0, M.xpow(B(n) * 8n)) >>> 0, 'crc32_zeroes(' + n + ')'); } break;
	case 'ssmall': { let x = M.xpow(B(c.n)), z = M.xpow(B(-c.n)); for(let n = c.n; n < c.n + 100; n++) { q(y.crc32_shift(n), x, 'crc32_shift(' + n + ')'); q(y.crc32_shift(-n), z, 'crc32_shift(' + -n + ')'); x = M.mul(x, 0x40000000); z = M.mul(z, M.xpow(-1n)); } break; }
	case 'zeroes': for(let dl = -9; dl <= 9; dl++) for(const sg of [1, -1]) { const n = sg * (Math.pow(2, c.e) + dl), x = M.xpow(B(n) * 8n);
		q(y.crc32_zeroes(n), ~M.mul(0xffffffff, x) >>> 0, 'crc32_zeroes(' + n + ')'); for(const v of VALS) { q(y.crc32_zeroes(n, p(v)), ~M.mul(~v >>> 0, x) >>> 0, 'crc32_zeroes(' + n + ', ' + M.hex(v) + ')'); M.calls++; q(y.crc32_zeroes(-n, y.crc32_zeroes(n, p(v))), v, 'crc32_zeroes there and back, ' + n); } } break;
	case 'zsmall': { const z = Buffer.alloc(c.n); let a = M.crc(z), b = M.crc(z, 0xdeadbeef); const o = Buffer.alloc(1); for(let n = c.n; n < c.n + 100; n++) { q(y.crc32_zeroes(n), a, 'crc32_zeroes(' + n + ')'); q(y.crc32_zeroes(n, p(0xdeadbeef)), b, 'crc32_zeroes'); q(y.crc32_zeroes(-n, p(b)), 0xdeadbeef, 'crc32_zeroes(' + -n + ') removes null bytes'); a = M.crc(o, a); b = M.crc(o, b); } break; }
	case 'readme': {
		const f = (s) => Buffer.from(s);
		q(y.crc32(f('the fox jumped')), 0xf87b6f30, 'README'); q(y.crc32(f(' into the fence'), p(0xf87b6f30)), 0x704f007e, 'README');
		q(y.crc32_zeroes(2), 0x41d912ff, 'README'); q(y.crc32_zeroes(-3, y.crc32_zeroes(5)), 0x41d912ff, 'README'); q(y.crc32_zeroes(2, y.crc32(Buffer.from([1, 2]))), 0x9a7c6c17, 'README');
		for(let n = 0; n < 3000; n++) { const a = VALS[n % 8], b = VALS[(n >> 3) % 8]; const s = y.crc32_shift(n * 8, p(a)); for(let i = 0; i < 4; i++) s[i] ^= p(b)[i]; q(y.crc32_combine(p(a), p(b), n), s.readUInt32BE(0), 'crc32_combine built from crc32_shift'); }
		break; }
	}
};
