"use strict";
// What the plans share: the package under test, reference models, guarded buffers, counters.
module.exports = function(opt) {
	const M = {opt, states: 0, calls: 0, steps: 0, counters: {}, samples: [], outcomes: new Set(), current: null};
	// old=1: what the package does on a Node that lacks the newer Buffer functions (it decides when it is loaded)
	const lacks = opt.old ? [[Buffer.prototype, ['indexOf', 'lastIndexOf', 'readBigInt64BE']], [Buffer, ['alloc']]] : [], had = lacks.map(([o, ks]) => ks.map(k => { const f = o[k]; o[k] = undefined; return f; }));
	if(opt.old) process.removeAllListeners('warning'); // (calling Buffer as a function is deprecated)
	try { if(!opt.nopkg) M.y = require(opt.index); } catch(e) { if(!opt.old) throw e; } finally { lacks.forEach(([o, ks], i) => ks.forEach((k, j) => { o[k] = had[i][j]; })); }
	if(!opt.nopkg && !M.y) { M.y = require(opt.index); M.counters['not loadable without newer Buffer functions'] = 1; }
	M.index = opt.index;
	M.count = (k, n) => { M.counters[k] = (M.counters[k] || 0) + (n === undefined ? 1 : n); };
	M.outcome = x => { if(M.outcomes.size < 3000) M.outcomes.add(typeof x === 'string' ? x.slice(0, 60) : x); };
	M.Bad = function(msg) { const e = new Error(msg); e.bad = true; return e; };
	M.harness = function(msg) { const e = new Error(msg); e.harness = true; return e; };
	const show = b => Buffer.isBuffer(b) ? (b.length > 60 ? b.slice(0, 60).toString('hex') + '..(' + b.length + ')' : b.toString('hex') || '(empty)') : JSON.stringify(b);
	M.show = show;
	M.eq = function(got, want, what) {
		if(!Buffer.isBuffer(got)) throw M.Bad(what + ': expected a Buffer, got ' + typeof got);
		if(!got.equals(want)) { let i = 0; while(i < got.length && i < want.length && got[i] === want[i]) i++; throw M.Bad(what + ': ' + got.length + ' bytes (expected ' + want.length + '), first difference at ' + i + '; got ' + show(got) + ' expected ' + show(want)); }
	};
	M.is = function(got, want, what) { if(got !== want) throw M.Bad(what + ': got ' + show(got) + ', expected ' + show(want)); };
	M.throws = function(f, what) { M.calls++; let e; try { f(); } catch(x) { e = x; } if(!(e instanceof Error)) throw M.Bad(what + ': did not throw an Error'); return e; };
	M.doesNotThrow = function(f, what) { M.calls++; try { return f(); } catch(e) { if(e && e.bad) throw e; throw M.Bad(what + ': threw ' + (e && e.message)); } };

	// ---- reference encoder: state = column
	const W = c => (c + 106) & 255; // escaped form of an already shifted byte is c+64; input byte b -> b+42 (+64)
	M.refEncode = function(d, ls, col) {
		ls = ls || 128; col = col || 0; if(col === ls) col = 0;
		const o = Buffer.allocUnsafe(d.length * 4 + 2); let n = 0; M.steps += d.length;
		for(let i = 0; i < d.length; i++) {
			if(col >= ls) { o[n++] = 13; o[n++] = 10; col = 0; }
			const c = (d[i] + 42) & 255;
			const esc = c === 0 || c === 10 || c === 13 || c === 61 || (col === 0 && (c === 9 || c === 32 || c === 46)) || (col === ls - 1 && (c === 9 || c === 32));
			if(esc) { o[n++] = 61; o[n++] = c + 64; col += 2; } else { o[n++] = c; col++; }
		}
		const l = n ? o[n - 1] : 0;
		if(l === 9 || l === 32) { o[n - 1] = 61; o[n++] = l + 64; }
		return Buffer.from(o.subarray(0, n));
	};
	// ---- reference decoder: 7 states, named by what decodeChunk calls them
	const CRLF = '\r\n', EQ = '=', CR = '\r', NONE = '', DT = '\r\n.', DTCR = '\r\n.\r', CEQ = '\r\n=', ENDC = '\r\n=y', ENDA = '\r\n.\r\n';
	M.STATES = [CRLF, EQ, CR, NONE, DT, DTCR, CEQ];
	// mode 0 plain, 1 dot-unstuffing, 2 incremental with end detection
	M.refDecode = function(mode, d, s) {
		if(s === undefined) s = CRLF;
		const o = Buffer.allocUnsafe(d.length); let i = 0, n = 0;
		for(; i < d.length && s !== ENDC && s !== ENDA; i++) {
			const c = d[i];
			if(s === CEQ) { if(c === 121) { s = ENDC; continue; } s = EQ; }
			if(s === EQ) { o[n++] = c - 106; s = mode && c === 13 ? CR : NONE; continue; }
			if(s === CR && c === 10) { s = CRLF; continue; }
			if(s === DTCR && c === 10) { s = ENDA; continue; }
			if(mode && s === CRLF && c === 46) { s = mode === 2 ? DT : NONE; continue; }
			if(mode === 2 && (s === CRLF || s === DT) && c === 61) { s = CEQ; continue; }
			if(mode === 2 && s === DT && c === 13) { s = DTCR; continue; }
			if(c === 13) { s = mode ? CR : NONE; continue; }
			if(c === 10) { s = NONE; continue; }
			if(c === 61) { s = EQ; continue; }
			o[n++] = c - 42; s = NONE;
		}
		M.steps += i;
		return {out: Buffer.from(o.subarray(0, n)), state: s, read: i, ended: s === ENDC || s === ENDA};
	};
	// ---- reference CRC
	const tab = new Uint32Array(256);
	for(let i = 0; i < 256; i++) { let c = i; for(let j = 0; j < 8; j++) c = c & 1 ? (c >>> 1) ^ 0xEDB88320 : c >>> 1; tab[i] = c >>> 0; }
	M.crc = function(d, init) { let c = ~(init || 0); for(let i = 0; i < d.length; i++) c = (c >>> 8) ^ tab[(c ^ d[i]) & 255]; M.steps += d.length; return ~c >>> 0; };
	M.mul = function(a, b) { let r = 0; M.steps++; for(let i = 31; i >= 0; i--) { if(b >>> i & 1) r ^= a; a = a & 1 ? (a >>> 1) ^ 0xEDB88320 : a >>> 1; } return r >>> 0; };
	M.xpow = function(n) { // x^n for a BigInt n of either sign
		const ORD = 0xffffffffn; n = ((n % ORD) + ORD) % ORD;
		let r = 0x80000000, s = 0x40000000;
		while(n) { if(n & 1n) r = M.mul(r, s); s = M.mul(s, s); n >>= 1n; }
		return r;
	};
	M.pack = c => Buffer.from([c >>> 24, c >>> 16 & 255, c >>> 8 & 255, c & 255]);
	M.hex = c => ('0000000' + (c >>> 0).toString(16)).slice(-8);

	// ---- data by class: letters stand for the encoded character
	M.R = function(s) { const b = Buffer.from(s, 'latin1'); for(let i = 0; i < b.length; i++) b[i] = (b[i] - 42) & 255; return b; };
	M.fill = function(n, f) {
		const b = Buffer.alloc(n); let x = 7 + n;
		for(let i = 0; i < n; i++) switch(f) {
			case 'n': b[i] = 0x61 - 42; break;
			case 'e': b[i] = ([61, 13, 10, 0][i & 3] - 42) & 255; break;
			case 'd': b[i] = 46 - 42; break;
			case 't': b[i] = (9 - 42) & 255; break;
			case 'm': b[i] = ([97, 61, 9, 46, 32, 13, 10, 0][(i * 5 + (i / 7 | 0)) & 7] - 42) & 255; break;
			case 's': b[i] = i % 13 === 12 ? (61 - 42) : 0x62 - 42; break;
			case 'z': b[i] = 0; break;
			default: x = (Math.imul(x, 1664525) + 1013904223) >>> 0; b[i] = x >>> 24;
		}
		return b;
	};
	// ---- guarded memory: Buffers that end (or start) at an inaccessible page
	let G; try { G = require(opt.guard); } catch(e) { G = null; }
	M.guarded = !!G; M.G = G;
	if(G) {
		const arenas = [];
		M.arena = k => arenas[k] || (arenas[k] = G.arena(1 << 20));
		M.atEnd = function(k, d) { const a = M.arena(k), n = typeof d === 'number' ? d : d.length; const b = a.subarray(a.length - n); if(typeof d !== 'number') d.copy(b); return b; };
		M.atStart = function(k, d) { const a = M.arena(k), n = typeof d === 'number' ? d : d.length; const b = a.subarray(0, n); if(typeof d !== 'number') d.copy(b); return b; };
	}
	return M;
};
