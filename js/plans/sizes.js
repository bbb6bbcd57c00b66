"use strict";
// A02: maxSize bounds every encoding from above and is accepted by encodeTo; minSize bounds it from below, tightly.
// The formulas are judged against exact arithmetic (BigInt) up to 2^45 and against the encoder's real extremes.
const LS = [undefined, 1, 2, 3, 5, 13, 64, 100, 127, 128, 129, 130, 255, 256, 1000, 4095, 4096, 65535, 1000000, 1073741824, 2147483647];
exports.cases = function*(T) {
	for(let n0 = 0; n0 < (T ? 6000 : 2000); n0 += 50) for(const ls of LS) yield {k: 'small', n0, ls};
	for(let e = 11; e <= 45; e++) for(const ls of LS) yield {k: 'big', e, ls};
	for(let n = 0; n <= (T ? 700 : 400); n++) yield {k: 'real', n};
	for(const n of [1, 2, 63, 64, 65, 128, 1000, 4096, 99999, 1e6]) for(const ls of LS) yield {k: 'ratio', n, ls};
	for(const r of [-0.001, -1, -1e9, 1.0001, 2, 1e9, Infinity, -Infinity]) yield {k: 'badratio', r};
};
// exact extremes of the column machine: nothing escaped / everything escaped, from a column
function minExact(n, ls) { return n ? n + 2n * ((n - 1n) / ls) : 0n; }
function maxExact(n, ls) { if(!n) return 0n; const per = (ls + 1n) / 2n; return 2n * n + 2n * ((n - 1n) / per); }
exports.run = function(c, M) {
	const y = M.y;
	const one = (n, ls) => {
		const mx = y.maxSize(n, ls), mn = y.minSize(n, ls), L = BigInt(ls || 128), N = BigInt(n);
		M.calls += 2; M.steps += 2;
		if(typeof mx !== 'number' || !Number.isInteger(mx)) throw M.Bad('maxSize(' + n + ',' + ls + ') is not an integer: ' + mx);
		if(typeof mn !== 'number' || !Number.isInteger(mn)) throw M.Bad('minSize(' + n + ',' + ls + ') is not an integer: ' + mn);
		if(BigInt(mn) !== minExact(N, L)) throw M.Bad('minSize(' + n + ',' + ls + ') = ' + mn + ', the shortest encoding has ' + minExact(N, L));
		// a column offset makes at most one line break come early
		const worst = maxExact(N, L) + (n ? 2n : 0n);
		if(BigInt(mx) < worst) throw M.Bad('maxSize(' + n + ',' + ls + ') = ' + mx + ', the longest encoding has ' + worst);
		if(n && BigInt(mx) > 4n * worst + 200n) throw M.Bad('maxSize(' + n + ',' + ls + ') = ' + mx + ' is out of proportion');
		M.outcome(mx % 1000);
	};
	if(c.k === 'small') for(let n = c.n0; n < c.n0 + 50; n++) one(n, c.ls);
	else if(c.k === 'big') for(let d = -70; d <= 70; d++) one(Math.pow(2, c.e) + d, c.ls);
	else if(c.k === 'real') {
		for(const ls of [undefined, 1, 2, 3, 16, 63, 64, 127, 128, 129, 300]) {
			const esc = Buffer.alloc(c.n, 0xD6), plain = Buffer.alloc(c.n, 0x30), mx = y.maxSize(c.n, ls), mn = y.minSize(c.n, ls), l = ls || 128;
			for(const col of new Set([0, 1, l >> 1, Math.max(l - 2, 0), l - 1])) {
				M.calls += 2;
				const a = y.encode(esc, l, col).length, b = y.encode(plain, l, col).length;
				if(a > mx || b > mx) throw M.Bad('encode of ' + c.n + ' bytes (line size ' + ls + ', column ' + col + ') gives ' + Math.max(a, b) + ' bytes, maxSize says ' + mx);
				if(a < mn || b < mn) throw M.Bad('encode of ' + c.n + ' bytes (line size ' + ls + ', column ' + col + ') gives ' + Math.min(a, b) + ' bytes, minSize says ' + mn);
				if(!col && b !== mn) throw M.Bad('minSize(' + c.n + ',' + ls + ') = ' + mn + ' is not attained: ' + b);
				M.outcome(a % 1000);
			}
			// a buffer of maxSize is enough for encodeTo
			const out = M.atEnd(1, mx); M.calls++;
			const r = M.doesNotThrow(() => y.encodeTo(esc, out, l), 'encodeTo with a buffer of maxSize(' + c.n + ',' + ls + ')');
			if(c.n) M.eq(out.subarray(0, r), M.refEncode(esc, l), 'encodeTo with a buffer of maxSize');
		}
	} else if(c.k === 'ratio') {
		let last = -1;
		for(let i = 0; i <= 64; i++) {
			const r = i / 64, v = y.maxSize(c.n, c.ls, r); M.calls++;
			if(!Number.isInteger(v)) throw M.Bad('maxSize(' + c.n + ',' + c.ls + ',' + r + ') = ' + v + ' is not an integer');
			if(v < last) throw M.Bad('maxSize decreases with the escape ratio at ' + r);
			// at this ratio n*(1+r) characters come out, plus the line breaks they need
			const chars = Math.ceil(c.n * (1 + r)), want = chars + 2 * Math.floor((chars - 1) / (c.ls || 128));
			if(v < want) throw M.Bad('maxSize(' + c.n + ',' + c.ls + ',' + r + ') = ' + v + ' is below the size expected at that ratio, ' + want);
			last = v;
		}
		M.is(y.maxSize(c.n, c.ls, 1), y.maxSize(c.n, c.ls), 'maxSize with ratio 1');
		M.is(y.maxSize(0, c.ls), 0, 'maxSize(0)'); M.is(y.minSize(0, c.ls), 0, 'minSize(0)');
		M.outcome(last % 1000);
	} else if(c.k === 'badratio') for(const n of [1, 100, 12345]) { M.throws(() => y.maxSize(n, 128, c.r), 'maxSize with escape ratio ' + c.r); M.outcome(n); }
};
