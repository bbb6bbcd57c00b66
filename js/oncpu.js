"use strict";
// The package on an emulated CPU: one pass over the API, every result against the reference models.
//   node oncpu.js <index.js>     prints OK <calls>, or BAD <message>; an unsupported instruction ends the process
const control = process.argv[2] === '-'; // without the package: does Node itself run here?
const M = require('./lib.js')({index: control ? 'path' : process.argv[2]}), y = M.y;
try {
	for(const f of 'nemtdsz?') for(const n of [1, 2, 15, 16, 31, 33, 63, 65, 127, 128, 129, 255, 300, 513, 1100]) for(const ls of [128, 64, 1]) {
		if(ls === 1 && n > 60) continue;
		const d = M.fill(n, f), e = M.refEncode(d, ls, 0); M.calls += 7;
		if(control) { M.eq(M.refDecode(0, e).out, d, 'model'); M.crc(d); continue; }
		M.eq(y.encode(d, ls), e, 'encode');
		M.eq(y.decode(e), d, 'decode');
		const raw = Buffer.concat([e, Buffer.from('\r\n..=a\r\n=y')]);
		M.eq(y.decode(raw, true), M.refDecode(1, raw).out, 'decode with stripping');
		const r = y.decodeChunk(raw), w = M.refDecode(2, raw); M.is(r.read, w.read, 'bytes read'); M.eq(r.output, w.out, 'decodeChunk');
		M.eq(y.crc32(d), M.pack(M.crc(d)), 'crc32');
		const h = n >> 1, a = y.crc32(d.slice(0, h)), b = y.crc32(d.slice(h));
		M.eq(y.crc32_combine(a, b, n - h), M.pack(M.crc(d)), 'crc32_combine');
		M.eq(y.crc32(d.slice(h), a), M.pack(M.crc(d)), 'crc32 continued');
	}
	if(control) { console.log('OK'); process.exit(0); }
	const post = y.post('n', M.fill(700, '?'), 128), p = y.from_post(post, false); M.calls += 2;
	M.eq(p.data, M.fill(700, '?'), 'from_post');
	console.log('OK ' + M.calls);
} catch(e) { console.log('BAD ' + (e.bad ? e.message : e.stack).split('\n')[0]); process.exit(1); }
