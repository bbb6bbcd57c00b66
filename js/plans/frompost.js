"use strict";
// P03: from_post recovers exactly what post()/multi_post (and any well-formed post) says, at the right offsets, without warnings.
const post = require('./post.js');
const NAMES = ['a', 'a b.bin', 'x=y', 'size=3 line=1', '=yend size=1', 'n\u00e9\u00fc', '\ud83d\ude00', '', 'a  b', '"q"', '.', '=', 'name=', 'constructor', '__proto__', 'crc32=00000000'];
const PRE = ['', 'From: x\r\nSubject: =ybegin yEnc\r\n\r\n', '\r\n', 'text\r\n', '=ybegi\r\n', 'a=ybegin b\r\n', '=ybegin', '=yend size=5\r\n', '.\r\n\r\n'].filter(x => !x || x.endsWith('\r\n'));
const POST = ['\r\n', '\r\n\r\n', '\r\n.\r\n', '\r\ntrailing text\r\n', '\r\n=y', '\r\n\0\0'];
exports.cases = function*(T) {
	for(let n = 0; n <= (T ? 500 : 200); n++) for(let f = 0; f < FILLS.length; f++) yield {k: 'data', n, f};
	for(let n = 0; n < NAMES.length; n++) for(let p = 0; p < PRE.length; p++) for(let q = 0; q < POST.length; q++) yield {k: 'place', n, p, q};
	for(const n of [0, 1, 2, 30, 131]) for(const parts of [1, 2, 3, 5]) yield {k: 'multi', n, parts};
	for(let m = 0; m < 24; m++) for(const ex of [0, 1, 2]) yield {k: 'props', m, ex};
	for(let a = 0; a < 27; a++) for(let b = 0; b < 38; b++) yield {k: 'pname', a, b};
	for(let x = 0; x < XN.length; x++) yield {k: 'pname', x, a: x % 27, b: x};
	for(const ls of [1, 2, 3, 5, 64, 128, 255]) for(const f of FILLS) yield {k: 'ls', ls, f};
	const K = T ? 5 : 4; for(let w = 0; w < Math.pow(9, K); w += 81) yield {k: 'word', w, K};
	for(const n of [5000, 65536, 100001]) for(let f = 0; f < FILLS.length; f++) yield {k: 'data', n, f};
	for(const pre of BIGS) for(const n of [40, 70001]) for(const tail of [2, 3000, 70001]) yield {k: 'big', pre, n, tail};
	for(const n of [1048577, 3000001].concat(T ? [9000001, 33554433] : [])) for(const pre of [0, 70001]) for(const tail of [2, 70001]) yield {k: 'big', pre, n, tail};
	for(const [pre, n, tail] of [[5000001, 40, 2], [40, 40, 5000001], [2000001, 2000001, 2000001]]) yield {k: 'big', pre, n, tail};
	yield {k: 'bad'}; yield {k: 'readme'};
};
const BIGS = [0, 255, 256, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 8191, 8192, 16384, 32767, 32768, 65535, 65536, 131071, 262145, 1048577];
const XN = ['__proto__', 'constructor', '__define_getter__', 'tag', 'part_', 'total_', 'names', 'crc', 'c', 'd', 'e', 'f'], XT = ['__proto__', 'constructor', 'toString', 'hasOwnProperty', 'valueOf', 'isPrototypeOf', 'toLocaleString', '__defineGetter__', 'Begin', 'PART', '-', ''];
const FILLS = ['n', 'e', 'd', 't', 'm', 'r', 'z'];
const stuff = b => { const o = []; for(let i = 0; i < b.length; i++) { if(b[i] === 46 && (i === 0 || (i > 1 && b[i - 1] === 10 && b[i - 2] === 13))) o.push(46); o.push(b[i]); } return Buffer.from(o); };
function check(M, b, raw, want, what) {
	const keep = Buffer.from(b); M.calls++;
	const r = M.doesNotThrow(() => raw === undefined ? M.y.from_post(b) : M.y.from_post(b, raw), what);
	if(r instanceof Error) throw M.Bad(what + ': returned error ' + r.code + ' ' + r.message);
	M.eq(b, keep, what + ': the input afterwards');
	if(r.warnings !== undefined && r.warnings.length) throw M.Bad(what + ': unexpected warnings ' + r.warnings.map(w => w.code));
	M.is(r.yencStart, want.yencStart, what + ' yencStart');
	if(want.data.length || want.hasData) {
		M.is(r.dataStart, want.dataStart, what + ' dataStart'); M.is(r.dataEnd, want.dataEnd, what + ' dataEnd');
		M.eq(r.data, want.data, what + ' data'); M.is(r.crc32.toString('hex'), M.hex(M.crc(want.data)), what + ' crc32');
	}
	M.is(r.yencEnd, want.yencEnd, what + ' yencEnd');
	const tags = Object.keys(r.props).sort().join();
	M.is(tags, Object.keys(want.props).sort().join(), what + ' lines');
	for(const t in want.props) { const g = r.props[t], w = want.props[t];
		M.is(Object.keys(g).sort().join(), Object.keys(w).sort().join(), what + ' properties of ' + t);
		for(const k in w) M.is(g[k], w[k], what + ' property ' + t + '.' + k); }
	M.outcome(r.yencEnd % 1009);
}
// puts a document together and says where everything is
function doc(M, o) {
	const enc = M.refEncode(o.data, o.ls || 128), head = Buffer.from(o.head.map(l => l + '\r\n').join(''), o.e || 'utf8');
	const pre = Buffer.from(o.pre || '', 'latin1'), end = Buffer.from('\r\n' + o.end, 'latin1'), tail = Buffer.from(o.tail === undefined ? '\r\n' : o.tail, 'latin1');
	let body = enc; if(o.raw) body = stuff(enc);
	const b = Buffer.concat([pre, head, body, end, tail]);
	const ds = pre.length + head.length;
	return {b, want: {yencStart: pre.length, dataStart: ds, dataEnd: ds + body.length, yencEnd: ds + body.length + end.length + 2, data: o.data, hasData: true, props: o.props}};
}
exports.doc = doc; exports.stuff = stuff;
function single(M, o) {
	const ls = o.ls || 128, crc = M.hex(M.crc(o.data));
	return doc(M, Object.assign({head: ['=ybegin line=' + ls + ' size=' + o.data.length + ' name=' + o.name], end: '=yend size=' + o.data.length + ' crc32=' + crc,
		props: {begin: {line: '' + ls, size: '' + o.data.length, name: o.name.trim()}, end: {size: '' + o.data.length, crc32: crc}}}, o));
}
exports.single = single;
exports.run = function(c, M) {
	const y = M.y;
	if(c.k === 'data' || c.k === 'ls') {
		const d = c.k === 'ls' ? M.fill(257, c.f) : M.fill(c.n, FILLS[c.f]);
		for(const ls of c.k === 'ls' ? [c.ls] : [undefined, 13]) {
			const b = Buffer.concat([M.doesNotThrow(() => y.post('a b.bin', d, ls), 'post'), Buffer.from('\r\n')]);
			for(const raw of [undefined, false, true]) {
				const x = single(M, {name: 'a b.bin', data: d, ls, raw});
				const inp = raw ? x.b : b;
				if(!raw && !b.equals(x.b)) throw M.Bad('post differs from the reference document');
				if(!d.length) x.want.hasData = false, x.want.yencEnd = undefined;
				if(!d.length) { // the data part may be absent altogether
					const r = M.doesNotThrow(() => y.from_post(inp, !!raw), 'from_post'); M.calls++;
					if(r instanceof Error || (r.warnings && r.warnings.length)) throw M.Bad('from_post of an empty file: ' + (r.code || r.warnings.map(w => w.code)));
					M.is(JSON.stringify(r.props), JSON.stringify(x.want.props), 'props of an empty file'); if(r.data && r.data.length) throw M.Bad('data of an empty file');
				} else check(M, M.atEnd(0, inp), raw, x.want, 'from_post of ' + d.length + ' bytes, line size ' + ls + ', stripDots ' + raw);
			}
		}
	} else if(c.k === 'place') {
		const d = M.fill(200, 'm'), x = single(M, {name: NAMES[c.n], data: d, pre: PRE[c.p], tail: POST[c.q]});
		check(M, M.atEnd(0, x.b), undefined, x.want, 'post named ' + JSON.stringify(NAMES[c.n]) + ' after ' + JSON.stringify(PRE[c.p]) + ' before ' + JSON.stringify(POST[c.q]));
		for(const e of ['latin1', 'utf8']) { const o = y.encoding; y.encoding = e; try { const z = single(M, {name: NAMES[c.n], data: d, pre: PRE[c.p], tail: POST[c.q], e}); if(e === 'utf8' || /^[\0-\xff]*$/.test(NAMES[c.n])) check(M, z.b, false, z.want, 'post named ' + JSON.stringify(NAMES[c.n]) + ' in ' + e); } finally { y.encoding = o; } }
	} else if(c.k === 'big') {
		// much text before and after, and much data: everything is found wherever it is
		const d = M.fill(c.n, 'm'), text = n => { let s = 'A header: =ybegin y=yend line\r\n'.repeat(Math.ceil(n / 31)).slice(0, Math.max(0, n - 2)); if(n > 2) s += '\r\n'; return s; };
		for(const raw of [false, true]) { const x = single(M, {name: 'a b.bin', data: d, pre: text(c.pre), tail: '\r\n' + text(c.tail - 2).replace(/^\r\n/, ''), raw});
			check(M, x.b, raw, x.want, 'post of ' + c.n + ' bytes after ' + c.pre + ' characters, before ' + c.tail); }
	} else if(c.k === 'multi') {
		const file = M.fill(c.n, 'm'), sz = Math.ceil(c.n / c.parts); if(sz * (c.parts - 1) > c.n) return;
		const enc = y.multi_post('f.bin', c.n, c.parts, 17); let got = [];
		for(let i = 0; i < c.parts; i++) {
			const d = file.subarray(i * sz, Math.min(c.n, (i + 1) * sz)), b = Buffer.concat([enc.encode(d), Buffer.from('\r\n')]); M.calls++;
			const r = M.doesNotThrow(() => y.from_post(b), 'from_post of a part');
			if(r instanceof Error) throw M.Bad('from_post of a part: ' + r.code);
			const want = c.parts === 1 ? {begin: {line: '17', size: '' + c.n, name: 'f.bin'}, end: {size: '' + c.n, crc32: M.hex(M.crc(file))}}
				: {begin: {part: '' + (i + 1), total: '' + c.parts, line: '17', size: '' + c.n, name: 'f.bin'}, part: {begin: '' + (i * sz + 1), end: '' + (i * sz + d.length)}, end: Object.assign({size: '' + d.length, part: '' + (i + 1), pcrc32: M.hex(M.crc(d))}, i === c.parts - 1 ? {crc32: M.hex(M.crc(file))} : {})};
			for(const t in want) for(const k in want[t]) M.is(r.props[t] && r.props[t][k], want[t][k], 'part ' + (i + 1) + ' ' + t + '.' + k);
			if(d.length && r.warnings && r.warnings.length) throw M.Bad('from_post of part ' + (i + 1) + ' of ' + c.parts + ': warnings ' + r.warnings.map(w => w.code));
			if(r.data) got.push(r.data);
			if(d.length) M.is(r.crc32.toString('hex'), M.hex(M.crc(d)), 'crc32 of a part');
			M.outcome(d.length);
		}
		M.eq(Buffer.concat(got), file, 'the parts put together');
	} else if(c.k === 'props') {
		// properties in any order, with unknown ones; a =ypart line and unknown lines
		const kv = [['line', '128'], ['size', '40'], ['part', '1'], ['total', '1']], ord = []; let m = c.m; const pool = kv.slice(); for(let i = 4; i > 0; i--) { ord.push(pool.splice(m % i, 1)[0]); m = m / i | 0; }
		const d = M.fill(40, 'r'), crc = M.hex(M.crc(d)), extra = c.ex ? [['foo_1', 'b=r'], ['_z', '']].slice(0, c.ex) : [];
		const begin = {}; ord.concat(extra).forEach(([k, v]) => begin[k] = v); begin.name = 'a b';
		const line = '=ybegin ' + ord.concat(extra).map(([k, v]) => k + '=' + v).join(' ') + ' name=a b';
		const x = doc(M, {data: d, head: [line, '=ypart begin=1 end=40'].concat(c.ex === 2 ? ['=yfoo bar=1'] : []), end: '=yend part=1 pcrc32=' + crc + ' size=40', props: Object.assign({begin, part: {begin: '1', end: '40'}, end: {part: '1', pcrc32: crc, size: '40'}}, c.ex === 2 ? {foo: {bar: '1'}} : {})});
		check(M, x.b, false, x.want, 'post with ' + line);
	} else if(c.k === 'pname') {
		// every property name of two characters (and one made longer), on each of the lines
		const A = 'abcdefghijklmnopqrstuvwxyz_0123456789', nm = XN[c.x] || A[c.a] + (A[c.b] || ''), lg = nm + '_0z9' + nm, v = ['', 'v', '12-x', '='][(c.a + c.b) % 4], tag = c.x === undefined ? nm : XT[c.x];
		const d = M.fill(5, 'n'), crc = M.hex(M.crc(d)), ex = nm + '=' + v + ' ' + lg + '=w';
		const beg = {part: '1', line: '128', size: '5', [nm]: v, [lg]: 'w', name: 'n'}, part = {begin: '1', end: '5', [nm]: v, [lg]: 'w'}, end = {size: '5', [nm]: v, [lg]: 'w', part: '1', pcrc32: crc};
		const x = doc(M, {data: d, head: ['=ybegin' + ' '.repeat(1 + c.b % 3) + 'part=1 line=128 size=5 ' + ex + ' name=n', '=ypart' + ' '.repeat(1 + c.a % 2) + 'begin=1 end=5 ' + ex, '=y' + tag + ' a=' + A[c.b % 27]], end: '=yend ' + ' '.repeat((c.a + c.b) % 2) + 'size=5 ' + ex + ' part=1 pcrc32=' + crc, props: {begin: beg, part, end, [tag]: {a: A[c.b % 27]}}});
		check(M, x.b, false, x.want, 'post with a property ' + nm);
	} else if(c.k === 'word') {
		// every word over the critical characters as data: nothing in the data can pass for a line of the format
		const AL = ['a', '=', 'y', '\r', '\n', '.', ' ', '\t', 'e'].map(x => (x.charCodeAt(0) - 42) & 255);
		for(let w = c.w; w < c.w + 81; w++) { let x = w; const d = Buffer.alloc(c.K); for(let i = 0; i < c.K; i++) { d[i] = AL[x % 9]; x = x / 9 | 0; }
			for(const [ls, raw] of [[128, false], [2, true], [3, false]]) { const z = single(M, {name: 'n', data: d, ls, raw}); check(M, z.b, raw, z.want, 'data ' + d.toString('hex') + ' line size ' + ls); } }
	} else if(c.k === 'bad') for(const b of [undefined, null, 'abc', 5, {}, [1, 2]]) M.throws(() => y.from_post(b), 'from_post of ' + JSON.stringify(b));
	else if(c.k === 'readme') { const r = y.from_post(Buffer.from('=ybegin line=128 name=my-file.dat\r\n')); if(!(r instanceof Error)) throw M.Bad('a lone =ybegin line is not a post'); M.is(r.code, 'no_end_found', 'code'); M.is(y.from_post(Buffer.from('abc')).code, 'no_start_found', 'code'); M.is(y.from_post(Buffer.alloc(0)).code, 'no_start_found', 'code');
		M.is(y.from_post(Buffer.from('=ybegin line=128 size=1\r\na\r\n=yend size=1\r\n')).code, 'missing_required_properties', 'code'); M.is(y.from_post(Buffer.from('=ybegin line=128 size=1 name=x\r\na\r\n=yend crc32=00000000\r\n')).code, 'missing_required_properties', 'code'); }
};
