"use strict";
// P04: from_post on every document made of up to N tokens: it never throws, errors carry a documented code, and a successful
// result is consistent with the document (offsets in order, data = decode of the region, crc32 = CRC of data, warnings typed).
const TOK = ['\r\n', '=ybegin ', '=yend ', '=ypart ', 'line=128', 'size=1', 'size=0', 'name=x', 'part=1', 'total=2', 'begin=1', 'end=1', ' ', 'a', 'crc32=e8b7be43', 'pcrc32=00000000', '=', '\n', '\r', '.', '=y', '=yconstructor toString=1', '=y__proto__ end=1', '__proto__=1', 'size=x', 'begin=0', 'size=', '\u00a0', '=yend', '=ybegin'];
const LINES = ['=ybegin line=128 size=1 name=x\r\n', '=ybegin part=1 total=1 line=128 size=1 name=x\r\n', '=ybegin line=128 size=1\r\n', '=ybegin \r\n', '=ybegin name=\r\n', '=ypart begin=1 end=1\r\n', '=ypart begin=2 end=1\r\n', '=ypart \r\n', '=ypart\r\n', '=yend size=1 crc32=e8b7be43\r\n', '=yend size=1\r\n', '=yend size=0', '=yend \r\n', '=yend\r\n', '=yend pcrc32=zz size=1 part=2\r\n', '=yend size=99999999999999999999 crc32=\r\n', 'a', 'K', 'K\r\n', '\r\n', '\n', '=', '..\r\n', '=y', '=y\r\n', '=ybegin part=0 total=0 line=0 size=0 name=x\r\n', '=y__proto__ size=1\r\n', '=ytoString end=1 size=1\r\n', '=ybegin line=1 line=2 size=1 name=x\r\n', 'junk=1 '];
exports.cases = function*(T, M) {
	const D = T ? 5 : 4;
	// first two tokens by case; the rest within
	for(let a = 0; a < TOK.length; a++) for(let b = 0; b < TOK.length; b++) yield {k: 'tok', a, b, D: D - 1};
	for(const n of [255, 256, 1023, 4096, 65536, 1048576, 2100000]) for(let a = 0; a < LINES.length; a++) yield {k: 'big', a, n};
	for(let a = 0; a < LINES.length; a++) for(let b = 0; b < LINES.length; b++) yield {k: 'line', a, b, D: T ? 5 : 4};
	for(let a = 0; a < TOK.length; a++) for(let b = 0; b < TOK.length; b++) yield {k: 'head', a, b, D: T ? 4 : 3};
};
const CODES = ['no_start_found', 'no_end_found', 'missing_required_properties'];
function judge(M, s, raw) {
	const b = Buffer.from(s, 'latin1'); M.calls++; M.steps++;
	let r; try { r = raw === undefined ? M.y.from_post(b) : (0, M.y.from_post)(b, raw) /* not called as a method */; } catch(e) { throw M.Bad('from_post(' + JSON.stringify(s) + ') threw ' + e.message); }
	const what = 'from_post(' + JSON.stringify(s) + ')', bad = m => { throw M.Bad(what + ': ' + m); };
	if(r instanceof Error) {
		if(CODES.indexOf(r.code) < 0) bad('error code ' + r.code);
		const hasStart = s.startsWith('=ybegin ') || s.indexOf('\r\n=ybegin ') >= 0;
		if((r.code === 'no_start_found') === hasStart) bad('error ' + r.code + ' although the start ' + (hasStart ? 'exists' : 'is missing'));
		if(r.code === 'no_end_found' && /\r\n=yend [^ \r\n\t\u00a0]/.test(s.slice((s.startsWith('=ybegin ') ? 0 : s.indexOf('\r\n=ybegin ') + 2) + 8))) bad('error no_end_found although there is an end line');
		M.outcome(r.code); return;
	}
	if(!r || typeof r !== 'object') bad('returned ' + r);
	const n = b.length;
	const int = (k, lo, hi) => { if(!Number.isInteger(r[k]) || r[k] < lo || r[k] > hi) bad(k + ' = ' + r[k]); };
	int('yencStart', 0, n); if(s.substr(r.yencStart, 8) !== '=ybegin ') bad('yencStart does not point at =ybegin');
	if(r.yencStart && s.substr(r.yencStart - 2, 2) !== '\r\n') bad('yencStart is not the start of a line');
	if(!r.props || !r.props.begin || !r.props.end) bad('no begin/end properties');
	for(const [t, k] of [['begin', 'line'], ['begin', 'size'], ['end', 'size']]) if(!r.props[t][k]) bad('required property ' + t + '.' + k + ' missing, yet no error');
	if(typeof r.props.begin.name !== 'string') bad('no name');
	if(r.warnings !== undefined) { if(!Array.isArray(r.warnings) || !r.warnings.length) bad('warnings'); for(const w of r.warnings) if(typeof w.code !== 'string' || typeof w.message !== 'string' || !w.code) bad('malformed warning'); }
	if('dataStart' in r && r.dataStart !== undefined) {
		int('dataStart', r.yencStart + 8, n); int('dataEnd', r.dataStart, n); int('yencEnd', r.dataEnd, n);
		if(s.substr(r.dataEnd, 8) !== '\r\n=yend ') bad('dataEnd is not where =yend starts');
		if(s.substr(r.dataStart - 2, 2) !== '\r\n') bad('dataStart is not the start of a line');
		const ref = M.refDecode(raw ? 1 : 0, b.subarray(r.dataStart, r.dataEnd)).out;
		M.eq(r.data, ref, what + ' data'); M.is(r.crc32.toString('hex'), M.hex(M.crc(ref)), what + ' crc32');
		// what the end line says must be true or reported
		if(+r.props.end.size !== ref.length && !r.warnings) bad('size mismatch not reported');
		for(const p of ['pcrc32', 'crc32']) if(r.props.end[p] && !(p === 'crc32' && r.props.part) && r.props.end[p].toLowerCase() !== M.hex(M.crc(ref)) && !r.warnings) bad(p + ' mismatch not reported');
	} else {
		int('yencEnd', r.yencStart + 8, n);
		if(+r.props.end.size !== 0 && !r.warnings) bad('size mismatch of an empty post not reported');
	}
	if(!(r.yencEnd === n || s.substr(r.yencEnd - 2, 2) === '\r\n')) bad('yencEnd is not the end of a line');
	M.outcome('ok' + (r.warnings ? r.warnings.map(w => w.code).join().slice(0, 50) : ''));
}
exports.run = function(c, M) {
	if(c.k === 'big') { // the same with long stretches before, between and after
		const text = 'text =ybegin =yend \r\n'.repeat(c.n / 20 + 1 | 0).slice(0, c.n - 2) + '\r\n', data = 'abcdefg=J\r\n'.repeat(c.n / 11 + 1 | 0).slice(0, c.n), H = LINES[0], E = LINES[9], X = LINES[c.a];
		for(const s of [text + X, text + H + X + 'K\r\n' + E, H + data + X + '\r\n' + E, H + X + data + '\r\n' + E + text, text + X + data + E, H + 'K' + '\r\n' + E + text + X, X + text]) for(const raw of c.n < 65537 ? [undefined, true] : [true]) judge(M, s, raw);
		return;
	}
	const list = c.k === 'line' ? LINES : TOK, pre = c.k === 'head' ? '=ybegin line=128 size=1 name=x\r\n' : '';
	const suf = c.k === 'head' ? ['', '\r\n=yend size=1 crc32=e8b7be43\r\n'] : [''];
	const rec = (s, d) => {
		for(const e of suf) { judge(M, pre + s + e, undefined); if(s.indexOf('.') >= 0) judge(M, pre + s + e, true); }
		if(d > 0) for(const t of list) rec(s + t, d - 1);
	};
	rec(list[c.a] + list[c.b], c.D - 2);
	if(c.b === 0) for(const e of suf) judge(M, pre + list[c.a] + e, undefined);
};
