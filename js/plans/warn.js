"use strict";
// P06: the warnings of from_post are exactly those the values on the control lines call for. Documents are generated from a
// description (a value or absence for every property); the model below derives the codes from the description, never by parsing.
const B31 = '2147483648', B31p = '2147483650', B32 = '4294967297', B32p = '4294967299';
const PART = [undefined, '1', '2', '10', B31, '0'], TOTAL = [undefined, '1', '2', '9', B31, B32, '0'], EPART = [undefined, '1', '2', '10', B31];
const BSIZE = ['3', '4', '2', '20', B31p, B32p, '0'], ESIZE = ['3', '2', '4', '10', '0', B32p];
const PB = [undefined, '1', '2', '9', B31, B32, '0'], PE = [undefined, '3', '4', '11', B31p, B32p];
const CRC = [undefined, 'ok', 'OK', 'bad', 'flip0', 'flip7', 'zzzzzzzz', '123', '123456789'];
// the same numbers written with leading zeros
const ZPART = [undefined, '1', '01', '002', '00', '10'], ZTOTAL = [undefined, '2', '02', '00', '010'], ZSIZE = ['3', '03', '4', '0010', '00'], ZPB = [undefined, '1', '01', '00', '09'], ZPE = [undefined, '3', '03', '004', '010'];
const NUM = {bline: ['1', '128', '0', 'x', '-1', '1.5', '1e3', ' '], btotal: ['x', '-1', '2x', '0x2'], bpart: ['x', '-1', '1.0', '+1'], bsize: ['x', '-3', '3.0', '3x', '0x3'], pbegin: ['x', '-1', '1,'], pend: ['x', '3-'], esize: ['x', '3.0', '-3', '3z'], epart: ['x', '1/2']};
const DATA = ['abc', '', null]; // null: =yend follows the header at once
exports.cases = function*(T) {
	for(let p = 0; p < PART.length; p++) for(let t = 0; t < TOTAL.length; t++) for(let e = 0; e < EPART.length; e++) yield {k: 'num', p, t, e};
	for(let d = 0; d < DATA.length; d++) for(const pl of [false, true]) for(let a = 0; a < CRC.length; a++) yield {k: 'crc', d, pl, a};
	for(const f in NUM) for(let i = 0; i < NUM[f].length; i++) yield {k: 'bad', f, i};
	for(let i = 0; i < 4; i++) yield {k: 'line', i, T};
	for(let n = 0; n <= (T ? 300 : 130); n++) yield {k: 'len', n};
	for(const n of [255, 256, 257, 1000, 4096, 65535, 65536, 65537, 1048577]) yield {k: 'len', n};
	for(let p = 0; p < ZPART.length; p++) for(let t = 0; t < ZTOTAL.length; t++) yield {k: 'pad', p, t};
};
const CODES = {};
function judge(M, o, extra) {
	// o: bline btotal bpart bsize name; hasPart pbegin pend; esize epart pcrc crc; data, nl
	const d = o.data === null ? Buffer.alloc(0) : Buffer.from(o.data), real = M.hex(M.crc(d));
	const crcv = v => v === 'ok' ? real : v === 'OK' ? real.toUpperCase() : v === 'bad' ? M.hex(~M.crc(d)) : v === 'flip0' ? (real[0] === '0' ? '1' : '0') + real.slice(1) : v === 'flip7' ? real.slice(0, 7) + (real[7] === '0' ? '1' : '0') : v;
	const pr = (k, v) => v === undefined ? '' : ' ' + k + '=' + v;
	const pcrc = crcv(o.pcrc), crc = crcv(o.crc);
	const doc = '=ybegin' + pr('part', o.bpart) + pr('total', o.btotal) + pr('line', o.bline) + pr('size', o.bsize) + ' name=x\r\n' + (o.hasPart ? '=ypart' + (pr('begin', o.pbegin) + pr('end', o.pend) || ' ') + '\r\n' : '');
	const end = '=yend' + pr('size', o.esize) + pr('part', o.epart) + pr('pcrc32', pcrc) + pr('crc32', crc) + (o.nl === false ? '' : '\r\n');
	const b = Buffer.concat([Buffer.from(doc), o.data === null ? Buffer.alloc(0) : Buffer.concat([M.refEncode(d), Buffer.from('\r\n')]), Buffer.from(end)]);
	// --- what the values call for
	const w = [], N = x => x === undefined ? undefined : +x;
	const hex8 = v => v === undefined || /^[0-9a-fA-F]{8}$/.test(v);
	for(const [k, v] of [['line', o.bline], ['total', o.btotal], ['part', o.bpart]].concat(o.hasPart ? [['begin', o.pbegin], ['end', o.pend]] : [], [['part', o.epart]])) if(/^0+$/.test(v)) w.push('zero_prop_' + k);
	if(o.bpart !== undefined && o.epart !== undefined && N(o.bpart) !== N(o.epart)) w.push('part_number_mismatch');
	else if(o.btotal !== undefined && [o.bpart, o.epart].some(x => x !== undefined && N(x) > N(o.btotal))) w.push('part_number_exceeds_total');
	if(o.hasPart && o.pbegin !== undefined && o.pend !== undefined) {
		if(N(o.pbegin) > N(o.pend)) w.push('invalid_part_range');
		else if(N(o.pend) - N(o.pbegin) + 1 !== N(o.esize)) w.push('size_mismatch_part_range');
		else if(N(o.pend) > N(o.bsize)) w.push('part_range_exceeds_size');
	} else if([o.btotal, o.bpart, o.epart].some(x => x !== undefined && N(x) > 1)) w.push('missing_part_range');
	if(o.bpart === undefined ? N(o.bsize) !== N(o.esize) : N(o.bsize) < N(o.esize)) w.push('size_mismatch');
	if(N(o.esize) !== d.length) w.push('data_size_mismatch');
	if(!hex8(pcrc)) w.push('invalid_prop_pcrc32');
	if(!hex8(crc)) w.push('invalid_prop_crc32');
	if(pcrc !== undefined && pcrc.toLowerCase() !== real) w.push('pcrc32_mismatch');
	if(crc !== undefined && !o.hasPart && crc.toLowerCase() !== real) w.push('crc32_mismatch');
	if(o.nl === false) w.push('missing_yend_newline');
	const what = 'from_post(' + JSON.stringify(b.toString('latin1').slice(0, 400)) + ')';
	for(const raw of [false, true]) { // the data has no dots to strip
	M.calls++; M.steps++;
	const r = M.doesNotThrow(() => M.y.from_post(b, raw), what);
	if(r instanceof Error) throw M.Bad(what + ': error ' + r.code);
	const got = (r.warnings || []).map(x => x.code);
	if(extra) { if(got.indexOf(extra) < 0) throw M.Bad(what + ': no warning ' + extra + ' (got ' + got + ')'); }
	else if(got.slice().sort().join() !== w.slice().sort().join()) throw M.Bad(what + ': warnings ' + (got.sort().join() || 'none') + ', the values call for ' + (w.sort().join() || 'none'));
	if(r.warnings !== undefined && !r.warnings.length) throw M.Bad(what + ': an empty list of warnings');
	for(const x of r.warnings || []) if(typeof x.message !== 'string' || !x.message || String(x) !== x.message) throw M.Bad(what + ': a warning without a message');
	if(o.data !== null) M.eq(r.data, d, what + ' data');
	for(const x of got) if(!CODES[x]) { CODES[x] = 1; M.count('code ' + x); }
	M.outcome(got.sort().join());
	}
}
exports.run = function(c, M) {
	const base = {bline: '128', bsize: '3', esize: '3', data: 'abc', hasPart: false};
	if(c.k === 'num') {
		for(const bsize of BSIZE) for(const esize of ESIZE) {
			const o = Object.assign({}, base, {bpart: PART[c.p], btotal: TOTAL[c.t], epart: EPART[c.e], bsize, esize});
			judge(M, o);
			for(const pbegin of PB) for(const pend of PE) judge(M, Object.assign({}, o, {hasPart: true, pbegin, pend}));
		}
	} else if(c.k === 'pad') {
		for(const epart of ZPART) for(const bsize of ZSIZE) for(const esize of ZSIZE) {
			const o = Object.assign({}, base, {bpart: ZPART[c.p], btotal: ZTOTAL[c.t], epart, bsize, esize});
			judge(M, o);
			for(const pbegin of ZPB) for(const pend of ZPE) judge(M, Object.assign({}, o, {hasPart: true, pbegin, pend}));
		}
	} else if(c.k === 'crc') {
		for(const crc of CRC) for(const bpart of [undefined, '1', '2']) for(const total of [undefined, '1', '2']) for(const epart of [undefined, '1', '2']) for(const nl of [true, false]) for(const rng of [['1', '3'], [undefined, '3']]) {
			const n = '' + (DATA[c.d] || '').length;
			judge(M, {bline: '128', bpart, btotal: total, epart, bsize: n, esize: n, data: DATA[c.d], hasPart: c.pl, pbegin: rng[0], pend: rng[1], pcrc: CRC[c.a], crc, nl});
		}
	} else if(c.k === 'bad') { // a value that is not a number is named, whatever else is said
		for(const part of [false, true]) for(const crc of ['ok', 'bad']) {
			const o = Object.assign({}, base, {bpart: '1', btotal: '2', epart: '1', bsize: '3', esize: '3', hasPart: true, pbegin: '1', pend: '3', pcrc: crc});
			if(!part) { delete o.bpart; delete o.btotal; delete o.epart; o.hasPart = false; if(/^(bpart|btotal|epart)$/.test(c.f)) o.bpart = o.epart = o.btotal = '1'; if(/^p/.test(c.f)) continue; }
			const v = NUM[c.f][c.i]; if(v === ' ') continue; o[c.f] = v;
			if(/^\d+$/.test(v)) judge(M, o); else judge(M, o, 'invalid_prop_' + c.f.slice(1));
		}
	} else if(c.k === 'line') {
		// every way of repeating or inserting something on a line; the values stay consistent, so nothing else is reported
		const crc = M.hex(M.crc(Buffer.from('abc')));
		const L = [['=ybegin', 'part=1', 'total=2', 'line=128', 'size=6', 'name=x y=z junk'], ['=ypart', 'begin=1', 'end=3'], ['=yend', 'size=3', 'part=1', 'pcrc32=' + crc]];
		const run = (lines, tailNl, want, what) => {
			const b = Buffer.concat([Buffer.from(lines.slice(0, -1).map(l => l.join(' ') + '\r\n').join('')), M.refEncode(Buffer.from('abc')), Buffer.from('\r\n' + lines[lines.length - 1].join(' ') + (tailNl ? '\r\n' : ''))]);
			M.calls++; M.steps++;
			const r = M.doesNotThrow(() => M.y.from_post(b), what); what = 'from_post(' + JSON.stringify(b.toString('latin1')) + ')';
			if(r instanceof Error) throw M.Bad(what + ': error ' + r.code);
			const got = (r.warnings || []).map(x => x.code).sort().join();
			if(got !== want.slice().sort().join()) throw M.Bad(what + ': warnings ' + (got || 'none') + ', expected ' + (want.join() || 'none'));
			M.eq(r.data, Buffer.from('abc'), what + ' data'); M.is(r.props.begin.name, 'x y=z junk', what + ' name'); M.is(r.props.part.end, '3', what + ' end'); M.is(r.props.end.pcrc32, crc, what + ' pcrc32');
			M.outcome(got);
		};
		const JUNK = ['junk', '5', '-', 'A', 'j1 j2', '"q"', '.'];
		const at = (l, i, x) => l.slice(0, i).concat([x], l.slice(i));
		const edits = li => { // [edited line, codes]
			const l = L[li], last = li === 0 ? l.length - 1 : l.length, out = [[l, []]];
			for(let i = 1; i <= last; i++) { for(const j of JUNK) out.push([at(l, i, j), ['ignored_line_data']]);
				for(let k = i + 1; k <= last; k++) out.push([at(at(l, k, 'jj'), i, 'ii'), ['ignored_line_data', 'ignored_line_data']]);
				for(let k = 1; k < last; k++) { out.push([at(l, i, l[k]), ['duplicate_property']]); out.push([at(at(l, i, l[k]), i, l[k]), ['duplicate_property', 'duplicate_property']]); out.push([at(at(l, i, l[k]), 1, 'zz'), ['duplicate_property', 'ignored_line_data']]); }
				out.push([at(l, i, 'unknown=1'), []], [at(l, i, 'unknown=a=b'), []]); }
			return out;
		};
		if(c.i < 3) for(const [l, w] of edits(c.i)) for(const nl of [true, false]) { const X = L.slice(); X[c.i] = l; run(X, nl, nl ? w : w.concat('missing_yend_newline'), 'line'); }
		else {
			for(const [l, w] of edits(1)) { run([L[0], l, L[1], L[2]], true, w.concat('duplicate_line'), 'lines'); run([L[0], L[1], l, L[2]], true, w.concat('duplicate_line'), 'lines'); }
			for(const [l, w] of edits(0)) for(const [m, v] of edits(2)) run([l, L[1], m], true, w.concat(v), 'lines');
			run([L[0], L[1], L[1], L[1], L[2]], true, ['duplicate_line', 'duplicate_line'], 'lines'); run([L[0], L[0], L[1], L[2]], true, ['duplicate_line'], 'lines');
			for(const u of [['=ynew', 'a=b'], ['=yx'], ['=ynew', 'junk']]) for(const at of [1, 2]) { const X = L.slice(); X.splice(at, 0, u); run(X, true, u[1] === 'junk' ? ['ignored_line_data'] : [], 'lines'); }
		}
	} else if(c.k === 'len') {
		const d = 'q'.repeat(c.n);
		for(let e = c.n > 300 ? c.n - 5 : 0; e <= c.n + 12; e += c.n > 40 && e + 3 < c.n ? 7 : 1) for(const crc of [undefined, 'ok', 'bad']) judge(M, {bline: '128', bsize: '' + e, esize: '' + e, data: d, hasPart: false, crc});
	}
};
