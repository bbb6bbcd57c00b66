"use strict";
// K02: every sequence of events in the life of the environments (main thread, Workers, repeated loading) that share the addon
const cp = require('child_process'), path = require('path');
exports.cases = function*(T) {
	const max = T ? 5 : 4;
	function* rec(s, live) {
		if(s) yield {s};
		if(s.length === max) return;
		for(const e of 'WPxtMVGR') {
			if('xtR'.includes(e) && !live || 'MVG'.includes(e) && s.endsWith(e) || e === 'P' && s.includes('P') || e === 'G' && !/[MVWP]/.test(s)) continue;
			yield* rec(s + e, live + (e === 'W' ? 1 : e === 'P' ? 2 : 'xt'.includes(e) ? -1 : 0));
		}
	}
	for(const c of rec('', 0)) if(c.s.length === max || T) yield c; // shorter histories are prefixes
};
exports.run = function(c, M) {
	const r = cp.spawnSync(process.execPath, ['--expose-gc', path.join(__dirname, '..', 'life.js'), M.opt.index, M.opt.guard, c.s], {timeout: 120000, encoding: 'utf8'});
	M.calls += c.s.length; M.steps += c.s.length; M.count('processes');
	if(r.error && r.error.code === 'ETIMEDOUT') throw M.Bad('events ' + c.s + ': hangs');
	if(r.error) throw M.harness('spawn: ' + r.error);
	if(!r.stdout.includes('LIFE-OK') || r.status !== 0) throw M.Bad('events ' + c.s + ': ' + (r.signal ? 'died from ' + r.signal : 'exit ' + r.status) + ' ' + r.stderr.slice(0, 400));
	M.outcome(c.s.length);
};
