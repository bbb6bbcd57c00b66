"use strict";
// Explorer for the JavaScript API: walks every case of a plan, in sharded processes, one addon level per process.
//   node mc.js plan=<name> index=<index.js> levels=a,b prop=<ID> replays=<dir> [jobs= shards= thorough=1 budget= replay=<file>]
// A plan (plans/<name>.js) exports cases(T) -> generator of plain objects, and run(case, M), which throws M.Bad on a violation.
const fs = require('fs'), path = require('path'), cp = require('child_process');
const opt = {};
process.argv.slice(2).forEach(a => { const e = a.indexOf('='); opt[e < 0 ? a : a.slice(0, e)] = e < 0 ? '1' : a.slice(e + 1); });
const T = opt.thorough === '1';

async function child() {
	const M = require('./lib.js')(opt);
	let plan; const exit = c => { if(plan.quit) plan.quit(c); process.exit(c); };
	try { plan = require('./plans/' + opt.plan + '.js'); } catch(e) { console.error(e); process.exit(3); }
	if(opt.replay) {
		const r = JSON.parse(fs.readFileSync(opt.replay, 'utf8'));
		try { M.current = r.case; await plan.run(r.case, M); if(plan.after) plan.after(M); } catch(e) { fs.writeSync(1, 'VIOL\t' + opt.replay + '\t' + oneLine(e) + '\n'); exit(1); }
		fs.writeSync(1, 'replay: no violation\n'); exit(0);
	}
	const shard = +opt.shard, n = +opt.shards, deadline = Date.now() + 1000 * (opt.budget || 1e9);
	const trace = opt.trace ? fs.openSync(opt.trace, 'w') : -1;
	let i = 0, beat = Date.now(), capped = false, flushed = 0, flushes = 0;
	for(const c of plan.cases(T, M)) {
		if(i++ % n !== shard) continue;
		if(Date.now() > deadline) { capped = true; break; }
		M.states++;
		if(trace >= 0) { const s = JSON.stringify(c) + '\n'; fs.ftruncateSync(trace, 0); fs.writeSync(trace, s, 0); }
		if(Date.now() - beat > 2000) { beat = Date.now(); fs.writeSync(1, 'P\n'); }
		if(M.calls - flushed > 3000) { flushed = M.calls; global.gc({type: 'minor'}); await new Promise(setImmediate); if(++flushes % 20 === 0) { global.gc(); await new Promise(setImmediate); } }
		if(M.samples.length < 2 && M.states % 997 === 5) M.samples.push(JSON.stringify(c).slice(0, 300));
		try { M.current = c; const q = plan.run(c, M); if(q) await q; } catch(e) {
			if(e && e.harness) { console.error(e); exit(3); }
			fs.writeSync(1, 'V\t' + JSON.stringify({msg: oneLine(e), case: c}) + '\n'); exit(1);
		}
	}
	if(M.samples.length === 0 && M.current) M.samples.push(JSON.stringify(M.current).slice(0, 300));
	if(plan.after) { try { plan.after(M); } catch(e) { fs.writeSync(1, 'V\t' + JSON.stringify({msg: oneLine(e), case: M.current}) + '\n'); exit(1); } }
	fs.writeSync(1, 'D\t' + JSON.stringify({states: M.states, calls: M.calls, steps: M.steps, capped, counters: M.counters, samples: M.samples, outcomes: [...M.outcomes]}) + '\n');
	exit(0);
}
function oneLine(e) {
	const s = e && e.bad ? e.message : 'unexpected exception: ' + (e && e.stack ? e.stack.split('\n').slice(0, 4).join(' | ') : e);
	return String(s).replace(/[\n\t"\\]/g, ' ').slice(0, 900);
}

function spawn(level, extra, onLine, hangMs) {
	return new Promise(res => {
		const args = ['--expose-gc', '--max-old-space-size=2500', __filename, 'child=1'];
		for(const k in opt) if(!(k in extra)) args.push(k + '=' + opt[k]);
		for(const k in extra) if(extra[k] !== null) args.push(k + '=' + extra[k]);
		args.push('level=' + level);
		const p = cp.spawn(process.execPath, args, {env: Object.assign({}, process.env, {VF_ISA: level}), stdio: ['ignore', 'pipe', 'pipe']});
		let buf = '', err = '', last = Date.now(), hung = false;
		p.stdout.on('data', d => { last = Date.now(); buf += d; let k; while((k = buf.indexOf('\n')) >= 0) { onLine(buf.slice(0, k), p); buf = buf.slice(k + 1); } });
		p.stderr.on('data', d => { if(err.length < 20000) err += d; });
		// a process that burns CPU without finishing a case is stuck in native code; waiting for a CPU doesn't count
		let cpu0 = -1;
		const iv = setInterval(() => {
			let cpu; try { const f = fs.readFileSync('/proc/' + p.pid + '/stat', 'latin1').split(') ')[1].split(' '); cpu = (+f[11]) + (+f[12]); } catch(e) { return; }
			if(Date.now() - last < 5000) { cpu0 = cpu; return; }
			if(cpu0 < 0) cpu0 = cpu;
			if(cpu - cpu0 > hangMs / 10) { hung = true; p.kill('SIGKILL'); }
		}, 1000);
		p.on('close', (code, sig) => { clearInterval(iv); res({code, sig, err, hung}); });
	});
}

async function main() {
	const t0 = Date.now(), levels = (opt.levels || 'sse2').split(','), shards = +(opt.shards || 4), jobs = +(opt.jobs || 8);
	const replays = opt.replays || 'replays';
	if(opt.replay) {
		const r = JSON.parse(fs.readFileSync(opt.replay, 'utf8'));
		let viol = 0;
		const f = await spawn(r.level, {plan: r.plan}, l => { if(/^VIOL/.test(l)) { viol = 1; } console.log(l); }, 60000);
		if(f.sig || f.hung) { console.log('VIOL\t' + opt.replay + '\tthe process ' + (f.hung ? 'hung' : 'died from ' + f.sig)); viol = 1; }
		else if(!viol && f.code) { console.error(f.err); process.exit(3); }
		process.exit(viol);
	}
	const tasks = [];
	for(let s = 0; s < shards; s++) for(const l of levels) tasks.push([l, s]);
	const tot = {executions: 0, states: 0, transitions: 0, capped: false, outcomes: 0, levels, counters: {}, samples: []}, outs = new Set();
	let viol = null, bad = 0;
	async function runner() {
		while(tasks.length && !viol && !bad) {
			const [level, shard] = tasks.shift();
			let done = false, v = null;
			const on = l => {
				if(l[0] === 'V') v = JSON.parse(l.slice(2));
				else if(l[0] === 'D') {
					done = true; const d = JSON.parse(l.slice(2));
					tot.states += d.states; tot.executions += d.calls; tot.transitions += d.steps; tot.capped = tot.capped || d.capped;
					for(const k in d.counters) tot.counters[k] = (tot.counters[k] || 0) + d.counters[k];
					d.samples.forEach(x => { if(tot.samples.length < 4) tot.samples.push(level + ': ' + x); }); d.outcomes.forEach(o => outs.add(o));
				}
			};
			let f = await spawn(level, {shard, shards}, on, 60000);
			if(!v && !done && (f.sig || f.hung || f.code === 134 || f.code === 139)) {
				// the process died in native code: run again, writing down each case before executing it
				const tr = path.join(require('os').tmpdir(), 'vf-trace-' + process.pid + '-' + level + '-' + shard);
				const g = await spawn(level, {shard, shards, trace: tr}, on, 90000);
				if(!v && !done && (g.sig || g.hung || g.code === 134 || g.code === 139))
					try { v = {msg: 'the process ' + (g.hung ? 'made no progress for 90 s of CPU time' : 'died from ' + (g.sig || 'abort')), case: JSON.parse(fs.readFileSync(tr, 'utf8'))}; } catch(e) { bad = 3; }
				else f = g;
				try { fs.unlinkSync(tr); } catch(e) {}
			}
			if(v && !viol) {
				fs.mkdirSync(replays, {recursive: true});
				const file = path.join(replays, (opt.prop || 'X') + '-' + opt.plan + '-' + level + '-' + process.pid + '.case');
				fs.writeFileSync(file, JSON.stringify({prop: opt.prop, plan: opt.plan, level, shard, shards, msg: v.msg, case: v.case}) + '\n');
				viol = [file, level + ': ' + v.msg];
			} else if(!done && !v) { console.error('explorer process ended abnormally', level, shard, f.code, f.sig, f.err); bad = 3; }
		}
	}
	await Promise.all(Array.from({length: jobs}, runner));
	tot.outcomes = outs.size; tot.wall = (Date.now() - t0) / 1000;
	console.log('RESULT ' + JSON.stringify(tot));
	if(viol) console.log('VIOL\t' + viol[0] + '\t' + viol[1]);
	process.exit(viol ? 1 : bad);
}
if(opt.child) child().catch(e => { console.error(e); process.exit(3); }); else main().catch(e => { console.error(e); process.exit(3); });
