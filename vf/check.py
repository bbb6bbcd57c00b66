"""check.py <ID> [replay=<file>]: decides one property on /repo's working tree; see DESIGN.md.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 3: the check itself failed."""
import json
import os
import re
import subprocess
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import plans  # noqa: E402

HERE = build.HERE
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
REPLAYS = os.path.join(build.WORK, "replays")


class Violation(Exception):
    def __init__(self, path, msg):
        Exception.__init__(self, msg)
        self.path, self.msg = path, msg


class CheckError(Exception):
    pass


def cpu_levels():
    """Dispatch levels (harness/probe.cc) this machine can execute."""
    m = re.search(r"^flags\s*:\s*(.*)$", open("/proc/cpuinfo").read(), re.M)
    f = set(m.group(1).split()) if m else set()
    clmul = {"pclmulqdq", "sse4_1", "ssse3", "popcnt"} <= f
    avx2 = {"avx2", "bmi1", "bmi2", "abm", "popcnt", "avx"} <= f
    out = ["sse2"]
    if "ssse3" in f:
        out.append("ssse3")
    if clmul:
        out.append("sse41")
    if clmul and "avx" in f:
        out.append("avx")
    if clmul and avx2:
        out.append("avx2")
    if clmul and avx2 and "vpclmulqdq" in f:
        out.append("avx2v")
        if {"avx512bw", "avx512vl"} <= f:
            out.append("avx3")
            if "avx512_vbmi2" in f:
                out.append("vbmi2")
    return out


class Ctx:
    """Collects what the steps of one check covered."""

    def __init__(self, prop):
        self.prop, self.tier, self.seed = prop, TIER, SEED
        self.steps, self.notes, self.samples = [], [], []
        self.states = self.transitions = self.executions = 0
        self.capped = False
        self.replay_dir = REPLAYS
        self.jobs = os.cpu_count() or 4

    def add(self, name, r):
        self.states += int(r.get("states", 0))
        self.transitions += int(r.get("transitions", 0))
        self.executions += int(r.get("executions", 0))
        self.capped = self.capped or bool(r.get("capped"))
        for s in r.get("samples", [])[:4]:
            self.samples.append("%s: %s" % (name, s))
        self.steps.append({k: r[k] for k in ("states", "transitions", "executions", "outcomes", "levels", "capped", "wall", "counters") if k in r} | {"step": name})

    def violation(self, path, msg):
        raise Violation(path, msg)

    def run_explorer(self, name, cmd, timeout, env=None, confirm=None):
        """Runs an explorer that prints RESULT/VIOL lines (see harness/mc.h)."""
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout, env=env or os.environ.copy())
        out, err = p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
        res = None
        for l in out.splitlines():
            if l.startswith("RESULT "):
                res = json.loads(l[7:], strict=False)
                self.add(name, res)
        for l in out.splitlines():
            if l.startswith("VIOL\t"):
                _, path, msg = (l.split("\t", 2) + [""])[:3]
                return path, msg
        if p.returncode or res is None:
            raise CheckError("%s: exit %d\n%s\n%s" % (name, p.returncode, out[-2000:], err[-3000:]))
        if not res.get("executions"):
            raise CheckError("%s explored nothing" % name)
        return None

    def explore(self, name, cmd, timeout=None, env=None, replay_cmd=None):
        timeout = timeout or (700 if TIER == "quick" else 14000)
        v = self.run_explorer(name, cmd, timeout, env)
        if not v:
            return
        # replay before reporting: the recorded case alone, and if it depends on what ran before, the exploration again
        path, msg = v
        print("%s: %s\n  confirming with %s" % (name, msg, path), flush=True)
        again = False
        if replay_cmd:
            r = subprocess.run(replay_cmd(path), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=600, env=env or os.environ.copy())
            again = r.returncode == 1
        if not again:
            v2 = self.run_explorer(name, cmd, timeout, env)
            if not v2:
                raise CheckError("%s: reported '%s' once, but neither its replay nor a second exploration did" % (name, msg))
            path, msg = v2
        raise Violation(path, msg)

    # -- step kinds
    def native(self, harness, variant="std", name=None, fallback=True, **args):
        t = build.Tree(variant)
        try:
            exe = build.harness(t, harness)
        except build.BuildError as e:
            if not fallback:
                raise
            self.notes.append("the native explorer %s does not build against this tree (internal interfaces changed); decided at API level only: %s" % (harness, str(e)[-300:]))
            print(self.notes[-1], file=sys.stderr)
            return False
        a = ["%s=%s" % kv for kv in args.items()] + ["prop=" + self.prop, "jobs=%d" % self.jobs, "replays=" + REPLAYS]
        if TIER == "thorough":
            a.append("thorough=1")
        a.append("budget=%d" % (400 if TIER == "quick" else 6000))
        n = name or "%s %s%s" % (harness, " ".join("%s=%s" % kv for kv in args.items()), "" if variant == "std" else " [" + variant + "]")
        self.explore(n, [exe] + a, replay_cmd=lambda p: [exe, "prop=" + self.prop, "replay=" + p, "replays=" + REPLAYS])
        return True

    def rpc(self, harness, arch, lv, fallback=True, **args):
        """An explorer whose kernels run on another processor (vf/arch.py)."""
        import arch as A
        try:
            exe, tab = A.harness(harness), A.table(arch, lv)
        except build.BuildError as e:
            if not fallback:
                raise
            self.notes.append("%s: doesn't build for this processor: %s" % (arch, str(e)[-300:]))
            print(self.notes[-1], file=sys.stderr)
            return False
        env = dict(os.environ, VF_RPC=tab)
        a = ["%s=%s" % kv for kv in args.items()] + ["prop=" + self.prop, "jobs=%d" % self.jobs, "shards=%d" % max(1, self.jobs * 2 // len(lv)), "replays=" + REPLAYS, "budget=%d" % (300 if TIER == "quick" else 3000)]
        if TIER == "thorough":
            a.append("thorough=1")
        self.explore("%s on %s: %s" % (harness, arch, ", ".join(lv)), [exe] + a, env=env, replay_cmd=lambda p: [exe, "prop=" + self.prop, "replay=" + p, "replays=" + REPLAYS])
        return True

    def js(self, plan, levels=None, variant="std", name=None, shards=None, thorough=None, guarded=True, index=None, **args):
        index, guard = index or build.isa_addon(build.Tree(variant), guarded), build.guard_addon()
        have = cpu_levels()
        lv = [x for x in (levels or have) if x in have]
        base = ["node", os.path.join(HERE, "js", "mc.js"), "plan=" + plan, "index=" + index, "guard=" + guard, "prop=" + self.prop, "replays=" + REPLAYS] + ["%s=%s" % kv for kv in args.items()]
        a = ["levels=" + ",".join(lv), "jobs=%d" % self.jobs, "shards=%d" % (shards or max(1, (self.jobs * 3) // (2 * len(lv)))), "budget=%d" % (300 if TIER == "quick" else 5000)]
        if (TIER == "thorough") if thorough is None else thorough:
            a.append("thorough=1")
        self.explore(name or "API plan %s%s" % (plan, "" if variant == "std" else " [" + variant + "]"), base + a, replay_cmd=lambda p: base + ["replay=" + p])


def known(prop):
    """Findings listed as accepted for this property (none are suppressed unless listed there)."""
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.group(2))
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    plan = plans.PLANS.get(prop)
    if not plan:
        print("no check for", prop, file=sys.stderr)
        return 3
    os.makedirs(REPLAYS, exist_ok=True)
    t0 = time.time()
    c = Ctx(prop)
    rc, viol = 0, []
    try:
        plan["run"](c)
    except Violation as v:
        rc = 1
        viol.append((v.path, v.msg))
    except (CheckError, build.BuildError, subprocess.TimeoutExpired):
        traceback.print_exc()
        rc = 3
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.executions,
            "samples": c.samples[:12] or ["(none)"], "exhaustive": not c.capped and rc == 0,
            "bounds": plan["bounds"], "oracle": plan["oracle"], "steps": c.steps,
            "distinct_outcomes": sum(s.get("outcomes", 0) for s in c.steps),
            "dispatch_levels": cpu_levels(), "notes": c.notes,
        },
        "assumptions": plans.ASSUME + plan.get("assume", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    try:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    except OSError as e:
        print("evidence not written:", e, file=sys.stderr)
        rc = rc or 3
    for k in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for path, msg in viol:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + msg)
    print("%s %s: %s; %d states, %d transitions, %d executions of the implementation, %.1f s%s" % (
        prop, TIER, {0: "held", 1: "BROKEN", 3: "check failed"}[rc], c.states, c.transitions, c.executions, time.time() - t0, " (capped)" if c.capped else ""))
    return rc


if __name__ == "__main__":
    sys.exit(main())
