"""Builds /repo's current working tree in a scratch copy with the project's own binding.gyp (node-gyp, offline),
so that every check sees the code as it is now and uses the very object files the addon consists of.

tree(variant)   -> Tree: scratch copy of the sources, built; objects listed by gyp target
harness(...)    -> links a C++ harness from /verif/harness against those objects (minus node glue and CPU probe)
isa_addon(tree) -> the same addon with the CPU probe replaced by one steered through the environment
Everything is cached under WORK by content hash; nothing is written to /repo.
"""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
GYP = "/usr/lib/node_modules/npm/node_modules/node-gyp/bin/node-gyp.js"
SKIP = {".git", "build", "_build", "node_modules", "test"}
VARIANTS = {
    "std": ["--enable_native_tuning=0"],
    "native": ["--enable_native_tuning=1"],
    "noavx256": ["--enable_native_tuning=0", "--disable_avx256=1"],
    "nocrcutil": ["--enable_native_tuning=0", "--disable_crcutil=1"],
    "native-noavx256": ["--enable_native_tuning=1", "--disable_avx256=1"],
    "clang": ["--enable_native_tuning=0"],
}
# what -march=native means on other CPUs
MARCH = ["x86-64", "core2", "nehalem", "sandybridge", "haswell", "skylake-avx512", "icelake-server", "znver3", "znver1", "btver1", "btver2", "bonnell", "silvermont", "goldmont", "amdfam10", "k8"]
for _m in MARCH:
    VARIANTS["native@" + _m] = ["--enable_native_tuning=1"]


class BuildError(Exception):
    pass


def _work():
    for d in (os.path.join(HERE, ".work"), "/tmp/verif-work-%d" % os.getuid()):
        try:
            os.makedirs(d, exist_ok=True)
            t = os.path.join(d, ".w%d" % os.getpid())
            open(t, "w").close()
            os.unlink(t)
            return d
        except OSError:
            continue
    raise BuildError("no writable work directory")


WORK = _work()


def _env():
    e = {k: v for k, v in os.environ.items()
         if k not in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CXX_target", "MAKEFLAGS", "MFLAGS", "CPPFLAGS")}
    e.update(CC="gcc", CXX="g++", npm_config_offline="true", npm_config_update_notifier="false",
             HOME=os.environ.get("HOME", "/root"),
             PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LC_ALL="C")
    return e


def run(cmd, cwd=None, timeout=600, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       env=env or _env(), stdin=subprocess.DEVNULL)
    if p.returncode:
        raise BuildError("%s: exit %d\n%s" % (" ".join(cmd), p.returncode, p.stdout.decode("latin1")[-4000:]))
    return p.stdout.decode("latin1")


def parts():
    return sorted(x for x in os.listdir(REPO) if x not in SKIP)


def _files():
    out = []
    for part in parts():
        p = os.path.join(REPO, part)
        if os.path.isdir(p):
            for root, dirs, files in os.walk(p):
                dirs.sort()
                out += [os.path.join(root, f) for f in sorted(files)]
        elif os.path.exists(p):
            out.append(p)
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in _files():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


class Tree:
    def __init__(self, variant):
        self.variant = variant
        self.root = os.path.join(WORK, "%s-%s" % (tree_hash(), variant))
        self.dir = os.path.join(self.root, "tree")
        self.rel = os.path.join(self.dir, "build", "Release")
        lock = open(self.root + ".lock", "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            if not os.path.exists(os.path.join(self.root, ".ok")):
                _prune(keep=self.root)
                shutil.rmtree(self.root, ignore_errors=True)
                os.makedirs(self.dir)
                for part in parts():
                    s, d = os.path.join(REPO, part), os.path.join(self.dir, part)
                    if os.path.isdir(s):
                        shutil.copytree(s, d)
                    elif os.path.exists(s):
                        shutil.copy2(s, d)
                e = _env()
                if variant == "clang":
                    e.update(CC="clang", CXX="clang++")
                if "@" in variant:
                    for c, n in (("gcc", "CC"), ("g++", "CXX")):
                        w = os.path.join(self.root, c)
                        with open(w, "w") as f:
                            f.write('#!/bin/bash\nexec %s "${@/#-march=native/-march=%s}"\n' % (c, variant.split("@")[1]))
                        os.chmod(w, 0o755)
                        e[n] = w
                run(["node", GYP, "configure", "build", "--nodedir=/usr"] + VARIANTS[variant] +
                    ["-j", str(os.cpu_count() or 4)], cwd=self.dir, env=e)
                open(os.path.join(self.root, ".ok"), "w").close()
        finally:
            fcntl.flock(lock, fcntl.LOCK_UN)
            lock.close()
        self.index = os.path.join(self.dir, "index.js")
        self.addon = os.path.join(self.rel, "yencode.node")

    def objects(self, exclude=("yencode.o", "platform.o")):
        o = sorted(glob.glob(os.path.join(self.rel, "obj.target", "*", "**", "*.o"), recursive=True))
        return [x for x in o if os.path.basename(x) not in exclude]

    def platform(self):
        """platform.o with its CPU probes weakened, so that harness/probe.cc takes precedence"""
        src = glob.glob(os.path.join(self.rel, "obj.target", "*", "**", "platform.o"), recursive=True)
        out = os.path.join(self.root, "platform-weak.o")
        if src and not os.path.exists(out):
            tmp = out + ".%d" % os.getpid()
            run(["objcopy", "--weaken", src[0], tmp])
            os.rename(tmp, out)
        return [out] if src else []

    def defines(self):
        d = []
        if "noavx256" in self.variant:
            d.append("-DYENC_DISABLE_AVX256=1")
        if "nocrcutil" in self.variant:
            d.append("-DYENC_DISABLE_CRCUTIL=1")
        if "native" in self.variant:
            d.append("-DYENC_BUILD_NATIVE=1")
        return d


def Source():
    """A copy of the sources alone (for builds that don't go through node-gyp) -> directory"""
    root = os.path.join(WORK, tree_hash() + "-src")
    d = os.path.join(root, "tree")
    lock = open(root + ".lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(os.path.join(root, ".ok")):
            _prune(keep=root)
            shutil.rmtree(root, ignore_errors=True)
            os.makedirs(d)
            for part in ("src", "binding.gyp"):
                s = os.path.join(REPO, part)
                if os.path.isdir(s):
                    shutil.copytree(s, os.path.join(d, part))
                else:
                    shutil.copy2(s, os.path.join(d, part))
            open(os.path.join(root, ".ok"), "w").close()
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    return d


def _prune(keep):
    """Scratch builds of older trees go away (same variant suffix only), to bound the disk in use."""
    suffix = os.path.basename(keep).split("-", 1)[1]
    old = [d for d in glob.glob(os.path.join(WORK, "?" * 20 + "-" + suffix)) if os.path.isdir(d) and d != keep]
    old.sort(key=os.path.getmtime)
    for d in old[:-2]:
        shutil.rmtree(d, ignore_errors=True)


def _cached(out, sources, build):
    """Runs build(tmp) unless `out` exists for exactly these source contents."""
    h = hashlib.sha256()
    for s in sources:
        with open(s, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    out = "%s-%s" % (out, h.hexdigest()[:12])
    lock = open(out + ".lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            build(tmp)
            os.rename(tmp, out)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    return out


def harness(tree, name, extra=(), flags=(), probe="probe.cc", link=()):
    """harness/<name>.cc + the CPU probe + all kernel objects of the tree -> executable"""
    hd = os.path.join(HERE, "harness")
    srcs = [os.path.join(hd, name + ".cc")] + ([os.path.join(hd, probe)] if probe else []) + list(extra)
    deps = srcs + sorted(glob.glob(os.path.join(hd, "*.h")))

    def build(tmp):
        run(["g++", "-std=gnu++17", "-O2", "-g1", "-Wall", "-Wno-unused-function", "-pthread",
             "-I" + os.path.join(tree.dir, "src"), "-I" + hd] + tree.defines() + list(flags) +
            ["-o", tmp] + srcs + tree.objects() + tree.platform() + list(link))
    return _cached(os.path.join(tree.root, name), deps, build)


def isa_addon(tree, guarded=True):
    """A copy of the package whose addon takes its ISA level from VF_ISA (see harness/probe.cc); `guarded` puts every
    allocation of the addon against an inaccessible page."""
    hd = os.path.join(HERE, "harness")
    name = "isa-guard" if guarded else "isa"
    d = os.path.join(tree.root, name)
    os.makedirs(os.path.join(d, "build", "Release"), exist_ok=True)
    srcs = [os.path.join(hd, "probe.cc")] + ([os.path.join(hd, "guard_alloc.cc")] if guarded else [])

    def build(tmp):
        run(["g++", "-shared", "-pthread", "-rdynamic", "-fPIC", "-std=gnu++17", "-O2", "-DVF_ENV_PROBE",
             "-I" + os.path.join(tree.dir, "src")] + tree.defines() +
            (["-Wl,--wrap=malloc,--wrap=realloc,--wrap=calloc,--wrap=free"] if guarded else []) +
            ["-o", tmp] + srcs + tree.objects(exclude=("platform.o",)) + tree.platform())
    so = _cached(os.path.join(tree.root, name + "-addon"), srcs, build)
    _place(so, os.path.join(d, "build", "Release", "yencode.node"))
    _package(tree, d)
    return os.path.join(d, "index.js")


def _package(tree, d):
    for x in os.listdir(tree.dir):  # the JavaScript side as it is
        s, o = os.path.join(tree.dir, x), os.path.join(d, x)
        if x in ("build", "src", "crcutil-1.0") or x.startswith("."):
            continue
        if os.path.isdir(s):
            shutil.copytree(s, o, dirs_exist_ok=True)
        else:
            _place(s, o)


def mon_addon(tree):
    """The package with its addon under the scheduler of harness/vfmon.cc -> (index.js, vfmon.node)"""
    hd = os.path.join(HERE, "harness")
    src = os.path.join(hd, "vfmon.cc")

    def build_mon(tmp):
        run(["g++", "-shared", "-fPIC", "-O2", "-std=gnu++17", "-pthread", "-I/usr/include/node", "-Wl,-soname,vfmon.node", "-o", tmp, src])
    mon = _cached(os.path.join(WORK, "vfmon"), [src], build_mon)
    md = mon + ".d"
    os.makedirs(md, exist_ok=True)
    mon_node = os.path.join(md, "vfmon.node")
    if not os.path.exists(mon_node):
        _place(mon, mon_node)
    d = os.path.join(tree.root, "mon")
    os.makedirs(os.path.join(d, "build", "Release"), exist_ok=True)
    srcs = [os.path.join(hd, "probe.cc"), os.path.join(hd, "vfmon_glue.cc")]
    text = open(srcs[1]).read()
    wraps = sorted(set(re.findall(r"__wrap_(\w+)\(", text) + re.findall(r"\bV?SYNC\((\w+)\)", text)) - {"f"})

    def build_addon(tmp):
        run(["g++", "-shared", "-pthread", "-rdynamic", "-fPIC", "-std=gnu++17", "-O2", "-DVF_ENV_PROBE", "-Wl,-z,now", "-Wl,-z,relro",
             "-I" + os.path.join(tree.dir, "src")] + tree.defines() + ["-Wl," + ",".join("--wrap=" + w for w in wraps)] +
            ["-o", tmp] + tree.objects(exclude=("platform.o",)) + tree.platform() + srcs + [mon_node, "-Wl,-rpath," + md])
    so = _cached(os.path.join(tree.root, "mon-addon"), srcs + [src], build_addon)
    _place(so, os.path.join(d, "build", "Release", "yencode.node"))
    _package(tree, d)
    return os.path.join(d, "index.js"), mon_node


def _place(src, dst):
    tmp = dst + ".%d" % os.getpid()
    shutil.copy2(src, tmp)
    os.rename(tmp, dst)


def guard_addon():
    src = os.path.join(HERE, "harness", "guard.cc")

    def build(tmp):
        run(["g++", "-shared", "-fPIC", "-O2", "-I/usr/include/node", "-o", tmp, src])
    so = _cached(os.path.join(WORK, "guard-addon"), [src], build)
    out = so + ".node"
    if not os.path.exists(out):
        _place(so, out)
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or ["std"]:
        t = Tree(v)
        print(v, t.root, len(t.objects()))
