"""The project's kernels built for other processors (clang cross-compilation, no C library needed: harness/bare) and executed by them -
natively where this machine can (32-bit x86), else in QEMU's user-mode emulation - on behalf of the explorers (harness/rpc.cc)."""
import glob
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import gyp  # noqa: E402

HD = os.path.join(build.HERE, "harness")
OPT = ["-O3", "-ffreestanding", "-fno-exceptions", "-fno-rtti", "-fno-stack-protector", "-fno-pic", "-fno-threadsafe-statics", "-nostdinc", "-w"]
# architecture -> target triple, flags, name in binding.gyp, qemu
ARCH = {
    "i686": ("i686-linux-gnu", [], "ia32", None),
    "arm64": ("aarch64-linux-gnu", ["-mno-outline-atomics"], "arm64", "qemu-aarch64"),
    "arm": ("armv7-linux-gnueabihf", ["-march=armv7-a", "-mfpu=vfpv3-d16"], "arm", "qemu-arm"),
    "riscv64": ("riscv64-linux-gnu", ["-march=rv64gc", "-mabi=lp64d"], "riscv64", "qemu-riscv64"),
    "riscv32": ("riscv32-linux-gnu", ["-march=rv32gc", "-mabi=ilp32d"], "riscv32", "qemu-riscv32"),
    "s390x": ("s390x-linux-gnu", [], "s390x", "qemu-s390x"),
    "ppc": ("powerpc-linux-gnu", [], "ppc", "qemu-ppc"),
}
X86 = {"sse2": (0x100, 0), "ssse3": (0x200, 0), "sse41": (0x301, 1), "avx": (0x381, 1), "avx2": (0x403, 1), "avx2v": (0x403, 2), "avx3": (0x507, 2), "vbmi2": (0x607, 2)}
RV = 0x20112D


def _riscv(bits):
    out = {"generic": ("rv%d" % bits, 0, 0, 1)}
    for v in (128, 256, 512, 1024):
        out["rvv%d" % v] = ("rv%d,v=true,vlen=%d,elen=64" % (bits, v), RV, 0, 1)
        out["rvv%d-ones" % v] = ("rv%d,v=true,vlen=%d,elen=64,rvv_ta_all_1s=true,rvv_ma_all_1s=true" % (bits, v), RV, 0, 1)
    # as the emulator announces them
    for n, c in (("auto", ""), ("auto-v", ",v=true,vlen=256,elen=64"), ("auto-zve", ",zve64f=true,vlen=128,elen=64"), ("auto-zbc", ",zbc=true"), ("auto-zbkc", ",zbkc=true")):
        out[n] = ("rv%d%s" % (bits, c), 0, 0, 2)
    out["zbc"] = ("rv%d,zbc=true" % bits, 0, 1 << 7, 1)
    out["zbkc"] = ("rv%d,zbkc=true" % bits, 0, 1 << 9, 1)
    if bits == 64:
        out["auto-u54"] = ("sifive-u54", 0, 0, 2)
    return out


# architecture -> configuration -> (cpu of the emulator, AT_HWCAP, AT_HWCAP2 or hwprobe word, 1: the dispatchers run, 2: with the features the emulator announces)
LEVELS = {
    "i686": dict([("generic", (None, 0, 0, 0))] + [(k, (None, a, b, 1)) for k, (a, b) in X86.items()]),
    "arm64": {"generic": ("max", 0, 0, 1), "neon": ("max", 2, 0, 1), "crc": ("max", 2 | 1 << 7, 0, 1), "pmull": ("max", 2 | 1 << 7 | 1 << 4, 0, 1), "auto-a53": ("cortex-a53", 0, 0, 2), "auto-max": ("max", 0, 0, 2)},
    "arm": {"generic": ("max", 0, 0, 1), "neon": ("max", 1 << 12, 0, 1), "crc": ("max", 1 << 12, 1 << 4, 1), "pmull": ("max", 1 << 12, 1 << 4 | 2, 1),
            "auto-r5f": ("cortex-r5f", 0, 0, 2), "auto-a8": ("cortex-a8", 0, 0, 2), "auto-a15": ("cortex-a15", 0, 0, 2), "auto-max": ("max", 0, 0, 2)},
    "riscv64": _riscv(64), "riscv32": _riscv(32),
    "s390x": {"generic": ("max", 0, 0, 1)}, "ppc": {"generic": (None, 0, 0, 1)},
}


def have(arch):
    q = ARCH[arch][3]
    return q is None or shutil.which(q) is not None


def executor(arch):
    """harness/bare/exec.cc with the tree's sources, built for `arch` -> path"""
    triple, flags, name, _ = ARCH[arch]
    t = build.Source()
    res = sorted(glob.glob("/usr/lib/llvm-*/lib/clang/*/include"))[-1]
    common = ["clang++", "--target=" + triple] + OPT + ["-isystem", res, "-I" + os.path.join(HD, "bare", "include"), "-I" + os.path.join(t, "src")] + flags
    deps = [os.path.join(HD, "bare", "exec.cc"), os.path.join(HD, "rpc.h"), os.path.abspath(__file__)] + sorted(glob.glob(os.path.join(HD, "bare", "include", "**", "*"), recursive=True))
    deps = [d for d in deps if os.path.isfile(d)]

    def make(tmp):
        d = tmp + ".o.d"
        os.makedirs(d)
        jobs = [(deps[0], ["-std=c++17"])]
        for s, f in gyp.sources(t, name):
            b = os.path.basename(s)
            if b == "yencode.cc" or "crcutil" in s:
                continue
            f = [x for x in f if not x.startswith(("-mno-avx256", "-std=", "-march=native")) and not (x.startswith("-I"))] + ["-std=c++03", "-Wno-c++11-long-long"]
            if b == "platform.cc" and arch == "i686":
                f += ["-Dcpu_supports_isa=vf_real_isa", "-Dcpu_supports_crc_isa=vf_real_crc_isa"]
            jobs.append((s, f))
        objs = [os.path.join(d, "%d.o" % i) for i in range(len(jobs))]
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(lambda j: build.run(common + j[0][1] + ["-c", "-o", j[1], j[0][0]]), zip(jobs, objs)))
        build.run(["clang++", "--target=" + triple, "-fuse-ld=lld", "-static", "-nostdlib"] + flags + ["-o", tmp] + objs)
        shutil.rmtree(d)
    return build._cached(os.path.join(os.path.dirname(t), "exec-" + arch), deps, make)


def harness(name):
    """An explorer whose calls go to an executor -> path"""
    t = build.Source()
    srcs = [os.path.join(HD, name + ".cc"), os.path.join(HD, "rpc.cc")]
    deps = srcs + sorted(glob.glob(os.path.join(HD, "*.h")))

    def make(tmp):
        build.run(["g++", "-std=gnu++17", "-O2", "-g1", "-Wall", "-Wno-unused-function", "-DVF_RPC", "-I" + os.path.join(t, "src"), "-I" + HD, "-o", tmp] + srcs)
    return build._cached(os.path.join(os.path.dirname(t), "rpc-" + name), deps, make)


def table(arch, levels):
    """What harness/rpc.cc needs to know, one line per level."""
    exe, q = executor(arch), ARCH[arch][3]
    out = []
    for l in levels:
        cpu, a, b, init = LEVELS[arch][l]
        cmd = ([q] + (["-cpu", cpu] if cpu else []) if q else []) + [exe]
        out.append("%s-%s|%s|%d|%d|%d" % (arch, l, " ".join(cmd), a, b, init))
    return "\n".join(out)
