"""K01: links the project's objects as a shared library, classifies its instructions, builds harness/mc_isa.cc."""
import os
import re
import subprocess

import build

(SSE3, SSSE3, SSE41, SSE42, POPCNT, LZCNT, PCLMUL, AVX, AVX2, BMI1, BMI2, VPCLMUL, F512, VL, BW, DQ, VBMI, VBMI2, CD, OTHER, ZMM) = (1 << i for i in range(21))


def _set(s):
    return set(s.split())


L_SSE3 = _set("addsubpd addsubps haddpd haddps hsubpd hsubps lddqu movddup movshdup movsldup fisttp fisttpl fisttpll monitor mwait")
L_SSSE3 = _set("pshufb palignr pabsb pabsw pabsd psignb psignw psignd phaddw phaddd phaddsw phsubw phsubd phsubsw pmulhrsw pmaddubsw")
L_SSE41 = _set("pblendvb pblendw blendps blendpd blendvps blendvpd packusdw pmulld pmuldq pcmpeqq pminsb pmaxsb pminuw pmaxuw pminud pmaxud pminsd pmaxsd "
               "pextrb pextrd pextrq pinsrb pinsrd pinsrq extractps insertps ptest dpps dppd mpsadbw phminposuw movntdqa roundps roundpd roundss roundsd")
L_SSE42 = _set("pcmpgtq pcmpestri pcmpestrm pcmpistri pcmpistrm pcmpestriq pcmpestrmq crc32 crc32b crc32w crc32l crc32q")
L_OTHER = _set("movbe movbew movbel movbeq adcx adox adcxl adcxq adoxl adoxq rdrand rdseed sha1rnds4 sha1nexte sha1msg1 sha1msg2 sha256rnds2 sha256msg1 sha256msg2 "
               "aesenc aesenclast aesdec aesdeclast aesimc aeskeygenassist gf2p8mulb gf2p8affineqb gf2p8affineinvqb insertq extrq movntss movntsd rdpid xabort xbegin xend xtest")
V_BMI1 = _set("andn andnl andnq bextr blsi blsil blsiq blsmsk blsmskl blsmskq blsr blsrl blsrq")
V_BMI2 = _set("bzhi mulx pdep pext rorx sarx shlx shrx")
V_AVX2X = _set("vpblendd vpsllvd vpsllvq vpsrlvd vpsrlvq vpsravd vpmaskmovd vpmaskmovq vextracti128 vinserti128 vperm2i128 vpermq vpermd vpermps vpermpd vbroadcasti128 "
               "vpbroadcastb vpbroadcastw vpbroadcastd vpbroadcastq vpgatherdd vpgatherdq vpgatherqd vpgatherqq vgatherdpd vgatherdps vgatherqpd vgatherqps")
# 256-bit integer instructions that AVX already has
V_AVX_INT = _set("vptest vlddqu vmovdqa vmovdqu vmovntdq vzeroupper vzeroall")
V_OTHER = re.compile(r"v(fn?m(add|sub)|cvtph2ps|cvtps2ph|aes|gf2p8|pdp|pmadd52|pcmov|pperm|psha|sm3|sm4|bcstn|cvtne)")
E_BW = re.compile(r"v(movdqu(8|16)|p(abs|adds|addus|subs|subus|avg|mins|maxs|minu|maxu|cmp(eq|gt|n?eq|[lg][te]|n?l[te])?u?|blendm|broadcast|testn?m)(b|w)$|padd[bw]$|psub[bw]$|pcmp\w*u?[bw]$|"
                  r"pack[su]s(wb|dw)|packus\w+|pshufb|pshuf[hl]w|palignr|psll[wv]w?$|psrlw|psraw|psllw|ps[rl]l?[la]vw|psravw|psrlvw|psllvw|pslldq|psrldq|punpck[hl](bw|wd)|permw|permi2w|permt2w|"
                  r"pmov(b2m|m2b|w2m|m2w|wb|swb|uswb|sxbw|zxbw)|pmadd(wd|ubsw)|pmulh\w*w|pmullw|psadbw|dbpsadbw|pextr[bw]|pinsr[bw])")
E_DQ = re.compile(r"v(and|andn|or|xor)p[sd]$|v(extract|insert|broadcast)[fi](32x2|64x2|32x8)|vpmullq|vpmov(d2m|q2m|m2d|m2q)|vpextr[dq]|vpinsr[dq]|vrange|vreduce|vfpclass|vcvtt?p[sd]2u?qq|vcvtu?qq2p[sd]")
E_VBMI2 = re.compile(r"vp(compress|expand)[bw]$|vpsh[lr]dv?[wdq]$")
E_VBMI = re.compile(r"vperm(b|i2b|t2b)$|vpmultishiftqb$")
E_CD = re.compile(r"vpconflict|vplzcnt|vpbroadcastm")
E_OTHER = re.compile(r"v(popcnt|pdp|pmadd52|gf2p8|aes|pshufbitqmb|cvtne|dpbf|p2intersect|exp2|rcp28|rsqrt28|getexpph|\w+ph$|\w+sh$)|vpopcnt")


def classify(mn, ops, code):
    """instruction mnemonic (AT&T), operands, bytes -> mask of extensions it needs beyond x86-64"""
    pre = 0
    while pre < len(code) and code[pre] in (0x66, 0xf2, 0xf3, 0x2e, 0x36, 0x3e, 0x26, 0x64, 0x65, 0x67):
        pre += 1
    op = code[pre] if pre < len(code) else 0
    zmm, ymm = "%zmm" in ops, "%ymm" in ops
    if op == 0x62:
        m = F512
        if zmm:
            m |= ZMM
        elif not re.match(r"v\w+s[sd]$|vmov[dq]$|vcvt\w*s[sd]2\w+$|vcvt\w+2s[sd]l?q?$|vpextr|vpinsr", mn):
            m |= VL
        if E_VBMI2.match(mn):
            m |= VBMI2
        elif E_VBMI.match(mn):
            m |= VBMI
        elif E_CD.match(mn):
            m |= CD
        elif E_OTHER.match(mn):
            m |= OTHER
        elif E_DQ.match(mn):
            m |= DQ
        elif E_BW.match(mn):
            m |= BW
        if mn.startswith("vpclmul"):
            m |= VPCLMUL
        return m
    if op in (0xc4, 0xc5):
        if mn.startswith("k"):
            if re.search(r"[dq]$", mn) and not mn.startswith("kunpck"):
                return F512 | BW
            if mn in ("kunpckwd", "kunpckdq"):
                return F512 | BW
            if re.search(r"b$", mn) or mn in ("ktestw", "kaddw"):
                return F512 | DQ
            return F512
        base = re.sub(r"[lq]$", "", mn)
        if mn in V_BMI1 or base in V_BMI1:
            return AVX | BMI1
        if mn in V_BMI2 or base in V_BMI2:
            return AVX | BMI2
        if V_OTHER.match(mn):
            return AVX | OTHER
        if mn.startswith("vpclmul"):
            return AVX | (VPCLMUL if ymm else PCLMUL)
        if mn in V_AVX2X or (ymm and mn.startswith("vp") and not re.match(r"vpermil|vperm2f128", mn) and mn not in V_AVX_INT) or (ymm and mn in ("vmpsadbw", "vmovntdqa")):
            return AVX | AVX2
        if mn in ("vbroadcastss", "vbroadcastsd") and "(" not in ops:
            return AVX | AVX2
        return AVX
    if mn.startswith("popcnt"):
        return POPCNT
    if mn.startswith("lzcnt"):
        return LZCNT
    if mn.startswith("pclmul"):
        return PCLMUL
    b = mn
    for names, bit in ((L_SSE3, SSE3), (L_SSSE3, SSSE3), (L_SSE41, SSE41), (L_SSE42, SSE42), (L_OTHER, OTHER)):
        if b in names:
            return bit
    if re.match(r"pmov[sz]x", mn):
        return SSE41
    return 0


def library(tree):
    """-> (shared library of every project object but the Node glue, table file)"""
    out = os.path.join(tree.root, "isa")
    lib = os.path.join(out, "libyenc-under-test.so")
    if not os.path.exists(lib + ".table"):
        os.makedirs(out, exist_ok=True)
        tmp = "%s.%d" % (lib, os.getpid())
        build.run(["g++", "-shared", "-Wl,-Bsymbolic", "-Wl,-z,norelro", "-Wl,-soname,libyenc-under-test.so", "-o", tmp] + tree.objects(exclude=("yencode.o",)))
        table(tmp, tmp + ".t")
        os.rename(tmp + ".t", lib + ".table.new")
        os.rename(tmp, lib)
        os.rename(lib + ".table.new", lib + ".table")
    return lib, lib + ".table"


def table(lib, out):
    with open(out, "w") as f:
        for l in build.run(["readelf", "-SW", lib]).splitlines():
            m = re.match(r"\s*\[\s*\d+\]\s+(\.data|\.bss|\.tdata|\.tbss|\.data\.\S+|\.bss\.\S+)\s+\S+\s+([0-9a-f]+)\s+[0-9a-f]+\s+([0-9a-f]+)", l)
            if m and not m.group(1).startswith(".t"):
                f.write("S %s %s\n" % (m.group(2), m.group(3)))
        d = subprocess.run(["objdump", "-d", "--insn-width=16", lib], stdout=subprocess.PIPE, check=True).stdout.decode()
        n = 0
        for l in d.splitlines():
            p = l.split("\t")
            if len(p) < 3:
                continue
            off = int(p[0].strip().rstrip(":"), 16)
            code = bytes.fromhex(p[1].replace(" ", ""))
            ins = p[2].split("#")[0].strip()
            w = ins.split(None, 1)
            while w and w[0] in ("rep", "repz", "repnz", "lock", "data16", "notrack", "cs", "ds", "bnd") and len(w) > 1:
                w = w[1].split(None, 1)
            mn, ops = w[0], w[1] if len(w) > 1 else ""
            if mn == "cpuid":
                f.write("P %x 2\n" % off)
            elif mn == "xgetbv":
                f.write("X %x 3\n" % off)
            else:
                m = classify(mn, ops, code)
                if m:
                    f.write("I %x %x %s %s\n" % (off, m, mn, ops))
                    n += 1
        if not n:
            raise build.BuildError("no instruction beyond the baseline found in " + lib)


def harness(tree):
    lib, tab = library(tree)
    d = os.path.dirname(lib)
    hd = os.path.join(build.HERE, "harness")
    src = os.path.join(hd, "mc_isa.cc")

    def b(tmp):
        build.run(["g++", "-std=gnu++17", "-O1", "-g1", "-fPIC", "-Wall", "-Wno-unused-function", "-I" + os.path.join(tree.dir, "src"), "-I" + hd] + tree.defines() +
                  ["-o", tmp, src, "-L" + d, "-l:libyenc-under-test.so", "-Wl,-rpath," + d, "-ldl", "-pthread"])
    return build._cached(os.path.join(tree.root, "mc_isa"), [src, os.path.join(hd, "mc.h")], b), tab


QEMU = "/usr/bin/qemu-x86_64"
MODELS = ("qemu64 kvm64 core2duo Conroe Penryn n270,+lm phenom Nehalem Westmere SandyBridge IvyBridge Haswell Haswell-noTSX Broadwell Skylake-Client Skylake-Server Cascadelake-Server "
          "Icelake-Server SapphireRapids Snowridge Denverton KnightsMill SierraForest Opteron_G1 Opteron_G3 Opteron_G4 Opteron_G5 EPYC EPYC-Rome EPYC-Milan EPYC-Genoa Dhyana max").split()


def cpus():
    """CPU descriptions for the emulator: its models, and every combination of the features the probe looks at"""
    out = list(MODELS)
    for chain in ("-ssse3,-sse4.1,-sse4.2,-avx,-avx2", "-sse4.1,-sse4.2,-avx,-avx2", "-sse4.2,-avx,-avx2", "-avx,-avx2", "-avx2", ""):
        for pop in ("", ",-abm", ",-abm,-popcnt"):
            for clmul in ("", ",-pclmulqdq,-vpclmulqdq"):
                for bmi in (("", ",-bmi1", ",-bmi2", ",-bmi1,-bmi2") if chain in ("-avx2", "") else ("",)):
                    for xs in ("", ",-xsave"):
                        out.append(("max," + chain + pop + clmul + bmi + xs).replace(",,", ",").rstrip(","))
    return sorted(set(out))


def _parallel(c, items, f):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(c.jobs) as ex:
        return list(ex.map(f, items))


def emulated(c, tree, exe, tab):
    """conformance of the emulated probes with an emulator that really lacks the features, and the package itself on it"""
    import time
    if not os.access(QEMU, os.X_OK) or subprocess.run([QEMU, "-cpu", "qemu64", "/bin/true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        c.notes.append("no CPU emulator here: conformance runs left out")
        return

    def go(cmd, cpu):
        p = subprocess.run([QEMU, "-cpu", cpu] + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=300)
        return p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")

    def fail(cpu, cmd, msg):
        path = os.path.join(c.replay_dir, "%s-cpu-%s.case" % (c.prop, re.sub(r"\W+", "_", cpu)))
        with open(path, "w") as f:
            f.write("# %s\n%s\n" % (msg, " ".join([QEMU, "-cpu", cpu] + cmd)))
        c.violation(path, msg)

    every = cpus()
    usable = [x for x, ok in zip(every, _parallel(c, every, lambda x: go(["/bin/true"], x)[0] == 0)) if ok]
    if len(usable) < len(every):
        c.notes.append("emulated CPUs that cannot run any program here: " + " ".join(sorted(set(every) - set(usable))[:20]))
    t0 = time.time()
    if exe:
        cmd = [exe, "table=" + tab, "host"]
        seen, bad, digests = set(), [], set()
        for cpu, (rc, out, err) in zip(usable, _parallel(c, usable, lambda x: go(cmd, x))):
            got = dict(l.split(" ", 1) for l in out.splitlines() if " " in l)
            if "DIGEST" not in got:
                if "FAULT" not in got:
                    bad.append(cpu)  # the C library itself uses something this CPU lacks
                    continue
                if rc != go(cmd, cpu)[0]:
                    raise build.BuildError("the emulator is not deterministic for " + cpu)
                fail(cpu, cmd, "on an emulated CPU (%s) initialising or using the kernels ends with status %d: %s" % (cpu, rc, got["FAULT"]))
            if got.get("REAL") != got.get("EMUL"):
                raise build.BuildError("the probe emulation disagrees with the emulator for %s: %s" % (cpu, out))
            seen.add(got["REAL"])
            digests.add(got["DIGEST"])
        if bad:
            c.notes.append("emulated CPUs on which the C library itself does not run: " + " ".join(bad[:40]))
        usable = [x for x in usable if x not in bad]
        if len(digests) > 1:
            fail("several", cmd, "the kernels compute different results on different CPUs: %s" % sorted(digests))
        c.add("conformance of the probe model: %d emulated CPUs, same selection, all kernels run" % len(usable),
              {"states": len(usable), "transitions": len(usable), "executions": len(usable), "outcomes": len(seen), "wall": round(time.time() - t0, 1)})
    t0 = time.time()
    js = ["/usr/bin/node", os.path.join(build.HERE, "js", "oncpu.js"), tree.index]
    import shutil
    js[0] = shutil.which("node") or js[0]
    lst = [x for x in usable if c.tier == "thorough" or x in MODELS or x.count(",") <= 6 and "-popcnt" not in x and "-xsave" not in x]
    calls = 0
    for cpu, (rc, out, err) in zip(lst, _parallel(c, lst, lambda x: go(js, x))):
        m = re.search(r"^OK (\d+)$", out, re.M)
        if not m:
            if go(js[:2] + ["-"], cpu)[0]:
                c.notes.append("Node itself does not run on emulated CPU " + cpu)
                continue
            if go(js, cpu)[0] == 0:
                c.notes.append("one failed run on emulated CPU %s, not repeatable" % cpu)
                continue
            fail(cpu, js, "the package on an emulated CPU (%s): status %d, %s" % (cpu, rc, (out + err)[-300:].replace("\n", " ")))
        calls += int(m.group(1)) if m else 0
    c.add("the package in Node on %d emulated CPUs" % len(lst), {"states": len(lst), "transitions": calls, "executions": calls, "outcomes": 1, "wall": round(time.time() - t0, 1)})


def run(c):
    for variant in ("std",) + (("noavx256",) if c.tier == "thorough" else ()):
        t = build.Tree(variant)
        exe = tab = None
        try:
            exe, tab = harness(t)
        except build.BuildError as e:
            c.notes.append("harness mc_isa does not build against this tree; only emulated CPUs explored: %s" % str(e)[-300:])
        if exe:
            args = [exe, "table=" + tab, "prop=" + c.prop, "jobs=%d" % c.jobs, "replays=" + c.replay_dir, "budget=400"]
            c.explore("every consistent CPU feature vector" + ("" if variant == "std" else " [" + variant + "]"), args)
        emulated(c, t, exe, tab)
