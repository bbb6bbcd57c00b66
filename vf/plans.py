"""Which explorations decide which property."""
import re
ASSUME = [
    "the reference models (a decoder automaton, an encoder column machine, a bitwise CRC, the post grammar) state what the documentation and the yEnc specification say",
    "dispatch levels the CPU of this machine cannot execute are not explored; every level it can execute is selected through the project's own dispatchers with the CPU probe replaced",
    "behaviour outside the alphabets, lengths and positions enumerated is not covered by the exploration itself; the kernels look at bounded windows of at most 64 bytes, which the enumeration covers at every position",
]
GLUE = ["sse2", "avx2", "vbmi2"]


def levels():
    import check
    return check.cpu_levels()


def best():
    lv = levels()
    return [lv[-1]]


def huge(lv=None):
    """Lengths around 2^31 and 2^32 (tiled buffers; the functions that allocate need a few GiB)."""
    def run(c):
        free = int(re.search(r"MemAvailable:\s*(\d+)", open("/proc/meminfo").read()).group(1)) >> 20
        if free < 14 and c.prop in ("A01", "E02", "D06", "P01", "P02", "P03"):
            c.notes.append("lengths beyond 2 GiB not explored: only %d GiB of memory available" % free)
            return
        c.js("huge", lv or best(), guarded=False, shards=1)
    return run


# build configuration -> level the CPU must have, levels to select (a native build always uses its native kernels)
CONFIGS = [
    ("native", None, "sse2"), ("noavx256", "vbmi2", "avx2,vbmi2"), ("nocrcutil", None, "generic,sse2"),
    ("native@haswell", "avx2", "sse2"), ("native@nehalem", "sse41", "sse2"), ("native@core2", "ssse3", "sse2"),
    ("native@znver1", "avx2", "sse2"), ("native@btver1", "ssse3", "sse2"), ("native@bonnell", "ssse3", "sse2"), ("native@silvermont", "sse41", "sse2"), ("native@amdfam10", None, "sse2"),
    ("native@skylake-avx512", "avx3", "sse2"),
    # thorough only
    ("native@icelake-server", "vbmi2", "sse2"), ("native@btver2", "avx", "sse2"), ("native@goldmont", "sse41", "sse2"), ("native@k8", None, "sse2"),
    ("native-noavx256", None, "sse2"), ("native@x86-64", None, "sse2"), ("native@sandybridge", "avx", "sse2"), ("native@znver3", "avx2v", "sse2"),
    ("clang", None, "generic,sse2,ssse3,avx,avx2,avx3,vbmi2"),
]


def configs(c):
    have = levels()
    for v, need, lv in CONFIGS[:None if c.tier == "thorough" else 12]:
        if need and need not in have:
            c.notes.append("configuration %s not explored: this CPU cannot run it" % v)
            continue
        ok = True
        if v != "nocrcutil":
            for m in (0, 1, 2):
                ok = ok and c.native("mc_dec", variant=v, plan="spec", mode=m, levels=lv)
            for h, p in (("mc_dec", "mem"), ("mc_dec", "insitu"), ("mc_dec", "split"), ("mc_enc", "spec"), ("mc_enc", "round"), ("mc_enc", "mem"), ("mc_enc", "chain")):
                ok = ok and (p in ("split", "chain") and c.tier != "thorough" and v != "native" or c.native(h, variant=v, plan=p, levels=lv))
        if v in ("native", "nocrcutil", "native@haswell") or c.tier == "thorough":
            for p in ("value", "incr", "field"):
                ok = ok and c.native("mc_crc", variant=v, plan=p, levels="generic" if v == "nocrcutil" else "generic,avx2v" if "@" not in v else "generic")
        if not ok or v in ("native", "noavx256"):
            c.js("args", ["sse2"] if "native" in v else ["avx2"], variant=v, thorough=False)


def threads(c):
    import build
    for v, lv in (("std", None), ("native", best())):
        index, mon = build.mon_addon(build.Tree(v))
        c.js("threads", lv, variant=v, index=index, mon=mon, shards=1)
    c.js("life", ["sse2", best()[0]] if c.tier == "thorough" else best(), guarded=False, shards=c.jobs)


# processor -> configurations for decoding/encoding, configurations for CRC-32 (those after None: thorough only)
OTHERS = {
    "i686": (["generic", "sse2", "ssse3", "sse41", "avx", "avx2", "avx3", "vbmi2"], ["generic", "sse41", "avx2v"]),
    "arm64": (["generic", "neon"], ["generic", "crc", "pmull", "auto-a53", "auto-max"]),
    "arm": (["auto-r5f", "neon", None, "generic"], ["generic", "crc", "pmull", "auto-r5f", "auto-a8", "auto-a15", "auto-max"]),
    "riscv64": (["generic", "rvv128-ones", "rvv256", "rvv512-ones", None, "rvv128", "rvv256-ones", "rvv512", "rvv1024", "rvv1024-ones", "auto-v"], ["generic", "zbc", "zbkc", "auto", "auto-v", "auto-zve", "auto-zbc", "auto-zbkc", "auto-u54"]),
    "riscv32": (["generic", "rvv256-ones", None, "rvv128", "rvv512-ones", "rvv1024"], ["generic", "zbc", "zbkc", "auto", "auto-v", "auto-zve", "auto-zbc", "auto-zbkc"]),
    "s390x": (["generic"], ["generic"]), "ppc": (["generic"], ["generic"]),
}


def others(c):
    import arch
    have, n = levels(), 0
    for a, (coders, crcs) in OTHERS.items():
        if not arch.have(a):
            c.notes.append("%s not explored: no emulator for it" % a)
            continue
        for hs, lv in ((("mc_crc",), crcs), (("mc_dec", "mc_enc"), coders)):
            if None in lv:
                lv = [x for x in lv if x] if c.tier == "thorough" else lv[:lv.index(None)]
            if a == "i686":
                lv = [x for x in lv if x == "generic" or x in have]
            for h in hs:
                n += bool(c.rpc(h, a, lv, plan="small"))
    if not n:
        import check
        raise check.CheckError("nothing could be built for any other processor")


def also(*steps):
    def run(c):
        for s in steps:
            s(c)
    return run


def simple(harness, plan, js, jslevels=GLUE, native_variant=True):
    def run(c):
        ok = c.native(harness, plan=plan) if harness else True
        for j in js:
            c.js(j, jslevels if ok else None)
            if native_variant:
                c.js(j, best(), variant="native", thorough=False)
    return run


def older(plan):
    """The package as it runs on a Node without Buffer's search functions, subarray semantics and alloc."""
    return lambda c: c.js(plan, best(), old=1, thorough=False, name="API plan %s [older Buffer]" % plan)


def dec(mode):
    def run(c):
        ok = c.native("mc_dec", plan="spec", mode=mode)
        c.js("kern", GLUE if ok else None)
        c.js("kern", best(), variant="native", thorough=False)
    return run


D_BOUNDS = ("all words over {a,CR,LF,'.',=,y} up to length 7 (thorough 8) from every state; all such words of length 7 at every position of a 210-byte "
            "buffer; shorter words x 23 periodic fillers x phases x every alignment of both buffer ends; all 256 byte values at every position, all 65536 "
            "pairs; all 2-symbol patterns of every 16-byte lane; all pairs (thorough: triples) of 18 event strings at all positions of two kernel blocks; "
            "inputs of 1 MiB with every kind of event across the ends of blocks of 2^k bytes; 6 dispatch levels")
E_BOUNDS = ("all words over {a,=,TAB,'.',SP,CR,LF,NUL} (as encoded) at every position around line breaks and buffer ends, x 12 fillers x every line size in "
            "1..300 and larger ones x every column; all byte values at every position; inputs of 1 MiB of all phases; 7 dispatch levels")
REF_D = "7-state reference automaton of yEnc decoding, stepped byte by byte"
REF_E = "column machine of yEnc encoding, stepped byte by byte"

PLANS = {
    "D01": {"run": also(dec(0), huge(["sse2", "avx2", "vbmi2"])), "bounds": D_BOUNDS, "oracle": REF_D},
    "D02": {"run": also(dec(1), huge(["sse2", "avx2", "vbmi2"])), "bounds": D_BOUNDS, "oracle": REF_D},
    "D03": {"run": also(dec(2), huge(["sse2", "avx2", "vbmi2"])), "bounds": D_BOUNDS + "; 7 initial states", "oracle": REF_D + ", with the two end markers as absorbing states"},
    "D04": {"run": also(lambda c: (c.native("mc_dec", plan="split"), c.js("chunk", ["sse2", "vbmi2"])), huge()), "oracle": "the automaton run over the unsplit input; every intermediate state compared",
            "bounds": "(decode_end, and to one byte less decode() with and without dot-unstuffing) all words of up to 6 (7) symbols x all compositions into chunks x 7 start states; one cut at every position of 340 bytes with all words of length 5 (6) around it; two and three cuts 1..5 bytes apart; every (state, byte) transition"},
    "D05": {"run": lambda c: (c.native("mc_dec", plan="mem"), c.js("args", ["sse2", "avx2", "vbmi2"]), c.js("chunk", ["sse2", "vbmi2"], only="conv", name="API plan chunk, calling conventions and output sizes")), "oracle": "inaccessible pages directly before/after source and destination, canaries, and results independent of adversarial bytes placed around the source",
            "bounds": "lengths 1..200 (330) x flush against both page ends or any alignment x all words of length 3 at every position x 7 surrounding patterns; 3 modes; 6 levels; API: every output size around the input length"},
    "D06": {"run": also(simple("mc_dec", "insitu", ["kern"]), huge()), "oracle": REF_D + " applied to a copy of the input", "bounds": "all words of length 5 (6) at every position, 23 fillers, every alignment, every length up to 200, three modes, source = destination"},
    "E01": {"run": also(simple("mc_enc", "spec", ["kern"]), huge(["sse2", "avx2", "vbmi2"])), "oracle": REF_E, "bounds": E_BOUNDS},
    "E02": {"run": also(simple("mc_enc", "round", ["kern"]), huge()), "oracle": "identity: every decoder applied to the encoder's output returns the input", "bounds": E_BOUNDS},
    "E03": {"run": lambda c: (c.native("mc_enc", plan="mem"), c.js("args", ["sse2", "avx2", "vbmi2"])), "oracle": "output buffer of exactly the documented maximum ending at an inaccessible page, canaries around it; allocations of the addon against inaccessible pages",
            "bounds": "every length up to 300 and larger ones x line sizes x columns x data classes from nothing-escaped to everything-escaped x 13 output sizes around the documented maximum"},
    "E04": {"run": also(simple("mc_enc", "col", ["kern"]), huge()), "oracle": REF_E + " started in the given column", "bounds": E_BOUNDS},
    "E05": {"run": simple("mc_enc", "safe", ["kern"]), "oracle": "line grammar checked on the output alone", "bounds": E_BOUNDS},
    "E06": {"run": lambda c: (c.native("mc_enc", plan="chain"), c.js("encincr", GLUE), c.js("encincr", best(), variant="native", thorough=False)), "oracle": REF_E + "; the column it ends in", "bounds": "one piece from every column a piece can end at (0..line size + 1, the only state passed on), for every line size up to 36 (260) and larger ones: all words of up to 4 symbols, words at its start, around the first line break and at its end, for ends at every distance from a line break and every length up to 300 (500); through the addon: all compositions of words of up to 5 (6) symbols, all cuts of longer data, equal pieces, every output size around the maximum"},
    "C01": {"run": also(simple("mc_crc", "value", ["crcjs"]), huge(["sse2", "avx", "vbmi2"])), "oracle": "bit-by-bit CRC-32 (IEEE)", "bounds": "all inputs of up to 3 bytes; every length up to 2200 x 64 alignments x fillers x initial values; every value of every byte up to length 700; two-bit inputs; sizes 2^k+-17 up to 1 MiB; 3 levels"},
    "C02": {"run": also(simple("mc_crc", "incr", ["crcjs"]), huge(["sse2", "vbmi2"])), "oracle": "bit-by-bit CRC-32 of the whole; x^(8n) by square and multiply", "bounds": "every two- and three-way split, every composition of a 14-byte buffer; combine for lengths 2^k+d up to 2^64, near multiples of 2^32-1, every length < 70000, all 32 basis values"},
    "C03": {"run": simple("mc_crc", "field", ["crcjs"]), "oracle": "schoolbook polynomial arithmetic modulo the CRC polynomial", "bounds": "all 32x32 basis products (the product is bilinear) and dense operands; every exponent < 2^20, all exponents with up to three set or clear bits; +-2^k+d up to 2^53; zero counts likewise"},
    "K05": {"run": configs, "oracle": "the same reference models for every configuration", "bounds": "quick: native tuning (this CPU, Haswell, Skylake-X, Nehalem, Core 2, Zen, Bobcat, Bonnell, Silvermont, K10), no 256-bit AVX, no crcutil; thorough: also Jaguar, Goldmont, K8, generic x86-64, Sandy Bridge, Zen 3 and Ice Lake tuning, native without 256-bit AVX, clang; each with the decode, in-situ, memory, encode, round-trip and CRC explorations of D01-D06, E01-E04, E06, C01-C03"},
    "K01": {"run": lambda c: __import__("isa").run(c), "oracle": "a classification of every instruction in the built objects by the CPU extension it needs, against the features (and OS-enabled register state) of the vector; the reference models for results on emulated CPUs",
            "bounds": "every architecturally consistent combination of SSE3..AVX-512F level, POPCNT/ABM, PCLMUL, VPCLMUL, BMI1, BMI2, AVX512VL/BW/VBMI2, AVX10 version and width, (OS)XSAVE and XCR0, on 28 CPU signatures; all family/model numbers x 64 feature sets; every selection found runs its kernels with each instruction some such CPU lacks trapped; emulated CPUs: 34 models and all combinations of the features the emulator has"},
    "K02": {"run": threads, "oracle": "the reference models for every result of every call, whatever the other thread does; no call hangs, no freed memory is touched",
            "assume": ["threads are explored at the granularity of single memory accesses under sequential consistency", "the other parts of Node and the C library that the addon uses are thread-safe"],
            "bounds": "two threads; all ordered pairs of 28 programs (each API function with several inputs, and loading the addon) right after loading and again with whatever earlier calls left behind, pairs of longer programs, and pairs that both load the addon for the first time; every location both threads access (one writing) becomes a scheduling point, and all schedules with one switch (up to 600 points; 100 while loading) and the grids of two switches (14x14; 6x6) are run, to a fixpoint; one switch before each of the first accesses to static data regardless; 8 levels and the native build; every sequence of 4 (5) events (start a Worker, two at once, end, terminate, load, load again, collect garbage, use) in fresh processes"},
    "K06": {"run": others, "oracle": "the reference models of D01-D06, E01-E04, E06 and C01-C03", "assume": ["QEMU's user-mode emulation executes the instructions of the emulated processors as they are specified", "clang compiles for those processors correctly"],
            "bounds": "i686 (8 levels, executed natively), arm64 and arm (portable, NEON; CRC and PMULL instructions), riscv64 and riscv32 (portable, vectors of 128 to 512 bits, thorough: 1024; with unspecified lanes left alone and set to ones; carry-less multiplication), big-endian portable code (s390x, ppc); per level every word of 4 symbols at every position of 210 bytes, 5 symbols alone, all byte values, alignments, lengths up to 200, fillers, lane patterns, pairs of events, in-place and chunked decoding, line sizes, columns, CRC arithmetic; scaled up to three blocks where vectors are longer; buffers end at inaccessible pages"},
    "A01": {"run": also(simple(None, None, ["args"], None), huge()), "oracle": "reference models; thrown errors leave the output untouched", "bounds": "every length up to 300 (420) and larger ones x 15 line sizes x columns x data classes x output sizes around the documented need; invalid arguments of every function"},
    "A02": {"run": simple(None, None, ["sizes"], ["sse2", "vbmi2"]), "oracle": "exact extremes of the column machine in integer arithmetic; the encoder's real output", "bounds": "every length < 2000 (6000) and 2^k+-70 up to 2^45 x 19 line sizes; ratios in steps of 1/64"},
    "A03": {"run": also(lambda c: (c.js("chunk", ["sse2", "avx2", "vbmi2"] if c.tier == "thorough" else ["vbmi2"]), c.js("chunk", best(), variant="native", thorough=False)), huge()), "oracle": "the reference automaton over state strings", "bounds": "all words of up to 5 (6) symbols x all compositions x 7 states; every (state, byte); 31 state strings; calling conventions x output sizes x lengths up to 200"},
    "A04": {"run": simple(None, None, ["history"], ["sse2", "avx2", "vbmi2"]), "oracle": "each call's result from the reference models, re-examined after every later call", "bounds": "all sequences of 3 (4) calls out of 30, with and without overwriting earlier results and inputs; every pair of 18 calls given the same Buffer objects with changed contents"},
    "A05": {"run": simple(None, None, ["memory"], ["vbmi2"]), "oracle": "blocks in use of a recording allocator (released blocks become inaccessible), liveness of every argument and result seen through weak references, contents of what is kept", "bounds": "all pairs (triples) out of 61 calls, 24 of them failing, x nothing, the result, a slice, the ArrayBuffer or the arguments kept; every length up to 700 (2100) of every kind of call, larger ones up to 17 MB; Workers that make each call and end, exit or are terminated"},
    "A06": {"run": simple(None, None, ["memory"], ["vbmi2"]), "oracle": "an Error or the right result; each later call's result; blocks in use", "bounds": "every request for memory of each of 37 calls refused, alone or with all later ones, x each of 61 calls afterwards"},
    "P01": {"run": also(simple(None, None, ["post"], ["sse2", "avx2", "vbmi2"]), older("post"), huge()), "oracle": "the document the specification prescribes, assembled from the reference models", "bounds": "all names of up to 3 critical characters, encodings, every length up to 320 (600) x line sizes x data classes, data forms, files up to 3 MB, names up to 70000 characters; also as on a Node without the newer Buffer functions"},
    "P02": {"run": also(simple(None, None, ["post"], ["sse2", "avx2", "vbmi2"]), older("post"), huge()), "oracle": "session model: part counter, position, running CRC", "bounds": "every sequence of part lengths 0..3 up to one call too many for up to 3 (4) parts and sizes up to 4 (5); all interleavings of two sessions; files split into 1..101 and up to 65538 parts"},
    "P03": {"run": also(simple(None, None, ["frompost"], ["sse2", "avx2", "vbmi2"]), older("frompost"), huge()), "oracle": "the generated document's own description", "bounds": "every data length up to 200 (500) x 7 classes x dot-stuffing; 16 names x prefixes x suffixes; multi-part; property orders; text before and after and data up to 5 MB; all words of length 4 (5) over the critical characters as data; also as on a Node without the newer Buffer functions"},
    "P04": {"run": also(simple(None, None, ["fuzzpost"], ["vbmi2"]), older("fuzzpost")), "oracle": "documented result shape and error codes; data/crc from the reference models", "bounds": "all documents of up to 3 (4) of 30 tokens, up to 4 (5) of 30 lines, and all headers followed by up to 3 (4) tokens; also as on a Node without the newer Buffer functions"},
    "P05": {"run": simple(None, None, ["corrupt"], ["vbmi2"], native_variant=False), "oracle": "the original data", "bounds": "every single-byte substitution, loss and insertion, every lost range and truncation, two-byte changes, of ten posts; every single-byte change of the values on the end line; 20 kinds of damage at every byte of the control lines, and loss of every property and line, each combined with 8 kinds of damage to the data"},
    "P06": {"run": also(simple(None, None, ["warn"], ["vbmi2"], native_variant=False), older("warn")), "oracle": "a table of conditions evaluated on the description the document is generated from", "bounds": "leading zeros on every number; products of 6 part numbers x 7 totals x 5 end part numbers x 7 file sizes x 6 part sizes x (no range, or 7 begins x 6 ends), with values up to 2^32+3; 9x9 CRC texts x part structures x data forms; 30 malformed numbers; every insertion of junk and every repetition of a property or line; every data length up to 130 (300) x claimed sizes"},
}
