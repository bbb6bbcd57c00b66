"""Prebuilds what the checks share (each check builds by itself whatever is missing)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402

build.guard_addon()
for v in ("std", "native"):
    t = build.Tree(v)
    build.isa_addon(t)
    build.mon_addon(t)
    print(v, t.root)
t = build.Tree("std")
import isa  # noqa: E402
isa.harness(t)
for h in ("mc_dec", "mc_enc", "mc_crc"):
    print(build.harness(t, h))
import arch  # noqa: E402
for a in arch.ARCH:
    if arch.have(a):
        try:
            print(arch.executor(a))
        except build.BuildError as e:
            print(a, str(e)[-300:])
for h in ("mc_dec", "mc_enc", "mc_crc"):
    print(arch.harness(h))
