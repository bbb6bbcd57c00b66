"""What binding.gyp compiles, with which flags, for a given processor (the part of GYP's language the project uses)."""
import ast
import os


def load(path):
    return ast.literal_eval(open(path).read())


def _cond(expr, v):
    return bool(eval(expr, {"__builtins__": {}}, dict(v)))


def _merge(d, v):
    """{'cflags!': .., 'conditions': ..} -> flat dict of lists with conditions applied; probes of the compiler count as successful"""
    out = {}

    def add(x):
        loc = dict(v)
        for k, val in x.get("variables", {}).items():
            k = k.rstrip("%")
            loc[k] = val if not (isinstance(val, str) and val.startswith("<!")) else "" if k.startswith("missing_") else "yes"
        for k, val in x.items():
            if isinstance(val, list) and k != "conditions":
                out.setdefault(k, []).extend(val)
        for c in x.get("conditions", []):
            if _cond(c[0], loc):
                add2(c[1], loc)
            elif len(c) > 2:
                add2(c[2], loc)

    def add2(x, loc):
        nonlocal v
        old, v = v, loc
        add(x)
        v = old
    add(d)
    return out


def sources(root, arch, config=None):
    """-> [(source, flags)] of the addon and what it depends on"""
    g = load(os.path.join(root, "binding.gyp"))
    v = {"target_arch": arch, "OS": "linux", "enable_native_tuning": 0, "disable_avx256": 0, "disable_crcutil": 0}
    v.update(config or {})
    base = _merge(g.get("target_defaults", {}), v)
    rel = g.get("target_defaults", {}).get("configurations", {}).get("Release", {})
    byname = {t["target_name"]: t for t in g["targets"]}
    out, seen, todo = [], set(), ["yencode"]
    while todo:
        n = todo.pop(0)
        if n in seen or n not in byname:
            continue
        seen.add(n)
        m = _merge(byname[n], v)
        todo += m.get("dependencies", [])
        flags = base.get("cflags", []) + rel.get("cflags", []) + base.get("cxxflags", []) + rel.get("cxxflags", []) + m.get("cflags", []) + m.get("cxxflags", [])
        drop = set(m.get("cflags!", [])) | set(m.get("cxxflags!", []))
        flags = [f for f in flags if f not in drop]
        flags += ["-D" + x for x in base.get("defines", []) + m.get("defines", [])]
        flags += ["-I" + os.path.join(root, i) for i in m.get("include_dirs", [])]
        if byname[n].get("type") == "none" and n == "crcutil":
            pass
        for s in m.get("sources", []):
            if s.endswith((".cc", ".cpp", ".c")):
                out.append((os.path.join(root, s), list(dict.fromkeys(flags))))
    return out
