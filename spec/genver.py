"""Record which commands and options every syntax version of the baseline tree accepts, into versions.json.

usage (pykickstart interpreter): python genver.py OUT
"""
import json
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import genspec as gs
from pykickstart import version as V
from pykickstart.base import DeprecatedCommand, RemovedCommand
from pykickstart.errors import KickstartDeprecationWarning, KickstartError
from pykickstart.parser import KickstartParser
from bases import BASES

HERE = os.path.dirname(os.path.abspath(__file__))


def attempt(ver, cmd, args):
    """(accepted, deprecation warnings)"""
    h = V.makeVersion(ver)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            KickstartParser(h).readKickstartFromString(" ".join([cmd] + args) + "\n")
        except KickstartError:
            return False, 0
    return True, sum(1 for x in w if issubclass(x.category, KickstartDeprecationWarning))


def main():
    with open(os.path.join(HERE, "commands.json")) as f:
        spec = json.load(f)
    groups = {}
    for g in spec["groups"]:
        for v in g["versions"]:
            groups[(g["command"], v)] = g
    sets, index, out = [], {}, {}
    memo = {}
    for ver in spec["versions"]:
        h = V.makeVersion(ver)
        t = out[ver] = {}
        for cmd, o in sorted(h.commands.items()):
            g = groups[(cmd, ver)]
            key = (cmd, type(o).__name__, o.dataClass.__name__ if o.dataClass else "")
            if key not in memo:
                kind = "removed" if isinstance(o, RemovedCommand) else "deprecated" if isinstance(o, DeprecatedCommand) \
                    else g["kind"]
                base, opts, unknown = None, {}, None
                bases = [spec["shapes"][s]["base"] for s in g.get("contexts", ())] or BASES.get(cmd, [[]])
                bases = [b for b in bases if attempt(ver, cmd, b)[0]]
                if bases:
                    base = bases[0]
                    unknown = not attempt(ver, cmd, base + ["--zzqq"])[0] and not attempt(ver, cmd, base + ["--zzqq=1"])[0]
                    names = []
                    if getattr(o, "op", None) is not None:
                        names = sorted(o.op._option_string_actions)
                    elif kind == "active":
                        for s in g["contexts"]:
                            for op in spec["shapes"][s]["options"]:
                                names += [n for n in op["names"] if n not in names]
                    for n in names:
                        opts[n] = option(ver, cmd, bases, n, g, spec["shapes"])
                e = {"kind": kind, "base": base, "unknown": unknown, "opts": opts, "class": type(o).__name__,
                     "dep": attempt(ver, cmd, base)[1] if base is not None else None,
                     "extra": base is not None and attempt(ver, cmd, base + ["zzqq"])[0]}
                k = json.dumps([cmd, e], sort_keys=True)
                if k not in index:
                    index[k] = len(sets)
                    sets.append(e)
                memo[key] = index[k]
            t[cmd] = memo[key]
    with open(sys.argv[1], "w") as f:
        json.dump({"versions": spec["versions"], "commands": out, "sets": sets}, f, separators=(",", ":"), sort_keys=True)
    print(len(sets), sum(len(e["opts"]) for e in sets), [(c, o) for k, i in index.items() for c in [json.loads(k)[0]]
                                                         for o, x in sets[i]["opts"].items() if x["word"] is None][:50])
    for k, i in sorted(index.items()):
        e = sets[i]
        if e["unknown"] is not True or e["kind"] != "active" or e["dep"]:
            print(json.loads(k)[0], e["class"], e["kind"], e["unknown"], e["dep"], e["base"], len(e["opts"]))


def option(ver, cmd, bases, name, g, shapes):
    """How the option can be given: {"dep": warned, "word": complete word or None, "base": arguments}."""
    cand = [name, name + "=1", name + "=a", name + "=/a", name + "=1.2.3.4", name + "=0x0-0x1", name + "=a:b"]
    for s in g.get("contexts", ()):
        for o in shapes[s]["options"]:
            for at in o["atoms"]:
                if name in o["names"] and at.get("ok"):
                    w, v = gs.atom_sample(at)
                    w = name + w[w.index("="):] if "=" in w else name
                    if w not in cand:
                        cand.append(w)
    for w in cand:
        for base in bases:
            ok, n = attempt(ver, cmd, base + [w])
            if ok:
                return {"word": w, "base": base, "dep": n}
    return {"word": None, "base": bases[0], "dep": 0}


if __name__ == "__main__":
    main()
