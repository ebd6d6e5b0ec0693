"""Command contracts (spec/commands.json) turned into symbolic command lines.

A context ("shape") is a legal argument list of a command together with the
options that can be added to it and what each of them does.  The functions here
build command lines whose values are symbolic and the data expected from them.
"""
import json
import os
import random

from harness import cmdlib
from harness.cmdlib import compose

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "spec", "commands.json")) as _f:
    SPEC = json.load(_f)
GROUPS = SPEC["groups"]
SHAPES = SPEC["shapes"]
VERSIONS = SPEC["versions"]
try:
    with open(os.path.join(HERE, "spec", "calibration.json")) as _f:
        CALIB = json.load(_f)
except IOError:
    CALIB = {}


def order_of(ver):
    return VERSIONS[ver]


def pairs(which="newest"):
    """(group index, shape index, version) triples to check."""
    out = []
    for gi, g in enumerate(GROUPS):
        for s in g.get("contexts", ()):
            vs = g["versions"]
            if which == "all":
                pick = vs
            elif which == "ends":
                pick = [vs[0], vs[-1]] if len(vs) > 1 else [vs[0]]
            else:
                pick = [vs[-1]]
            for v in pick:
                out.append((gi, s, v))
    return out


def atoms(shape):
    """{id: (option index, atom)} of the usable accepted atoms."""
    out = {}
    for i, o in enumerate(SHAPES[shape]["options"]):
        for at in o["atoms"]:
            if "id" in at:
                out[at["id"]] = (i, at)
    return out


def skipped(cmd, at, prop):
    return (CALIB.get(prop, {}).get(cmd, {}).get(at["word"]) or {}).get(at["k"]) == "skip"


def alphabet(cmd, at, prop, default):
    return (CALIB.get(prop, {}).get(cmd, {}).get(at["word"]) or {}).get(at["k"], default)


def special(o, n):
    """Literal values of an option that are treated specially and have length n."""
    return [a["v"] for a in o["atoms"] if a["k"] == "lit" and len(a["v"]) == n]


def has(o, kind, ok=None):
    return any(a["k"] == kind and (ok is None or a["ok"] == ok) for a in o["atoms"])


RANGE = list(range(-3, 70)) + list(range(95, 105)) + list(range(250, 260)) + \
    [1000, 1023, 1024, 4093, 4094, 4095, 4096, 9999, 65534, 65535, 65536, 99999]


def holes(at):
    """Values inside the range of an integer atom that are not accepted."""
    s = set(at["set"])
    return [n for n in RANGE if n not in s and (at["lo"] is None or n >= at["lo"]) and (at["hi"] is None or n <= at["hi"])]


def value(cx, nm, o, at, n, alph, canonical=False):
    """A symbolic value of the atom with n symbolic characters."""
    k = at["k"]
    if k == "flag":
        return ""
    if k == "lit":
        return at["v"]
    if k == "int":
        v = cx.string(nm, n, "digit")
        x = int(v)
        if "set" in at:
            if len(at["set"]) > 20:
                cx.assume(cx.none_of(x, holes(at)))
            else:
                cx.assume(cx.among(v, [str(m) for m in at["set"]]))
        else:
            if at["lo"] is not None:
                cx.assume(x >= at["lo"])
            if at["hi"] is not None:
                cx.assume(x <= at["hi"])
            if canonical:
                cx.assume(v[:1] != "0")
        return v
    if k == "list":
        if "pos" in o:
            return "x" + cx.string(nm + "a", n - 1, alph) + "," + cx.string(nm + "b", 1, alph)
        v = cx.string(nm + "a", n, alph)
        cx.assume(v[:1] != " ")
        cx.assume(v[:1] != ",")
        return v + "," + cx.string(nm + "b", 1, alph)
    if k == "path":
        v = "/" + cx.string(nm, n, alph)
        for s in special(o, n + 1):
            cx.assume(v != s)
        return v
    v = cx.string(nm, n, alph)
    for s in special(o, n):
        cx.assume(v != s)
    if has(o, "path"):
        cx.assume(v[:1] != "/")
    if has(o, "list"):
        cx.assume("," not in v)
        cx.assume(v[:1] != " ")         # a blank list is an empty one
    if "pos" in o:
        cx.assume(v[:1] != "-")
    return v


def int_lengths(at):
    """Digit counts needed to reach every region of the integer atom."""
    hi = at.get("hi")
    if "set" in at and len(at["set"]) <= 20:
        return sorted({len(str(x)) for x in at["set"]})
    lo = at["lo"] if at.get("lo") is not None else 0
    top = len(str(hi)) if hi is not None else max(3, len(str(max(lo, 0))))
    return list(range(max(1, len(str(max(lo, 0)))), top + 1))


def find_pos(base, names):
    for i, b in enumerate(base):
        if b.split("=")[0] in names:
            return i
    return None


def place(args, o, word):
    if "pos" in o:
        return args[:o["pos"]] + [word] + args[o["pos"] + 1:]
    i = find_pos([a if isinstance(a, str) else "" for a in args], o["names"])
    if i is not None:
        return args[:i] + [word] + args[i + 1:]
    return args + [word]


def word_of(at, v, quote):
    """The text of one argument: option name and value."""
    k = at["k"]
    if k == "flag":
        return at["word"]
    name = at["word"]
    if k == "lit":
        name = name[:len(name) - len(at["v"])]
    if quote and k != "lit" and k != "int":
        return name + '"' + v + '"'
    return name + v


def build(cx, cmd, shape, ids, ln, alph, prop, quote, sep=False):
    """Line with the atoms ids (in that order) added to the context; returns (args, expected parts)."""
    c = SHAPES[shape]
    flat = atoms(shape)
    base = c["base"]
    inplace, tail = [], []
    args = list(base)
    used = set()
    for n, x in enumerate(ids):
        i, at = flat[x]
        o = c["options"][i]
        k = at["k"]
        if k == "int":
            ls = int_lengths(at)
            m = ls[ln % len(ls)]
        else:
            m = 1 + ln % 8
        v = value(cx, "v%d" % n, o, at, m, alphabet(cmd, at, prop, alph), prop == "C01r")
        w = word_of(at, v, quote)
        if sep and k not in ("flag", "lit") and "pos" not in o:
            cx.assume(v[:1] != "-")
            w = o["names"][-1] + ' "' + v + '"'
        pos = o["pos"] if "pos" in o else find_pos(base, o["names"])
        if pos is not None and pos not in used:
            args[pos] = w
            used.add(pos)
            inplace.append((pos, at["eff"], v))
        else:
            args.append(w)
            tail.append((at["eff"], v))
    parts = [(e, v) for _p, e, v in sorted(inplace, key=lambda t: t[0])] + tail
    return args, parts


def expected(shape, parts):
    return compose(SHAPES[shape]["data"], parts)


def compatible(shape):
    c = SHAPES[shape]
    bad = {}
    for p in c["rejected_pairs"] + [q[:2] for q in c["interacting_pairs"]]:
        bad.setdefault(p[0], set()).add(p[1])
        bad.setdefault(p[1], set()).add(p[0])
    return bad


def usable(cmd, shape, prop):
    flat = atoms(shape)
    return {x: (i, at) for x, (i, at) in flat.items()
            if not skipped(cmd, at, prop)
            and not SHAPES[shape]["options"][i]["deprecated"]}


def deprecated(cmd, shape, prop):
    """Atoms of options that are deprecated, but still accepted."""
    return [x for x, (i, at) in atoms(shape).items()
            if SHAPES[shape]["options"][i]["deprecated"] and not skipped(cmd, at, prop)]


def rows(cmd, shape, prop, count, seed=0):
    """Option subsets forming a covering array: every pair of options occurs in all four
    presence/absence combinations that are legal, as far as count rows allow."""
    if cmd in ("authselect", "multipath"):      # see harness/special.py
        return []
    flat = usable(cmd, shape, prop)
    bad = compatible(shape)
    opts = {}
    for x, (i, at) in sorted(flat.items()):
        opts.setdefault(i, []).append(x)
    if not opts:
        return []
    rnd = random.Random(seed * 7919 + shape)
    out = []
    names = sorted(opts)
    unseen_atoms = set(flat)
    unseen = {(a, b, pa, pb) for a in names for b in names if a < b for pa in (0, 1) for pb in (0, 1)}
    for r in range(count):
        best, score = None, -1
        for _t in range(6):
            want = [i for i in names if rnd.random() < (0.97 if r == 0 else 0.5 if r % 3 else 0.75)]
            rnd.shuffle(want)
            row = []
            for i in want:
                cand = [x for x in opts[i] if not any(y in bad.get(x, ()) for y in row)]
                if not cand:
                    continue
                fresh = [x for x in cand if x in unseen_atoms]
                row.append(rnd.choice(fresh or cand))
            on = {flat[x][0] for x in row}
            s = sum(1 for (a, b, pa, pb) in unseen if (a in on) == bool(pa) and (b in on) == bool(pb)) \
                if len(names) < 60 else len(row)
            s += 3 * len(unseen_atoms & set(row))
            if s > score:
                best, score = row, s
        if score == 0 and r > 1:
            break
        on = {flat[x][0] for x in best}
        unseen = {(a, b, pa, pb) for (a, b, pa, pb) in unseen if not ((a in on) == bool(pa) and (b in on) == bool(pb))}
        unseen_atoms -= set(best)
        out.append(best)
    return out
