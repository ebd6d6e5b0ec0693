"""C23: the method command stands for the selected installation source."""
import copy
import random

from pykickstart.errors import KickstartError, KickstartParseError
from pykickstart.parser import KickstartParser
from pykickstart.version import makeVersion
from harness import c14, cmdlib
from harness.c03 import VERSIONS
from harness.c13 import diff
from harness.c11 import all_of

BUDGET = {"quick": 150, "thorough": 2400}
BOUNDS = {"histories": "every version; up to 4 (thorough 6) operations on one handler, each one of: a line of an installation source with "
                       "a symbolic value, selecting a source by name (any of the known ones, none, or up to 4 symbolic characters), "
                       "reading and setting any attribute through the method command (attributes of every source, of none, of the "
                       "method command itself) with symbolic values, setting them on a source, resetting a source, copying the handler; "
                       "after each operation the selection and every attribute of every source are compared"}
ENCODED = ["FC3_Method and its descendants", "FC3_Cdrom, FC3_HardDrive, FC3_NFS, FC3_Url, F19_Liveimg, RHEL7_Hmc and descendants",
           "KickstartHandler.dispatcher/resetCommand", "KickstartCommand.__setattr__ (seen)"]
ASSUMPTIONS = ["alphabet of the engine", "the hmc source of DEVEL is unknown to the (deprecated) method command", "when several sources were seen, the first of cdrom, harddrive, nfs, url, liveimg, hmc counts"]
MUST_REACH = ["select", "get", "set", "line", "refused", "written"]
ORDER = ["cdrom", "harddrive", "nfs", "url", "liveimg", "hmc"]
OWN = ["writePriority", "currentCmd", "currentLine", "lineno", "seen"]
LINE = {"cdrom": [], "harddrive": ["--dir=/", "--partition=s"], "nfs": ["--dir=/d", "--server="], "url": ["--url="], "liveimg": ["--url="], "hmc": []}


def sources(h):
    return [m for m in ORDER if m in h.commands]


def attrs(h):
    out = set()
    for m in sources(h):
        out |= set(x for x in vars(h.commands[m]) if x not in ("handler", "op", "dataClass", "exclusive_required_options"))
    return sorted(out) + ["nonesuch"]


def state(h):
    return {m: {x: cmdlib.norm(v) for x, v in vars(h.commands[m]).items() if x not in ("handler", "op", "dataClass", "exclusive_required_options")} for m in sources(h)}


def chosen(st, names):
    for m in names:
        if st[m]["seen"]:
            return m
    return None


def history(cx, p):
    ver = p["v"]
    h = makeVersion(ver)
    names = [m for m in ORDER[:p["known"]] if m in h.commands]
    cx.check("method" in h.commands, "method command")
    own = {x: getattr(h.method, x) for x in OWN}
    all_names = attrs(h)
    k = KickstartParser(h)
    st = state(h)
    plain = state(h)
    for i, (op, a, b) in enumerate(p["ops"]):
        sel = chosen(st, names)
        cmd = h.commands[sel or "url"]
        if op == "line" and a == "harddrive" and st[a].get("biospart"):
            continue                        # a program has named the other kind of partition, which the line may not repeat
        if op == "line":
            v = cx.string("l%d" % i, 1 + i % 2, "alnum")
            t = a
            for w in LINE[a]:
                t = t + " " + w + (v if w[-1:] in "=/" or w[-2:] == "=s" else "")
            with cmdlib.quiet():
                try:
                    k.readKickstartFromString(t + "\n", reset=True)
                except KickstartError as e:
                    cx.fail("source refused", lambda: repr([t, e]))
            g = cmdlib.pool(ver, 1)
            with cmdlib.quiet():
                KickstartParser(g).readKickstartFromString(t + "\n")
            new, now = state(g)[a], state(h)[a]
            for x in new:
                if new[x] == plain[a][x] and x not in ("seen", "currentCmd", "currentLine", "lineno"):
                    new[x] = now[x]         # not given on the line
            st[a] = new
            cx.cover("line")
        elif op == "select":
            m = a if a != "?" else cx.string("m%d" % i, b, "alnum")
            bad = m is not None and not any(m == x for x in names)
            try:
                h.method.method = m
                cx.check(not bad, "unknown source selected", lambda: repr(m))
                cx.cover("select")
            except AttributeError:
                cx.check(bad, "known source refused", lambda: repr(m))
                cx.cover("refused")
            for x in names:
                st[x]["seen"] = bool(not bad and m is not None and x == m)
            cx.check_eq(h.method.method, None if bad else m, "selected source")
        elif op == "get":
            x = all_names[a % len(all_names)]
            try:
                got = getattr(h.method, x)
                there = True
            except AttributeError:
                there = False
            if x in OWN:
                cx.check(there, "own attribute")
                cx.check_eq(got, own[x], "own attribute", lambda: x)
            else:
                cx.check(there == (x in st[sel or "url"]), "attribute there or not", lambda: repr([x, sel]))
                if there:
                    cx.check_eq(cmdlib.norm(got), st[sel or "url"][x], "attribute of the source", lambda: repr([x, sel]))
            cx.check(hasattr(h.method, x) == there, "hasattr")
            cx.cover("get")
        elif op == "set":
            x = all_names[a % len(all_names)]
            v = cx.string("v%d" % i, 1 + i % 2, "alnum")
            try:
                setattr(h.method, x, v)
                there = True
            except AttributeError:
                there = False
            if x in OWN:
                cx.check(there, "own attribute")
                own[x] = v
            else:
                cx.check(there == (x in st[sel or "url"]), "attribute there or not", lambda: repr([x, sel]))
                if there:
                    st[sel or "url"][x] = v
            cx.cover("set")
        elif op == "direct":
            m = sources(h)[a % len(sources(h))]
            xs = [x for x in all_names if x in st[m] and x not in OWN]
            x = xs[b % len(xs)] if xs else "seen"
            v = cx.string("d%d" % i, 1, "alnum") if xs else True
            setattr(h.commands[m], x, v)
            st[m][x] = v
        elif op == "mark":
            m = sources(h)[a % len(sources(h))]
            h.commands[m].seen = bool(b)
            st[m]["seen"] = bool(b)
        elif op == "copy":
            # the copy of a handler or of the method command says the same
            c = copy.copy(h.method)
            cx.check_eq(c.method, h.method.method, "copied command")
            old = h
            h = copy.deepcopy(h)
            if b:
                old.method.method = None
            k = KickstartParser(h)
        elif op == "file":
            with cmdlib.quiet():
                try:
                    k.readKickstartFromString("method x\n", reset=True)
                    cx.check(VERSIONS[ver] >= VERSIONS["F34"], "method as a line accepted")
                except KickstartParseError as e:
                    cx.check_eq(e.lineno, 1, "line of the error")
                    cx.check(VERSIONS[ver] < VERSIONS["F34"], "method as a line refused")
            for x in ("currentCmd", "currentLine", "lineno", "seen"):
                own[x] = getattr(h.method, x)
        got = state(h)
        cx.check_eq(got, st, "sources", lambda: repr([p["ops"][:i + 1], diff([got], [st])]))
        cx.check_eq([getattr(h.method, x) for x in OWN], [own[x] for x in OWN], "the command's own attributes")
        cx.check_eq(h.method.method, chosen(st, names), "selected source", lambda: repr(p["ops"][:i + 1]))
    cx.check_eq(str(h.method), "", "written by the method command itself")
    cx.cover("written")


def jobs(tier):
    q = tier == "quick"
    out = []

    def add(h, cost=5, **p):
        out.append({"h": h, "p": p, "cost": cost})
    for vi, v in enumerate(c14.ALL):
        known = 4 if v in OLD else 5
        if v in ("RHEL7", "RHEL8", "RHEL9") or (VERSIONS[v] >= VERSIONS["F28"] and VERSIONS[v] < VERSIONS["F34"]):
            known = 6
        r = random.Random(vi)

        def one():
            k = r.choice(["line", "select", "select", "select", "get", "get", "set", "set", "set", "direct", "mark", "copy", "file"])
            if k == "line":
                return [k, r.choice(ORDER[:known]), 0]
            if k == "select":
                x = r.choice(ORDER[:known] + ["?", "?", None])
                return [k, x, r.choice([0, 1, 2, 3, 4])]
            return [k, r.randrange(1000), r.randrange(1000) if k not in ("mark", "copy") else r.randrange(2)]
        for j in range(25 if q else 200):
            add("history", 20, v=v, known=known, ops=[one() for _ in range(r.choice([2, 3, 4] if q else [3, 4, 5, 6]))])
        for s in ORDER[:known] + [None]:
            for a in range(0, 40, 8 if q else 1):
                a2 = a + (vi + ORDER.index(s) * 3 if s else 0) % 8 if q else a
                add("history", 10, v=v, known=known, ops=[["select", s, 0], ["set", a2, 0], ["get", a2, 0]])
        for n in range(0, 4 if q else 6):
            add("history", 10, v=v, known=known, ops=[["line", "nfs", 0], ["select", "?", n], ["get", 3, 0], ["set", 5, 0]])
    return out


OLD = [v for v in c14.ALL if VERSIONS[v] < VERSIONS["F19"]]
