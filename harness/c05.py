"""C05: only kickstart errors escape the parser."""
import shlex
import warnings

from pykickstart.errors import KickstartError
from pykickstart.parser import KickstartParser
from harness import c14, cmdlib
from harness.c03 import SETS, TABLE, VERSIONS
from harness.cmdspec import GROUPS, SHAPES

BUDGET = {"quick": 240, "thorough": 3000}
BOUNDS = {"text": "all texts of up to 4 (thorough: 5) characters of any kind",
          "lines": "every command of every class: the line with up to 2 (thorough: 3) arbitrary characters after the command, after "
                   "a legal argument list, after every option (with and without a legal argument list before it)",
          "sections": "every section tag followed by up to 3 arbitrary characters, every header option with up to 2, bodies of up "
                      "to 4 arbitrary characters, with and without an end; package lines with every prefix; includes",
          "pairs": "every ordered pair of storage and network commands with one symbolic name each"}
ENCODED = ["KickstartParser (whole)", "every section", "KickstartHandler.dispatcher", "KSOptionParser", "parse() of every command class",
           "argparse and shlex"]
ASSUMPTIONS = ["alphabet of the engine", "missing includes only, or files of the virtual file system"]
MUST_REACH = ["text", "line", "section", "include", "pair"]


def attempt(cx, ver, text, label, fs=None):
    """Reading the text succeeds or raises one of the allowed exceptions."""
    cx.fs()
    h = cmdlib.pool(ver)
    k = KickstartParser(h)
    what = None
    with cmdlib.quiet():
        try:
            k.readKickstartFromString(text)
            str(h)
        except KickstartError:
            pass
        except ValueError as e:
            what = e
    if what is not None and VERSIONS[ver] < VERSIONS["F19"] and "raid " in text and "--dev" in text:
        cx.cover(label)     # known finding: int() of the device
        return
    if what is not None:
        cx.check(unsplittable(text), "%s: a ValueError escapes" % label, lambda: repr([text, what]))
    cx.cover(label)


def unsplittable(text):
    """A line of the text is no list of shell words."""
    for ln in text.splitlines():
        for comments in (True, False):
            try:
                shlex.split(ln, comments=comments)
            except ValueError:
                return True
    return False


def known(cx, p):
    """A recorded finding."""
    with cmdlib.quiet():
        try:
            KickstartParser(cmdlib.pool(p["v"])).readKickstartFromString(p["text"])
        except KickstartError:
            pass


def text(cx, p):
    s = cx.string("s", p["n"], "any")
    attempt(cx, p["v"], p["pre"] + s + p["post"], p["as"])


def pair(cx, p):
    t = ""
    for i, c in enumerate(p["cs"]):
        t = t + c14.line(p["v"], c, cx.string("s%d" % i, 1, "alnum"))
    attempt(cx, p["v"], t, "pair")


def include(cx, p):
    fs = cx.fs()
    s = cx.string("s", p["n"], "any")
    fs.put("cwd/a", p["body"])
    fs.put("cwd/b", p["body"])
    fs.put("cwd/bin", b"\xff\n")
    fs.mkdir("cwd/d")
    h = cmdlib.pool(p["v"])
    t = p["pre"] + s + p["post"]
    what = None
    with cmdlib.quiet():
        try:
            KickstartParser(h, missingIncludeIsFatal=p["mf"]).readKickstartFromString(t)
        except KickstartError:
            pass
        except ValueError as e:
            what = e
    if what is not None:
        cx.check(unsplittable(t) or unsplittable(p["body"]), "include: a ValueError escapes", lambda: repr([t, what]))
    cx.cover("include")


def jobs(tier):
    q = tier == "quick"
    out = []

    def add(h, cost=5, **p):
        out.append({"h": h, "p": p, "cost": cost})
    last = {}
    first = {}
    for v in c14.ALL:
        for c, i in TABLE[v].items():
            last[(c, i)] = v
            first.setdefault((c, i), v)
    vs = ["FC3", "F8", "RHEL6", "F34"] if q else c14.ALL
    for v in vs:
        for n in range(0, 5 if q else 6):
            add("text", 4 ** n, v=v, n=n, pre="", post="", **{"as": "text"})
    N = 2 if q else 3
    order = sorted(last.items(), key=lambda x: (VERSIONS[x[1]], x[0]))
    ends = {}
    for (c, i), v in order:
        for o in SETS[i]["opts"]:
            x = ends.setdefault((c, o), [i, i])
            x[1] = i
    for (c, i), v in order:
        e = SETS[i]
        if e["kind"] == "internal":
            continue
        for n in range(0, N + 1):
            add("text", 5 + 5 ** n, v=v, n=n, pre=c + (" " if n else ""), post="\n", **{"as": "line"})
            if not q or e["kind"] == "active":
                if n:
                    add("text", 5 + 5 ** n, v=v, n=n, pre=c + " ", post=" x y\n", **{"as": "line"})
                    add("text", 5 + 5 ** n, v=v, n=n, pre=c + " x ", post=" 1 y z\n", **{"as": "line"})
        base = e["base"]
        for o in sorted(e["opts"]):
            if q and i not in ends[(c, o)]:
                continue
            eq = o.startswith("--")
            pre = cmdlib.line_of(c, list(base or []) + [o]).rstrip("\n")
            bare = c + " " + o
            for n in ((0, 2) if q else range(0, N + 1)):
                if eq:
                    add("text", 5 + 5 ** n, v=v, n=n, pre=pre + "=", post="\n", **{"as": "line"})
                    if base and (n == 0 or not q):
                        add("text", 5 + 5 ** n, v=v, n=max(n, 1), pre=bare + "=", post="\n", **{"as": "line"})
                if n == 0 or not q:
                    add("text", 5 + 5 ** n, v=v, n=n, pre=pre + (" " if n else ""), post="\n", **{"as": "line"})
                    add("text", 5 + 5 ** n, v=v, n=n, pre=bare + (" " if n else ""), post="\n", **{"as": "line"})
    newest = {}
    for gi, g in enumerate(GROUPS):
        if g["kind"] == "active" and g.get("contexts"):
            o = newest.get(g["command"])
            if o is None or VERSIONS[GROUPS[o]["versions"][-1]] < VERSIONS[g["versions"][-1]]:
                newest[g["command"]] = gi
    for gi, g in enumerate(GROUPS):
        if g["kind"] != "active" or (q and newest.get(g["command"]) != gi):
            continue
        for s in g.get("contexts", ()):
            sh = SHAPES[s]
            base = cmdlib.line_of(g["command"], sh["base"]).rstrip("\n")
            v = g["versions"][-1]
            add("text", 30, v=v, n=2, pre=base + " ", post="\n", **{"as": "line"})
            for o in sh["options"]:
                w = (o["names"] or [""])[0]
                for n in ((1,) if q else (0, 1, 2, 3)):
                    if w.startswith("--"):
                        add("text", 5 + 5 ** n, v=v, n=n, pre=base + " " + w + "=", post="\n", **{"as": "line"})
    tags = ["%pre", "%post", "%pre-install", "%onerror", "%traceback", "%packages", "%addon", "%anaconda", "%end", "%include",
            "%ksappend", "%", "%zz"]
    heads = ["--interpreter", "--log", "--logfile", "--nochroot", "--erroronfail", "--ignoremissing", "--instLangs", "--inst-langs",
             "--retries", "--timeout", "--nobase", "--resolvedeps", "--default", "--excludedocs", "--multilib", "--nocore",
             "--exclude-weakdeps", "--excludeWeakdeps", "--ignorebroken", "--xx"]
    for v in (["FC3", "F8", "RHEL6", "RHEL8", "F34"] if q else c14.ALL):
        for t in ["#platform=", "#platform", " #platform=", "#version=", "#"]:
            for n in range(0, 3 if q else 4):
                add("text", 5 ** n, v=v, n=n, pre=t, post="\nlang xx\n" if n % 2 else "", **{"as": "line"})
        for t in tags:
            for n in range(0, 3 if q else 4):
                add("text", 5 ** n, v=v, n=n, pre=t, post="", **{"as": "section"})
                add("text", 5 ** n, v=v, n=n, pre=t + " ", post="\nx\n%end\n", **{"as": "section"})
                add("text", 5 ** n, v=v, n=n, pre=t + "\n", post="\n%end\n", **{"as": "section"})
                add("text", 5 ** n, v=v, n=n, pre=t + "\n%", post="", **{"as": "section"})
            if t in ("%pre", "%packages", "%post", "%addon", "%traceback", "%anaconda"):
                for o in heads:
                    add("text", 15, v=v, n=1, pre=t + " " + o + "=", post="\nx\n%end\n", **{"as": "section"})
                    add("text", 1, v=v, n=0, pre=t + " " + o, post="\n%end\n", **{"as": "section"})
        for a in ("", "@", "-", "-@", "@^", "-@^", "@ ", "@a ", "@a --", "@a --nodefaults ", "@a --optional", "-@a --", "- ", "%", "*"):
            for n in range(0, 4):
                add("text", 3 ** n, v=v, n=n, pre="%packages\n" + a, post="\n%end\n", **{"as": "section"})
        for body in ("lang x\n", "%include a\n", "%include b\n", "%end\n", "bogus\n", "lang \"\n", "%pre\n", "%post\nx"):
            for n in (0, 1, 2):
                for mf in (True, False):
                    add("include", 5, v=v, n=n, pre="%include ", post="\n", body=body, mf=mf)
        for sec in ("%pre\n", "%packages\n", "%addon x\n"):
            for body in ("x\n", "%end\n", "%include b\n", "%post\n"):
                add("include", 5, v=v, n=1, pre=sec + "%include ", post="\n%end\n", body=body, mf=True)
        store = [c for c in ("autopart", "part", "raid", "volgroup", "logvol", "btrfs", "mount", "clearpart", "ignoredisk", "zfcp",
                             "reqpart", "snapshot", "network", "user", "sshpw", "rootpw", "repo", "bootloader") if c in c14.active(v)]
        for a in store:
            for b in store:
                add("pair", 2, v=v, cs=[a, b])
    return out
