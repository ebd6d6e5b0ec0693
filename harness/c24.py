"""C24: a copy of a handler is complete and independent."""
import copy
import random

from pykickstart.base import BaseData, KickstartCommand
from pykickstart.errors import KickstartError
from pykickstart.parser import KickstartParser
from pykickstart.sections import NullSection
from pykickstart.version import makeVersion
from harness import c14, cmdlib
from harness.c03 import VERSIONS
from harness.c13 import Once, deliver, diff, files_of, snap, spoil

BUDGET = {"quick": 200, "thorough": 3000}
BOUNDS = {"copies": "copy.deepcopy of a handler of every version, before it reads, after it has read a file of up to 6 commands (every "
                    "command of the version occurs), scripts, packages, tolerated sections and platform with symbolic values, or after "
                    "it has been masked, reset or told a method; then up to two things done to either of the two: reading another such "
                    "file, resetting or masking commands, changing every list and table in place, setting values",
          "parsers": "reading with a parser made before or after the copy",
          "data": "copies (copy and deepcopy) of every data object, script and package selection of such a file"}
ENCODED = ["KickstartHandler, BaseHandler, KickstartObject, Packages, Script, KSOptionParser and every command and data class",
           "FC3_Method.__getattr__/__setattr__"]
ASSUMPTIONS = ["alphabet of the engine"]
ISOLATE = True
MUST_REACH = ["copied", "original", "data"]


def start(one, p):
    """The handler to be copied."""
    h = makeVersion(p["v"])
    k = KickstartParser(h)
    if p["pre"] in ("read", "section", "reset", "masked"):
        if p["pre"] == "section":
            k.registerSection(NullSection(h, sectionOpen="%foo"))
        deliver(k, files_of(one, p["v"], p["cmds"], "a") + ("%foo\nx\n%end\n" if p["pre"] == "section" else ""))
    if p["pre"] == "reset":
        h.resetCommand(p["cmds"][0])
        h.packages.excludedList.append("zz")
    if p["pre"] == "masked":
        h.maskAllExcept(p["cmds"][:2])
    if p["pre"] == "method" and "method" in h.commands:
        h.method.method = "url"
        h.method.url = one.string("u", 2, "alnum")
        h.method.method = "nfs"
        h.method.server = one.string("s", 2, "alnum")
    return h, k


def do(one, h, k, p, what):
    """One thing done to a handler; what it gave."""
    if what == "read":
        cmds = p["others"]
        return deliver(k if k is not None else KickstartParser(h), files_of(one, p["v"], cmds, "b") + "bogus\n")
    if what == "same":
        return deliver(k if k is not None else KickstartParser(h), files_of(one, p["v"], p["cmds"], "c"))
    if what == "reset":
        for c in p["cmds"]:
            if h.commands[c] is not None:
                h.resetCommand(c)
    elif what == "mask":
        h.maskAllExcept(p["cmds"][:1])
        return deliver(KickstartParser(h), files_of(one, p["v"], p["cmds"], "d"))
    elif what == "spoil":
        seen = set()
        for n in sorted(h.commands):
            if h.commands[n] is not None:
                spoil(h.commands[n], seen)
        spoil(h.packages, seen)
        for s in h.scripts:
            s.script = s.script + one.string("z", 1, "alnum")
        h.scripts.append(h.scripts[0] if h.scripts else 1)
        h._null_section_strings.append("zz")
        h.platform = "zz"
        return []
    elif what == "method":
        if "method" in h.commands:
            h.method.method = "url"
            h.method.url = one.string("w", 2, "alnum")
    return []


def duplicate(cx, p):
    """The copy looks like the original, then each goes its own way."""
    one = Once(cx)
    h, k = start(one, p)
    c = copy.deepcopy(h)
    cx.check(type(c) is type(h) and c is not h, "kind of the copy")
    cx.check_eq(snap(c), snap(h), "the copy", lambda: repr(diff([snap(c)], [snap(h)])))
    there = {}
    for n in sorted(c.commands):
        a, b = c.commands[n], h.commands[n]
        cx.check((a is None) == (b is None), "active command", lambda: n)
        if a is not None:
            cx.check(a is not b and a.handler is c and b.handler is h, "commands of the copy belong to the copy", lambda: n)
            cx.check(there.setdefault(id(b), a) is a, "names of one command", lambda: n)
            if hasattr(h, n) and getattr(h, n) is b:
                cx.check(getattr(c, n) is a, "attribute of the copy", lambda: n)
    # the same done to a handler that was never copied
    touched, other = (c, h) if p["to"] == "copied" else (h, c)
    h2, k2 = start(one, p)
    want_other = snap(h2)
    kk = k if touched is h and p["late"] else None
    got, want = [], []
    for w in p["do"]:
        got.append(do(one, touched, kk, p, w))
        want.append(do(one, h2, k2 if kk is not None else None, p, w))
    if "spoil" not in p["do"]:
        cx.check_eq([got, snap(touched)], [want, snap(h2)], "what was done afterwards",
                    lambda: repr([p["do"], diff([snap(touched)], [snap(h2)])]))
    cx.check_eq(snap(other), want_other, "the other one", lambda: repr([p["do"], diff([snap(other)], [want_other])]))
    cx.cover(p["to"])


def data(cx, p):
    """Copies of data objects, scripts and packages."""
    one = Once(cx)
    h, k = start(one, p)
    objs = list(h.scripts)
    for n in sorted(h.commands):
        d = h.commands[n].dataList() if h.commands[n] is not None else None
        objs += [x for x in (d or []) if not any(x is y for y in objs)]
    objs.append(h.packages)
    for o in objs:
        t = str(o)
        v = cmdlib.norm(vars(o)) if not isinstance(o, BaseData) else cmdlib.obs(o)
        a, b = copy.copy(o), copy.deepcopy(o)
        for x in (a, b):
            cx.check(type(x) is type(o) and x is not o, "kind of the copy")
            cx.check_eq([str(x), cmdlib.norm(vars(x)) if not isinstance(o, BaseData) else cmdlib.obs(x)], [t, v], "copied data",
                        lambda: repr([type(o), v]))
        spoil(b, set())
        b.lineno = 77
        cx.check_eq([str(o), cmdlib.norm(vars(o)) if not isinstance(o, BaseData) else cmdlib.obs(o)], [t, v], "data of which a copy was changed",
                    lambda: repr([type(o), v]))
    cx.cover("data")


def jobs(tier):
    q = tier == "quick"
    out = []

    def add(h, cost=5, **p):
        out.append({"h": h, "p": p, "cost": cost})
    pres = ["read", "none", "section", "reset", "masked", "method"]
    whats = ["read", "same", "reset", "mask", "spoil", "method"]
    n = 0
    for vi, v in enumerate(c14.ALL):
        fl = c14.files(v, 6)
        r = random.Random(vi)
        for fi, cmds in enumerate(fl):
            add("data", 15, v=v, cmds=cmds, pre="read")
            for j in range(8 if not q else (fi + vi) % 2):
                n += 1
                pre = "read" if j == 0 and fi % 4 > 1 else pres[(n + vi) % len(pres)]
                if pre == "section" and VERSIONS[v] < VERSIONS["F8"]:
                    pre = "read"
                d = [whats[n % 6]] + ([r.choice(whats[:4] + whats[5:])] if n % 3 == 0 and whats[n % 6] not in ("spoil", "mask") else [])
                add("duplicate", 30, v=v, cmds=cmds, others=fl[(fi + 1) % len(fl)], pre=pre, do=d, to=["copied", "original"][(n // 6 + n) % 2], late=n % 2)
    return out
