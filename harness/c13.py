"""C13: independent handlers and parsers never influence each other."""
import random

from pykickstart.base import BaseData, KickstartCommand
from pykickstart.errors import KickstartError
from pykickstart.parser import Group, KickstartParser, Packages, Script
from pykickstart.sections import NullSection
from pykickstart.version import makeVersion, returnClassForVersion
from harness import c14, cmdlib
from harness.c03 import SETS, TABLE, VERSIONS
from harness.c11 import all_of
from harness.c16 import User_Recorder
from harness.cmdspec import GROUPS, SHAPES

BUDGET = {"quick": 200, "thorough": 3000}
BOUNDS = {"histories": "two handlers (same and different versions, every version at least twice), the first one doing one of 14 "
                       "things (reading good or faulty files with symbolic values of every command, scripts, packages, tolerated "
                       "sections; overriding, masking, resetting, registering sections, changing every list and table in "
                       "place, stopping inside a section, including files elsewhere) before the second is created, before it "
                       "reads, between two of its reads, or after it has read",
          "data": "two data objects of every data class of every version"}
ENCODED = ["makeVersion", "KickstartHandler/BaseHandler", "KickstartParser", "sections", "Packages, Script", "every command and data "
           "class with its parser"]
ASSUMPTIONS = ["alphabet of the engine"]
ISOLATE = True
MUST_REACH = ["before", "after", "between", "early", "data", "later"]


def snap(h):
    d = all_of(h)
    d["names"] = sorted(h.commands)
    d["null"] = list(h._null_section_strings)
    return d


def deliver(k, text, reset=True):
    """Reads text; line of the error (or 0), number of warnings and reports."""
    with cmdlib.quiet() as q:
        try:
            k.readKickstartFromString(text, reset=reset)
            r = 0
        except KickstartError as e:
            r = e.lineno
    return [r, len(q.w), q.err.reports(), k.errorsCount]


def spoil(o, seen):
    """Changes every list and table of an object in place."""
    if id(o) in seen:
        return
    seen.add(id(o))
    for k, v in sorted(vars(o).items()):
        if k in ("handler", "op"):
            continue
        if isinstance(v, list):
            for x in v:
                if isinstance(x, (BaseData, KickstartCommand)):
                    spoil(x, seen)
                elif isinstance(x, (Group, Script)):
                    for a in sorted(vars(x)):
                        setattr(x, a, "spoilt")
            v.append("spoilt")
        elif isinstance(v, dict):
            v["spoilt"] = 1
        elif isinstance(v, set):
            v.add("spoilt")
        elif isinstance(v, (BaseData, KickstartCommand)):
            spoil(v, seen)


def files_of(cx, ver, cmds, tag, sym=True):
    t = "#platform=x86_" + tag + "\n"
    for i, c in enumerate(cmds):
        t = t + c14.line(ver, c, cx.string(tag + str(i), 2, "alnum") if sym else "q" + tag)
    if VERSIONS[ver] >= VERSIONS["F8"]:
        s = cx.string(tag + "s", 2, "alnum")
        t = t + "%pre --log=/l --interpreter=/i" + tag + "\n" + s + "\n%end\n%post --nochroot\ny" + s + "\n%end\n"
        t = t + "%packages --ignoremissing --excludedocs\n" + s + "\n-x" + s + "\n@g" + s + "\n%end\n"
        if VERSIONS[ver] >= VERSIONS["F18"]:
            t = t + "%addon a" + tag + " --x\nb" + s + "\n%end\n"
    return t


def act(cx, kind, ver, cmds, fs):
    """What the first handler and its parser do."""
    def handler():
        return makeVersion(ver)
    if kind == "override":
        h = returnClassForVersion(ver)(commandUpdates={c: User_Recorder for c in cmds[:3]})
        deliver(KickstartParser(h), cmds[0] + " x\n")
        return h
    h = handler()
    if kind == "read":
        deliver(KickstartParser(h), files_of(cx, ver, cmds, "a"))
    elif kind == "faulty":
        k = KickstartParser(h, errorsAreFatal=False)
        deliver(k, "".join(c + " --zz9\n" + c14.line(ver, c, "v") for c in cmds) + "bogus\n%zz\n")
        deliver(KickstartParser(h), "%packages --default\n@^e\n%post --interpreter=/zz\nhalf\n")
        deliver(KickstartParser(h), "%pre --zz9 --erroronfail\nx\n%end\n")
    elif kind == "mask":
        h.maskAllExcept(cmds[:1])
    elif kind == "reset":
        deliver(KickstartParser(h), files_of(cx, ver, cmds, "a"))
        for c in cmds:
            h.resetCommand(c)
    elif kind == "register":
        h.registerCommand(cmds[0], User_Recorder)
        h.registerCommand("newone", User_Recorder)
    elif kind == "section":
        k = KickstartParser(h)
        k.registerSection(NullSection(h, sectionOpen="%foo"))
        k.registerSection(NullSection(h, sectionOpen="%pre"))
        deliver(k, "%foo --x\nb\n%end\n%pre --zz\nb\n%end\n")
    elif kind == "unknown":
        k = KickstartParser(h, unknownSectionIsFatal=False)
        deliver(k, "%foo --x\nb\n%end\n")
    elif kind == "spoil":
        deliver(KickstartParser(h), files_of(cx, ver, cmds, "a"))
        seen = set()
        for n in sorted(h.commands):
            if h.commands[n] is not None:
                spoil(h.commands[n], seen)
        spoil(h.packages, seen)
        h.scripts.append(1)
        h._null_section_strings.append("spoilt")
        h.commands.pop(cmds[0])
    elif kind == "fresh":
        seen = set()
        for n in sorted(h.commands):
            if h.commands[n] is not None:
                spoil(h.commands[n], seen)
        spoil(h.packages, seen)
        for n in sorted(vars(type(h))):
            pass
    elif kind == "parser":
        k = KickstartParser(h)
        for c in sorted(k._sections):
            k._sections[c].__dict__["sectionOpen"] = "%moved"
        k._sections.clear()
    elif kind == "include":
        fs.put("other/x.ks", "lang other\n%include y.ks\n")
        fs.put("other/y.ks", "keyboard other\n")
        with cmdlib.quiet():
            KickstartParser(h).readKickstart(fs.root + "/other/x.ks")
    elif kind == "flags":
        deliver(KickstartParser(h, followIncludes=False, errorsAreFatal=False, missingIncludeIsFatal=False,
                                unknownSectionIsFatal=False), files_of(cx, ver, cmds, "a") + "bogus\n")
    elif kind == "create":
        KickstartParser(h)
        Packages()
        Script("x")
    elif kind == "lists":
        d = [c.dataList() for c in h.commands.values() if c is not None and c.dataList() is not None]
        for x in d:
            x.append("spoilt")
    return h


KINDS = ["read", "faulty", "mask", "reset", "register", "section", "unknown", "spoil", "fresh", "parser", "include", "flags",
         "create", "lists", "override"]


def second(cx, ver, cmds, when, first):
    """What the second handler gives; first() happens at the named moment."""
    out = []
    if when == "before":
        first()
    h = makeVersion(ver)
    if when == "early":
        first()
    k = KickstartParser(h)
    if when == "later":
        first()
    out.append(deliver(k, files_of(cx, ver, cmds, "b")))
    if when == "between":
        first()
    t = "".join(c14.line(ver, c, "second") for c in cmds if h.commands[c].dataList() is not None)
    out.append(deliver(k, t, False))
    out.append(deliver(k, "bogus\n", False))
    if when == "after":
        first()
    out.append(snap(h))
    out.append(deliver(k, "%foo\nx\n%end\n"))
    out.append(snap(makeVersion(ver)))
    return out


class Once(object):
    """Gives the same symbolic inputs in both runs."""
    def __init__(self, cx):
        self.cx = cx
        self.got = {}

    def string(self, name, n, alph):
        if name not in self.got:
            self.got[name] = self.cx.string(name, n, alph)
        return self.got[name]


def independent(cx, p):
    fs = cx.fs()
    one = Once(cx)
    alone = second(one, p["v"], p["cmds"], None, None)
    got = second(one, p["v"], p["cmds"], p["when"], lambda: act(one, p["kind"], p["w"], p["others"], fs))
    if len(alone) != len(got):
        cx.fail("number of results")
    cx.check_eq(got, alone, "what the second handler gives", lambda: repr([p["kind"], diff(got, alone)]))
    cx.cover(p["when"])


def diff(a, b):
    out = []
    for x, y in zip(a, b):
        if isinstance(x, dict):
            out += [(k, x.get(k), y.get(k)) for k in sorted(set(x) | set(y)) if x.get(k) != y.get(k)]
        elif x != y:
            out.append((x, y))
    return out


def data(cx, p):
    """Two data objects share nothing."""
    h = cmdlib.pool(p["v"])
    for c in sorted(h.commands):
        cls = getattr(h.commands[c], "dataClass", None) if h.commands[c] is not None else None
        if cls is None:
            continue
        a = cls()
        want = cmdlib.obs(cls())
        text = str(cls())
        b = cls()
        spoil(a, set())
        d = cls()
        cx.check_eq([cmdlib.obs(b), cmdlib.obs(d)], [want, want], "another data object", lambda: repr([c, cls]))
        cx.check_eq([str(b), str(d)], [text, text], "another data object written", lambda: repr([c, cls]))
    for cls in (Packages, lambda: Script("x")):
        a, b = cls(), cls()
        want = cmdlib.norm({k: v for k, v in vars(cls()).items()})
        spoil(a, set())
        cx.check_eq([cmdlib.norm(vars(b)), cmdlib.norm(vars(cls()))], [want, want], "another object")
    cx.cover("data")


def jobs(tier):
    q = tier == "quick"
    out = []

    def add(h, cost=5, **p):
        out.append({"h": h, "p": p, "cost": cost})
    whens = ["before", "early", "later", "between", "after"]
    n = 0
    for vi, v in enumerate(c14.ALL):
        add("data", 10, v=v)
        r = random.Random(vi)
        fl = c14.files(v, 6)
        for ki, kind in enumerate(KINDS):
            ws = [v, c14.ALL[(vi * 7 + ki * 5) % len(c14.ALL)]]
            if VERSIONS[v] >= VERSIONS["F8"]:
                ws.append(["FC3", "F34"][ki % 2])
            for w in ws[:2 if q else 3]:
                cmds = fl[(n + ki) % len(fl)]
                mine = cmds if w == v else [c for c in cmds if c in c14.active(w)] or c14.files(w, 4)[0]
                for when in (whens if not q else [whens[n % 5]] if kind not in ("read", "spoil") else [whens[n % 5], whens[(n + 2) % 5]]):
                    add("independent", 20, v=v, w=w, kind=kind, when=when, cmds=cmds, others=mine)
                n += 1
        if not q:
            for cmds in fl:
                for when in whens:
                    for kind in ("read", "spoil", "faulty", "reset"):
                        add("independent", 20, v=v, w=v, kind=kind, when=when, cmds=cmds, others=cmds)
        else:
            for i, cmds in enumerate(fl):
                add("independent", 20, v=v, w=v, kind=["read", "spoil", "reset", "faulty"][(i + vi) % 4], when=whens[(i + vi) % 5], cmds=cmds, others=cmds)
    return out
