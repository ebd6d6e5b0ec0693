"""C16: customising a handler affects exactly the named commands."""
import random

from pykickstart.base import BaseData, KickstartCommand
from pykickstart.errors import KickstartParseError
from pykickstart.handlers.control import commandMap, dataMap
from pykickstart.parser import KickstartParser
from pykickstart.version import makeVersion, returnClassForVersion
from harness import c14, cmdlib
from harness.c03 import VERSIONS

BUDGET = {"quick": 150, "thorough": 3000}
BOUNDS = {"override": "every version; an update (or a whole mapping) with one or two names of 2..8 symbolic letters (which "
                      "may be any name of the version, or a new one), likewise for "
                      "data names (a known name with one symbolic letter)",
          "register": "a further class or a further name registered at any later time",
          "mask": "every version; a list of one (thorough two) symbolic names (3..9 letters) against files of several commands, with "
                  "arbitrary symbolic arguments for the others",
          "reset": "every version; histories of up to 5 operations (lines, attribute changes, resets, by any of the names of "
                   "a command) over 2 commands, values of 1..2 symbolic characters; unknown names of 1..4 symbolic letters"}
ENCODED = ["BaseHandler.__init__/_registerCommands/maskAllExcept", "KickstartHandler.registerCommand/registerData/_setCommand/"
           "_insertSorted/resetCommand/dispatcher/__str__", "parse() and __str__ of every command"]
ASSUMPTIONS = ["alphabet of the engine", "a class given by the user has a name of its own",
               "writing out a handler after masking is not claimed", "resetting a masked command is not claimed"]
MUST_REACH = ["override", "new", "whole", "data", "mask", "ignored", "reset", "unknown", "register"]
ALL = c14.ALL


class User_Recorder(KickstartCommand):
    """A command of the user's own."""
    def __init__(self, writePriority=0):
        KickstartCommand.__init__(self, writePriority)
        self.got = []

    def __str__(self):
        return "".join(["recorder " + " ".join(g) + "\n" for g in self.got])

    def parse(self, args):
        self.got = self.got + [args]
        return self


class User_Other(User_Recorder):
    pass


class UserData(BaseData):
    def __init__(self):
        BaseData.__init__(self)


def classes(h):
    return {n: type(o) for n, o in h.commands.items()}


def deliver(h, text):
    """Reads text; 0, or the line of the parse error."""
    with cmdlib.quiet():
        try:
            KickstartParser(h).readKickstartFromString(text)
        except KickstartParseError as e:
            return e.lineno
    return 0


def override(cx, p):
    """Updates replace the named entries and nothing else."""
    ver = p["v"]
    base = commandMap[VERSIONS[ver]]
    s = cx.string("s", p["n"], "lower")
    up = {s: User_Recorder}
    if p["two"]:
        t = cx.string("t", p["m"], "lower")
        cx.assume(s != t)
        up[t] = User_Other
    known = s in base
    cls = returnClassForVersion(VERSIONS[ver])
    h = cls(commandUpdates=up)
    w = cx.string("w", 2, "lower")
    for name, c in sorted(base.items()):
        want = c
        if s == name:
            want = User_Recorder
        elif p["two"] and t == name:
            want = User_Other
        cx.check(type(h.commands[name]) is want, "class of an entry", lambda: name)
        cx.check(h.commands[name].handler is h, "handler of an entry", lambda: name)
    cx.check(type(h.commands[s]) is User_Recorder, "named entry", lambda: s)
    n = len(base) + (0 if known else 1)
    if p["two"]:
        cx.check(type(h.commands[t]) is User_Other, "second named entry", lambda: t)
        if t not in base:
            n = n + 1
    cx.check_eq(len(h.commands), n, "number of entries")
    cx.check_eq(deliver(h, s + " " + w + "\n"), 0, "line of the named command", lambda: s)
    cx.check_eq(h.commands[s].got, [[w]], "arguments of the named command")
    out = [x for x in str(h).split("\n") if x.startswith("recorder")]
    cx.check_eq(out, ["recorder " + w], "written once", lambda: repr(out))
    # nobody else is affected
    other = makeVersion(VERSIONS[ver])
    cx.check(classes(other) == base, "later handler has the standard commands", lambda: repr(s))
    cx.check(h.recorder is h.commands[s], "attribute of the new command")
    cx.cover("override" if known else "new")


def whole(cx, p):
    """A mapping takes the place of the standard one."""
    ver = p["v"]
    base = commandMap[VERSIONS[ver]]
    s = cx.string("s", p["n"], "lower")
    h = returnClassForVersion(VERSIONS[ver])(mapping={s: User_Recorder, "lang": base["lang"]})
    cx.assume(s != "lang")
    cx.check_eq(len(h.commands), 2, "number of entries")
    cx.check_eq(deliver(h, s + " x\nlang y\n"), 0, "lines of the mapping", lambda: s)
    cx.check_eq([h.commands[s].got, h.lang.lang], [[["x"]], "y"], "data of the mapping")
    for name in sorted(base):
        bad = name != "lang" and s != name
        cx.check_eq(deliver(h, "\n" + name + "\n") == 2, bad or name == "lang", "commands outside the mapping", lambda: name)
    cx.cover("whole")


def data(cx, p):
    """The same for data classes."""
    ver = p["v"]
    base = dataMap[VERSIONS[ver]]
    k = p["k"]
    s = p["at"][:k] + cx.string("s", 1, "lower" if k else "alpha") + p["at"][k + 1:]
    cls = returnClassForVersion(VERSIONS[ver])
    h = cls(dataUpdates={s: UserData}) if p["how"] == 0 else cls(dataMapping={s: UserData}) if p["how"] == 1 else cls()
    if p["how"] == 2:
        h.registerData(s, UserData)
    cx.check(getattr(h, s) is UserData, "named data class", lambda: s)
    for name, c in sorted(base.items()):
        if s == name:
            continue
        got = getattr(h, name, None)
        cx.check(got is (None if p["how"] == 1 else c), "other data classes", lambda: name)
    other = makeVersion(VERSIONS[ver])
    for name, c in sorted(base.items()):
        cx.check(getattr(other, name) is c, "data classes of a later handler", lambda: name)
    cx.cover("data")


def register(cx, p):
    """Registering a class later replaces the entry; registering a name for a known class shares the object."""
    ver = p["v"]
    base = commandMap[VERSIONS[ver]]
    s = cx.string("s", p["n"], "lower")
    h = makeVersion(VERSIONS[ver])
    before = dict(h.commands)
    v = cx.string("v", 1, "lower")
    deliver(h, "lang " + v + "\n")
    if p["share"]:
        h.registerCommand(s, base[p["share"]])
        cx.check(h.commands[s] is before[p["share"]], "name for a known class", lambda: s)
        new = before[p["share"]]
    else:
        h.registerCommand(s, User_Recorder)
        cx.check(type(h.commands[s]) is User_Recorder, "new class", lambda: s)
        new = h.commands[s]
    for name in sorted(before):
        cx.check(h.commands[name] is (new if s == name else before[name]), "other entries", lambda: name)
    cx.check(h.commands[s].handler is h, "handler of the entry")
    if s != "lang":
        cx.check_eq(h.lang.lang, v, "data of the others")
        cx.check(("lang " + v) in str(h).split("\n"), "text of the others")
    cx.cover("register")


def mask(cx, p):
    """Only the listed commands do anything."""
    ver = p["v"]
    lst = [cx.string("k%d" % i, n, "lower") for i, n in enumerate(p["n"])] + p["more"]
    text, junk = "", ""
    for i, c in enumerate(p["cmds"]):
        text = text + c14.line(ver, c, cx.string("v%d" % i, 1, "lower"))
    h = makeVersion(VERSIONS[ver])
    fresh = {n: cmdlib.obs(o) for n, o in h.commands.items()}
    objs = dict(h.commands)
    attr = {n: v for n, v in vars(h).items() if isinstance(v, KickstartCommand)}
    h.maskAllExcept(lst)
    for name in sorted(objs):
        cx.check(h.commands[name] is (objs[name] if name in lst else None), "masked entries", lambda: repr([lst, name]))
    cx.check(len(h.commands) == len(objs), "entries kept")
    cx.check_eq(deliver(h, text), 0, "masked commands are ignored", lambda: text)
    on = [c for c in p["cmds"] if c in lst]
    live = makeVersion(VERSIONS[ver])
    deliver(live, "".join([c14.line(ver, c, cx.inputs_of("v%d" % i)) for i, c in enumerate(p["cmds"]) if c in lst]))
    for name in sorted(objs):
        cx.check_eq(cmdlib.obs(objs[name]), cmdlib.obs(live.commands[name]), "data", lambda: repr([lst, name, text]))
    for n in sorted(attr):
        cx.check(getattr(h, n) is attr[n], "attributes stay", lambda: n)
    x = cx.string("x", p["x"], "printable")
    cx.assume("'" not in x)
    cx.assume('"' not in x)
    cx.assume("\\" not in x)
    for name in sorted(objs):
        if name not in lst:
            cx.check_eq(deliver(h, name + " " + x + "\n"), 0, "arguments of masked commands are ignored", lambda: name + " " + x)
            cx.cover("ignored")
            break
    cx.check_eq(deliver(h, "\nzzz\n"), 2, "unknown commands stay errors")
    cx.cover("mask" if on else "ignored")


class Keep(object):
    """Remembers the inputs by name."""
    def __init__(self, cx):
        self.cx = cx
        self.vals = {}

    def string(self, name, n, al):
        self.vals[name] = self.cx.string(name, n, al)
        return self.vals[name]

    def inputs_of(self, name):
        return self.vals[name]

    def __getattr__(self, a):
        return getattr(self.cx, a)


def mask_(cx, p):
    mask(Keep(cx), p)


NAMES = {"part": ["part", "partition"], "graphical": ["graphical", "text", "cmdline"],
         "halt": ["halt", "poweroff", "reboot", "shutdown"], "auth": ["auth", "authconfig"], "install": ["install", "upgrade"]}


def ops_line(ver, c, v):
    return c14.line(ver, c, v)


def attr_of(o):
    return type(o).__name__.split("_", 1)[1].lower()


def reset(cx, p):
    """After a reset a command is as new, under each of its names, and the others are untouched."""
    ver = p["v"]
    h = makeVersion(VERSIONS[ver])
    ref = makeVersion(VERSIONS[ver])
    live = []                  # lines in force
    for i, (op, c) in enumerate(p["ops"]):
        if op == "line":
            t = ops_line(ver, c, cx.string("v%d" % i, 1 + i % 2, "lower"))
            cx.check_eq(deliver(h, t), 0, "line accepted", lambda: t)
            live.append([c, t])
        elif op == "attr":
            h.commands[c].bogus = cx.string("b%d" % i, 1, "lower")
        else:
            old = h.commands[c]
            h.resetCommand(c)
            cx.check(h.commands[c] is not old, "object replaced")
            same = [n for n in ref.commands if ref.commands[n] is ref.commands[c]]
            for n in same:
                cx.check(h.commands[n] is h.commands[c], "the other names of the command", lambda: n)
                cx.check(not hasattr(h.commands[n], "bogus"), "attributes of the old object are gone")
            live = [x for x in live if ref.commands[x[0]] is not ref.commands[c]]
            cx.check(h.commands[c].handler is h, "handler of the new object")
    deliver(ref, "".join([x[1] for x in live]))
    got = [[n, cmdlib.obs(h.commands[n])] for n in sorted(h.commands)]
    want = [[n, cmdlib.obs(ref.commands[n])] for n in sorted(ref.commands)]
    cx.check_eq(got, want, "data after the reset", lambda: repr([p["ops"], [x for x, y in zip(got, want) if x != y]]))
    for n, o in sorted(vars(ref).items()):
        # (in a few versions two commands share an attribute)
        if isinstance(o, KickstartCommand) and len({id(x) for x in ref.commands.values() if attr_of(x) == n}) == 1:
            nm = [k for k in ref.commands if ref.commands[k] is o]
            cx.check(getattr(h, n) is h.commands[nm[0]], "attribute of the handler", lambda: n)
    cx.check_eq(str(h), str(ref), "text after the reset", lambda: repr([p["ops"], str(h), str(ref)]))
    cx.cover("reset")


def unknown(cx, p):
    """Unknown names are refused and change nothing."""
    ver = p["v"]
    h = makeVersion(VERSIONS[ver])
    s = cx.string("s", p["n"], "lower")
    v = cx.string("v", 1, "lower")
    cx.assume(cx.none_of(s, sorted(h.commands)))
    deliver(h, "lang " + v + "\n")
    before = str(h)
    try:
        h.resetCommand(s)
    except KeyError:
        pass
    else:
        cx.fail("unknown name is refused")
    cx.check(s not in h.commands, "no entry appears")
    cx.check_eq(str(h), before, "nothing changes")
    cx.check_eq(deliver(h, "\n\n" + s + " x\n"), 3, "unknown command is an error at its line", lambda: s)
    cx.cover("unknown")


HIST = [[("line", 0), ("reset", 0)], [("line", 0), ("reset", 1)], [("reset", 1), ("line", 0)],
        [("line", 0), ("line", 2), ("reset", 0), ("line", 2)], [("line", 0), ("reset", 0), ("line", 1), ("reset", 1), ("line", 0)],
        [("line", 1), ("attr", 0), ("reset", 0), ("line", 1), ("line", 2)], [("line", 2), ("attr", 1), ("reset", 2), ("reset", 1)],
        [("reset", 0), ("line", 1), ("line", 0)], [("line", 0), ("line", 2), ("reset", 2), ("line", 0)]]


def jobs(tier):
    q = tier == "quick"
    out = []
    for vi, v in enumerate(ALL):
        act = c14.active(v)
        for n in ((2 + vi % 3, 5 + vi % 4) if q else range(2, 9)):
            out.append({"h": "override", "p": {"v": v, "n": n, "m": 4, "two": False}, "cost": 30})
            if not q or vi % 12 == 0:
                out.append({"h": "override", "p": {"v": v, "n": n, "m": 3 + n % 5, "two": True}, "cost": 300})
            if not q or vi % 3 == 0:
                out.append({"h": "whole", "p": {"v": v, "n": n}, "cost": 30})
            if not q or vi % 3 == 1:
                out.append({"h": "register", "p": {"v": v, "n": n, "share": ["", "lang", act[vi % len(act)]][vi % 3]}, "cost": 30})
            if not q or vi % 3 == 2:
                out.append({"h": "unknown", "p": {"v": v, "n": 1 + n % 5}, "cost": 10})
        names = sorted(dataMap[VERSIONS[v]])
        for how in (0, 1, 2):
            if q and how != vi % 3:
                continue
            for k in range(0, len(names), 12 if q else 1):
                at = names[(k + vi) % len(names)]
                out.append({"h": "data", "p": {"v": v, "how": how, "at": at, "k": (vi + k) % (len(at) - 4)}, "cost": 50})
        fs = c14.files(v, 4)
        for i in ([vi % len(fs)] if q else range(len(fs))):
            cmds = fs[i]
            n = [len(cmds[0]), len(cmds[1])][:1 if q else 2]
            out.append({"h": "mask_", "p": {"v": v, "cmds": cmds, "n": n, "more": [cmds[2]], "x": 1 if q else 2}, "cost": 30 if q else 600})
        r = random.Random(vi)
        pool = [c for c in act if c not in ("lilo", "multipath", "realm")]      # cannot be repeated
        for i in range(0, len(pool), 6 if q else 1):
            a = pool[(i + vi) % len(pool)]
            al = NAMES.get(c14.cls_of(a), [a])
            al = [x for x in al if x in act and type_of(v, x) is type_of(v, a)] or [a]
            b = [c for c in pool if not c14.clash([a], c) and c not in al]
            b = b[(i * 7 + vi) % len(b)]
            for k, hist in enumerate(HIST):
                if q and (i // 6 + k + vi) % 3:
                    continue
                ops = [(o, [a, al[(al.index(a) + 1) % len(al)], b][j]) for o, j in hist]
                out.append({"h": "reset", "p": {"v": v, "ops": ops}, "cost": 4})
        for grp in sorted(NAMES):
            al = [x for x in NAMES[grp] if x in act]
            if len(al) > 1 and type_of(v, al[0]) is type_of(v, al[1]):
                for k, hist in enumerate(HIST):
                    if q and (k + vi) % 3:
                        continue
                    ops = [(o, [al[0], al[1], "lang"][j]) for o, j in hist]
                    out.append({"h": "reset", "p": {"v": v, "ops": ops}, "cost": 4})
    return out


def type_of(v, c):
    return commandMap[VERSIONS[v]][c]
