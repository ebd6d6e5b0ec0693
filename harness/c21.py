"""C21: data given by a program is the same as data read from a file."""
import warnings

from pykickstart.errors import KickstartError, KickstartParseWarning
from pykickstart.parser import KickstartParser
from pykickstart.version import makeVersion
from harness import c14, cmdlib, cmdspec
from harness.c01 import command_text, state
from harness.c03 import SETS, TABLE, VERSIONS
from harness.cmdlib import SKIP, line_of, obs, parse_line
from harness.cmdspec import GROUPS

BUDGET = {"quick": 200, "thorough": 3000}
BOUNDS = {"commands": "all command classes in the contexts of spec/bases.py; quick: newest version of each class, thorough: every "
                      "version",
          "values": "each option alone and a covering array of option sets, texts of 1..2 (thorough 1..4) characters that need no "
                    "shell quoting, integers as in C02",
          "calls": "every attribute of every command and data class of every version, set to texts, true and false values and None",
          "mount": "devices that are not mounted, with symbolic names and formats, every version",
          "unknown keywords": "fixed names; every removed attribute and keyword of every class of every version"}
ENCODED = ["__init__ and __str__ of every command and data class", "KickstartCommand.__call__", "BaseData.__call__",
           "parse() of every command"]
ASSUMPTIONS = ["alphabet of the engine", "public attributes are those a new object has"]
MUST_REACH = ["data", "command", "ignored"]


# Only the source that was chosen last is written, so it has to be marked.
SOURCES = ("harddrive", "liveimg", "nfs", "url", "cdrom", "hmc")


def attributes(o):
    """The public attributes of an object, as they are (not copied)."""
    keys = list(vars(type(o)()))
    if isinstance(getattr(type(o), "_keyboard", None) or getattr(type(o), "keyboard", None), property):
        keys.append("_keyboard")
    return {k: v for k, v in vars(o).items() if k in keys and k not in SKIP and (k == "_keyboard" or not k.startswith("_")) and not callable(v)}


def program(cx, p, cmd, text):
    """The same data through the constructor, by a call, and by assignment."""
    ver = p["v"]
    h = cmdlib.pool(ver)
    try:
        parse_line(h, text)
    except KickstartError:
        cx.assume(False)
    c = h.commands[cmd]
    lst = c.dataList()
    out = command_text(str(c))
    for o in lst or ():
        for k in o.removedAttrs:
            cx.assume(not hasattr(o, k))        # left by a deprecated option; no program can set it
    if lst is None:
        a = attributes(c)
        want = obs(c)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cx.check_eq(obs(type(c)(**a)), want, "keywords of the constructor", lambda: text)
        h2 = cmdlib.pool(ver, 1)
        d = h2.commands[cmd]
        try:
            d(**a)
            cx.check(d.seen, "command called is seen", lambda: text)
            d.currentCmd = cmd          # so that the pool restores it
            cx.check_eq(obs(d), want, "keywords of a call", lambda: text)
            cx.check_eq(command_text(str(d)), out, "written after a call", lambda: text)
        finally:
            d.currentCmd = cmd
        h2 = cmdlib.pool(ver, 1)
        d = h2.commands[cmd]
        d.currentCmd = cmd
        for k in a:
            setattr(d, k, a[k])
        d.seen = cmd in SOURCES
        if want != obs(type(c)()):
            cx.check_eq(command_text(str(d)), out, "written after assignment", lambda: text)
        cx.cover("command")
        return
    want = [obs(o) for o in lst]
    h2 = cmdlib.pool(ver, 1)
    d = h2.commands[cmd]
    d.currentCmd = cmd
    for i, o in enumerate(lst):
        a = attributes(o)
        new = type(o)(**a)
        cx.check_eq(obs(new), want[i], "keywords of the constructor of data", lambda: text)
        new = type(o)()
        new(**a)
        cx.check_eq(obs(new), want[i], "keywords of a call of data", lambda: text)
        d.dataList().append(new)
    a = {k: v for k, v in attributes(c).items() if not isinstance(v, list)}
    d(**a)
    cx.check_eq(command_text(str(d)), out, "written after appending", lambda: text)
    cx.cover("data")


def single(cx, p):
    ids = p["ids"]
    i = cx.choose("i", len(ids))
    ln = p["lens"][cx.choose("n", len(p["lens"]))]
    cmd = GROUPS[p["g"]]["command"]
    args, _parts = cmdspec.build(cx, cmd, p["s"], [ids[i]], ln - 1, "word", "C01", False)
    program(cx, p, cmd, line_of(cmd, args))


def row(cx, p):
    i = cx.choose("i", len(p["rows"]))
    cmd = GROUPS[p["g"]]["command"]
    args, _parts = cmdspec.build(cx, cmd, p["s"], p["rows"][i], p["ln"] + i % 3, "rowword", "C01r", False)
    program(cx, p, cmd, line_of(cmd, args))


def ignored(cx, p):
    """Unknown and removed keywords change nothing."""
    ver = p["v"]
    h = cmdlib.pool(ver)
    s = cx.string("s", 2, "any")
    for cmd in p["cmds"]:
        c = h.commands[cmd]
        objs = [c]
        if c.dataClass is not None:
            objs.append(c.dataClass())
        for o in objs:
            before = obs(o)
            names = set(vars(o))
            o(zz_unknown=s)
            for a in o.removedAttrs:
                o(**{a: s})
            c.currentCmd = cmd
            cx.check_eq(obs(o), before, "unknown keywords", lambda: repr([cmd, o]))
            cx.check_eq(set(vars(o)) - {"currentCmd"}, names - {"currentCmd"}, "no new attributes", lambda: repr([cmd, set(vars(o)) - names]))
            for a in o.removedAttrs:
                cx.check(not hasattr(o, a), "removed attribute", lambda: repr([cmd, a]))
            for a in o.removedKeywords:
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    o2 = type(o)(**{a: s})
                cx.check_eq(len([x for x in w if issubclass(x.category, KickstartParseWarning)]), 1, "removed keyword warned", lambda: repr([cmd, a]))
                cx.check_eq(obs(o2), obs(type(o)()), "removed keyword ignored", lambda: repr([cmd, a]))
    cx.cover("ignored")


def nomount(cx, p):
    """A device of the mount command that is not mounted is written, and reads back, as none."""
    h = makeVersion(p["v"])
    kw = {"device": "/dev/" + cx.string("d", 2, "alnum"), "reformat": True, "format": cx.string("f", 1, "alnum")}
    if p["mp"] is not None:
        kw["mount_point"] = p["mp"]
    h.mount.mount_points.append(h.mount.dataClass(**kw))
    text = str(h.mount)
    g = makeVersion(p["v"])
    with cmdlib.quiet():
        try:
            KickstartParser(g).readKickstartFromString(text)
        except KickstartError as e:
            cx.fail("written line refused", lambda: repr([text, e]))
    a = obs(g.mount.mount_points[0])
    cx.check_eq([len(g.mount.mount_points), a["mount_point"], a["device"], a["format"], a["reformat"]],
                [1, "none", kw["device"], kw["format"], True], "written mount command", lambda: text)
    cx.check_eq(str(g.mount), text, "written again")
    cx.cover("data")


def off(cx, p):
    """Keywords of a call also turn settings off."""
    h = cmdlib.pool(p["v"])
    for cmd in p["cmds"]:
        c = h.commands[cmd]
        objs = [c] + ([c.dataClass()] if c.dataClass is not None else [])
        for o in objs:
            for a in sorted(vars(o)):
                if a[:1] == "_" or a in OWN:
                    continue
                for x in (cx.string("x_" + a, 1, "alnum") if p["sym"] else "x", False, 0, "", True, None, [], 5):
                    o(**{a: x})
                    cx.check_eq(getattr(o, a), x, "value given", lambda: repr([cmd, a, x]))
                    cx.check(type(getattr(o, a)) is type(x), "type of the value", lambda: repr([cmd, a, x]))
    cx.cover("command")


OWN = ("handler", "op", "currentCmd", "currentLine", "lineno", "seen", "writePriority", "dataClass")


def jobs(tier):
    q = tier == "quick"
    out = []
    for g, s, v in cmdspec.pairs("ends" if q else "all"):
        cmd = GROUPS[g]["command"]
        base = {"g": g, "s": s, "v": v}
        newest = v == GROUPS[g]["versions"][-1]
        ids = sorted(cmdspec.usable(cmd, s, "C01"))
        if newest or not q:
            lens = [1] if q else [1, 2, 3, 4]
            for k in range(0, len(ids), 12):
                out.append({"h": "single", "p": dict(base, ids=ids[k:k + 12], lens=lens), "cost": len(lens) * 12})
            rs = cmdspec.rows(cmd, s, "C01r", 3 if q else 16)
            for k in range(0, len(rs), 8):
                out.append({"h": "row", "p": dict(base, rows=rs[k:k + 8], ln=0), "cost": sum(map(len, rs[k:k + 8]))})
    for v in c14.ALL:
        cmds = [c for c in sorted(TABLE[v]) if SETS[TABLE[v][c]]["kind"] == "active" and c != "method"]
        for k in range(0, len(cmds), 20):
            out.append({"h": "ignored", "p": {"v": v, "cmds": cmds[k:k + 20]}, "cost": 5})
        for k in range(0, len(cmds), 20):
            out.append({"h": "off", "p": {"v": v, "cmds": cmds[k:k + 20], "sym": not q}, "cost": 5})
        if "mount" in cmds:
            for mp in (None, "", "none"):
                out.append({"h": "nomount", "p": {"v": v, "mp": mp}, "cost": 3})
    return out
