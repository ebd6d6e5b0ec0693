"""C11: error counting, recovery, and the validator's verdict."""
import random
import warnings

from pykickstart.base import KickstartCommand
from pykickstart.errors import KickstartError, KickstartParseError
from pykickstart.parser import KickstartParser
from harness import c14, cmdlib
from harness.c03 import SETS, TABLE, VERSIONS
from harness.c07 import view
from harness.c08 import selection, settings
from tools import ksvalidator

BUDGET = {"quick": 150, "thorough": 3000}
BOUNDS = {"recovery": "every version: files of 5 (thorough: 3..7) commands (every command of the version occurs) with symbolic "
                      "values, scripts, package and tolerated sections, and up to 6 faulty lines (unknown commands and "
                      "options with symbolic names, bad values, missing arguments, headers of script, package and other "
                      "sections with unknown options) at every place; in non-fatal and fatal mode",
          "order": "every order of up to 4 (thorough: 5) lines out of good commands, faulty commands, comments, sections and "
                   "sections with a faulty header, with symbolic names",
          "validator": "files of up to 4 such lines, deprecated commands, options and sections, duplicates, appends, includes "
                       "(present, missing, faulty), every combination of -e and -i, several versions; version names of up to "
                       "4 symbolic characters; input that is missing, a directory, not text, empty, or remote"}
ENCODED = ["KickstartParser._tryFunc/_stateMachine/_readSection/handleCommand", "KickstartHandler.dispatcher",
           "Section.handleHeader of every section", "ksvalidator.main/cleanup", "parser.preprocessKickstart",
           "load.load_to_file", "parse() of every command"]
ASSUMPTIONS = ["alphabet of the engine", "the network is a stub", "unknown sections, unterminated sections, missing includes and "
               "unbalanced quotes end the parse in either mode", "the effect of a faulty line on its own item is not claimed"]
MUST_REACH = ["recovered", "stopped", "valid", "invalid", "version", "unreadable"]


def all_of(h):
    out = {"str": str(h), "scripts": [view(s) for s in h.scripts], "packages": selection(h.packages),
           "settings": settings(h.packages), "platform": h.platform}
    for n in sorted(h.commands):
        c = h.commands[n]
        if isinstance(c, KickstartCommand):
            lst = c.dataList()
            out["c " + n] = cmdlib.obs(c) if lst is None else cmdlib.norm(list(lst))
    return out


def read(h, text, **kw):
    k = KickstartParser(h, **kw)
    with cmdlib.quiet() as q:
        try:
            k.readKickstartFromString(text)
            r = None
        except KickstartError as e:
            r = e
    return k, r, q


def reports(q):
    """Number of problems reported on standard error."""
    return q.err.reports()


def recovery(cx, p):
    """Faulty lines are counted and reported, and the rest is read as if they were absent."""
    ver = p["v"]
    lines = []
    n = 0
    for i, item in enumerate(p["items"]):
        kind, arg = item
        if kind == "c":
            lines.append((False, c14.line(ver, arg, cx.string("v%d" % i, 2, "alnum"))))
        elif kind == "o":
            lines.append((True, arg + " --" + cx.string("f%d" % i, 2, "lower") + "9\n"))
        elif kind == "u":
            lines.append((True, "zz" + cx.string("f%d" % i, 2, "lower") + "9 x\n"))
        elif kind == "b":
            lines.append((True, arg))
        elif kind == "h":
            lines.append((True, arg + " --" + cx.string("f%d" % i, 1, "lower") + "9\n" + "%end\n"))
        else:
            lines.append((False, arg))
    full = "".join(t for _b, t in lines)
    good = "".join(t for b, t in lines if not b)
    bad = [i for i, (b, _t) in enumerate(lines) if b]
    first = 1 + sum(t.count("\n") for _b, t in lines[:bad[0]])
    h2 = cmdlib.pool(ver, 1)
    _k, r, _q = read(h2, good)
    cx.check(r is None, "file without the faulty lines refused", lambda: repr([r, good]))
    want = all_of(h2)
    h1 = cmdlib.pool(ver)
    k, r, q = read(h1, full, errorsAreFatal=False)
    cx.check(r is None, "error not tolerated", lambda: repr([r, full]))
    cx.check_eq(k.errorsCount, len(bad), "errors counted", lambda: full)
    cx.check_eq(reports(q), len(bad), "errors reported", lambda: full)
    got = all_of(h1)
    cx.check_eq(got, want, "the rest of the file", lambda: repr([full, {x: (got[x], want[x]) for x in got if got[x] != want[x]}]))
    cx.cover("recovered")
    if p["fatal"]:
        h1 = cmdlib.pool(ver)
        k, r, q = read(h1, full)
        cx.check(isinstance(r, KickstartParseError), "first error tolerated", lambda: full)
        cx.check_eq([r.lineno, k.errorsCount], [first, 1], "line of the first error", lambda: repr([r.lineno, first, full]))
        h2 = cmdlib.pool(ver, 1)
        head = "".join(t for _b, t in lines[:bad[0]])
        read(h2, head)
        got, want = all_of(h1), all_of(h2)
        if p["items"][bad[0]][0] in "uo":
            own = p["items"][bad[0]][1]
            for d in (got, want):
                d.pop("str")
                for c in list(d):
                    if c == "c method" or c[:2] == "c " and c14.cls_of(c[2:]) == c14.cls_of(own):
                        d.pop(c)
            cx.check_eq(got, want, "what came before the first error", lambda: repr([full, got, want]))
        cx.cover("stopped")


# Lines of the order check: (name, text, faulty); ~ is a symbolic name.
PIECES = {"g": ("lang ~\n", 0), "G": ("user --name=~\n", 0), "c": ("# ~\n", 0), "u": ("bo9~\n", 1), "o": ("lang --~9\n", 1),
          "m": ("rootpw\n", 1), "v": ("keyboard\n", 1), "s": ("%pre\n~\n%end\n", 0), "S": ("%pre --~9\nXX\n%end\n", 1),
          "p": ("%packages\n~\n%end\n", 0), "P": ("%packages --~9\n%end\n", 1), "q": ("%post --interpreter\nXX\n%end\n", 1),
          "a": ("%addon ~\nx\n%end\n", 0), "t": ("timezone --utc ~\n", 0), "x": ("network --bootproto=~9\n", 1),
          "n": ("keyboard ~\n", 0)}


def piece(cx, name, i, k):
    t, bad = PIECES[name]
    a, m, b = t.partition("~")
    return (a + cx.string("s%d" % i, k, "lower") + b if m else t), bad


def order(cx, p):
    """Every mix and order."""
    ver = p["v"]
    parts = [piece(cx, x, i, 2 if i < 2 else 1) for i, x in enumerate(p["seq"])]
    full = "".join(t for t, _b in parts)
    nbad = sum(b for _t, b in parts)
    h1 = cmdlib.pool(ver)
    k, r, q = read(h1, full, errorsAreFatal=False)
    cx.check(r is None, "error not tolerated", lambda: repr([r, full]))
    cx.check_eq([k.errorsCount, reports(q)], [nbad, nbad], "errors counted and reported", lambda: full)
    h2 = cmdlib.pool(ver, 1)
    _k, r, _q = read(h2, "".join(t for t, b in parts if not b))
    cx.check(r is None, "file without the faulty lines refused")
    d1, d2 = all_of(h1), all_of(h2)
    if "S" in p["seq"] or "q" in p["seq"]:      # a script with a faulty header may be kept
        d1["scripts"] = [s for s in d1["scripts"] if s[1] != "XX\n"]
        d1.pop("str")
        d2.pop("str")
    cx.check_eq(d1, d2, "the rest of the file", lambda: repr([full, d1, d2]))
    # the same parser once more: counting goes on, the result is that of the second file
    cx.cover("recovered")
    h1 = cmdlib.pool(ver)
    k, r, q = read(h1, full)
    if not nbad:
        cx.check(r is None, "good file refused")
        cx.check_eq([k.errorsCount, reports(q)], [0, 0], "errors of a good file")
        return
    before = 0
    line = 1
    for t, b in parts:
        if b:
            break
        line += t.count("\n")
        before += 1
    cx.check(isinstance(r, KickstartParseError), "first error tolerated", lambda: full)
    cx.check_eq([k.errorsCount, r.lineno], [1, line], "line of the first error", lambda: repr([r.lineno, line, full]))
    h2 = cmdlib.pool(ver, 1)
    read(h2, "".join(t for t, _b in parts[:before]))
    d1, d2 = all_of(h1), all_of(h2)
    cx.check_eq(d1, d2, "what came before the first error", lambda: repr([full, d1, d2]))
    cx.cover("stopped")


def same(cx, p):
    """Errors that look the same are errors all the same: included files, and the same file or text again."""
    ver = p["v"]
    fs = cx.fs()
    s = cx.string("s", 2, "lower")
    body = {"u": "bo9" + s + "\n", "o": "lang --" + s + "9\n", "m": "rootpw\n", "P": "%packages --" + s + "9\n%end\n",
            "n": "network --bootproto=" + s + "9\n"}[p["f"]]
    fs.put("one.ks", body)
    fs.put("two.ks", body if p["eq"] else "keyboard " + s + "\n")
    files = ["one.ks", "two.ks", "one.ks", "main"][:p["k"]]
    text = ""
    bad = 0
    for f in files:
        if f == "main":
            text = body + text if p["top"] else text + body
            bad += 1
        else:
            text = text + "%include " + (fs.root + "/" if p["string"] else "") + f + "\n"
            bad += 1 if f == "one.ks" or p["eq"] else 0
    text = text + "timezone " + s + "\n"
    main = fs.put("main.ks", text)
    h = cmdlib.pool(ver)
    k = KickstartParser(h, errorsAreFatal=False)
    for again in range(2):
        with cmdlib.quiet() as q:
            if p["string"]:
                k.readKickstartFromString(text)
            else:
                k.readKickstart(main)
        cx.check_eq([k.errorsCount, reports(q)], [bad * (again + 1), bad], "errors counted and reported", lambda: repr([text, k.errorsCount, reports(q), bad]))
        cx.check_eq(h.timezone.timezone, s, "the line after the errors")
        if not p["again"]:
            break
    cx.cover("recovered")


# -- the validator -----------------------------------------------------------
def validate(argv):
    """(exit status, reports on standard error)."""
    with cmdlib.quiet() as q:
        with warnings.catch_warnings():
            r, msgs = ksvalidator.main(argv)
    return r, reports(q), msgs


# text, number of errors when all are counted, deprecated (a warning outside any command)
VPIECES = {"dup": ("user --name=~\nuser --name=~\n", 1, 0), "dep": (None, 1, 0), "trace": ("%traceback\n~\n%end\n", 1, 0),
           "unk": ("%zz~\nx\n%end\n", 0, 2), "open": ("%post\n~\n", 0, 2), "app": ("%ksappend FS/good\n", 0, 0),
           "appbad": ("%ksappend FS/bad\n", 2, 0), "appno": ("%ksappend FS/no~\n", 0, 3), "inc": ("%include FS/good\n", 0, 0),
           "incbad": ("%include FS/bad\n", "i2", 0), "incno": ("%include FS/no~\n", 0, "i"), "quote": ("lang \"~\n", 0, 2),
           "bare": ("%include\n", 0, 2)}


def validator(cx, p):
    """The exit status is zero exactly for a file without errors and warnings; nothing stays behind."""
    ver = p["v"]
    fs = cx.fs()
    fs.put("good", "keyboard aa\n")
    fs.put("bad", "bad9 aa\nbad9 bb\n")
    text = ""
    errors, stop = 0, False
    incl = "-i" in p["opts"]
    for i, name in enumerate(p["seq"]):
        if name in PIECES:
            t, b = piece(cx, name, i, 2 if i == 0 else 1)
            w = 0
        else:
            t, b, w = VPIECES[name]
            if t is None:
                t = p["dep"] + "\n"
            t = t.replace("FS", fs.root)
            a = t.split("~")
            if len(a) > 1:
                s = cx.string("s%d" % i, 1, "lower")
                t = a[0]
                for x in a[1:]:
                    t = t + s + x
            if b == "i2":
                b = 2 if incl else 0
            if w == "i":
                w = 2 if incl else 0
        text = text + t
        if w == 3:          # preprocessing fails before anything is read
            stop = "pre"
        elif not stop:
            errors += b
            if w:
                stop = True
    main = fs.put("d/main.ks", text)
    r, n, msgs = validate(["-v", ver] + p["opts"] + [main])
    cx.check_eq(fs.leftovers(), [], "temporary files removed", lambda: repr(fs.leftovers()))
    cx.check_eq(fs.read(main), text, "the file itself is left alone")
    if stop or (errors and "-e" in p["opts"]):
        cx.check_eq([r, len(msgs) > 0], [1, True], "exit status", lambda: repr([r, msgs, text]))
        cx.cover("invalid")
    else:
        cx.check_eq([r, n], [errors, errors], "exit status is the number of errors", lambda: repr([r, n, errors, text]))
        cx.check_eq(len(msgs), 0, "messages")
        cx.cover("invalid" if errors else "valid")


def whole(cx, p):
    """Every command of a version in a valid file; one deprecated option makes it invalid."""
    ver = p["v"]
    fs = cx.fs()
    warned = ["zerombr"] if VERSIONS[ver] < VERSIONS["F9"] else ["auth", "authconfig"] if VERSIONS[ver] >= VERSIONS["F28"] else []
    text = "".join(c14.line(ver, c, cx.string("v%d" % i, 2, "alnum")) for i, c in enumerate(p["cmds"])
                   if c not in warned)
    main = fs.put("main.ks", text)
    r, n, msgs = validate(["-v", c14.shown(ver) if p["up"] else ver.lower(), main] + p["opts"])
    cx.check_eq([r, n, len(msgs)], [0, 0, 0], "valid file", lambda: repr([r, msgs, text]))
    cx.check_eq(fs.leftovers(), [], "temporary files removed")
    cx.cover("valid")
    for t in p["deps"]:
        m2 = fs.put("two.ks", t + "\n")
        r, n, msgs = validate(["-v", ver, m2] + p["opts"])
        cx.check_eq([r, n + len(msgs)], [1, 1], "file with a deprecated item", lambda: repr([r, n, msgs, t]))
        cx.check_eq(fs.leftovers(), [], "temporary files removed")
        cx.cover("invalid")


def version(cx, p):
    """An unknown version is refused, whatever the file says."""
    fs = cx.fs()
    s = p.get("pre", "") + cx.string("s", p["n"], "alnum")
    cx.assume(s[:1] != "-")
    main = fs.put("d/main.ks", "lang x\n")
    r, n, msgs = validate(["-v", s, main])
    ok = s.upper() in ["DEVEL"] + c14.ALL
    if s.isdigit():
        ok = int(s) in sorted(VERSIONS.values())
    cx.check_eq([r, n, len(msgs)], [0, 0, 0] if ok else [1, 0, 1], "verdict for a version name", lambda: repr([s, r, msgs]))
    cx.check_eq(fs.leftovers(), [], "temporary files removed")
    cx.cover("version")


def unreadable(cx, p):
    """Input that cannot be read is reported; empty input is fine."""
    fs = cx.fs()
    s = cx.string("s", p["n"], "alnum")
    fs.mkdir("dir")
    fs.put("bin", b"lang \xff\n")
    fs.put("empty", "")
    fs.put("blank", "\n \n# x\n")
    name = fs.root + "/" + (p["name"] or s)
    r, n, msgs = validate(["-v", "F30"] + p["opts"] + [name])
    ok = p["name"] in ("empty", "blank")
    if p["name"] is None:
        cx.assume(s not in ("d", "dir", "bin", "tmp", "cwd"))
        ok = False
    cx.check_eq([r, n, len(msgs)], [0, 0, 0] if ok else [1, 0, 1], "verdict", lambda: repr([name, r, msgs]))
    cx.check_eq(fs.leftovers(), [], "temporary files removed")
    cx.cover("unreadable")


FATALS = ["u", "o", "m", "v", "S", "P", "q", "x"]
DEPS = {"FC3": "", "F8": "", "RHEL5": "", "RHEL6": "xconfig --driver=x", "F30": "install", "F34": "install", "RHEL8": "install"}


def dep_lines(ver):
    """Lines with one deprecated item."""
    out = []
    for c, i in sorted(TABLE[ver].items()):
        e = SETS[i]
        if e["kind"] == "deprecated":
            out.append(c)
        if c in ("auth", "authconfig") and VERSIONS[ver] >= VERSIONS["F28"]:
            out.append(c14.line(ver, c, "x").rstrip("\n"))
        if e["kind"] == "active" and e["base"] is not None:
            for o, how in sorted(e["opts"].items()):
                if how["dep"] == 1 and how["word"]:
                    out.append(cmdlib.line_of(c, e["base"] + [how["word"]]).rstrip("\n"))
    return out


def jobs(tier):
    q = tier == "quick"
    out = []

    def add(h, cost=5, **p):
        out.append({"h": h, "p": p, "cost": cost})

    for vi, ver in enumerate(c14.ALL):
        r = random.Random(7 + vi)
        k0 = VERSIONS[ver] >= VERSIONS["F8"]
        for k in ((5,) if q else (3, 4, 5, 6, 7)):
            for cmds in c14.files(ver, k):
                for rep in range(1 if q else 3):
                    items = [["c", c] for c in cmds]
                    faults = [["u", ""]] + [["o", c] for c in cmds if TABLE[ver].get(c) is not None and
                                            SETS[TABLE[ver][c]]["unknown"] is True and c not in ("lilo", "bootloader", "eula")]
                    r.shuffle(faults)
                    if k0:
                        items.append(["t", "%post --log=/x\nls\n%end\n"])
                        items.append(["t", "%packages\na\n-b\n%end\n"])
                        faults = faults[:4] + [["h", "%packages"], ["b", "rootpw\n"] if "rootpw" not in cmds else ["u", ""]]
                    for f in faults[:6]:
                        items.insert(r.randrange(len(items) + 1), f)
                    add("recovery", 10, v=ver, items=items, fatal=rep == 0)
    vs = ["FC3", "F8", "RHEL6", "F34"] if q else ["FC3", "F7", "F8", "F12", "RHEL5", "RHEL6", "RHEL7", "F22", "RHEL8", "F34"]
    kinds = "ggcuomvsSpPqatxnG"
    seqs = []
    r = random.Random(3)
    for a in FATALS:
        seqs.append([a])
        for b in sorted(PIECES):
            seqs.append([a, b])
            seqs.append([b, a])
    for _ in range(160 if q else 1500):
        n = r.choice([3, 4] if q else [3, 4, 5])
        seqs.append([r.choice(kinds) for _x in range(n)])
    for i, s in enumerate(seqs):
        v = vs[i % len(vs)]
        if v in ("FC3", "F7", "RHEL5"):
            s = [x for x in s if x not in "qa"] or ["u"]
            if any(x in "sSpP" for x in s):
                v = "F8"
        if v in ("F8", "F12", "RHEL6"):
            s = [x for x in s if x != "a"] or ["u"]
        if v == "FC3":
            s = [x for x in s if x != "G"] or ["u"]
        if "t" in s and v == "FC3":
            s = [x for x in s if x != "t"] or ["u"]
        add("order", 6, v=v, seq=s)
    n = 0
    for v in ("F8", "RHEL7", "F34") if q else [v for v in c14.ALL if VERSIONS[v] >= VERSIONS["F8"]]:
        for f in "uomPn":
            for eq in (0, 1):
                for k in (1, 2, 3, 4):
                    n += 1
                    for string in ((n % 2,) if q else (0, 1)):
                        add("same", 5, v=v, f=f, eq=eq, k=k, string=string, again=n % 3 == 0, top=n % 2)
    opts = [[], ["-e"], ["-i"], ["-e", "-i"]]
    vv = ["F30", "RHEL8", "F34"]
    names = sorted(VPIECES)
    seqs = [[]] + [[a] for a in names + sorted(PIECES)]
    seqs += [[a, b] for a in names for b in ("g", "u", "S")] + [[b, a] for a in names for b in ("g", "u")]
    seqs += [["u"] * k for k in range(2, 5)] + [["g", "u", "p", "o"], ["g", "n", "s", "p"], ["app", "appbad", "g"],
             ["inc", "incbad", "u"], ["incno", "u"], ["dup", "dep"], ["dep", "dep"], ["g", "appno"], ["u", "appno"]]
    for i, s in enumerate(seqs):
        for j, o in enumerate(opts):
            ver = vv[(i + j) % 3]
            s2 = [x for x in s if x != "trace" or ver == "F34"]
            if s and not s2:
                ver, s2 = "F34", s
            if "trace" in s2 and ver != "F34":
                continue
            add("validator", 4, v=ver, seq=s2, opts=o, dep=DEPS[ver])
    for vi, ver in enumerate(c14.ALL):
        fl = c14.files(ver, 6)
        dl = dep_lines(ver)
        for i, cmds in enumerate(fl if not q else fl[:3]):
            add("whole", 8, v=ver, cmds=cmds, up=i % 2, opts=opts[(i + vi) % 4],
                deps=dl[i::len(fl if not q else fl[:3])])
    for n in range(1, 5 if q else 6):
        add("version", 10, n=n)
    for pre in ("F", "f1", "rhel", "RHEL", "deve", "f3", "FC"):
        add("version", 5, n=1, pre=pre)
        add("version", 5, n=2, pre=pre)
    for o in opts:
        for name in ("dir", "bin", "empty", "blank"):
            add("unreadable", 2, name=name, n=0, opts=o)
        for n in (1, 2, 3):
            add("unreadable", 4, name=None, n=n, opts=o)
    return out
