"""C12: version names, numbers and handlers correspond one to one."""
from pykickstart import version as V
from pykickstart.errors import KickstartVersionError

BOUNDS = {"version name": "every string of length 0..6 over the alphabet; every spelling of each known name; "
                          "'Fedora<0..4 chars> <1..3 digits>' and 'Red Hat Enterprise Linux<0..2> <1..2 digits><0..3>'",
          "version number": "every integer in [-10, 50000]",
          "file": "#version= line with 0..4 preceding symbolic lines of length <= 3"}
ENCODED = ["version.stringToVersion", "version.versionToString", "version.versionToLongString",
           "version.versionFromFile", "version.returnClassForVersion", "version.makeVersion",
           "version.getVersionFromCommandClass"]
ASSUMPTIONS = ["characters are drawn from the engine's finite alphabet (ASCII plus representatives of the "
               "non-ASCII classes Python distinguishes)"]
MUST_REACH = ["name-ok", "name-bad", "num-ok", "num-bad", "fedora-ok", "rhel-ok", "file-ver", "file-none", "class"]

# The released names and their numbers; chronological order is the numeric order.
TABLE = {
    "RHEL3": 900, "FC3": 1000, "RHEL4": 1100, "FC4": 2000, "FC5": 3000, "FC6": 4000, "RHEL5": 4100, "F7": 5000,
    "F8": 6000, "F9": 7000, "F10": 8000, "F11": 9000, "F12": 10000, "F13": 11000, "RHEL6": 11100, "F14": 12000,
    "F15": 13000, "F16": 14000, "F17": 15000, "F18": 16000, "F19": 17000, "F20": 18000, "F21": 19000,
    "RHEL7": 19100, "F22": 20000, "F23": 21000, "F24": 22000, "F25": 23000, "F26": 24000, "F27": 25000,
    "F28": 26000, "RHEL8": 26100, "F29": 27000, "F30": 30000, "F31": 31000, "F32": 32000, "F33": 33000,
    "F34": 34000}
# releases newer than the table are allowed to exist; DEVEL is the newest one
KNOWN = dict(TABLE)
for _k, _v in V.versionMap.items():
    if _k not in KNOWN and _k != "DEVEL" and _v > 34000:
        KNOWN[_k] = _v
NEWEST = max(v for k, v in KNOWN.items())
NAMES = dict(KNOWN, DEVEL=NEWEST)


def attempt(f, *a):
    try:
        return f(*a)
    except KickstartVersionError:
        return None


def ref_lookup(s):
    """Reference: the number a short name stands for, else None."""
    u = s.upper()
    for k in NAMES:
        if u == k:
            return NAMES[k]
    return None


def name(cx, p):
    """Any short string: a known name (any case) or a version error."""
    s = cx.string("s", p["n"], p.get("alph", "any"))
    cx.assume(" " not in s)
    want = ref_lookup(s)
    got = attempt(V.stringToVersion, s)
    cx.check_eq(got, want, "stringToVersion")
    cx.cover("name-ok" if want is not None else "name-bad")


def spelled(cx, p):
    """Every upper/lower-case spelling of a known name gives its number and its handler."""
    s = ""
    for i, c in enumerate(p["name"]):
        s = s + ([c.upper(), c.lower()][cx.choose("c%d" % i, 2)] if c.isalpha() else c)
    want = NAMES[p["name"]]
    cx.check_eq(attempt(V.stringToVersion, s), want, "stringToVersion")
    cls = attempt(V.returnClassForVersion, s)
    cx.check(cls is not None, "handler class for a known name")
    cx.check_eq(cls.version, want, "handler class version")
    cx.cover("class")


def handler(cx, p):
    want = NAMES[p["name"]]
    for v in (p["name"], want, str(want)):
        h = attempt(V.makeVersion, v)
        cx.check(h is not None, "handler instance")
        cx.check_eq(h.version, want, "handler version")
    h = V.makeVersion()
    cx.check_eq(h.version, NEWEST, "default version is the newest")
    out = str(V.makeVersion(want)).split("\n")
    lab = [l for l in out if l.startswith("#version=")]
    cx.check_eq(len(lab), 1, "one version line in the output")
    cx.check_eq(V.stringToVersion(lab[0][9:]), want, "version line of the output")


def number(cx, p):
    """Any integer: its own name or a version error."""
    n = cx.integer("n", p["lo"], p["hi"])
    skip = bool(p["skip"])
    want = None
    for k in KNOWN:
        if n == KNOWN[k]:
            want = k
    if want is not None and not skip and n == NEWEST:
        want = "DEVEL"
    got = attempt(V.versionToString, n, skip)
    cx.check_eq(got, want, "versionToString")
    if want is not None:
        cx.check_eq(V.stringToVersion(got), n, "name maps back to the number")
        lg = V.versionToLongString(n)
        cx.check_eq(lg, long_name([k for k in KNOWN if n == KNOWN[k]][0]), "long name")
        cx.cover("num-ok")
    else:
        cx.check(attempt(V.versionToLongString, n) is None, "long name of an unknown number")
        cx.check(attempt(V.returnClassForVersion, n) is None, "handler of an unknown number")
        cx.cover("num-bad")


def long_name(k):
    d = "".join(c for c in k if c.isdigit())
    return ("RedHatEnterpriseLinux" if k.startswith("RHEL") else "Fedora") + d


def fedora(cx, p):
    """Product names as found in release files."""
    head = "".join([c.upper(), c.lower()][cx.choose("h%d" % i, 2)] if i < 2 else c
                   for i, c in enumerate(p["head"]))
    mid = cx.string("mid", p["m"], "text")
    num = cx.string("num", p["k"], "digit")
    tail = cx.string("tail", p["t"], ["alnumdot"] * p["t"]) if p["t"] else ""
    s = head + mid + " " + num + tail
    got = attempt(V.stringToVersion, s)
    want = None
    ok = True
    if p["head"].startswith("F"):
        if p["t"]:
            ok = tail.isdigit()
            num = num + tail
        if ok:
            for k in KNOWN:
                if k[0] == "F" and num == k.lstrip("FC"):
                    want = KNOWN[k]
        cx.cover("fedora-ok" if want is not None else "fedora-bad")
    else:
        i = 0
        while i < len(tail) and tail[i].isdigit():
            num = num + tail[i]
            i += 1
        rest = tail[i:]
        for c in rest:
            if not (c.isdigit() or c == "."):
                ok = False
        if ok:
            for k in KNOWN:
                if k[0] == "R" and num == k[4:]:
                    want = KNOWN[k]
        cx.cover("rhel-ok" if want is not None else "rhel-bad")
    cx.check_eq(got, want, "product name")


def infile(cx, p):
    """The first #version= line of a file decides; without one the newest version is assumed."""
    fs = cx.fs()
    text = ""
    for i, n in enumerate(p["pre"]):
        l = cx.string("l%d" % i, n, "line")
        cx.assume(not l.startswith("#version="))
        text = text + l + "\n"
    want = NEWEST
    if p["name"]:
        text = text + p["lead"] + "#version=" + p["name"] + p["trail"] + "\n"
        if p["lead"] == "":
            want = NAMES[p["name"]]
        if p.get("second"):
            text = text + "#version=" + p["second"] + "\n"
            if p["lead"]:
                want = NAMES[p["second"]]
    f = fs.put("ks.cfg", text)
    got = attempt(V.versionFromFile, f)
    cx.check_eq(got, want, "versionFromFile")
    cx.cover("file-ver" if p["name"] else "file-none")


def infile_name(cx, p):
    """Whatever follows #version= is looked up like any other version name."""
    fs = cx.fs()
    name = p["head"] + cx.string("name", p["n"], "line")
    f = fs.put("ks.cfg", "text\n#version=" + name + "\n#version=F20\n")
    cx.check_eq(attempt(V.versionFromFile, f), attempt(V.stringToVersion, name.rstrip()), "version comment")
    cx.cover("file-name")


def command_class(cx, p):
    from pykickstart.handlers.control import commandMap
    h = V.makeVersion(p["name"])
    for c in h.commands.values():
        cls = c.__class__
        pre = cls.__name__.split("_")[0]
        cx.check_eq(V.getVersionFromCommandClass(cls), NAMES[pre], "version of a command class")


def jobs(tier):
    out = []
    N = 5 if tier == "quick" else 6
    for n in range(0, N + 1):
        out.append({"h": "name", "p": {"n": n}, "cost": 5 ** n})
    for k in NAMES:
        out.append({"h": "spelled", "p": {"name": k}, "cost": 20})
        out.append({"h": "handler", "p": {"name": k}, "cost": 30})
        out.append({"h": "command_class", "p": {"name": k}, "cost": 30})
    for skip in (0, 1):
        for lo, hi in ((-10, 9999), (10000, 19999), (20000, 26500), (26501, 50000)):
            out.append({"h": "number", "p": {"lo": lo, "hi": hi, "skip": skip}, "cost": 200})
    for head in ("Fedora", "Red Hat Enterprise Linux"):
        for m in range(0, 3 if tier == "quick" else 5):
            for k in (1, 2, 3):
                for t in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
                    out.append({"h": "fedora", "p": {"head": head, "m": m, "k": k, "t": t}, "cost": 50})
    for head in ("", "F", "rhel", "Fedora Core ", "fedora release ", "Red Hat Enterprise Linux ",
                 "Red Hat Enterprise Linux Server release "):
        for n in range(0, 4 if tier == "quick" else 6):
            out.append({"h": "infile_name", "p": {"head": head, "n": n}, "cost": 50})
    pres = [[], [0], [3], [1, 2], [9]] if tier == "quick" else [[], [0], [3], [1, 2], [9], [10], [2, 2, 2], [4, 4]]
    for pre in pres:
        for nm in ["", "F20", "RHEL7", "devel", "f34"]:
            for lead in ["", " "] if nm else [""]:
                for trail in ["", " \t"]:
                    for second in ["", "FC3"]:
                        out.append({"h": "infile", "p": {"pre": pre, "name": nm.upper() if nm else "", "lead": lead,
                                                         "trail": trail, "second": second}, "cost": 10})
    return out
