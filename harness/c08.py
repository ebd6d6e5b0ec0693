"""C08: the package selection reflects the %packages lines."""
import warnings

from pykickstart import constants as K
from pykickstart.errors import KickstartDeprecationWarning, KickstartError, KickstartParseError
from pykickstart.parser import Group, KickstartParser
from harness import cmdlib
from harness.c03 import VERSIONS

BUDGET = {"quick": 150, "thorough": 3000}
BOUNDS = {"lines": "every sequence of up to 4 lines (thorough 5) out of packages, exclusions, groups with each level, group "
                   "exclusions, environments and environment exclusions, names of 1 symbolic character",
          "single line": "every line of up to 4 characters (thorough 6), alone and after a fixed selection",
          "header": "every option and pair of options of every version, values symbolic (numbers of up to 3 digits, "
                    "texts of up to 3 characters); every other option refused",
          "sections": "up to 2 sections"}
ENCODED = ["Packages.add/_processGroup/__str__", "PackageSection.handleHeader/handleLine/_getParser",
           "KickstartParser._readSection"]
ASSUMPTIONS = ["alphabet of the engine"]
MUST_REACH = ["seq", "raw", "rawbad", "header", "badopt", "two", "conflict", "lists"]
ALL = sorted(VERSIONS, key=lambda v: VERSIONS[v])


def since(v, lo, hi=None):
    return VERSIONS[v] >= VERSIONS[lo] and (hi is None or VERSIONS[v] < VERSIONS[hi])


# option: (first version, first version without it, effect on a setting)
OPTS = {
    "--excludedocs": (None, None, "excludeDocs", True), "--ignoremissing": (None, None, "handleMissing", K.KS_MISSING_IGNORE),
    "--ignoredeps": (None, "F9", None, None), "--resolvedeps": (None, "F9", None, None),
    "--default": ("F7", None, "default", True), "--instLangs": ("F9", None, "instLangs", "text"),
    "--inst-langs": ("F9", None, "instLangs", "text"), "--nobase": ("RHEL6", "F22", "addBase", False),
    "--multilib": ("F18", None, "multiLib", True), "--nocore": ("F21", None, "nocore", True),
    "--timeout": ("RHEL7", None, "timeout", "int"), "--retries": ("RHEL7", None, "retries", "int"),
    "--excludeWeakdeps": ("F24", None, "excludeWeakdeps", True), "--exclude-weakdeps": ("F24", None, "excludeWeakdeps", True),
    "--ignorebroken": ("F32", None, "handleBroken", K.KS_BROKEN_IGNORE)}
DEFAULTS = {"excludeDocs": False, "handleMissing": K.KS_MISSING_PROMPT, "default": False, "instLangs": None,
            "addBase": True, "multiLib": False, "nocore": False, "timeout": None, "retries": None,
            "excludeWeakdeps": False, "handleBroken": K.KS_BROKEN_REPORT}
CONFLICT = [("--default", "--nobase", "RHEL6"), ("--default", "--nocore", "F21")]


def has(v, o):
    lo, hi = OPTS[o][:2]
    return (lo is None or since(v, lo)) and (hi is None or not since(v, hi))


def read(ver, text, slot=0):
    h = cmdlib.pool(ver, slot)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        KickstartParser(h).readKickstartFromString(text)
    return h, [x for x in w if issubclass(x.category, KickstartDeprecationWarning)]


def settings(p):
    return {k: getattr(p, k) for k in DEFAULTS}


def insort(lst, x, key=lambda v: v):
    """Insert into a sorted list (symbolic keys)."""
    i = 0
    while i < len(lst) and not key(x) < key(lst[i]):
        i += 1
    return lst[:i] + [x] + lst[i:]


def selection(p):
    g = []
    for x in p.groupList:
        g = insort(g, [x.name, x.include], lambda v: v[0])
    e = []
    for x in p.excludedGroupList:
        if not any(y == x.name for y in e):
            e = insort(e, x.name)
    return [p.environment, list(p.packageList), list(p.excludedList), g, e]


class Model(object):
    """What a sequence of package lines selects."""
    def __init__(self):
        self.env, self.pk, self.ex, self.gr, self.eg = None, [], [], [], []

    def line(self, s):
        """Apply one line; False when it is illegal."""
        s = s.partition("#")[0].strip()
        if len(s) == 0:
            return True
        if s.startswith("@^"):
            self.env = s[2:]
            self.eg = [g for g in self.eg if g != s[1:]]
        elif s.startswith("@"):
            words, level, bad = [], K.GROUP_DEFAULT, 0
            for w in s[1:].split():
                if w == "--nodefaults":
                    level = K.GROUP_REQUIRED
                    bad |= 1
                elif w == "--optional":
                    level = K.GROUP_ALL
                    bad |= 2
                else:
                    words.append(w)
            if bad == 3:
                return False
            name = " ".join(words)
            self.eg = [g for g in self.eg if g != name]
            for g in self.gr:
                if g[0] == name:
                    return True
            self.gr = insort(self.gr, [name, level], lambda v: v[0])
        elif s == "-":
            return False
        elif s.startswith("-@"):
            if s.startswith("-@^") and self.env is not None and s[3:] == self.env:
                self.env = None
                return True
            self.gr = [g for g in self.gr if g[0] != s[2:]]
            if not any(x == s[2:] for x in self.eg):
                self.eg = insort(self.eg, s[2:])
        elif s.startswith("-"):
            self.pk = [x for x in self.pk if x != s[1:]]
            if not any(x == s[1:] for x in self.ex):
                self.ex = insort(self.ex, s[1:])
        else:
            self.ex = [x for x in self.ex if x != s]
            if not any(x == s for x in self.pk):
                self.pk = insort(self.pk, s)
        return True

    def result(self):
        return [self.env, self.pk, self.ex, self.gr, self.eg]


def both(cx, ver, text, want, label):
    h, _w = read(ver, text)
    got = selection(h.packages)
    cx.check_eq(got, want, label, lambda: repr([text, got, want]))
    cx.check(h.packages.seen, "section seen")
    sets = settings(h.packages)
    out = str(h)
    h2, _w = read(ver, out, 1)
    got2 = selection(h2.packages)
    if want[0] is not None and sets["default"]:
        got2[0] = want[0]           # --default takes the environment's place
    cx.check_eq(got2, want, label + " (written and read back)", lambda: repr([text, out, got2, want]))
    cx.check_eq(settings(h2.packages), sets, "settings written and read back", lambda: repr([text, out]))
    return h


KINDS = {"p": "%s", "x": "-%s", "g": "@%s", "gn": "@%s --nodefaults", "go": "@ %s  --optional", "gx": "-@%s", "e": "@^%s",
         "ex": "-@^%s", "pc": "  %s  # c", "c": "# %s", "b": " ", "g2": "@%s b", "on": "@--optional %s"}


def seq(cx, p):
    m = Model()
    text = ""
    for i, k in enumerate(p["kinds"]):
        if "%s" in KINDS[k]:
            a, _m, b = KINDS[k].partition("%s")
            s = a + cx.string("n%d" % i, 1, "lower") + b
        else:
            s = KINDS[k]
        text = text + s + "\n"
        cx.check(m.line(s) is True, "legal line")
    both(cx, p["v"], "%packages\n" + text + "%end\n", m.result(), "selection")
    cx.cover("seq")


def raw(cx, p):
    """Any text on one line, after a fixed selection."""
    m = Model()
    for s in p["before"]:
        m.line(s)
    s = p["pre"] + cx.string("s", p["n"], p["alph"]) + p["suf"]
    cx.assume("%" not in s)
    # option look-alikes of a group line are abbreviations
    if p["pre"][:1] == "@" and p["pre"][1:2] != "^":
        own = s[len(p["pre"]):len(p["pre"]) + p["n"]]
        cx.assume("-" not in own and (p["pre"] + p["suf"] == "@" or "=" not in own))
    elif p["n"] > 2:
        cx.assume("--" not in s)
    ok = m.line(s)
    text = "%packages\n" + "".join(x + "\n" for x in p["before"]) + s + "\n%end\n"
    try:
        h, _w = read(p["v"], text)
    except KickstartParseError:
        cx.check(not ok, "legal line accepted", lambda: text)
        cx.cover("rawbad")
        return
    cx.check(ok, "illegal line refused", lambda: text)
    got = selection(h.packages)
    cx.check_eq(got, m.result(), "selection of a line", lambda: repr([text, got, m.result()]))
    cx.cover("raw")


def give(cx, i, o, n, sep):
    """(words, value)"""
    k = OPTS[o][3]
    if k == "text":
        v = cx.string("v%d" % i, n, "word" if not sep else "rowword")
        return o + (" " if sep else "=") + v, v
    if k == "int":
        v = cx.string("v%d" % i, n, "digit")
        return o + (" " if sep else "=") + v, int(v)
    return o, k


def header(cx, p):
    """Every option of the version sets exactly its own setting, others are refused."""
    ver = p["v"]
    want = dict(DEFAULTS)
    line = "%packages"
    ok = True
    for i, o in enumerate(p["opts"]):
        w, v = give(cx, i, o, p["n"], p["sep"])
        line = line + " " + w
        if not has(ver, o):
            ok = False
        elif OPTS[o][2]:
            want[OPTS[o][2]] = v
    for a, b, lo in CONFLICT:
        if a in p["opts"] and b in p["opts"] and since(ver, lo):
            ok = False
    text = "\n" + line + " # c\nq\n%end\n"
    try:
        h, w = read(ver, text)
    except KickstartError as e:
        cx.check(not ok, "header accepted", lambda: text)
        cx.check(isinstance(e, KickstartParseError), "kind of error")
        cx.check_eq(e.lineno, 2, "line of a bad header")
        cx.cover("conflict" if all(has(ver, o) for o in p["opts"]) else "badopt")
        return
    cx.check(ok, "bad header refused", lambda: text)
    got = settings(h.packages)
    cx.check_eq(got, want, "settings", lambda: repr([text, got, want]))
    both(cx, ver, text, [None, ["q"], [], [], []], "selection with header options")
    cx.cover("header")


def badopt(cx, p):
    """Options that no version has are refused."""
    ver = p["v"]
    s = cx.string("s", p["n"], "option")
    for o in OPTS:
        if has(ver, o) and len(o) - 2 >= p["n"]:
            cx.assume(s != o[2:2 + p["n"]])
    try:
        read(ver, "\n%packages --" + s + "\nq\n%end\n")
    except KickstartParseError as e:
        cx.check_eq(e.lineno, 2, "line of a bad header")
        cx.cover("badopt")
        return
    cx.fail("unknown option refused", lambda: s)


def two(cx, p):
    """A second section goes on with the selection."""
    m = Model()
    text = ""
    for i, ks in enumerate(p["parts"]):
        text = text + "%packages" + p["heads"][i] + "\n"
        for j, k in enumerate(ks):
            a, _m, b = KINDS[k].partition("%s")
            s = a + cx.string("n%d_%d" % (i, j), 1, "lower") + b
            text = text + s + "\n"
            m.line(s)
        text = text + "%end\nlang xx\n"
    h, _w = read(p["v"], text)
    got = selection(h.packages)
    cx.check_eq(got, m.result(), "selection of two sections", lambda: repr([text, got, m.result()]))
    cx.cover("two")


def api(cx, p):
    """Packages.add() called line by line, or with all lines at once when the names differ, gives the same."""
    from pykickstart.parser import Packages
    m = Model()
    lines = []
    names = []
    for i, k in enumerate(p["kinds"]):
        a, _m, b = KINDS[k].partition("%s")
        n = cx.string("n%d" % i, 1, "lower")
        for x in names:
            cx.assume(x != n)
        names.append(n)
        lines.append(a + n + b)
        m.line(lines[-1])
    one, many = Packages(), Packages()
    one.add(lines)
    for x in lines:
        many.add([x])
    cx.check_eq(selection(one), m.result(), "lines added at once", lambda: repr(lines))
    cx.check_eq(selection(many), m.result(), "lines added one by one", lambda: repr(lines))


def lists(cx, p):
    """Lists filled by a program are written completely and in order; reading that gives them back."""
    h = cmdlib.pool(p["v"])
    g = h.packages
    want = ["", "", "", ""]
    m = Model()
    for i, k in enumerate(p["kinds"]):
        n = cx.string("n%d" % i, 1, "lower") + "q"[:i % 2]
        if k == 0:
            g.packageList.append(n)
            m.pk = insort(m.pk, n)
        elif k == 1:
            g.excludedList.append(n)
            m.ex = insort(m.ex, n)
        elif k == 2:
            inc = [K.GROUP_DEFAULT, K.GROUP_REQUIRED, K.GROUP_ALL][i % 3]
            g.groupList.append(Group(name=n, include=inc))
            m.gr = insort(m.gr, [n, inc], lambda v: v[0])
        else:
            g.excludedGroupList.append(Group(name=n))
            m.eg = insort(m.eg, n)
    h.packages.seen = True
    out = "".join(["@" + x[0] + {K.GROUP_DEFAULT: "", K.GROUP_REQUIRED: " --nodefaults", K.GROUP_ALL: " --optional"}[x[1]] + "\n" for x in m.gr])
    out = out + "".join([x + "\n" for x in m.pk]) + "".join(["-@" + x + "\n" for x in m.eg]) + "".join(["-" + x + "\n" for x in m.ex])
    body = "".join([x + "\n" for x in str(g).split("\n") if len(x) and x[:1] != "%"])
    names = [x[0] for x in m.gr]
    for i in range(len(names)):
        for j in range(i):
            cx.assume(names[i] != names[j])
    cx.check_eq(body, out, "written lists", lambda: repr([p["kinds"], body, out]))
    cx.cover("lists")


def jobs(tier):
    q = tier == "quick"
    out = []

    def add(h, cost=5, **p):
        out.append({"h": h, "p": p, "cost": cost})

    ks = ["p", "x", "g", "gn", "go", "gx", "e", "ex"]
    vs = ["FC3", "F7", "F8", "RHEL6", "F34"]
    n = 0
    for a in ks + ["pc", "c", "b", "g2", "on"]:
        add("seq", 2, v="F34", kinds=[a])
        add("seq", 2, v="FC3", kinds=[a])
    for a in ks:
        for b in ks:
            n += 1
            add("seq", 5, v=vs[n % 5], kinds=[a, b])
            if not q:
                add("seq", 5, v="F34", kinds=[a, "c", b, "b"])
            for c in ks:
                n += 1
                add("seq", 9, v=vs[n % 5], kinds=[a, b, c])
                for d in ks:
                    n += 1
                    fam = {"p": 0, "x": 0, "g": 1, "gn": 1, "go": 1, "gx": 1, "e": 2, "ex": 2}
                    if len({fam[x] for x in (a, b, c, d)}) == 1 and (not q or n % 3 == 0) or not q and n % 3 == 0:
                        add("seq", 20, v=vs[n % 5], kinds=[a, b, c, d])
                        if not q and len({fam[x] for x in (a, b, c, d)}) == 1:
                            for e in [x for x in ks if fam[x] == fam[a]]:
                                add("seq", 60, v=vs[n % 5], kinds=[a, b, c, d, e])
    before = [[], ["a", "-b", "@g", "@h --optional", "-@i", "@^v"]]
    for bi, b in enumerate(before):
        for k in range(1, 4 if q else 6):
            for pre, suf in (("", ""), ("-", ""), ("@", ""), ("-@", ""), ("@^", ""), ("-@^", ""), ("@a", "--optional"),
                             ("@", " --nodefaults"), ("@a --optional", " --nodefaults"), (" ", " "), ("a", "")):
                if k == 3 and pre and q:
                    continue
                if k > 3 and pre and pre != "@":
                    continue
                add("raw", 4 * k * k, v="F34" if bi else "F7", before=b, pre=pre, suf=suf, n=k, alph="line")
    for vi, v in enumerate(ALL):
        for o in OPTS:
            for sep in (0, 1):
                if OPTS[o][3] not in ("text", "int") and sep:
                    continue
                for k in (1, 2, 3):
                    if OPTS[o][3] not in ("text", "int") and k > 1 or (q and k != 1 + vi % 3 and OPTS[o][3] in ("text", "int")):
                        continue
                    add("header", 3, v=v, opts=[o], n=k, sep=sep)
        mine = [o for o in OPTS if has(v, o)]
        for i, a in enumerate(mine):
            for j, b in enumerate(mine):
                if i < j and OPTS[a][2] != OPTS[b][2] and (not q or (i + j + vi) % 3 == 0 or (a, b) in [c[:2] for c in CONFLICT]
                                                           or (b, a) in [c[:2] for c in CONFLICT]):
                    add("header", 3, v=v, opts=[a, b] if (i + j) % 2 else [b, a], n=1, sep=0)
        rest = [o for o in mine if o not in ("--nocore", "--nobase", "--instLangs", "--excludeWeakdeps")]
        add("header", 5, v=v, opts=rest, n=1, sep=0)
        rest = [o for o in mine if o not in ("--default", "--inst-langs", "--exclude-weakdeps")]
        add("header", 5, v=v, opts=rest, n=1, sep=0)
        for k in ((1 + vi % 4, 5 + vi % 9) if q else range(1, 17)):
            add("badopt", 5, v=v, n=k)
    for a in ks:
        for b in ks:
            n += 1
            hd = ["", " --ignoremissing", " --excludedocs"]
            add("two", 6, v=vs[n % 5], parts=[[a], [b]], heads=[hd[n % 3], hd[n // 3 % 3]])
            if n % 3 == 0 or not q:
                add("two", 9, v=vs[n % 5], parts=[[a], [b, ks[n % 8]]], heads=[hd[n % 3], hd[n // 3 % 3]])
    for a in ["p", "x", "g", "gn", "gx", "e"]:
        for b in ["p", "x", "g", "go", "gx"]:
            add("api", 4, kinds=[a, b])
            add("api", 6, kinds=[a, b, "x"])
    for v in ("F7", "F34"):
        for a in range(4):
            for b in range(4):
                for c in range(a, 4):
                    add("lists", 9, v=v, kinds=[a, b, c] + ([a] if not q else []))
    return out
