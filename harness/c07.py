"""C07: script sections keep their text, order and options."""
import warnings

from pykickstart import constants as K
from pykickstart.errors import KickstartError, KickstartParseError, KickstartParseWarning
from pykickstart.parser import KickstartParser
from harness import cmdlib

BUDGET = {"quick": 150, "thorough": 3000}
BOUNDS = {"body": "any text (all characters, including line ends and percent signs) of up to 4 characters, alone and "
                  "between fixed lines; two lines of up to 2 characters each (thorough: 6 and 3)",
          "percent lines": "'%' followed by every text of up to 5 characters, with blanks in front",
          "header": "every subset of the options of the version, values of 1..4 printable characters",
          "sequence": "up to 3 sections out of the 8 known tags with bodies of up to 2 symbolic characters, and commands "
                      "in between",
          "versions": "FC3, FC4, F7, F8, RHEL5, RHEL6, RHEL8, F34 (thorough: all)"}
ENCODED = ["KickstartParser._stateMachine/_readSection/_finalize", "PutBackIterator", "ScriptSection.*",
           "NullSection.*", "Script.__str__", "KickstartHandler.__str__", "shlex.shlex"]
ASSUMPTIONS = ["alphabet of the engine"]
MUST_REACH = ["leftover", "body", "blank", "percent", "header", "sequence", "unterminated", "old-end", "null", "unknown"]

ORDER = ["RHEL3", "FC3", "RHEL4", "FC4", "FC5", "FC6", "RHEL5", "F7", "F8"]
TAGS = {"%pre": K.KS_SCRIPT_PRE, "%pre-install": K.KS_SCRIPT_PREINSTALL, "%post": K.KS_SCRIPT_POST,
        "%traceback": K.KS_SCRIPT_TRACEBACK, "%onerror": K.KS_SCRIPT_ONERROR}
OTHER = ["%packages", "%addon", "%anaconda"]
OLD = ("RHEL3", "FC3", "RHEL4", "FC4", "FC5", "FC6", "RHEL5", "F7")     # a section may go without %end
NOLOG = ()


def read(ver, text, slot=0, **kw):
    h = cmdlib.pool(ver, slot)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        KickstartParser(h, **kw).readKickstartFromString(text)
    return h


def view(s):
    return [s.type, s.script, s.interp, s.inChroot, s.logfile, s.errorOnFail]


def plain(tag, body, **kw):
    return [TAGS[tag], body, kw.get("interp", "/bin/sh"), tag == "%post" and not kw.get("nochroot"),
            kw.get("log"), bool(kw.get("eof"))]


def reread(cx, ver, h, label):
    """The written file reads back as the same scripts."""
    text = str(h)
    h2 = read(ver, text, 1)
    a, b = [view(s) for s in h.scripts], [view(s) for s in h2.scripts]
    if ver in OLD:      # without %end the blank line in front of the next header belongs to the body
        a = [[x[0], x[1].rstrip("\n")] + x[2:] for x in a]
        b = [[x[0], x[1].rstrip("\n")] + x[2:] for x in b]
    cx.check_eq(b, a, label + " (written and read back)", lambda: repr([text, a, b]))
    return h2


def ends(ver):
    return "" if ver in OLD else "%end\n"


def body(cx, p):
    """A body of arbitrary text is kept as it is; an all-blank one gives no script."""
    ver = p["v"]
    tag = p["tag"]
    s = cx.string("b", p["n"], p["alph"])
    b = p["pre"] + s + p["suf"]
    if "\n" in p["suf"] or p["n"] == 0:
        pass
    else:
        b = b + "\n"
    if p["suf"].startswith(" %") and p["n"]:
        cx.assume(not s[-1:].isspace())       # else the tag could start a line
    if p["alph"] == "any":
        for t in ("%end", "%pre"):
            cx.assume(t not in b)
    h = read(ver, tag + "\n" + b + "%end\nlang xx\n")
    if len(b.strip()) == 0:
        cx.check_eq(len(h.scripts), 0, "blank body gives no script")
        cx.cover("blank")
    else:
        cx.check_eq([view(x) for x in h.scripts], [plain(tag, b)], "script body kept", lambda: repr([b, [view(x) for x in h.scripts]]))
        cx.check_eq(h.scripts[0].lineno, 1, "line of the script")
        reread(cx, ver, h, "script body kept")
    cx.check_eq(h.lang.lang, "xx", "command after the section")
    cx.cover("body")


def lines(cx, p):
    """Two symbolic lines between fixed ones."""
    ver = p["v"]
    a = cx.string("a", p["n"], "line")
    b = cx.string("b", p["m"], "line")
    txt = p["pre"] + a + "\n" + p["mid"] + b + "\n"
    for t in ("%end", "%pre"):
        cx.assume(t not in a)
        cx.assume(t not in b)
    h = read(ver, "%post --nochroot\n" + txt + "%end\n%pre\nq\n%end\n")
    want = [plain("%pre", "q\n")]
    if len(txt.strip()) > 0:
        want = [plain("%post", txt, nochroot=True)] + want
    cx.check_eq([view(x) for x in h.scripts], want, "both scripts", lambda: repr([txt, [view(x) for x in h.scripts]]))
    cx.cover("body")


def percent(cx, p):
    """A line that starts with a percent sign belongs to the body unless its first word is a section tag or %end
    (words as the shell knows them)."""
    ver = p["v"]
    s = p.get("stem", "") + cx.string("s", p["n"], p["alph"])
    for q in "\"'\\":
        cx.assume(q not in s)        # unbalanced quotes on a section line: see C05
    line = p["pre"] + "%" + s
    word = line.replace("\t", " ").replace("\r", " ").strip(" ").split(" ")[0]
    tags = list(TAGS) + OTHER
    if p["tag"] in ("%packages",):
        return
    text = p["tag"] + "\nx\n" + line + "\ny\n%end\n"
    if word == "%include":
        cx.assume(False)             # see C09
    if word == "%end":
        rest = "y\n%end\n"           # the section is over: 'y' is no command
        try:
            read(ver, text)
        except KickstartParseError as e:
            cx.check_eq(e.lineno, 4, "line after the end of the section")
            cx.cover("percent")
            return
        cx.fail("section ended by " + rest, lambda: text)
    elif word in tags:
        try:
            h = read(ver, text)
        except KickstartError as e:
            if ver not in OLD:
                cx.check(isinstance(e, KickstartParseError), "unterminated section")
                cx.cover("unterminated")
            return
        cx.check(ver in OLD, "section without %end refused", lambda: text)
    else:
        h = read(ver, text)
        want = "x\n" + line + "\ny\n"
        if p["tag"] in TAGS:
            cx.check_eq([view(x) for x in h.scripts], [plain(p["tag"], want)], "line with a percent sign kept",
                        lambda: repr([text, [view(x) for x in h.scripts]]))
        else:
            h2 = read(ver, str(h), 1)
            cx.check_eq(len(h2.scripts), 0, "tolerated section is no script")
            cx.check(want in str(h), "tolerated section kept", lambda: str(h))
        cx.cover("percent")


def header(cx, p):
    """Exactly the options of the header are set."""
    ver, tag, opts = p["v"], p["tag"], p["opts"]
    line = tag
    kw = {}
    for i, o in enumerate(opts):
        if o == "--erroronfail":
            kw["eof"] = True
            line = line + " " + o
        elif o == "--nochroot":
            kw["nochroot"] = True
            line = line + " " + o
        else:
            v = cx.string("v%d" % i, p["n"], p["alph"])
            if p["sep"]:
                cx.assume(v[:1] != "-")
            kw["interp" if o == "--interpreter" else "log"] = v
            q = '"' + v + '"' if p["alph"] == "text" else v
            line = line + " " + o + (" " if p["sep"] else "=") + q
    h = read(ver, line + p["tail"] + "\nx y\n%end\n" + tag + "\nz\n%end\n")
    cx.check_eq([view(x) for x in h.scripts], [plain(tag, "x y\n", **kw), plain(tag, "z\n")],
                "options of the header", lambda: repr([line, [view(x) for x in h.scripts]]))
    cx.check_eq([x.lineno for x in h.scripts], [1, 4], "lines of the scripts")
    if p["alph"] != "text":
        reread(cx, ver, h, "options of the header")
    cx.cover("header")


def badheader(cx, p):
    """Unknown header options and missing values are refused on the header's line."""
    ver, tag = p["v"], p["tag"]
    bad = p["bad"][cx.choose("b", len(p["bad"]))]
    if bad == "?":
        s = cx.string("s", p["n"], "option")
        names = ["erroronfail", "interpreter", "logfile", "log"] + (["nochroot"] if tag == "%post" else [])
        for m in names:
            if len(m) >= p["n"]:
                cx.assume(s != m[:p["n"]])
        bad = "--" + s
    try:
        read(ver, "\n\n" + tag + " " + bad + "\nx\n%end\n")
    except KickstartParseError as e:
        cx.check_eq(e.lineno, 3, "line of a bad header")
        cx.cover("badheader")
        return
    cx.fail("bad header refused", lambda: tag + " " + bad)


def section(cx, i, tag, kind):
    """(text without end marker, expected views, expected null body)"""
    if kind == "empty":
        b = ""
    elif kind == "blank":
        b = " \n\n"
    elif kind == "noeol":
        b = cx.string("b%d" % i, 1, "alnum") + "\n"
    else:
        b = cx.string("b%d" % i, 2, "line") + "\n"
        cx.assume("%" not in b)
    return b


def sequence(cx, p):
    """Sections become scripts in file order, each with its own options; other sections do not disturb them."""
    ver = p["v"]
    text, want, null = p.get("lead", ""), [], []
    tags = p["tags"]
    for i, (tag, kind, opts) in enumerate(tags):
        b = section(cx, i, tag, kind)
        kw = {}
        line = tag
        if tag in TAGS:
            if "e" in opts:
                line += " --erroronfail"
                kw["eof"] = True
            if "i" in opts:
                line += " --interpreter=/p%d" % i
                kw["interp"] = "/p%d" % i
            if "l" in opts:
                line += " --logfile=/l%d" % i
                kw["log"] = "/l%d" % i
            if "n" in opts and tag == "%post":
                line += " --nochroot"
                kw["nochroot"] = True
        elif tag == "%packages":
            b = "pkg%d\n" % i
        else:
            line += " a%d --b c" % i
        text = text + line + "\n" + b
        end = "e" if ver not in OLD else p["ends"][i]
        if end == "e":
            text = text + "%end\n"
            if p.get("cmds"):
                text = text + "part /u%d --size=1\n" % i
        if tag in TAGS:
            if len(b.strip()) > 0:
                want.append(plain(tag, b, **kw))
        elif tag != "%packages":
            null.append(line + "\n" + b + "%end\n")
    h = read(ver, text)
    cx.check_eq([view(x) for x in h.scripts], want, "scripts in order", lambda: repr([text, [view(x) for x in h.scripts]]))
    if p.get("cmds"):
        cx.check_eq([u.mountpoint for u in h.partition.partitions], ["/u%d" % i for i in range(len(tags))], "commands in between")
    h2 = reread(cx, ver, h, "scripts in order")
    out = str(h)
    at = 0
    for s in null:
        k = out.find(s, at)
        cx.check(k >= 0, "tolerated section written as it was read", lambda: repr([s, out]))
        at = k + len(s)
    cx.check_eq(h2._null_section_strings, h._null_section_strings, "tolerated sections read back")
    if null:
        cx.cover("null")
    if "-" in p.get("ends", "") and ver in OLD:
        cx.cover("old-end")
    cx.cover("sequence")


def unterminated(cx, p):
    """From Fedora 8 on a section without %end is an error, before that it ends at the end of the file."""
    ver, tag = p["v"], p["tag"]
    b = cx.string("b", p["n"], "line")
    cx.assume("%" not in b)
    cx.assume(b[:1].isalnum())
    text = "\n" + tag + "\n" + b + p["eol"]
    try:
        h = read(ver, text)
    except KickstartParseError as e:
        cx.check(ver not in OLD, "section may end at the end of the file", lambda: text)
        cx.check(e.lineno in (2, 3, 4), "line of an unterminated section", lambda: repr(e.lineno))
        cx.cover("unterminated")
        return
    cx.check(ver in OLD, "unterminated section refused", lambda: text)
    if tag in TAGS:
        cx.check_eq([view(x) for x in h.scripts], [plain(tag, b + p["eol"])], "body up to the end of the file")
        reread(cx, ver, h, "body up to the end of the file")


def leftover(cx, p):
    """What a file left unfinished (no end, faulty header) is not in the sections of the next file."""
    ver = p["v"]
    h = cmdlib.pool(ver)
    k = KickstartParser(h, errorsAreFatal=False)
    a, b = cx.string("a", p["n"], "line"), cx.string("b", p["n"], "line")
    for t in (a, b):
        cx.assume("%" not in t)
        cx.assume(len(t.strip()) > 0)
    head = p["tag"] + p["opts"] + "\n"
    with cmdlib.quiet():
        try:
            k.readKickstartFromString("lang xx\n" + head + a + "\n")
            done = True
        except KickstartParseError:
            done = False
        cx.check_eq(done, ver in OLD, "unterminated section")
        first = [view(x) for x in h.scripts]
        null = list(h._null_section_strings)
        k.readKickstartFromString(p["next"] + "\n" + b + "\n%end\nkeyboard yy\n")
    got = [view(x) for x in h.scripts]
    if p["next"] in TAGS:
        cx.check_eq(got, first + [plain(p["next"], b + "\n")], "script of the next file", lambda: repr([a, b, got]))
        cx.check_eq(h._null_section_strings, null, "tolerated sections")
    else:
        cx.check_eq(got, first, "scripts of the first file")
        cx.check_eq(h._null_section_strings, null + [p["next"] + "\n" + b + "\n%end\n"], "tolerated section of the next file")
    if ver not in OLD:
        cx.check_eq([len(first), len(null)], [0, 0], "nothing of the unfinished section is kept")
    cx.check_eq([h.lang.lang, h.keyboard.keyboard], ["xx", "yy"], "commands")
    cx.cover("leftover")


def unknown(cx, p):
    """Sections nobody knows are refused, or kept when that is switched off."""
    ver = p["v"]
    s = cx.string("s", p["n"], "option")
    tag = "%" + s
    cx.assume(cx.none_of(s, [t[1:] for t in list(TAGS) + OTHER + ["%include", "%ksappend", "%end"]]))
    b = cx.string("b", 2, "line") + "\n"
    cx.assume("%" not in b)
    text = tag + " arg\n" + b + "%end\n%pre\nq\n%end\n"
    try:
        read(ver, text)
        cx.fail("unknown section refused", lambda: text)
    except KickstartParseError as e:
        cx.check_eq(e.lineno, 1, "line of an unknown section")
    h = read(ver, text, unknownSectionIsFatal=False)
    cx.check_eq([view(x) for x in h.scripts], [plain("%pre", "q\n")], "scripts after an unknown section")
    cx.check(tag + " arg\n" + b + "%end\n" in str(h), "unknown section written as it was read", lambda: repr([text, str(h)]))
    cx.cover("unknown")


def jobs(tier):
    q = tier == "quick"
    from harness import cmdspec
    allv = sorted(cmdspec.VERSIONS, key=lambda v: cmdspec.VERSIONS[v])
    vs = ["FC3", "FC4", "F7", "RHEL5", "F8", "RHEL6", "RHEL8", "F34"] if q else allv
    tags = list(TAGS)
    out = []

    def add(h, cost=5, **p):
        out.append({"h": h, "p": p, "cost": cost})

    for vi, v in enumerate(vs):
        for ti, t in enumerate(tags):
            for n in ((0, 1, 2, 3) if v in ("F34", "F7") or not q else (1 + (vi + ti) % 3,)):
                for pre, suf in (("", ""), ("a\n", "\n"), (" ", "\n\n"), ("#!/x\n", " b\nc\n"),
                                 ("%ksappend u\n %% x\nx", " %post\n")):
                    if q and (vi + ti + n) % 5 != ["", "a\n", " ", "#!/x\n", pre].index(pre) and v != "F34":
                        continue
                    add("body", 4 + 3 * n, v=v, tag=t, n=n, pre=pre, suf=suf, alph="any" if n < 3 else "text" if q else "any")
            for alph, n, sep, tail in (("word", 3, 0, ""), ("text", 2, 0, ""), ("word", 2, 1, " # c"), ("text", 1, 1, "")):
                opts = ["--erroronfail", "--interpreter"] + (["--logfile", "--log"] if v not in NOLOG else []) + \
                    (["--nochroot"] if t == "%post" else [])
                for m in range(1 << len(opts)):
                    sub = [o for k, o in enumerate(opts) if m >> k & 1]
                    if "--log" in sub and "--logfile" in sub:
                        continue
                    if q and (m + vi + ti) % 4 != ("word", "text").index(alph) * 2 + sep:
                        continue
                    add("header", 6, v=v, tag=t, opts=sub, n=n, alph=alph, sep=sep, tail=tail)
                    if m % 2:
                        add("header", 6, v=v, tag=t, opts=sub[::-1], n=n, alph=alph, sep=sep, tail=tail)
            bad = ["--interpreter", "extra", "--erroronfail=1", "--logfile"] + (["--nochroot"] if t != "%post" else [])
            add("badheader", 8, v=v, tag=t, bad=bad, n=0)
            for n in ((1, 2, 3 + (vi + ti) % 10) if q else range(1, 13)):
                add("badheader", 8, v=v, tag=t, bad=["?"], n=n)
            for n in (1, 2):
                for eol in ("", "\n", "\n\n"):
                    add("unterminated", 4, v=v, tag=t, n=n, eol=eol)
        for t in OTHER:
            add("unterminated", 4, v=v, tag=t, n=1, eol="\n")
        for t in tags + ["%addon", "%anaconda"]:
            for n in range(0, 5 if q else 7):
                for pre in ("", "  "):
                    if q and (n + vi + len(pre) // 2 + len(t)) % 2 and v != "F34":
                        continue
                    add("percent", 3 * n + 1, v=v, tag=t, n=n, pre=pre, alph="line" if n < 3 else "option")
            for k, stem in enumerate(["end", "pre", "post", "packages", "include", "ksappend", "pre-install", "addon"]):
                for n in (1, 2):
                    if q and (n + vi + k + len(t)) % 4 and v != "F34":
                        continue
                    add("percent", 6, v=v, tag=t, n=n, pre=["", " "][(k + n) % 2], alph="line", stem=stem)
        for k, t in enumerate(tags + ["%addon"]):
            for j, t2 in enumerate([t, tags[(k + vi) % len(tags)]]):
                for i, o in enumerate(["", " --erroronfail", " --interpreter=/x --zz"] + ([" --log=/l"] if v not in NOLOG else [])):
                    if t == "%addon" and i or (q and (vi + i + j + k) % 3 and v != "F34"):
                        continue
                    add("leftover", 6, v=v, tag=t, opts=o, next=t2, n=1 + (i + k) % 2)
        for n in ((1, 2, 3, 5) if q else range(1, 10)):
            add("unknown", 5, v=v, n=n)
        for n, m in ((1, 1), (2, 1), (0, 2)) if q else ((1, 1), (2, 1), (0, 2), (2, 2), (3, 1)):
            for pre, mid in (("", ""), ("x\n", "\n")):
                if q and (vi + n + len(pre)) % 2 and v != "F34":
                    continue
                add("lines", 12, v=v, n=n, m=m, pre=pre, mid=mid)
        alltags = tags + OTHER
        k = 0
        for a in alltags:
            for b in alltags:
                for kind in (("sym", "sym"), ("empty", "sym"), ("sym", "blank"), ("blank", "noeol")):
                    for o in (("", "eiln"), ("eiln", ""), ("in", "el")):
                        k += 1
                        if (k + vi) % (8 if q else 2):
                            continue
                        for e in ("ee", "--", "e-", "-e") if v in OLD else ("ee",):
                            if q and e != "ee" and (k // 8 + vi) % 2:
                                continue
                            for cmds in (0, 1):
                                if cmds and e != "ee" or (cmds and (k // 8) % 2):
                                    continue
                                add("sequence", 5, v=v, tags=[[a, kind[0], o[0]], [b, kind[1], o[1]]], ends=e, cmds=cmds)
        for k in range(0, 64 if q else 512):
            x = (k * 37 + vi * 11) % 512
            tri = [alltags[x % 8], alltags[x // 8 % 8], alltags[x // 64]]
            if v in OLD and "%packages" in tri:
                continue
            kinds = [["sym", "empty", "noeol", "blank"][(x + j * k) % 4] for j in range(3)]
            kinds[k % 3] = "noeol"
            if q and k % 4:
                continue
            add("sequence", 9, v=v, tags=[[t, kk, ["", "e", "il", "n"][(x + j) % 4]] for j, (t, kk) in enumerate(zip(tri, kinds))],
                ends="eee" if k % 2 else "-e-", cmds=0)
    return out
