"""C06: errors and warnings point at the offending line."""
import warnings

from pykickstart.errors import (KickstartDeprecationWarning, KickstartError, KickstartParseError, KickstartValueError,
                                KickstartVersionError)
from pykickstart.parser import KickstartParser
from harness import cmdlib
from harness.c03 import SETS, TABLE, VERSIONS

BUDGET = {"quick": 150, "thorough": 3000}
BOUNDS = {"prefix": "every sequence of up to 3 blocks (thorough 4) out of blank lines, comments, commands, special "
                    "comments, %ksappend lines, script/package/tolerated sections with up to 3 body lines, sections without "
                    "%end (before F8); texts symbolic, up to 2 characters per line",
          "fault": "unknown command, bad option, missing argument, bad section header, unknown section, include without "
                   "a file; every deprecated command and option of every version",
          "commands": "every class of every command: unknown options, options without or with a symbolic value, missing and "
                      "stray arguments: whenever the line is refused",
          "objects": "every command of every version after 0..12 blank lines",
          "includes": "fault in the including file after an include, or inside the included file, at depth 1 and 2"}
ENCODED = ["KickstartParser._stateMachine/_readSection/_handleInclude", "errors.KickstartError", "dispatcher",
           "KSOptionParser.parse_args"]
ASSUMPTIONS = ["alphabet of the engine"]
MUST_REACH = ["fault", "warning", "object", "message", "include"]

OLD = ("RHEL3", "FC3", "RHEL4", "FC4", "FC5", "FC6", "RHEL5", "F7")
ALL = sorted(VERSIONS, key=lambda v: VERSIONS[v])


def block(cx, i, kind, ver):
    """(text, number of lines)"""
    if kind == "blank":
        s = cx.string("t%d" % i, 2, "blank")
        return s + "\n\n", 2
    if kind == "comment":
        return "#" + cx.string("t%d" % i, 2, "line") + "\n", 1
    if kind == "icomment":
        return "  # it's " + cx.string("t%d" % i, 1, "line") + "\n", 1
    if kind == "cmd":
        return "lang " + cx.string("t%d" % i, 2, "alnum") + "\n", 1
    if kind == "cmdc":
        return "lang xx # " + cx.string("t%d" % i, 2, "text") + "\n\n", 2
    if kind == "platform":
        return "#platform=" + cx.string("t%d" % i, 1, "alnum") + "\n", 1
    if kind == "ksappend":
        return "%ksappend http://" + cx.string("t%d" % i, 1, "alnum") + "\n", 1
    end = "%end\n"
    tail = 1
    tag, _x, how = kind.partition("/")
    if how == "open":
        end, tail = "", 0
    n = i % 3 + 1
    body = ""
    for k in range(n):
        if tag == "%packages":
            body = body + "p%d\n" % k
        elif k == 1:
            body = body + "%x" + cx.string("t%d_%d" % (i, k), 1, "alnum") + "\n"
        elif k == 2:
            body = body + "\n"
        else:
            s = cx.string("t%d_%d" % (i, k), 2, "text")
            cx.assume("%" not in s)
            body = body + s + "\n"
    if tag == "%packages":
        body = body + "\n# c\n"
        n += 2
    return tag + "\n" + body + end, 1 + n + tail


FAULTS = {
    "unknown": "zzcmd", "unknownarg": "zz --a b", "option": "lang --zz=1 xx", "missing": "lang", "value": "part /x --size=q",
    "header": "%post --zz\nx\n%end", "pkgheader": "%packages --zz\nx\n%end", "section": "%zz\nx\n%end",
    "include": "%include", "emptyinclude": '%include ""', "headerextra": "%pre zz\nx\n%end", "quoted": '"" x',
}


def parse(h, text, **kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        KickstartParser(h, **kw).readKickstartFromString(text)
    return w


def check_error(cx, e, want, text):
    cx.check(isinstance(e, KickstartParseError), "kind of error", lambda: repr([text, e]))
    cx.check_eq(e.lineno, want, "line of the error", lambda: repr([text, e.lineno, want]))
    s = str(e)
    cx.check(str(want) in s, "the error text contains the line number", lambda: s)
    cx.check(e.message in s, "the error text contains the message", lambda: s)


def fault(cx, p):
    ver = p["v"]
    text, n = "", 0
    for i, kind in enumerate(p["blocks"]):
        t, k = block(cx, i, kind, ver)
        text = text + t
        n += k
    # an old section without %end is only ended by the next section
    text = text + FAULTS[p["f"]] + "\n"
    h = cmdlib.pool(ver)
    try:
        parse(h, text)
    except KickstartError as e:
        check_error(cx, e, n + 1, text)
        cx.cover("fault")
        return
    cx.fail("faulty line refused", lambda: text)


def message(cx, p):
    """The text of an exception holds its line number and its message, however it is built."""
    n = cx.integer("n", 0, 99999) if p["int"] else p["n"]
    m = cx.string("m", p["len"], "any")
    cls = [KickstartError, KickstartParseError, KickstartValueError, KickstartVersionError][p["c"]]
    how = cx.choose("how", 4)
    if how == 0:
        e = cls(m, lineno=n)
    elif how == 1:
        e = cls((n, m))
    elif how == 2:
        e = cls(msg=m)
    else:
        e = cls(m, lineno=n, formatting=False)
    s = str(e)
    cx.check_eq(e.message, m, "message kept")
    if how == 2:
        cx.check_eq(e.lineno, None, "no line number")
        cx.check_eq(s, m, "text without a line number")
    else:
        cx.check_eq(e.lineno, n, "line number kept")
        if how == 3:
            cx.check_eq(s, m, "unformatted text")
        else:
            if p["len"]:
                cx.check(m in s, "the error text contains the message")
            cx.check(str(n) in s.replace(m, "", 1) if p["len"] and p["plain"] else str(n) in s, "the error text contains the line number")
    cx.cover("message")


def warning(cx, p):
    """A deprecation warning names the line."""
    ver = p["v"]
    items = p["items"]
    cmd, base, word = items[cx.choose("i", len(items))]
    k = 40 + cx.choose("k", 3)
    c = cx.string("c", 1, "line")
    text = "# " + c + "\n" + "\n" * k + " ".join([cmd] + base + ([word] if word else [])) + "\nlang xx\n"
    h = cmdlib.pool(ver)
    w = [x for x in parse(h, text) if issubclass(x.category, KickstartDeprecationWarning)]
    cx.check(len(w) > 0, "deprecation warned", lambda: text)
    for x in w:
        m = str(x.message)
        for d in [word or cmd] + base:
            m = m.replace(d, "")
        cx.check(str(k + 2) in m, "the warning names the line", lambda: repr([text[40:], str(x.message)]))
    cx.cover("warning")


def sectionwarning(cx, p):
    """Deprecated header options and unknown sections are warned about with their line."""
    ver = p["v"]
    k = 40 + cx.choose("k", 3)
    c = cx.string("c", 1, "line")
    text = "# " + c + "\n" + "\n" * k + p["line"] + "\nq\n%end\nlang xx\n"
    h = cmdlib.pool(ver)
    w = [x for x in parse(h, text, unknownSectionIsFatal=False)]
    cx.check(len(w) > 0, "warned", lambda: text)
    for x in w:
        cx.check(str(k + 2) in str(x.message), "the warning names the line", lambda: repr([text[40:], str(x.message)]))
    cx.cover("warning")


def obj(cx, p):
    """Commands and data objects remember the line that created them."""
    ver = p["v"]
    cmd = p["cmds"][cx.choose("c", len(p["cmds"]))]
    e = SETS[TABLE[ver][cmd]]
    k = cx.choose("k", 3) * 6
    c = cx.string("t", 1, "line")
    text = "#" + c + "\n" + "\n" * k + cmdlib.line_of(cmd, e["base"])
    h = cmdlib.pool(ver)
    parse(h, text)
    o = h.commands[cmd]
    cx.check_eq(o.lineno, k + 2, "line of the command", lambda: repr([cmd, o.lineno, k + 2]))
    lst = o.dataList()
    if lst:
        if hasattr(lst[-1], "lineno"):
            cx.check_eq(lst[-1].lineno, k + 2, "line of the data object", lambda: repr([cmd, lst[-1].lineno, k + 2]))
    cx.cover("object")


def cmdfault(cx, p):
    """Whatever is wrong with a command or an option: the error names the line."""
    line = p["lines"][cx.choose("l", len(p["lines"]))]
    a, m, b = line.partition("~")
    if m:
        line = a + cx.string("s", p["n"], "alnum") + b
    k = p["k"]
    text = "# x\n" * k + "\n" + line + "\n"
    h = cmdlib.pool(p["v"])
    try:
        parse(h, text)
    except KickstartError as e:
        check_error(cx, e, k + 2, text)
        cx.cover("fault")
    except ValueError:
        return              # C05
    if p["sure"]:
        cx.cover("fault")


def include(cx, p):
    """Line numbers are those of the file the line stands in."""
    ver = p["v"]
    fs = cx.fs()
    a = cx.string("a", 1, "line")
    k, j = cx.choose("k", 3), cx.choose("j", 3)
    inner = "#" + a + "\n" + "\n" * j + "lang xx\n"
    ni = j + 2
    bad = FAULTS[p["f"]] + "\n"
    where = p["where"]
    if where == "inner":
        inner = inner + bad
    if p["deep"]:
        fs.put("two.ks", inner)
        one = "\n" + "%include two.ks\n"
        if where == "mid":
            one = one + bad
        fs.put("one.ks", one)
    else:
        fs.put("one.ks", inner)
    head = "\n" * k + "lang yy\n"
    nh = k + 1
    if p["sec"]:
        fs.put("body.sh", "b1\n%x\n" + a + "c\nb3\n")
        head = head + "%post\nq\n%include body.sh\nr\n%end\n"
        nh += 5
    text = head + "%include one.ks\n"
    if where == "outer":
        text = text + bad
    main = fs.put("main.ks", text)
    h = cmdlib.pool(ver)
    want = {"inner": ni + 1, "mid": 3, "outer": nh + 2}[where]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            KickstartParser(h).readKickstart(main)
    except KickstartError as e:
        check_error(cx, e, want, text)
        cx.cover("include")
        return
    cx.fail("faulty line refused", lambda: text)


def jobs(tier):
    q = tier == "quick"
    out = []

    def add(h, cost=5, **p):
        out.append({"h": h, "p": p, "cost": cost})

    kinds = ["blank", "comment", "icomment", "cmd", "cmdc", "platform", "ksappend", "%pre", "%post", "%packages", "%addon",
             "%traceback", "%anaconda"]
    openk = ["%pre/open", "%packages/open", "%onerror/open"]
    fl = sorted(FAULTS)
    vs = ["FC3", "F7", "F8", "RHEL6", "RHEL8", "F34"] if q else ALL
    n = 0
    for vi, v in enumerate(vs):
        ks = kinds + (openk if v in OLD else [])
        for f in fl:
            add("fault", 2, v=v, f=f, blocks=[])
        for a in ks:
            for f in fl:
                n += 1
                if a.endswith("open") and not FAULTS[f].startswith("%") or (a.endswith("open") and f in ("include", "emptyinclude", "section")):
                    continue
                if not q or n % 3 == vi % 3:
                    add("fault", 4, v=v, f=f, blocks=[a])
        for a in ks:
            for b in ks:
                n += 1
                if a.endswith("open") and not b.startswith("%") or a.endswith("open") and b == "ksappend":
                    continue
                f = fl[n % len(fl)]
                if b.endswith("open"):
                    f = "header"
                if not q or n % 3 == vi % 3:
                    add("fault", 6, v=v, f=f, blocks=[a, b])
        for k in range(0, 40 if q else 600):
            bl = [kinds[(k * 7 + vi * 3) % 13], kinds[(k * 5 + k // 13 + vi) % 13], kinds[(k + k // 7) % 13]]
            if not q and k % 3 == 0:
                bl.append(kinds[(k * 11) % 13])
            add("fault", 9, v=v, f=fl[(k + vi) % len(fl)], blocks=bl)
        for f in ("unknown", "option", "header", "section", "include", "value"):
            for where in ("inner", "outer", "mid"):
                for deep in (0, 1):
                    for sec in (0, 1):
                        n += 1
                        if where == "mid" and not deep or q and n % 4 != vi % 4:
                            continue
                        add("include", 12, v=v, f=f, where=where, deep=deep, sec=sec)
    last, firstv = {}, {}
    for v in ALL:
        for c, i in TABLE[v].items():
            last[(c, i)] = v
            firstv.setdefault((c, i), v)
    for num, ((c, i), v) in enumerate(sorted(last.items())):
        e = SETS[i]
        if e["kind"] == "internal":
            continue
        lines = [c, c + " ~", c + " ~ x", c + " --zz~", c + " -~"]
        base = " ".join(e["base"] or [])
        for o in sorted(e["opts"]):
            lines += ["%s %s" % (c, o), "%s %s %s" % (c, base, o), "%s %s %s=~" % (c, base, o), "%s %s=~" % (c, o)]
            if o.startswith("--"):
                lines += ["%s %s %s ~ --zz9" % (c, base, o)]
        for v in {v, firstv[(c, i)]} if not q else {v}:
            for k in range(0, len(lines), 12):
                for n in (1,) if q else (0, 1, 2, 3):
                    add("cmdfault", 10 if n < 2 else 40, v=v, n=n, k=3 + num % 60, lines=lines[k:k + 12], sure=1)
    for c in range(4):
        for ln in (0, 1, 2) if q else (0, 1, 2, 3):
            add("message", 3, c=c, len=ln, int=1, n=0, plain=0)
            for m in (0, 7, 42):
                add("message", 3, c=c, len=ln, int=0, n=m, plain=0)
    for v in ALL:
        t = TABLE[v]
        items = []
        for c in sorted(t):
            e = SETS[t[c]]
            if e["kind"] in ("internal",) or c == "method" or e["base"] is None:
                continue
            if e["dep"] and e["kind"] == "deprecated":
                items.append([c, e["base"], ""])
            for o in sorted(e["opts"]):
                x = e["opts"][o]
                if x["dep"] and x["word"] and c != "timezone":
                    items.append([c, x["base"], x["word"]])
        for k in range(0, len(items), 8):
            add("warning", 10, v=v, items=items[k:k + 8])
        cmds = [c for c in sorted(t) if SETS[t[c]]["kind"] == "active" and SETS[t[c]]["base"] is not None and c != "method"]
        for k in range(0, len(cmds), 12):
            add("obj", 20, v=v, cmds=cmds[k:k + 12])
        add("sectionwarning", 3, v=v, line="%zz")
        if VERSIONS[v] >= VERSIONS["F32"]:
            add("sectionwarning", 3, v=v, line="%packages --instLangs a")
            add("sectionwarning", 3, v=v, line="%packages --excludeWeakdeps")
    return out
