"""C22: sections and commands added by a program get exactly what is theirs."""
import random
import warnings

from pykickstart.base import BaseData, KickstartCommand
from pykickstart.errors import KickstartError, KickstartParseError
from pykickstart.parser import KickstartParser
from pykickstart.sections import Section
from pykickstart.version import returnClassForVersion
from harness import c14, cmdlib
from harness.c03 import VERSIONS
from harness.c07 import OLD, view
from harness.c08 import selection

BUDGET = {"quick": 150, "thorough": 2400}
BOUNDS = {"sections": "files of up to 5 (thorough 6) blocks (commands, comments, standard sections, sections of one or two classes "
                      "added by the program, under new tags and tags of standard sections), bodies of up to 4 lines with up to "
                      "3 arbitrary characters each, header arguments of 1..2 symbolic characters; classes that want all lines "
                      "and classes that do not; parts of a section included from a file; every version that knows no or "
                      "optional %end",
          "tags": "tags of up to 4 symbolic characters, with and without the percent sign",
          "commands": "lines of up to 3 words of 1..3 symbolic characters, with comments, blanks and line numbers, for commands "
                      "added by the program that return data, themselves, or nothing, or refuse the line"}
ENCODED = ["KickstartParser.registerSection/_stateMachine/_readSection/_finalize/handleCommand", "KickstartHandler.dispatcher",
           "BaseHandler.__init__ (commandUpdates)", "KickstartCommand", "Section"]
ASSUMPTIONS = ["alphabet of the engine"]
MUST_REACH = ["section", "tag", "command", "unended"]


class Own(Section):
    """Notes everything the parser says."""
    def __init__(self, handler, tag, every, log):
        Section.__init__(self, handler)
        self.sectionOpen = tag
        self.allLines = every
        self.log = log

    def handleHeader(self, lineno, args):
        Section.handleHeader(self, lineno, args)
        self.log.append(["header", self.sectionOpen, lineno, list(args)])
        if "--bad" in args:
            raise KickstartParseError("bad", lineno=lineno)

    def handleLine(self, line):
        if len(line) > 0:       # the end of a file may arrive as an empty line
            self.log.append(["line", self.sectionOpen, line])

    def finalize(self):
        self.log.append(["end", self.sectionOpen])


def blank(line):
    t = line.strip()
    return len(t) == 0 or t[:1] == "#"


def sections(cx, p):
    """Header, lines and end arrive once each and in order; everything else is read as without the section."""
    ver = p["v"]
    fs = cx.fs()
    own = p["own"]              # tag -> all lines?
    log, want = [], []
    text, rest = "", ""
    lineno = 0
    seen = {t: 0 for t in own}
    left = p["any"]             # lines of arbitrary characters; further ones have letters and digits
    for i, (kind, arg) in enumerate(p["blocks"]):
        if kind == "t":
            text = text + arg
            rest = rest + arg
            lineno += arg.count("\n")
            continue
        if kind == "c":
            t = "#" + cx.string("c%d" % i, 2, "line") + "\n"
            text = text + t
            lineno += 1
            continue
        tag, nargs, body, inc = arg
        args = []
        for k in range(nargs):
            args.append(["--", "", "a="][k % 3] + cx.string("h%d_%d" % (i, k), 1 + k % 2, "alnum"))
        head = tag
        for a in args:
            head = head + " " + a
        lineno += 1
        seen[tag] += 1
        text = text + head + (" # note" if i % 2 else "") + "\n"
        want.append(["header", tag, lineno, [tag] + args])
        part = ""
        for k, b in enumerate(body):
            if isinstance(b, int):
                left -= 1
                s = cx.string("b%d_%d" % (i, k), b, "line" if left >= 0 else "alnum")
                cx.assume(not s.strip()[:1] == "%")
                ln = s + "\n"
            else:
                ln = b + "\n"
            if own[tag] or not blank(ln):
                want.append(["line", tag, ln])
            part = part + ln
        if inc and len(body):
            cx.assume(len(part.split("\n")[0].strip()) > 0)        # blank lines at the start of an included file are dropped
            f = fs.put("inc%d" % i, part)
            part = "%include " + f + "\n"
        text = text + part + "%end\n"
        lineno += part.count("\n") + 1
        want.append(["end", tag])
    h = cmdlib.pool(ver)
    k = KickstartParser(h)
    objs = {t: Own(h, t, own[t], log) for t in sorted(own)}
    for t in sorted(own):
        k.registerSection(objs[t])
    with cmdlib.quiet():
        try:
            k.readKickstartFromString(text)
        except KickstartError as e:
            cx.fail("file refused", lambda: repr([text, e]))
    cx.check_eq(log, want, "what the section was given", lambda: repr([text, log, want]))
    for t in objs:
        cx.check_eq([objs[t].timesSeen, objs[t].seen], [seen[t], seen[t] > 0], "times seen")
    h2 = cmdlib.pool(ver, 1)
    with cmdlib.quiet():
        KickstartParser(h2).readKickstartFromString(rest)
    cx.check_eq([str(h), [view(s) for s in h.scripts], selection(h.packages)], [str(h2), [view(s) for s in h2.scripts], selection(h2.packages)],
                "the rest of the file", lambda: text)
    cx.cover("section")


def unended(cx, p):
    """A section without %end is refused from Fedora 8 on, and ends at the next section or the end of the file before."""
    ver = p["v"]
    log = []
    h = cmdlib.pool(ver)
    k = KickstartParser(h)
    k.registerSection(Own(h, "%own", p["all"], log))
    s = cx.string("s", p["n"], "line")
    cx.assume(not s.strip()[:1] == "%")
    text = "\n%own aa\nxx\n" + s + "\n" + p["next"]
    r = None
    with cmdlib.quiet():
        try:
            k.readKickstartFromString(text)
        except KickstartError as e:
            r = e
    want = [["header", "%own", 2, ["%own", "aa"]], ["line", "%own", "xx\n"]]
    if p["all"] or not blank(s):
        want.append(["line", "%own", s + "\n"])
    if ver in OLD:
        want.append(["end", "%own"])
        cx.check(r is None, "old file refused", lambda: repr([text, r]))
        cx.check_eq(log, [x for x in log if x[1] == "%own"], "own")
        if p["next"] == "%own bb\ny\n%end\n":
            want += [["header", "%own", 5, ["%own", "bb"]], ["line", "%own", "y\n"], ["end", "%own"]]
        elif p["next"]:
            cx.check_eq([view(x)[1] for x in h.scripts], ["y\n"], "the section after it")
        cx.check_eq(log, want, "what the section was given", lambda: repr([text, log, want]))
    else:
        cx.check(isinstance(r, KickstartParseError), "section without end accepted", lambda: text)
        cx.check_eq(log, want, "what the section was given", lambda: repr([text, log, want]))
    cx.cover("unended")


def bad(cx, p):
    """A header refused by the section is an error of its line, and counted when errors are tolerated."""
    ver = p["v"]
    log = []
    h = cmdlib.pool(ver)
    k = KickstartParser(h, errorsAreFatal=p["fatal"])
    k.registerSection(Own(h, "%own", True, log))
    s = cx.string("s", 2, "alnum")
    text = "\n" * p["k"] + "%own --bad " + s + "\nxx\n%end\nlang " + s + "\n"
    r = None
    with cmdlib.quiet() as q:
        try:
            k.readKickstartFromString(text)
        except KickstartError as e:
            r = e
    cx.check_eq(k.errorsCount, 1, "errors counted")
    if p["fatal"]:
        cx.check(isinstance(r, KickstartParseError), "refused")
        cx.check_eq([r.lineno, log], [p["k"] + 1, [["header", "%own", p["k"] + 1, ["%own", "--bad", s]]]], "line of the error")
    else:
        cx.check(r is None, "tolerated")
        cx.check_eq([h.lang.lang, q.err.reports(), len(log)], [s, 1, 3], "goes on", lambda: repr([text, log]))
    cx.cover("section")


def tag(cx, p):
    """A tag starts with a percent sign; registering again replaces."""
    h = cmdlib.pool(p["v"])
    k = KickstartParser(h)
    t = cx.string("t", p["n"], "alnum" if p["pct"] else "option")
    if p["pct"]:
        t = "%" + t
        for x in ("%end",):
            cx.assume(t != x)
    log = []
    with cmdlib.quiet():
        try:
            k.registerSection(Own(h, t, True, []))
            k.registerSection(Own(h, t, True, log))
        except TypeError:
            cx.check(not p["pct"], "tag refused", lambda: t)
            cx.cover("tag")
            return
        cx.check(p["pct"], "tag accepted", lambda: t)
        try:
            k.readKickstartFromString(t + " q\nx\n%end\n" + t + "\n%end\n")
        except KickstartError as e:
            cx.fail("refused", lambda: repr([t, e]))
    cx.check_eq(log, [["header", t, 1, [t, "q"]], ["line", t, "x\n"], ["end", t], ["header", t, 4, [t]], ["end", t]], "log",
                lambda: repr([t, log]))
    cx.check_eq(len(h.scripts), 0, "no scripts")
    cx.cover("tag")


# -- commands ----------------------------------------------------------------
class OwnData(BaseData):
    removedKeywords = []
    removedAttrs = []

    def __init__(self, *args, **kwargs):
        BaseData.__init__(self, *args, **kwargs)
        self.words = kwargs.get("words", [])

    def __str__(self):
        return BaseData.__str__(self) + "ownlist " + " ".join(self.words) + "\n"


class Noted(KickstartCommand):
    removedKeywords = []
    removedAttrs = []

    def __init__(self, writePriority=5, *args, **kwargs):
        KickstartCommand.__init__(self, writePriority, *args, **kwargs)
        self.log = []
        self.items = []

    def note(self, args):
        self.log.append([self.currentCmd, list(args), self.lineno, self.currentLine, self.seen])
        if "refuse" in args:
            raise KickstartParseError("refused", lineno=self.lineno)


class Ver_OwnList(Noted):
    def parse(self, args):
        self.note(args)
        return OwnData(words=list(args))

    def dataList(self):
        return self.items

    def __str__(self):
        return "".join([str(x) for x in self.items])


class Ver_OwnSelf(Noted):
    def parse(self, args):
        self.note(args)
        self.last = list(args)
        return self


class Ver_OwnNone(Noted):
    def parse(self, args):
        self.note(args)


CLASSES = {"ownlist": Ver_OwnList, "ownalias": Ver_OwnList, "ownself": Ver_OwnSelf, "ownnone": Ver_OwnNone}


def commands(cx, p):
    """Every line of an added command arrives with its words, line number and text; what it returns is kept."""
    ver = p["v"]
    h = returnClassForVersion(ver)(commandUpdates=dict(CLASSES))
    cx.check(h.commands["ownlist"] is h.commands["ownalias"], "one object for both names")
    text = ""
    lineno = 0
    want = {"ownlist": [], "ownself": [], "ownnone": []}
    items = []
    refused = 0
    for i, (cmd, nw, pre, post) in enumerate(p["lines"]):
        if cmd == "":
            text = text + pre
            lineno += pre.count("\n")
            continue
        args = [cx.string("w%d_%d" % (i, k), 1 + (i + k) % p["n"], "word" if i + k < p["n"] - 1 else "alnum") for k in range(nw)]
        if post == "refuse":
            args.append("refuse")
            refused += 1
        ln = pre + cmd
        for a in args:
            ln = ln + " " + a
        if post == "note":
            ln = ln + " # it"
        ln = ln + "\n"
        lineno += 1
        own = "ownlist" if cmd == "ownalias" else cmd
        want[own].append([cmd, args, lineno, ln, True])
        if own == "ownlist" and post != "refuse":
            items.append(args)
        text = text + ln
    k = KickstartParser(h, errorsAreFatal=False)
    with cmdlib.quiet() as q:
        k.readKickstartFromString(text)
    for c in sorted(want):
        cx.check_eq(h.commands[c].log, want[c], "lines of the command", lambda: repr([text, h.commands[c].log, want[c]]))
        cx.check(h.commands[c].handler is h, "handler")
        cx.check_eq(h.commands[c].seen, len(want[c]) > 0, "seen")
    cx.check_eq([k.errorsCount, q.err.reports()], [refused, refused], "errors counted")
    cx.check_eq([x.words for x in h.ownlist.items], items, "data kept in order", lambda: text)
    cx.check(h.ownlist is h.commands["ownlist"] and h.ownself is h.commands["ownself"], "attributes of the handler")
    out = "".join(["ownlist " + " ".join(x) + "\n" for x in items])
    cx.check_eq(str(h.ownlist), out, "written")
    cx.check(out in str(h), "part of the written file")
    cx.cover("command")


def jobs(tier):
    q = tier == "quick"
    out = []

    def add(h, cost=5, **p):
        out.append({"h": h, "p": p, "cost": cost})
    vs = ["F8", "RHEL6", "F21", "RHEL8", "F34"] if q else c14.ALL
    r = random.Random(11)
    std = ["lang xx\n", "%post\nq\n# c\n%end\n", "%packages\naa\n-bb\n%end\n", "%pre --interpreter=/x\nz\n%end\n", "keyboard us\n", "\n\n"]
    bodies = [[], [1], [2], [3] if not q else [2, "v"], ["x", 2], [1, "  ", 1], ["# c", 2], ["y", "", "#", "z"], [2, "%zz x"], ["a", "  %q", 1],
              ["lang xx", 2], ["%ksappend /x", 1], [1, 1, 1] if not q else [1, "u", 1], ["'", 2]]
    n = 0
    for vi, v in enumerate(vs):
        for b in bodies:
            for every in (True, False):
                n += 1
                t = ["%own", "%post", "%packages", "%o-w.n"][n % 4]
                blocks = [["s", [t, n % 4, b, False]]]
                if n % 2:
                    blocks.insert(0, ["t", "lang xx\n"])
                blocks.append(["t", "keyboard us\n"])
                add("sections", 8 + 3 ** len(b), any=2, v=v, own={t: every}, blocks=blocks)
                if b and b[0] != "'" and (not q or n % 3 == vi % 3):
                    b2 = [x for x in b if x != "%ksappend /x"]
                    add("sections", 8 + 3 ** len(b), any=2, v=v, own={t: every}, blocks=[["s", [t, n % 4, b2, True]], ["t", "keyboard us\n"]])
        for _ in range(60 if q else 300):
            own = {"%own": r.random() < .5, r.choice(["%two", "%owner", "%post", "%packages"]): r.random() < .5}
            blocks = []
            for _x in range(r.choice([2, 3, 4, 5] if q else [2, 3, 4, 5, 6])):
                k = r.random()
                if k < .3:
                    t = r.choice(std)
                    if any(t.startswith(o) for o in own):
                        t = "lang yy\n"
                    blocks.append(["t", t])
                elif k < .4:
                    blocks.append(["c", None])
                else:
                    b = r.choice(bodies)
                    b = [min(x, 1) if isinstance(x, int) else x for x in b]
                    blocks.append(["s", [r.choice(sorted(own)), r.choice([0, 1, 2, 3]), b, False]])
            add("sections", 20, any=3 if q else 4, v=v, own=own, blocks=blocks)
        for nx in (0, 1, 2):
            for nxt in ("", "%own bb\ny\n%end\n", "%pre\ny\n%end\n"):
                for every in (True, False):
                    add("unended", 8, v=v, n=nx, next=nxt, all=every)
        for fatal in (True, False):
            for k in (0, 3):
                add("bad", 3, v=v, fatal=fatal, k=k)
        for nx in range(0, 4 if q else 5):
            for pct in (0, 1):
                if nx or not pct:
                    add("tag", 8, v=v, n=nx, pct=pct)
    if q:
        for v in ("FC3", "F7", "RHEL5"):
            for nx in (0, 1, 2):
                for nxt in ("", "%own bb\ny\n%end\n", "%pre\ny\n%end\n"):
                    for every in (True, False):
                        add("unended", 8, v=v, n=nx, next=nxt, all=every)
    names = sorted(CLASSES)
    for vi, v in enumerate(c14.ALL):
        for j in range(6 if q else 40):
            lines = []
            for _x in range(r.choice([1, 2, 3, 4])):
                if r.random() < .25:
                    lines.append(["", 0, r.choice(["\n", "# c\n\n", "lang xx\n", "timezone UTC\n"]), ""])
                lines.append([r.choice(names), r.choice([0, 1, 2, 3]), r.choice(["", "", "  "]), r.choice(["", "", "note", "refuse"])])
            add("commands", 20, v=v, lines=lines, n=2 if q else 3)
    return out
