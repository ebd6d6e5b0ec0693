"""C20: the interactive shell completes exactly the matching names and edits the data line by line."""
import random

from pykickstart.errors import KickstartError
from pykickstart.parser import KickstartParser
from pykickstart.version import makeVersion
from harness import c14, cmdlib
from harness.c03 import SETS, TABLE, VERSIONS
from harness.c11 import PIECES
from tools import ksshell

BUDGET = {"quick": 150, "thorough": 1800}
BOUNDS = {"completion": "every version: first words of up to 4 (thorough: 6) symbolic characters after up to 2 blanks, later words of "
                        "up to 6 (thorough: 10) symbolic characters for every command of every class, unknown commands of up to 4 "
                        "symbolic characters, with text after the cursor and other words before it",
          "sessions": "sessions of up to 4 (thorough: 5) typed lines (good, faulty, blank, comment, unbalanced, internal and "
                      "unknown internal commands, includes of sections) with symbolic names, with and without an input "
                      "file (good, faulty, missing, unbalanced), to a file or to the screen, ended by end of input, "
                      "interrupt or .quit"}
ENCODED = ["ksshell.KickstartCompleter", "ksshell.main and its internal commands", "KickstartParser", "parser.preprocessKickstart"]
ASSUMPTIONS = ["alphabet of the engine", "readline and the terminal are stubs", "tables in spec/versions.json",
               "the internal method command is left out"]
MUST_REACH = ["first", "later", "none", "session", "refused"]
INTERNAL = [".clear", ".show", ".quit"]


class Readline(object):
    """Stands for the line editor."""
    def __init__(self):
        self.buf, self.b, self.e, self.completer = "", 0, 0, None

    def parse_and_bind(self, s):
        pass

    def set_completer(self, f):
        self.completer = f

    def get_completer_delims(self):
        return " -\t\n"

    def set_completer_delims(self, s):
        self.delims = s

    def get_line_buffer(self):
        return self.buf

    def get_begidx(self):
        return self.b

    def get_endidx(self):
        return self.e


_comp = {}


def completer(v):
    if v not in _comp:
        _comp[v] = ksshell.KickstartCompleter(makeVersion(v), {".clear": ksshell.ClearCommand(), ".show": ksshell.ShowCommand(),
                                                               ".quit": ksshell.QuitCommand()})
    return _comp[v]


def offers(comp, rl, word):
    """Everything the completer offers."""
    out = []
    k = 0
    while True:
        r = comp.complete(word, k)
        if r is None:
            break
        out.append(r)
        k += 1
        if k > 2000:
            return ["endless"]
    if comp.complete(word, k + 1) is not None:
        return ["more after the end"]
    return out


def ask(v, head, word, tail):
    rl = Readline()
    rl.buf, rl.b, rl.e = head + word + tail, len(head), len(head) + len(word)
    old = ksshell.readline
    ksshell.readline = rl
    try:
        return offers(completer(v), rl, word)
    finally:
        ksshell.readline = old


def judge(cx, got, names, word, what):
    want = [n for n in names if n.startswith(word)] if len(word) > 0 else list(names)
    got = [x for x in got if x != "method"]
    cx.check_eq(sorted(got), sorted(want), what, lambda: repr([word, sorted(got), sorted(want)]))


def first(cx, p):
    """The first word: names of commands."""
    v = p["v"]
    s = p["pre"] + cx.string("s", p["n"], "option")
    got = ask(v, " " * p["b"], s, p["tail"])
    judge(cx, got, [c for c in TABLE[v] if c != "method"] + INTERNAL, s, "commands offered")
    # asked again after another question
    ask(v, "part ", "--", "")
    again = ask(v, " " * p["b"], s, p["tail"])
    cx.check_eq(again, got, "asked again")
    cx.cover("first")


def options(v, c):
    e = SETS[TABLE[v][c]]
    return list(e["opts"]) if e["kind"] == "active" else []


def later(cx, p):
    """A later word: options of the command."""
    v = p["v"]
    c = p["cmds"][cx.choose("c", len(p["cmds"]))]
    s = p["pre"] + cx.string("s", p["n"], "option")
    head = " " * p["b"] + c + " " + p["mid"]
    got = ask(v, head, s, p["tail"])
    judge(cx, got, options(v, c), s, "options offered")
    cx.cover("later")


def none(cx, p):
    """Nothing is offered after a word that is no command."""
    v = p["v"]
    t = cx.string("t", p["n"], "option")
    s = cx.string("s", p["m"], "option")
    for c in list(TABLE[v]) + INTERNAL:
        if len(c) == p["n"]:
            cx.assume(t != c)
    got = ask(v, t + " ", s, p["tail"])
    cx.check_eq(got, [], "nothing to offer", lambda: repr([t, s, got]))
    cx.cover("none")


# -- sessions ----------------------------------------------------------------
class Moves(object):
    def __init__(self, f):
        self.input = f
        self.moves = self


TYPED = {"g": "lang ~", "G": "user --name=~", "c": "# ~", "u": "bo9~", "o": "lang --~9", "m": "rootpw", "t": "timezone --utc ~",
         "n": "keyboard ~", "b": "   ", "e": "", "q": "lang \"~", "k": "  keyboard ~ # x", ".c": ".clear", ".s": ".show", ".x": ".zz~",
         ".q": ".quit", "i": "%include INC", "j": "%include no~", "z": "%zz", ".C": ".clear now", " .c": "  .clear", " .q": " .quit", " .s": "\t.show"}


def run(argv, lines, end):
    todo = list(lines)

    def ask_line(prompt=""):
        if todo:
            return todo.pop(0)
        raise end()
    oldr, olds = ksshell.readline, ksshell.six
    ksshell.readline = Readline()
    ksshell.six = Moves(ask_line)
    ksshell.input = ask_line
    try:
        with cmdlib.quiet() as q:
            r = ksshell.main(argv)
    finally:
        ksshell.readline, ksshell.six = oldr, olds
        del ksshell.input
    return r, q, todo


def session(cx, p):
    """The result is that of a file with the good lines since the last .clear."""
    ver = p["v"]
    fs = cx.fs()
    inc = fs.put("d/inc", "%pre\nxx\n%end\n%packages\npp\n-rr\n%end\nskipx\n")
    lines = []
    good = []
    ended = None
    argv = ["-v", ver]
    if p["input"] is not None:
        s0 = cx.string("i", 1, "lower")
        body = {"good": "lang " + s0 + s0 + "\n%post\n" + s0 + "\n%end\n", "bad": "lang --zz9\nkeyboard " + s0 + "\n",
                "open": "keyboard " + s0 + "\n%post\n" + s0 + "\n", "quote": "keyboard " + s0 + "\nlang \"\n", "missing": None}[p["input"]]
        if body is not None:
            fs.put("in.ks", body)
        argv = argv + ["-i", fs.root + "/in.ks"]
        good += {"good": ["lang " + s0 + s0, "%post\n" + s0 + "\n%end\n"], "missing": []}.get(p["input"], ["keyboard " + s0])
    for i, x in enumerate(p["seq"]):
        t = TYPED[x].replace("INC", inc)
        a, m, b = t.partition("~")
        if m:
            t = a + cx.string("s%d" % i, 2, "lower") + b
        lines.append(t)
        if ended is not None:
            continue
        if x in (".c", ".C"):
            good = []
        elif x == ".q":
            ended = i
        elif x == "i":
            good.append("%pre\nxx\n%end\n%packages\npp\n-rr\n%end\nskipx\n")
        elif x in "gGctnk":
            good.append(t)
    if p["out"]:
        argv = argv + ["-o", fs.root + "/out.ks"]
    r, q, todo = run(argv, lines, EOFError if p["end"] else KeyboardInterrupt)
    cx.check_eq(r, 0, "exit status")
    cx.check_eq(len(todo), len(lines) - 1 - ended if ended is not None else 0, "lines read", lambda: repr([lines, todo]))
    cx.check_eq(fs.leftovers(), [], "temporary files removed", lambda: repr(fs.leftovers()))
    h = cmdlib.pool(ver)
    with cmdlib.quiet():
        for t in good:
            try:
                KickstartParser(h).readKickstartFromString(t + "\n")
            except KickstartError:
                cx.fail("good line refused", lambda: t)
    want = str(h)
    if p["out"]:
        cx.check_eq(fs.read(fs.root + "/out.ks"), want, "file written", lambda: repr([lines, want, fs.read(fs.root + "/out.ks")]))
    else:
        text = q.out.text()
        cx.check_eq(text[-len(want) - 2:], "\n" + want + "\n", "result shown", lambda: repr([lines, text[-len(want) - 2:], want]))
    cx.cover("session")


def refused(cx, p):
    s = cx.string("s", p["n"], "alnum")
    for v in c14.ALL + ["DEVEL"]:
        if len(v) == p["n"]:
            cx.assume(s.upper() != v)
    if s.isdigit():
        cx.assume(cx.none_of(int(s), sorted(VERSIONS.values())))
    r, q, todo = run(["-v", s], ["lang x"], EOFError)
    cx.check_eq([r, len(todo)], [1, 1], "unknown version")
    cx.cover("refused")


def jobs(tier):
    q = tier == "quick"
    out = []

    def add(h, cost=5, **p):
        out.append({"h": h, "p": p, "cost": cost})
    seen = set()
    for vi, v in enumerate(c14.ALL):
        for n in range(0, 4 if q else 7):
            add("first", 10, v=v, n=n, b=(vi + n) % 3, pre="", tail=["", " x", "x"][(vi + n) % 3])
        add("first", 5, v=v, n=1, b=0, pre=".", tail="")
        for pre in (["part", "re", "auth"] if q else ["part", "re", "auth", "s", "b", "in", "up"]):
            add("first", 5, v=v, n=2, b=vi % 2, pre=pre, tail="")
        new = [c for c in sorted(TABLE[v]) if c != "method" and (not q or (c, TABLE[v][c]) not in seen)]
        seen |= {(c, TABLE[v][c]) for c in new}
        for k in range(0, len(new), 12):
            for n in range(0, 7 if q else 11):
                pre = "--" if n > 2 else ""
                add("later", 30, v=v, cmds=new[k:k + 12], n=n - len(pre), b=n % 2, pre=pre, mid=["", "x ", "--foo=1 "][n % 3],
                    tail=["", "z", " --x"][n % 3])
        for n in range(1, 5):
            if not q or (vi + n) % 4 == 0:
                add("none", 8, v=v, n=n, m=(vi + n) % 3, tail="")
    vs = ["F8", "RHEL6", "F21", "RHEL8", "F34"] if q else [v for v in c14.ALL if VERSIONS[v] >= VERSIONS["F8"]]
    r = random.Random(5)
    names = sorted(TYPED)
    seqs = [[]] + [[a] for a in names] + [["g", a] for a in names] + [[a, ".c", "n"] for a in names] + [["g", a, "G"] for a in names]
    for _ in range(150 if q else 2000):
        seqs.append([r.choice(names) for _x in range(r.choice([3, 4] if q else [3, 4, 5]))])
    inputs = [None, None, "good", "bad", "open", "quote", "missing"]
    for i, s in enumerate(seqs):
        add("session", 12, v=vs[i % len(vs)], seq=s, input=inputs[i % len(inputs)], out=i % 2, end=i % 3)
    for n in range(1, 5):
        add("refused", 10, n=n)
    return out
