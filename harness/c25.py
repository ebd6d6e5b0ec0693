"""C25: an option exists under exactly the names and with the rules declared last."""
import random
import warnings

from pykickstart.errors import KickstartDeprecationWarning, KickstartParseError
from pykickstart.options import ExtendAction, KSOptionParser, commaSplit, ksboolean
from pykickstart.version import F7, F18, F25, FC3, FC6, RHEL7, versionToLongString
from harness.cmdlib import t_bool, t_comma

BUDGET = {"quick": 150, "thorough": 2400}
BOUNDS = {"histories": "up to 5 (thorough 6) declarations, redeclarations, deprecations and removals of options with one or two names out "
                       "of 6 (some of them beginnings of others), of 8 kinds (text, number, flag, boolean, list with and without default, repeated, choice), required "
                       "or not; then a line of up to 2 options, of which one name may be 1..4 arbitrary characters or the beginning "
                       "of a name, with symbolic values of 0..2 characters, joined or separate, and up to one further word",
          "help": "the same histories, every marker of a version in the help text"}
ENCODED = ["KSOptionParser", "ExtendAction", "commaSplit", "ksboolean", "argparse (ArgumentParser._parse_known_args and below)"]
ASSUMPTIONS = ["alphabet of the engine", "option names may be shortened as long as they are unambiguous (argparse)"]
MUST_REACH = ["accepted", "refused", "deprecated", "removed", "required", "shortened", "unknown", "help"]
NAMES = ["--alpha", "--alp", "--beta", "--bet2", "--gamma", "--g"]
KINDS = ["text", "int", "flag", "bool", "list", "listd", "many", "choice"]
VERS = [FC3, FC6, F7, F18, F25, RHEL7]


def kwargs(kind, dest, required):
    d = {"dest": dest, "required": required}
    if kind == "int":
        d["type"] = int
    elif kind == "flag":
        d.update(action="store_true", default=False)
    elif kind == "bool":
        d["type"] = ksboolean
    elif kind == "list":
        d.update(action=ExtendAction, type=commaSplit)
    elif kind == "listd":
        d.update(action=ExtendAction, type=commaSplit, default=["d"])
    elif kind == "many":
        d["action"] = "append"
    elif kind == "choice":
        d["choices"] = ["x", "yy"]
    return d


class Model(object):
    """The options that exist."""
    def __init__(self):
        self.opts = []              # [names, kind, dest, required, deprecated, markers]
        self.listed = []            # those the help text lists, removed ones included

    def find(self, name):
        for o in self.opts:
            if name in o[0]:
                return o
        return None

    def declare(self, names, kind, dest, required, dep, ver):
        marks = []
        old = [o for o in self.opts if any(n in o[0] for n in names)]
        if old:
            marks = old[-1][5] + [[("deprecated" if dep else "versionchanged"), ver]]
        else:
            marks = [["versionadded", ver]] + ([["deprecated", ver]] if dep else [])
        for o in self.opts:
            o[0] = [n for n in o[0] if n not in names]
        self.opts = [o for o in self.opts if o[0]]
        self.listed = [o for o in self.listed if o[0]]
        self.opts.append([list(names), kind, dest, required, dep, marks])
        self.listed.append(self.opts[-1])

    def remove(self, name, ver):
        for o in self.opts:
            if name in o[0]:
                o[5] = o[5] + [["versionremoved", ver]]
        self.opts = [o for o in self.opts if name not in o[0]]

    def names(self):
        return [n for o in self.opts for n in o[0]]


def build(p, vers):
    """The parser and the model after the same declarations."""
    op = KSOptionParser(prog="x", description="d", version=vers(0))
    m = Model()
    for i, (what, names, kind, req) in enumerate(p["ops"]):
        v = vers(i + 1)
        dest = "d%d" % i
        if what == "remove":
            op.remove_argument(names[0], version=v)
            m.remove(names[0], v)
        elif what == "dep":
            old = m.find(names[0])
            if old is not None:
                kind, dest, names = old[1], old[2], old[0]
            kw = kwargs(kind, dest, False)
            if old is None:
                kw["help"] = ""
            op.add_argument(*names, deprecated=v, **kw)
            m.declare(names, kind, dest, False, True, v)
        else:
            op.add_argument(*names, version=v, help="", **kwargs(kind, dest, req))
            m.declare(names, kind, dest, req, False, v)
    return op, m


def resolve(cx, m, name):
    """The option a word stands for; None: none, False: several."""
    for n in m.names():
        if n == name:
            return m.find(n)
    hits = [n for n in m.names() if n.startswith(name)]
    if len(hits) == 1:
        cx.cover("shortened")
        return m.find(hits[0])
    if len(hits) > 1:
        cx.assume(any(m.find(h) is not m.find(hits[0]) for h in hits))      # two names of one option: not claimed
        return False
    return None


def value(o, v):
    """(legal, value)"""
    k = o[1]
    if k == "int":
        b = v[1:] if v[:1] == "-" or v[:1] == "+" else v
        if not b.isdigit():
            return False, None
        return True, int(v)
    if k == "bool":
        return v.lower() in ("on", "yes", "true", "1", "off", "no", "false", "0"), t_bool(v)
    if k in ("list", "listd"):
        return True, t_comma(v)
    if k == "choice":
        return (v == "x" or v == "yy"), v
    return True, v


def line(cx, p):
    """A line is accepted exactly when the declarations left allow it, and gives exactly its values."""
    op, m = build(p, lambda i: VERS[i % len(VERS)])
    words, ok, want, dep = [], True, {}, 0
    used = set()
    for o in m.opts:
        want[o[2]] = False if o[1] == "flag" else ["d"] if o[1] == "listd" else None
    for i, (name, sym, n, sep) in enumerate(p["line"]):
        if sym == "any":
            name = "--" + cx.string("o%d" % i, name, "option")
            cx.assume(not name[:3] == "---")
        o = resolve(cx, m, name)
        if o is not None and o is not False and o[4]:
            dep += 1
        if sep == "none":
            words.append(name)
            if o is None or o is False or o[1] != "flag":
                ok = False
                continue
            want[o[2]] = True
            used.add(o[2])
            continue
        v = cx.string("v%d" % i, n, "digit" if n and o and o[1] == "int" and i % 2 == 0 else "alnum")
        if o and o[1] == "bool" and n == 2 and (p["k"] + i) % 2:
            v = ["o" + v[1:], "tRu" + v[1:], "N" + v[1:], "ofF"][p["k"] // 2 % 4]
        if sep == "join":
            words.append(name + "=" + v)
        else:
            words += [name, v]
        if not ok:
            continue
        if o is None or o is False or o[1] == "flag":
            ok = False
            continue
        good, x = value(o, v)
        if not good:
            ok = False
            continue
        used.add(o[2])
        if o[1] in ("list", "listd", "many"):
            if want[o[2]] is None:
                want[o[2]] = []
            want[o[2]] = want[o[2]] + (x if o[1] != "many" else [x])
        else:
            want[o[2]] = x
    if p.get("extra"):
        words.insert(0, "zz")
        ok = False
    for o in m.opts:
        if o[3] and o[2] not in used:
            cx.cover("required")
            ok = False
    for _twice in range(2):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                ns = op.parse_args(args=list(words), lineno=p["k"])
            except KickstartParseError as e:
                cx.check(not ok, "legal line refused", lambda: repr([p["ops"], words, e]))
                cx.check_eq(e.lineno, p["k"], "line of the error")
                cx.cover("refused")
                ns = None
        if ns is None:
            continue
        cx.check(ok, "illegal line accepted", lambda: repr([p["ops"], words, vars(ns)]))
        cx.check_eq(vars(ns), want, "values", lambda: repr([p["ops"], words, vars(ns), want]))
        w = [x for x in w if issubclass(x.category, KickstartDeprecationWarning)]
        cx.check_eq(len(w), dep, "warnings about deprecated options", lambda: repr([p["ops"], words]))
        cx.cover("accepted")
        if dep:
            cx.cover("deprecated")
    if ok and not any(o[3] for o in m.opts):
        rest = {o[2]: False if o[1] == "flag" else ["d"] if o[1] == "listd" else None for o in m.opts}
        cx.check_eq(vars(op.parse_args(args=[], lineno=1)), rest, "defaults", lambda: repr([p["ops"], words]))
    if any(o[0] == "remove" for o in p["ops"]):
        cx.cover("removed")
    if any(x[1] == "any" for x in p["line"]):
        cx.cover("unknown")


def helps(cx, p):
    """The help text names the versions an option was added, changed and deprecated in."""
    vs = [VERS[cx.choose("ver%d" % i, 2) + 2 * (i % 3)] for i in range(len(p["ops"]) + 1)]
    op, m = build(p, lambda i: vs[i])
    text = op.format_help()
    got = []
    for x in text.split("\n"):
        x = x.strip()
        if x[:3] == ".. ":
            a, _m, b = x[3:].partition(":: ")
            got.append([a, b])
    want = [["versionadded", versionToLongString(vs[0])]]
    for o in m.listed:
        want += [[a, versionToLongString(v)] for a, v in o[5]]
    cx.check_eq(got, want, "versions in the help text", lambda: repr([p["ops"], text]))
    cx.cover("help")


def jobs(tier):
    q = tier == "quick"
    out = []

    def add(h, cost=5, **p):
        out.append({"h": h, "p": p, "cost": cost})
    r = random.Random(5)
    fixed = [[["add", ["--alpha"], "text", False]], [["add", ["--beta", "--bet2"], "flag", False]],
             [["add", ["--alpha"], "text", False], ["dep", ["--alpha"], "text", False]],
             [["add", ["--alpha"], "text", False], ["dep", ["--alpha"], "text", False], ["add", ["--alpha"], "int", False]],
             [["add", ["--beta", "--bet2"], "text", False], ["remove", ["--beta"], "", False]],
             [["add", ["--beta", "--bet2"], "text", False], ["remove", ["--bet2"], "", False]],
             [["add", ["--beta", "--bet2"], "text", True], ["add", ["--beta"], "int", False]],
             [["add", ["--beta", "--bet2"], "text", True], ["add", ["--beta"], "int", False], ["remove", ["--bet2"], "", False]],
             [["add", ["--beta"], "text", True], ["remove", ["--beta"], "", False], ["add", ["--beta"], "flag", False]],
             [["add", ["--alpha"], "text", False], ["add", ["--alp"], "int", False], ["remove", ["--alp"], "", False]],
             [["add", ["--alpha"], "text", False], ["add", ["--alp"], "int", False], ["remove", ["--alpha"], "", False]],
             [["dep", ["--gamma"], "flag", False], ["add", ["--g"], "int", True]]]
    hist = list(fixed)
    for _ in range(600 if q else 3000):
        ops = []
        for _x in range(r.choice([2, 3, 4, 5] if q else [3, 4, 5, 6])):
            k = r.choice(["add", "add", "add", "dep", "remove"])
            if k == "add":
                names = r.sample(NAMES, r.choice([1, 1, 2]))
                ops.append([k, names, r.choice(KINDS), r.random() < .2])
            else:
                here = [n for o in ops for n in o[1]] or NAMES
                ops.append([k, [r.choice(here + [r.choice(NAMES)])], r.choice(KINDS), False])
        hist.append(ops)
    for i, ops in enumerate(hist):
        add("helps", 10, ops=ops)
        seen = sorted(set(n for o in ops for n in o[1]))
        for n in seen:
            for sep in ("join", "sep", "none"):
                add("line", 5, ops=ops, k=i + 1, line=[[n, "", 1 + i % 2 if sep != "join" else i % 3, sep]])
        for j in range(4 if q else 12):
            ln = []
            for _x in range(2):
                n = r.choice(seen + seen + NAMES)
                if r.random() < .3:
                    n = n[:r.randrange(3, len(n) + 1)]
                ln.append([n, "", r.choice([1, 2]), r.choice(["join", "sep", "none"])])
            add("line", 9, ops=ops, k=i + 1, line=ln, extra=r.random() < .1)
        ln = [[1 + i % (3 if q else 4), "any", 1, ["join", "none", "sep"][i // 3 % 3]]]
        if r.random() < .5:
            ln.append([r.choice(seen), "", 1, "join"])
        add("line", 40, ops=ops, k=i + 1, line=ln)
    return out
