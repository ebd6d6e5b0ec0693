"""C04: illegal values and option combinations are rejected, legal ones accepted."""
from pykickstart.errors import KickstartError, KickstartParseError
from harness import cmdlib, cmdspec
from harness.cmdlib import line_of, parse_line
from harness.cmdspec import GROUPS, SHAPES, has, int_lengths, place, special, value, word_of

BUDGET = {"quick": 150, "thorough": 3000}
BOUNDS = {"commands": "all command classes in the contexts of spec/bases.py; quick: newest version of each class "
                      "(oldest too for rejected values), thorough: every version",
          "illegal values": "every printable text of 1..6 characters that is not a documented value; integers on both "
                            "sides of a documented limit (all values of up to 1 digit more than the limit)",
          "structure": "missing values, values given to flags, empty values, missing required words, extra words, "
                       "every conflicting pair in both orders with symbolic values; each of these also together with "
                       "up to three sets of further options",
          "legal values": "as in C02, single options with values of 1..3 characters"}
ENCODED = ["KickstartParser.readKickstartFromString and everything below it", "parse()/_getParser of every command",
           "shlex.shlex", "argparse.ArgumentParser.parse_known_args"]
ASSUMPTIONS = ["alphabet of the engine", "contracts in spec/commands.json"]
MUST_REACH = ["legal", "badvalue", "badint", "conflict", "structure", "company"]


def rejected(cx, p, cmd, args, what):
    """The line (second of the file) must be a parse error on line 2."""
    h = cmdlib.pool(p["v"])
    line = "\n" + line_of(cmd, args)
    try:
        parse_line(h, line)
    except KickstartError as e:
        cx.check(isinstance(e, KickstartParseError), "kind of error", lambda: line + repr(e))
        cx.check_eq(e.lineno, 2, "line of the error", lambda: line + str(e))
        return
    cx.fail(what, lambda: line)


def accepted(cx, p, cmd, args, what):
    h = cmdlib.pool(p["v"])
    line = "\n" + line_of(cmd, args)
    try:
        parse_line(h, line)
    except KickstartError as e:
        cx.fail(what, lambda: line + str(e))
    cx.check(True, what)


def legal(cx, p):
    ids = p["ids"]
    i = cx.choose("i", len(ids))
    ln = p["lens"][cx.choose("n", len(p["lens"]))]
    cmd = GROUPS[p["g"]]["command"]
    args, _parts = cmdspec.build(cx, cmd, p["s"], [ids[i]], ln - 1, "text", "C02", True)
    accepted(cx, p, cmd, args, "legal value accepted")
    cx.cover("legal")


def illegal(cx, p, cmd, o, at, n, alph):
    """A symbolic text of n characters that is not a documented value of the option."""
    v = cx.string("v", n, alph)
    if at["k"] == "path":
        v = "/" + v
    good = [a["v"] for a in o["atoms"] if a["k"] == "lit" and a["ok"] and len(a["v"]) == len(v)]
    if good:
        low = v.lower()
        cx.assume(cx.none_of(low, [x.lower() for x in good]))
    if has(o, "path", True):
        cx.assume(v[:1] != "/")
    if o.get("type") in ("commaSplit",) or cmd == "snapshot" or "--bridgeopts" in o["names"]:
        cx.assume(v[:1].isalnum())      # a list of blanks is an empty list
        cx.assume("=" not in v)
        cx.assume("/" not in v)
    if has(o, "list", True):
        cx.assume("," not in v)
    if has(o, "int", True) or o.get("type") == "int":
        if n > 1 and p.get("digitfirst"):
            cx.assume(v[:1].isdigit())
            cx.assume(v[1:2].isalpha())
        else:
            cx.assume(v[:1].isalpha())
    if "pos" in o:
        cx.assume(v[:1] != "-")
        cx.assume(v[:1] != "/")
    return v


def badvalue(cx, p):
    """A word that is not a documented value of the option."""
    c = SHAPES[p["s"]]
    i, k = p["items"][cx.choose("i", len(p["items"]))]
    o = c["options"][i]
    at = o["atoms"][k]
    cmd = GROUPS[p["g"]]["command"]
    if at["k"] == "flag":
        rejected(cx, p, cmd, place(list(c["base"]), o, at["word"]), "option that is not allowed here rejected")
        return
    if at["k"] == "lit":
        rejected(cx, p, cmd, place(list(c["base"]), o, at["word"]), "documented illegal value rejected")
        return
    n = 1 + cx.choose("n", p["maxn"])
    v = illegal(cx, p, cmd, o, at, n, "text")
    rejected(cx, p, cmd, place(list(c["base"]), o, at["word"] + '"' + v + '"'), "undocumented value rejected")
    cx.cover("badvalue")


def badint(cx, p):
    """An integer outside the documented range."""
    c = SHAPES[p["s"]]
    i, k = p["items"][cx.choose("i", len(p["items"]))]
    o = c["options"][i]
    at = o["atoms"][k]
    cmd = GROUPS[p["g"]]["command"]
    top = max([len(str(abs(x))) for x in (at.get("lo"), at.get("hi")) if x is not None] +
              [len(str(x)) for x in at.get("set", ()) if len(at["set"]) <= 20])
    n = 1 + cx.choose("n", min(top + 1, p["maxn"]))
    neg = at.get("lo") is not None and at["lo"] >= 0 and cx.choose("neg", 2) == 1
    v = cx.string("v", n, "digit")
    x = int(v)
    if neg:
        cx.assume(x > -(at["lo"]))
        cx.assume(x > 0)
        v = "-" + v
    elif "set" in at and len(at["set"]) <= 20:
        cx.assume(cx.none_of(x, at["set"]))
    else:
        lo, hi = at.get("lo"), at.get("hi")
        bad = False
        if lo is not None and x < lo:
            bad = True
        if hi is not None and x > hi:
            bad = True
        cx.assume(bad)
    rejected(cx, p, cmd, place(list(c["base"]), o, at["word"] + v), "value out of range rejected")
    cx.cover("badint")


def structure(cx, p):
    c = SHAPES[p["s"]]
    base = c["base"]
    cmd = GROUPS[p["g"]]["command"]
    items = []
    for i, o in enumerate(c["options"]):
        if o.get("flagval") == "rej":
            items.append(("flagval", i))
        if o.get("noval") == "rej":
            items.append(("noval", i))
        if o.get("empty") in ("rej", "ok"):
            items.append((o["empty"], i))
    for i, d in enumerate(c["droppable"]):
        if d is False:
            items.append(("drop", i))
    if c["extra"] == "rej":
        items.append(("extra", 0))
    if not items:
        return
    lo, hi = p["slice"]
    items = items[lo:hi]
    k, i = items[cx.choose("i", len(items))]
    if k == "drop":
        rejected(cx, p, cmd, base[:i] + base[i + 1:], "missing required word rejected")
    elif k == "extra":
        v = cx.string("v", 2, "alnum")
        rejected(cx, p, cmd, base + [v], "extra word rejected")
    else:
        o = c["options"][i]
        name = o["names"][-1]
        if k == "flagval":
            v = cx.string("v", 2, "alnum")
            rejected(cx, p, cmd, place(list(base), o, name + "=" + v), "value for a flag rejected")
        elif k == "noval":
            rejected(cx, p, cmd, [b for b in base if b.split("=")[0] not in o["names"]] + [name],
                     "missing value rejected")
        elif k == "rej":
            rejected(cx, p, cmd, place(list(base), o, name + "="), "empty value rejected")
        else:
            accepted(cx, p, cmd, place(list(base), o, name + "="), "empty value accepted")
    cx.cover("structure")


class NonZero(object):
    def __init__(self, cx):
        self.cx = cx

    def string(self, name, n, alph):
        v = self.cx.string(name, n, alph)
        if alph == "digit":
            self.cx.assume(v[n - 1:] != "0")
        return v

    def __getattr__(self, a):
        return getattr(self.cx, a)


def conflict(cx, p):
    """A pair of options documented as incompatible, in both orders."""
    c = SHAPES[p["s"]]
    flat = cmdspec.atoms(p["s"])
    cmd = GROUPS[p["g"]]["command"]
    pr = p["pairs"][cx.choose("i", len(p["pairs"]))]
    if cx.choose("o", 2):
        pr = [pr[1], pr[0]]
    # a number that is zero counts as not given
    args, _parts = cmdspec.build(NonZero(cx), cmd, p["s"], pr, 1, "rowtext", "C02r", True)
    rejected(cx, p, cmd, args, "conflicting options rejected")
    cx.cover("conflict")


def company(cx, p):
    """Whatever is illegal stays illegal in the company of further options."""
    c = SHAPES[p["s"]]
    cmd = GROUPS[p["g"]]["command"]
    u, rows = c["company"][p["units"][cx.choose("u", len(p["units"]))]]
    row = rows[cx.choose("r", len(rows))]
    nz = NonZero(cx)
    more = [u[1], u[2]] if u[0] == "pair" else []
    args, _parts = cmdspec.build(nz, cmd, p["s"], row + more, 1, "rowword", "C01r", False)
    if u[0] == "drop":
        args = args[:u[1]] + args[u[1] + 1:]
    elif u[0] != "pair":
        o = c["options"][u[1]]
        at = o["atoms"][u[2]]
        w = at["word"]
        if u[0] == "hi":
            v = cx.string("v", len(str(at["hi"] + 1)), "digit")
            cx.assume(int(v) > at["hi"])
            w = w + v
        elif u[0] == "lo":
            v = cx.string("v", max(1, len(str(at["lo"]))), "digit")
            if at["lo"] > 0:
                cx.assume(int(v) < at["lo"])
            else:
                cx.assume(int(v) > -at["lo"])
                v = "-" + v
            w = w + v
        elif at["k"] == "word":
            w = w + illegal(cx, p, cmd, o, at, 2, "alnum")
        args = place(args, o, w)
    rejected(cx, p, cmd, args, "illegal line rejected in company")
    cx.cover("company")


def jobs(tier):
    q = tier == "quick"
    out = []
    for g, s, v in cmdspec.pairs("ends" if q else "all"):
        c = SHAPES[s]
        cmd = GROUPS[g]["command"]
        base = {"g": g, "s": s, "v": v}
        newest = v == GROUPS[g]["versions"][-1]
        ids = sorted(cmdspec.usable(cmd, s, "C02"))
        if newest or not q:
            for k in range(0, len(ids), 16):
                out.append({"h": "legal", "p": dict(base, ids=ids[k:k + 16], lens=[1, 2 + s % 2] if q else [1, 2, 3, 4]), "cost": 16})
        bad, bint, n = [], [], 0
        for i, o in enumerate(c["options"]):
            if not o["names"] and cmd in NOPOS:
                continue
            for k, at in enumerate(o["atoms"]):
                if at["ok"] is False:
                    bad.append([i, k])
                if at["ok"] and at["k"] == "int" and (at.get("lo") is not None or at.get("hi") is not None or
                                                      len(at.get("set", range(99))) <= 20):
                    bint.append([i, k])
        if bad:
            for k in range(0, len(bad), 12):
                out.append({"h": "badvalue", "p": dict(base, items=bad[k:k + 12], maxn=(3 if newest else 2) if q else 6), "cost": 12})
                if newest or not q:
                    out.append({"h": "badvalue", "p": dict(base, items=bad[k:k + 12], maxn=2 if q else 4, digitfirst=1), "cost": 8})
        if bint:
            out.append({"h": "badint", "p": dict(base, items=bint, maxn=4 if q else 6), "cost": 8 * len(bint)})
        if newest or not q:
            for k in range(0, 400, 20):
                n = 3 * len(c["options"]) + len(c["droppable"]) + 1
                if k < n:
                    m = count_structure(c)
                    if k < m:
                        out.append({"h": "structure", "p": dict(base, slice=[k, min(k + 20, m)]), "cost": 10})
        n = len(c.get("company", ()))
        if newest or not q:
            for k in range(0, n, 6):
                out.append({"h": "company", "p": dict(base, units=list(range(k, min(n, k + 6)))), "cost": 12})
        rp = [x for x in c["rejected_pairs"]]
        for k in range(0, len(rp), 8):
            out.append({"h": "conflict", "p": dict(base, pairs=rp[k:k + 8]), "cost": 8})
    return out


def count_structure(c):
    n = 0
    for o in c["options"]:
        n += (o.get("flagval") == "rej") + (o.get("noval") == "rej") + (o.get("empty") in ("rej", "ok"))
    return n + sum(1 for d in c["droppable"] if d is False) + (c["extra"] == "rej")


NOPOS = ()
