"""C17: the version difference report is exact."""
from harness import c14, cmdlib
from harness.c03 import SETS, TABLE, VERSIONS
from tools import ksverdiff

BUDGET = {"quick": 200, "thorough": 1800}
BOUNDS = {"pairs": "every ordered pair of versions, the letters of both names in any case, with the options in either order and "
                   "either spelling",
          "names": "version names of up to 5 symbolic letters and digits, on either side or missing"}
ENCODED = ["ksverdiff.main/getCommandSet/getOptSet", "makeVersion", "commandMap of every version", "_getParser of every command",
           "DeprecatedCommand/RemovedCommand"]
ASSUMPTIONS = ["tables in spec/versions.json (recorded from the reference tree)",
               "an option is named by its first spelling; the internal method command is left out"]
MUST_REACH = ["pair", "refused"]

# Other spellings of an option.
ALIAS = {("eula", "--agree"): "--agreed", ("eula", "--accepted"): "--agreed", ("eula", "--accept"): "--agreed",
         ("firewall", "--disabled"): "--disable", ("firewall", "--enabled"): "--enable",
         ("firstboot", "--disabled"): "--disable", ("firstboot", "--enabled"): "--enable",
         ("part", "--type"): "--fstype", ("part", "--ondrive"): "--ondisk", ("part", "--usepart"): "--onpart",
         ("partition", "--type"): "--fstype", ("partition", "--ondrive"): "--ondisk", ("partition", "--usepart"): "--onpart",
         ("timezone", "--isUtc"): "--utc"}

# These will be deprecated one day.
ANNOUNCED = {("timezone", "--isUtc"), ("timezone", "--ntpservers"), ("timezone", "--nontp")}


def options(v, c):
    return {ALIAS.get((c, o), o) for o in SETS[TABLE[v][c]]["opts"]}


def expected(a, b):
    """The differences between two versions."""
    ta, tb = TABLE[a], TABLE[b]

    def kind(t, c):
        return SETS[t[c]]["kind"]
    out = {"removed": sorted(c for c in ta if c not in tb or (kind(tb, c) == "removed" and kind(ta, c) != "removed")),
           "deprecated": sorted(c for c in ta if c in tb and kind(tb, c) == "deprecated"),
           "added": sorted(c for c in tb if c not in ta)}
    for c in sorted(ta):
        if c not in tb or c == "method" or kind(ta, c) != "active" or kind(tb, c) != "active":
            continue
        x, y = options(a, c), options(b, c)
        e = SETS[tb[c]]["opts"]
        d = {ALIAS.get((c, o), o) for o in e if e[o]["dep"] and (c, o) not in ANNOUNCED}
        for what, names in (("added", y - x), ("removed", x - y), ("deprecated", d)):
            if names:
                out[(what, c)] = sorted(names)
    return out


def report(text):
    """The differences a report names."""
    out = {}
    key = None
    for ln in text.split("\n"):
        w = ln.split()
        what = [x for x in w if x in ("added", "removed", "deprecated")]
        if w and ln.endswith(":") and what:
            if "options" in w:
                key = (what[0], w[w.index("command") - 1])
            else:
                key = what[0]
            if key in out:
                out["twice"] = key
            out[key] = []
        elif w:
            if key is None:
                out["stray"] = ln
                continue
            out[key] = out[key] + w
    return {k: v for k, v in out.items() if k[1:] != ("method",)}


def run(argv):
    with cmdlib.quiet() as q:
        r = ksverdiff.main(argv)
    return r, q.out.text()


def spelled(cx, name, ver):
    """The name in any letter case."""
    out = ""
    for i, c in enumerate(ver):
        if c.isalpha():
            s = cx.string("%s%d" % (name, i), 1, "alpha")
            cx.assume(s.lower() == c.lower())
            out = out + s
        else:
            out = out + c
    return out


def pair(cx, p):
    """The report of two versions."""
    a, b = p["a"], p["b"]
    x, y = (spelled(cx, "a", a), spelled(cx, "b", b)) if p["sym"] else (a, b)
    argv = [["-f", x, "-t", y], ["-t", y, "-f", x], ["--from", x, "--to", y]][p["form"]]
    r, text = run(argv)
    cx.check_eq(r, 0, "exit status")
    got = report(text)
    want = expected(a, b)
    cx.check(set(got) == set(want), "what is reported", lambda: repr([a, b, set(got) ^ set(want)]))
    cx.check_eq({str(k): got[k] for k in got}, {str(k): want[k] for k in want}, "what is reported",
                lambda: repr([a, b, [(k, got[k], want[k]) for k in got if got[k] != want[k]]]))
    cx.cover("pair")


def refused(cx, p):
    """Names of no version are refused without a report."""
    s = cx.string("s", p["n"], "alnum")
    ok = s.upper() in c14.ALL + ["DEVEL"]
    if s.isdigit():
        ok = int(s) in sorted(VERSIONS.values())
    argv = {"f": ["-f", s, "-t", "F34"], "t": ["-f", "F34", "-t", s], "of": ["-f", s], "ot": ["-t", s], "no": []}[p["how"]]
    if not p["n"]:
        ok = False
    r, text = run(argv)
    if p["how"] in ("of", "ot", "no") or not ok:
        cx.check_eq(r, 1, "exit status")
        cx.check_eq(report(text).get("removed"), None, "no report")
        cx.cover("refused")
        return
    cx.check_eq(r, 0, "exit status", lambda: repr([s, text]))


def jobs(tier):
    q = tier == "quick"
    out = []
    n = 0
    for a in c14.ALL:
        for b in c14.ALL:
            out.append({"h": "pair", "p": {"a": a, "b": b, "sym": int(not q or n % 9 == 0), "form": n % 3}, "cost": 5})
            n += 1
    for how in ("f", "t", "of", "ot", "no"):
        for n in range(0, 6 if how in "ft" else 2):
            if n and how == "no":
                continue
            out.append({"h": "refused", "p": {"how": how, "n": n}, "cost": 10})
    return out
