"""C03: each version accepts exactly its own commands and options."""
import json
import os
import warnings

from pykickstart.errors import KickstartDeprecationWarning, KickstartError, KickstartParseError
from harness import cmdlib
from harness.cmdlib import line_of, norm, obs, parse_line

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "versions.json")) as _f:
    V = json.load(_f)
VERSIONS = V["versions"]
TABLE = V["commands"]
SETS = V["sets"]

BUDGET = {"quick": 150, "thorough": 3000}
BOUNDS = {"versions": "all 38 versions (DEVEL is the newest)",
          "command names": "every known name in every version; every other printable word of up to 14 characters "
                           "(thorough: 20)",
          "option names": "every option of every command class, whole and cut to every length; every other word of "
                          "letters, digits and dashes of up to 12 characters after the dashes (thorough: 20)",
          "foreign options": "every option the command has in any other version, in every version",
          "arguments": "of removed and deprecated commands: any printable words without quotes, up to 6 characters"}
ENCODED = ["KickstartHandler.dispatcher", "commandMap of every version", "KSOptionParser._parse_optional",
           "argparse.ArgumentParser._get_option_tuples", "DeprecatedCommand.parse", "RemovedCommand"]
ASSUMPTIONS = ["alphabet of the engine", "tables in spec/versions.json (recorded from the reference tree)"]
MUST_REACH = ["known", "unknown", "abbrev", "unknownopt", "foreign", "gone", "depmix"]


def outcome(ver, text):
    """("ok", data of every command seen, deprecation warnings) or ("rejected", class, line)."""
    h = cmdlib.pool(ver)
    try:
        w = parse_line(h, text)
    except KickstartError as e:
        return ("rejected", isinstance(e, KickstartParseError), e.lineno)
    data = []
    for n in sorted(h.commands):
        c = h.commands[n]
        if c is not None and c.seen:
            lst = c.dataList()
            data.append([n, obs(c) if lst is None else norm(list(lst))])
    return ("ok", data, sum(1 for c, _m in w if issubclass(c, KickstartDeprecationWarning)))


def known(cx, p):
    """Every command of the version is accepted (or warns, or is refused) as that version has it."""
    names = p["names"]
    c = names[cx.choose("c", len(names))]
    e = SETS[TABLE[p["v"]][c]]
    if e["kind"] == "removed":
        r = outcome(p["v"], "\n" + c + "\n")
        cx.check_eq(r, ("rejected", True, 2), "removed command refused", lambda: c)
        return
    r = outcome(p["v"], "\n" + line_of(c, e["base"]))
    cx.check_eq(r[0], "ok", "command of the version accepted", lambda: repr([c, r]))
    cx.check_eq(r[2], e["dep"], "deprecation warnings", lambda: repr([c, r]))
    h = cmdlib.pool(p["v"])
    parse_line(h, "\n" + line_of(c, e["base"]))
    if e["kind"] == "active":
        cx.check(h.commands[c].seen, "command seen", c)
    cx.check_eq(h.commands[c].currentCmd, c, "handled by its own command object", c)
    cx.cover("known")


def unknown(cx, p):
    """A word that is no command of the version is refused with the line number, whatever follows it."""
    n = p["n"]
    s = cx.string("s", n, p["alph"])
    t = TABLE[p["v"]]
    cx.assume(cx.none_of(s, [c for c in sorted(t) if len(c) == n and SETS[t[c]]["kind"] != "removed"]))
    cx.assume(cx.none_of(s, [c for c in sorted(t) if len(c) == n and SETS[t[c]]["kind"] == "internal"]))
    for a in "#% ":
        cx.assume(s[:1] != a)
    rest = ["", " --name=x", " a b"][cx.choose("r", 3)]
    r = outcome(p["v"], "\n" + s + rest + "\n")
    cx.check_eq(r, ("rejected", True, 2), "unknown command refused", lambda: s + rest)
    cx.cover("unknown")


def abbrev(cx, p):
    """An option cut to an unambiguous length means the option; an ambiguous one is refused."""
    e = SETS[p["e"]]
    c = p["c"]
    opts = e["opts"]
    names = p["names"]
    o = names[cx.choose("o", len(names))]
    k = 3 + cx.choose("k", len(o) - 2)
    cut = o[:k]
    hits = [x for x in opts if x.startswith(cut)] if cut not in opts else [cut]
    how = opts[o]
    w = how["word"] or o
    line = "\n" + line_of(c, how["base"] + [cut + w[len(o):]])
    r = outcome(p["v"], line)
    if len(hits) > 1:
        cx.check_eq(r, ("rejected", True, 2), "ambiguous option refused", lambda: line)
    elif cut == o or hits == [o]:
        full = "\n" + line_of(c, how["base"] + [w])
        if cut == o:
            if how["word"] is not None:
                cx.check_eq(r[0], "ok", "option of the version accepted", lambda: repr([line, r]))
                cx.check_eq(r[2], how["dep"], "deprecation warnings", lambda: repr([line, r]))
        else:
            f = outcome(p["v"], full)
            if c == "timezone":     # --isUtc is announced, not yet deprecated; its notice is for the full word only
                r, f = r[:2], f[:2]
            cx.check_eq(r, f, "abbreviation means the option", lambda: repr([line, r]))
    cx.cover("abbrev")


def unknownopt(cx, p):
    """A word after two dashes that starts no option of the version is refused."""
    e = SETS[p["e"]]
    c = p["c"]
    n = p["n"]
    s = cx.string("s", n, "option")
    for o in sorted({x[2:2 + n] for x in e["opts"] if x.startswith("--") and len(x) >= 2 + n}):
        cx.assume(s != o)
    cx.assume(s[:1] != "=")
    w = "--" + s
    if p["m"]:
        w = w + "=" + cx.string("v", 1, "alnum")
    line = "\n" + line_of(c, e["base"] + [w])
    r = outcome(p["v"], line)
    cx.check_eq(r, ("rejected", True, 2), "unknown option refused", lambda: repr([line, r]))
    cx.cover("unknownopt")


def foreign(cx, p):
    """Options the command has in other versions only are refused."""
    t = TABLE[p["v"]]
    c, names = p["items"][cx.choose("c", len(p["items"]))]
    e = SETS[t[c]]
    o = names[cx.choose("o", len(names))]
    m = cx.choose("m", 3)
    w = o
    if m == 1:
        w = o + "=" + cx.string("v", 2, "alnum")
    elif m == 2:
        w = o + " " + cx.string("v", 1, "digit")
    line = "\n" + line_of(c, e["base"] + [w])
    r = outcome(p["v"], line)
    cx.check_eq(r, ("rejected", True, 2), "option of another version refused", lambda: repr([line, r]))
    cx.cover("foreign")


def gone(cx, p):
    """Removed commands are refused and deprecated ones accepted with a warning, whatever their arguments."""
    t = TABLE[p["v"]]
    c = p["names"][cx.choose("c", len(p["names"]))]
    e = SETS[t[c]]
    s = cx.string("s", p["n"], "text")
    cx.assume(s[:1] != "#")
    line = "\n" + c + " " + s + "\n"
    r = outcome(p["v"], line)
    if e["kind"] == "removed":
        cx.check_eq(r, ("rejected", True, 2), "removed command refused", lambda: line)
    else:
        cx.check_eq((r[0], r[2]), ("ok", 1), "deprecated command accepted with a warning", lambda: repr([line, r]))
    cx.cover("gone")


def depmix(cx, p):
    """One warning for each deprecated option on the line, none for the others."""
    e = SETS[p["e"]]
    c = p["c"]
    dep = sorted(o for o in e["opts"] if e["opts"][o]["dep"])
    o = dep[cx.choose("o", len(dep))]
    others = sorted(x for x in e["opts"] if not e["opts"][x]["dep"] and e["opts"][x]["word"])
    how = e["opts"][o]
    n = cx.choose("n", 1 + len(others))
    args = how["base"] + ([e["opts"][others[n - 1]]["word"]] if n else [])
    line = "\n" + line_of(c, args + [how["word"]])
    r = outcome(p["v"], line)
    if r[0] == "ok":
        cx.check_eq(r[2], how["dep"], "one warning per deprecated option", lambda: repr([line, r]))
        plain = outcome(p["v"], "\n" + line_of(c, args))
        if plain[0] == "ok":
            cx.check_eq(plain[2], 0, "no warning without a deprecated option", lambda: repr([args, plain]))
    cx.cover("depmix")


def jobs(tier):
    q = tier == "quick"
    out = []
    order = sorted(VERSIONS, key=lambda v: VERSIONS[v])
    union = {}
    for v in order:
        for c, i in TABLE[v].items():
            union.setdefault(c, set()).update(SETS[i]["opts"])
    seen = {}
    for vi, v in enumerate(order):
        t = TABLE[v]
        names = sorted(c for c in t if SETS[t[c]]["kind"] != "internal" and not (c == "method"))
        for k in range(0, len(names), 20):
            out.append({"h": "known", "p": {"v": v, "names": names[k:k + 20]}, "cost": 20})
        lens = range(1, 15) if q else range(1, 21)
        for n in lens:
            out.append({"h": "unknown", "p": {"v": v, "n": n, "alph": "text" if n < 4 else "alnum"}, "cost": 8 + n})
        dead = [c for c in names if SETS[t[c]]["kind"] in ("removed", "deprecated")]
        if dead:
            for n in ((1, 3) if q else (1, 2, 3, 4, 5, 6)):
                out.append({"h": "gone", "p": {"v": v, "names": dead, "n": n}, "cost": 5 * len(dead)})
        items = []
        for c in names:
            e = SETS[t[c]]
            if e["base"] is None or e["unknown"] is not True:
                continue
            mine = [o for o in sorted(union[c]) if o.startswith("--") and not any(x.startswith(o) for x in e["opts"])]
            if mine:
                items.append([c, mine])
            key = t[c]
            seen[key] = (v, c)
        for k in range(0, len(items), 6):
            out.append({"h": "foreign", "p": {"v": v, "items": items[k:k + 6]}, "cost": 20})
    first = {}
    for v in order:
        for c, i in TABLE[v].items():
            first.setdefault((i, c), v)
    todo = sorted((i, c, v) for i, (v, c) in seen.items())
    if not q:
        todo = sorted((TABLE[v][c], c, v) for v in order for c in TABLE[v] if TABLE[v][c] in seen)
    for i, c, v in todo:
        e = SETS[i]
        opts = sorted(o for o in e["opts"] if o.startswith("--"))
        vs = [v]
        if q and first[(i, c)] != v:
            vs.append(first[(i, c)])
        for m, w in enumerate(vs):
            if m == 0 or not q:
                for k in range(0, len(opts), 10):
                    out.append({"h": "abbrev", "p": {"v": w, "c": c, "e": i, "names": opts[k:k + 10]}, "cost": 40})
            for n in (range(1, 13) if m == 0 else [1, 4 + i % 4, 8 + i % 5]) if q else range(1, 21):
                out.append({"h": "unknownopt", "p": {"v": w, "c": c, "e": i, "n": n, "m": (n + i) % 2}, "cost": 5 + n})
            if any(e["opts"][o]["dep"] for o in opts):
                out.append({"h": "depmix", "p": {"v": w, "c": c, "e": i}, "cost": 20})
    return out
