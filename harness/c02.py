"""C02: every accepted option is stored exactly, nothing else changes."""
from pykickstart.errors import KickstartError
from harness import cmdlib, cmdspec
from harness.cmdlib import line_of, obs, parse_line, result_obj
from harness.cmdspec import GROUPS, SHAPES

BUDGET = {"quick": 150, "thorough": 3000}
BOUNDS = {"commands": "all 329 command classes in the contexts of spec/bases.py (854 distinct); quick: newest version "
                      "of each class (oldest too for single options), thorough: every version",
          "values": "every printable text without quotes/backslash, 1..3 characters (thorough 1..4), and 4..8 "
                    "characters without separators; integers of up to 3 digits or up to the documented maximum",
          "layout": "every command class: up to 2 blanks or tabs before the line, between its words and after it, and a comment of "
                    "up to 2 arbitrary characters at its end",
          "combinations": "each option alone, given twice, as a separate word; covering array of option subsets "
                          "(every pair present/absent); two lines for commands that keep a list"}
ENCODED = ["KickstartParser.readKickstartFromString and everything below it", "parse()/_getParser of every command",
           "shlex.shlex", "argparse.ArgumentParser.parse_known_args", "getopt"]
ASSUMPTIONS = ["alphabet of the engine (all ASCII plus representatives of the Unicode classes)",
               "contracts in spec/commands.json"]
MUST_REACH = ["single", "row", "repeat", "separate", "twolines", "again", "blanklist", "order", "rotated", "mpath", "layout"]


def compare(cx, want, got, line):
    keys = sorted(want)
    cx.check(all(a in got for a in keys), "data items present")
    cx.check_eq([got[a] for a in keys], [want[a] for a in keys], "stored values",
                lambda: repr([line, [a for a in keys if got[a] != want[a]]]))


def accept(cx, h, line):
    try:
        parse_line(h, line)
    except KickstartError as e:
        cx.fail("legal line accepted", lambda: line + str(e))


def one(cx, p, ids, ln, alph, sep=False):
    cmd = GROUPS[p["g"]]["command"]
    args, parts = cmdspec.build(cx, cmd, p["s"], ids, ln, alph, "C02" if alph == "text" else "C02r", True, sep)
    h = cmdlib.pool(p["v"])
    line = line_of(cmd, args)
    accept(cx, h, line)
    o = result_obj(h, cmd)
    compare(cx, cmdspec.expected(p["s"], parts), obs(o) if o is not None else {}, line)


def single(cx, p):
    ids = p["ids"]
    i = cx.choose("i", len(ids))
    ln = p["lens"][cx.choose("n", len(p["lens"]))]
    one(cx, p, [ids[i]], ln - 1, "text" if ln < 4 else "rowtext")
    cx.cover("single")


def layout(cx, p):
    """Blanks around the words and a comment at the end of a line do not matter."""
    cmd = GROUPS[p["g"]]["command"]
    raw = cmd in ("auth", "authconfig", "authselect")
    ids = p["ids"]
    i = cx.choose("i", len(ids) + 1)
    args, _parts = cmdspec.build(cx, cmd, p["s"], [ids[i]] if i < len(ids) else [], 0, "rowtext", "C02r", True)
    gap = " " + cx.string("g", 1, "blank")
    how = cx.choose("how", 4)
    line = cmd
    for a in args:
        line = line + (gap if how in (0, 3) else " ") + a
    if how == 0:
        line = line + gap
    elif how == 1:
        line = cx.string("l", 2, "blank") + line
    elif how == 2 and not raw:
        line = line + gap + "#" + cx.string("c", 2, "line")
    elif how == 3:
        line = gap + line
    got = []
    for k, t in enumerate((line_of(cmd, args), line + "\n")):
        h = cmdlib.pool(p["v"], k)
        accept(cx, h, t)
        o = result_obj(h, cmd)
        d = obs(o) if o is not None else {}
        if raw:
            d = {a: (b.split() if a in ("authconfig", "authselect") else b) for a, b in d.items()}
        got.append(d)
    cx.check_eq(got[1], got[0], "blanks and comments do not matter", lambda: repr([line, got]))
    cx.cover("layout")


def separate(cx, p):
    ids = p["ids"]
    i = cx.choose("i", len(ids))
    one(cx, p, [ids[i]], p["ln"], "rowtext", True)
    cx.cover("separate")


def order(cx, p):
    """An option may stand anywhere among the words of the line."""
    ids = p["ids"]
    i = cx.choose("i", len(ids))
    cmd = GROUPS[p["g"]]["command"]
    base = SHAPES[p["s"]]["base"]
    at = cmdspec.atoms(p["s"])[ids[i]][1]
    args, parts = cmdspec.build(cx, cmd, p["s"], [ids[i]], 1, "rowtext", "C02r", True)
    k = cx.choose("at", len(base))
    args = args[:k] + args[-1:] + args[k:-1]
    h = cmdlib.pool(p["v"])
    line = line_of(cmd, args)
    accept(cx, h, line)
    o = result_obj(h, cmd)
    compare(cx, cmdspec.expected(p["s"], parts), obs(o) if o is not None else {}, line)
    cx.cover("order")


def rotated(cx, p):
    """The option words of the context itself in front of, or between, the other words."""
    cmd = GROUPS[p["g"]]["command"]
    base = SHAPES[p["s"]]["base"]
    k = cx.choose("k", len(base))
    j = cx.choose("j", len(base))
    args = base[:k] + base[k + 1:]
    args = args[:j] + base[k:k + 1] + args[j:]
    if not base[k].startswith("-"):
        cx.assume([a for a in args if not a.startswith("-")] == [a for a in base if not a.startswith("-")])
    h = cmdlib.pool(p["v"])
    line = line_of(cmd, args)
    accept(cx, h, line)
    o = result_obj(h, cmd)
    compare(cx, SHAPES[p["s"]]["data"], obs(o) if o is not None else {}, line)
    cx.cover("rotated")


def row(cx, p):
    i = cx.choose("i", len(p["rows"]))
    one(cx, p, p["rows"][i], p["ln"] + i % 3, "rowtext")
    cx.cover("row")


def repeat(cx, p):
    ids = p["ids"]
    i = cx.choose("i", len(ids))
    one(cx, p, [ids[i], ids[i]], p["ln"], "rowtext")
    cx.cover("repeat")


def twolines(cx, p):
    """Two lines of a command that keeps a list: both data objects, in order, each its own values."""
    cmd = GROUPS[p["g"]]["command"]
    h = cmdlib.pool(p["v"])
    want = []
    n0 = len(h.commands[cmd].dataList())
    text = ""
    for k, ids in enumerate(p["pair"]):
        args, parts = cmdspec.build(Prefixed(cx, "l%d" % k), cmd, p["s"], ids, 1, "rowtext", "C02r", True)
        text = text + line_of(cmd, args)
        want.append(cmdspec.expected(p["s"], parts))
    accept(cx, h, text)
    lst = h.commands[cmd].dataList()
    cx.check_eq(len(lst), n0 + 2, "number of data objects")
    for k in (0, 1):
        compare(cx, want[k], obs(lst[n0 + k]), text)
    cx.cover("twolines")


def again(cx, p):
    """A command given twice: everything the second line gives is exactly what it says."""
    cmd = GROUPS[p["g"]]["command"]
    h = cmdlib.pool(p["v"])
    text = ""
    want = []
    for k, ids in enumerate(p["pair"]):
        args, parts = cmdspec.build(Prefixed(cx, "l%d" % k), cmd, p["s"], ids, 1, "rowtext", "C02r", True)
        text = text + line_of(cmd, args)
        want.append((cmdspec.expected(p["s"], parts), {a for e, _v in parts for a in e}))
    try:
        parse_line(h, text)
    except KickstartError:
        cx.assume(False)    # combinations over two lines may be refused (C04, C18)
    got = obs(result_obj(h, cmd))
    base = SHAPES[p["s"]]["data"]
    given = sorted(want[1][1])
    cx.check_eq([got[a] for a in given], [want[1][0][a] for a in given], "values of the second line",
                lambda: repr([text, [a for a in given if got[a] != want[1][0][a]]]))
    for a in sorted(base):
        if a not in want[1][1]:
            ok = [want[0][0][a], want[1][0][a]]
            cx.check(got[a] == ok[0] or got[a] == ok[1], "values not given again", lambda: repr([text, a, got[a]]))
    cx.cover("again")


def blanklist(cx, p):
    """A list option of separators only: the list is empty (set) or left alone (extended), whatever it was."""
    cmd = GROUPS[p["g"]]["command"]
    flat = cmdspec.atoms(p["s"])
    i = cx.choose("i", len(p["ids"]))
    oi, at = flat[p["ids"][i]]
    args, parts = cmdspec.build(cx, cmd, p["s"], [p["ids"][i]], 1, "rowtext", "C02r", True)
    v = cx.string("sep", p["ln"], "any")
    for k in range(p["ln"]):
        cx.assume(cx.among(v[k:k + 1], [",", " "]))
    h = cmdlib.pool(p["v"])
    blank = at["word"] + '"' + v + '"'
    base = SHAPES[p["s"]]["data"]
    first = cmdspec.expected(p["s"], parts)
    if p["mode"] == "line":
        text = line_of(cmd, args) + line_of(cmd, cmdspec.place(args, SHAPES[p["s"]]["options"][oi], blank))
    else:
        text = line_of(cmd, args + [blank])
    try:
        parse_line(h, text)
    except KickstartError:
        cx.assume(False)    # an empty list may be refused
    got = obs(result_obj(h, cmd))
    for a, how in sorted(at["eff"].items()):
        if how == ["set", "comma"]:
            cx.check_eq(got[a], [], "emptied list", lambda: repr([text, a, got[a]]))
        elif how == ["ext", "comma"] and p["mode"] == "option":
            cx.check_eq(got[a], first[a], "list extended by nothing", lambda: repr([text, a, got[a]]))
    cx.cover("blanklist")


def mpath(cx, p):
    """multipath: every line adds its path to the device it names, devices in order of appearance."""
    h = cmdlib.pool(p["v"])
    text, want, used = "", [], []
    for k in range(p["k"]):
        name = "mp" + cx.string("n%d" % k, 1, "digit")
        dev = cx.string("d%d" % k, 2, "rowword")
        rule = cx.string("r%d" % k, 1, "text")
        for d in used:
            cx.assume(d != dev)
        used.append(dev)
        text = text + "multipath --name=" + name + " --device=" + dev + ' --rule="' + rule + '"\n'
        for w in want:
            if w[0] == name:
                w[1].append([dev, rule])
                break
        else:
            want.append([name, [[dev, rule]]])
    accept(cx, h, text)
    got = [[m.name, [[x.device, x.rule] for x in m.paths]] for m in h.multipath.mpaths]
    cx.check_eq(got, want, "paths of every device", lambda: repr([text, got]))
    h2 = cmdlib.pool(p["v"], 1)
    parse_line(h2, str(h))
    got2 = [[m.name, [[x.device, x.rule] for x in m.paths]] for m in h2.multipath.mpaths]
    cx.check_eq(got2, want, "paths of every device written and read back", lambda: repr([text, str(h)]))
    cx.cover("mpath")


class Prefixed(object):
    """Context wrapper giving the symbolic inputs of one line their own names."""
    def __init__(self, cx, pre):
        self.cx, self.pre = cx, pre

    def string(self, name, n, alph):
        return self.cx.string(self.pre + name, n, alph)

    def __getattr__(self, a):
        return getattr(self.cx, a)


def jobs(tier):
    q = tier == "quick"
    out = []
    for g in GROUPS:
        if g["command"] == "multipath" and g["kind"] == "active":
            for v in g["versions"] if not q else [g["versions"][0], g["versions"][-1]]:
                for k in (1, 2, 3) if q else (1, 2, 3, 4):
                    out.append({"h": "mpath", "p": {"v": v, "k": k}, "cost": 20 * k})
    for g, s, v in cmdspec.pairs("ends" if q else "all"):
        cmd = GROUPS[g]["command"]
        flat = cmdspec.usable(cmd, s, "C02")
        ids = sorted(flat)
        base = {"g": g, "s": s, "v": v}
        dep = sorted(cmdspec.deprecated(cmd, s, "C02"))
        if dep:
            out.append({"h": "single", "p": dict(base, ids=dep, lens=[1] if q else [1, 2, 3]), "cost": 5})
        if not ids:
            continue
        newest = v == GROUPS[g]["versions"][-1]
        if q:
            lens = [1, 2, 3, 4 + s % 5] if newest else [1 + s % 3]
        else:
            lens = [1, 2, 3, 4, 5, 6, 7, 8]
        for k in range(0, len(ids), 12):
            out.append({"h": "single", "p": dict(base, ids=ids[k:k + 12], lens=lens), "cost": len(lens) * 12})
        if q and not newest:
            continue
        lay = [x for x in ids if "id" in flat[x][1]][:2 if q else 6]
        out.append({"h": "layout", "p": dict(base, ids=lay), "cost": 10})
        val = [x for x in ids if flat[x][1]["k"] not in ("lit", "flag") and "pos" not in SHAPES[s]["options"][flat[x][0]]]
        if val:
            out.append({"h": "separate", "p": dict(base, ids=val, ln=1), "cost": len(val)})
        tail = [x for x in ids if "pos" not in SHAPES[s]["options"][flat[x][0]] and
                cmdspec.find_pos(SHAPES[s]["base"], SHAPES[s]["options"][flat[x][0]]["names"]) is None]
        taken = set()
        for o in SHAPES[s]["options"]:
            if o["names"] and cmdspec.find_pos(SHAPES[s]["base"], o["names"]) is not None:
                for at in o["atoms"]:
                    taken |= set(at.get("eff", ()))
        tail = [x for x in tail if not taken & set(flat[x][1]["eff"])]      # the last of two opposite flags wins
        if SHAPES[s]["base"] and tail:
            if q:
                tail = tail[::3]
            out.append({"h": "order", "p": dict(base, ids=tail), "cost": 3 * len(tail)})
        if len(SHAPES[s]["base"]) > 1 and cmd != "realm":      # realm: "join" comes first
            out.append({"h": "rotated", "p": dict(base), "cost": 9})
        rep = [x for x in val if SHAPES[s]["options"][flat[x][0]].get("repeat") == "seq"]
        if rep:
            out.append({"h": "repeat", "p": dict(base, ids=rep, ln=0), "cost": len(rep)})
        lst = [x for x in ids if flat[x][1]["k"] == "list" and "pos" not in SHAPES[s]["options"][flat[x][0]]
               and any(e in (["set", "comma"], ["ext", "comma"]) for e in flat[x][1]["eff"].values())]
        if lst:
            for mode in ("line", "option") if not GROUPS[g].get("is_list") and cmd not in NOAGAIN else ("option",):
                for ln in (1, 2):
                    out.append({"h": "blanklist", "p": dict(base, ids=lst, ln=ln, mode=mode), "cost": len(lst)})
        rs = cmdspec.rows(cmd, s, "C02r", 8 if q else 24)
        if rs:
            out.append({"h": "row", "p": dict(base, rows=rs, ln=0), "cost": sum(map(len, rs))})
            if not GROUPS[g].get("is_list") and cmd not in NOAGAIN:
                val = [[x] for x in ids if flat[x][1]["k"] not in ("flag", "lit")] + [[x] for x in ids if flat[x][1]["k"] == "flag"]
                prs = [[rs[k], rs[k + 1]] for k in range(0, len(rs) - 1, 2 if q else 1)] + [[rs[0], x] for x in val] + \
                    [[rs[0], []]]
                for pr in prs:
                    out.append({"h": "again", "p": dict(base, pair=pr), "cost": 10})
            if GROUPS[g].get("is_list") and len(rs) > 1 and cmd not in NOTWO:
                for k in range(0, len(rs) - 1, 4 if q else 1):
                    out.append({"h": "twolines", "p": dict(base, pair=[rs[k], rs[k + 1]]), "cost": 10})
    return out


NOTWO = ("snapshot",)
# realm may be given once; clearpart's type and ostreesetup's remote follow other options of earlier lines
NOAGAIN = ("realm", "clearpart", "ostreesetup")
