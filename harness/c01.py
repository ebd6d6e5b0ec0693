"""C01: written kickstart commands read back as the same data."""
from pykickstart.errors import KickstartError
from harness import c14, cmdlib, cmdspec
from harness.cmdlib import line_of, norm, obs, parse_line
from harness.cmdspec import GROUPS, SHAPES

BUDGET = {"quick": 200, "thorough": 3000}
BOUNDS = {"commands": "all command classes in the contexts of spec/bases.py; quick: newest version of each class "
                      "(oldest too for option combinations), thorough: every version",
          "values": "every text of 1..3 (thorough 1..5) characters that needs no shell quoting; integers as in C02",
          "combinations": "each option alone and a covering array of option subsets; two lines for list commands; "
                          "files of 7 (thorough 3..9) commands of every version"}
ENCODED = ["KickstartParser.readKickstartFromString and everything below it", "__str__/_getArgsAsStr of every command",
           "parse()/_getParser of every command", "shlex.shlex", "argparse.ArgumentParser.parse_known_args"]
ASSUMPTIONS = ["alphabet of the engine", "accepted lines taken from spec/commands.json (lines the current tree rejects "
               "are C02/C04 matters and end the path)"]
MUST_REACH = ["single", "row", "twolines", "whole"]


STORAGE = ("autopart", "part", "partition", "logvol", "raid")
ENC = ("passphrase", "escrowcert", "backuppassphrase", "cipher", "luks_version", "pbkdf", "pbkdf_memory", "pbkdf_time",
       "pbkdf_iterations")
SIZES = ("size", "bytesPerInode", "pesize", "reserved_space", "reserved_percent", "sectorsize", "percent", "chunk_size",
         "metadata_size")
# Data without effect: (commands, condition, items).  The writer may leave these out.
DEAD = [
    (STORAGE, lambda d: not d.get("encrypted", True), ENC),
    (STORAGE, lambda d: not d.get("escrowcert", "x"), ("backuppassphrase",)),
    (("clearpart",), lambda d: d["type"] is None, ("drives", "initAll", "disklabel", "cdl", "devices")),
    (("driverdisk",), lambda d: not d.get("partition", ""), ("type",)),
    (("install",), lambda d: not d.get("upgrade", False), ("root_device",)),
    (("vnc",), lambda d: not d.get("host", "x"), ("port",)),
    (("rootpw",), lambda d: not d["password"], ("isCrypted",)),
    (("sshpw",), lambda d: d.get("sshkey", False), ("isCrypted", "lock")),
    (("firewall",), lambda d: d.get("use_system_defaults", False), ("enabled",)),
    (("firewall",), lambda d: not d["enabled"] or d.get("use_system_defaults", False),
     ("ports", "trusts", "services", "remove_services")),
    (("bootloader", "lilo"), lambda d: d.get("disabled", False), "*"),
    (("ignoredisk",), lambda d: d.get("interactive", False) and (d["ignoredisk"] or d["onlyuse"]), ("interactive",)),  # deprecated
    (("keyboard",), lambda d: not (d.get("vc_keymap", "x") or d.get("x_layouts", ["x"])), ("switch_options",)),
    (("btrfs",), lambda d: not d["subvol"], ("name",)),
    (("logvol",), lambda d: not d.get("thin_volume", True), ("pool_name",)),
    (("repo",), lambda d: d.get("ignoregroups", None) is False, ("ignoregroups",)),
    (("nvdimm",), lambda d: d.get("action", "") == "use", ("mode", "sectorsize")),
]
ZERO = "zero size where the default is not zero"
PORTWORDS = ("ssh:tcp", "telnet:tcp", "smtp:tcp", "http:tcp", "ftp:tcp")


def effective(cmd, d, d0):
    """d with the items that have no effect put back to their initial values d0."""
    d = dict(d)
    for cmds, cond, attrs in DEAD:
        if cmd in cmds and all(a in d for a in ("encrypted",) if cmds is STORAGE) and cond(d):
            for a in (d0 if attrs == "*" else attrs):
                if a in d and a in d0 and not (attrs == "*" and a == "disabled"):
                    d[a] = d0[a]
    for a in SIZES:
        if a in d and d[a] is not None and not isinstance(d[a], str) and d[a] == 0:
            d[a] = d0[a]            # a size of zero counts as not given
            if d[a]:
                d[ZERO] = True
    return d


def state(h, cmd):
    """All data of the command: its own attributes and every data object."""
    c = h.commands[cmd]
    lst = c.dataList()
    if lst is None:
        return effective(cmd, obs(c), pristine(h, cmd))
    d = obs(c)
    keep = {a: v for a, v in d.items() if not isinstance(v, list)}      # lists hold the data objects
    return [keep, [effective(cmd, obs(x), obs(type(x)())) for x in lst]]


_pristine = {}


def pristine(h, cmd):
    k = (h.version, cmd)
    if k not in _pristine:
        _pristine[k] = obs(type(h.commands[cmd])())
    return _pristine[k]


def command_text(s):
    """The command lines of a written text (its comments are not data)."""
    return [x for x in s.split("\n") if not x.startswith("#")]


def roundtrip(cx, p, cmd, text):
    h = cmdlib.pool(p["v"])
    try:
        parse_line(h, text)
    except KickstartError:
        cx.assume(False)
    first = state(h, cmd)
    for d in (first[1] if isinstance(first, list) else [first]):
        cx.assume(ZERO not in d)
        if cmd == "raid" and isinstance(d["device"], str):
            cx.assume(d["device"] != "")            # --device=md is no device
    if cmd == "firewall" and "services" not in first:
        for x in first["ports"]:
            cx.assume(x not in PORTWORDS)       # written as the option of that service
    out = str(h.commands[cmd])
    h2 = cmdlib.pool(p["v"], 1)
    try:
        parse_line(h2, out)
    except KickstartError as e:
        cx.fail("written text is accepted", lambda: text + "-> " + out + str(e))
    c2 = "bootloader" if cmd == "lilo" else cmd         # lilo is the old name of bootloader
    second = state(h2, c2)
    nolinear(cx, p, cmd, first, second)
    cx.check_eq(second, first, "data read back", lambda: text + "-> " + out)
    if isinstance(first, dict) and "linear" in first and first["linear"] is None:
        return
    cx.check_eq(command_text(str(h2.commands[c2])), command_text(out), "text written again", lambda: text)


def nolinear(cx, p, cmd, first, second):
    """Known finding (known_findings.txt): --nolinear is not written."""
    if isinstance(first, dict) and first.get("linear", True) is False and not p.get("kf", False):
        first["linear"] = second["linear"] = None


def single(cx, p):
    ids = p["ids"]
    i = cx.choose("i", len(ids))
    ln = p["lens"][cx.choose("n", len(p["lens"]))]
    cmd = GROUPS[p["g"]]["command"]
    args, _parts = cmdspec.build(cx, cmd, p["s"], [ids[i]], ln - 1, "word", "C01", False)
    roundtrip(cx, p, cmd, line_of(cmd, args))
    cx.cover("single")


def row(cx, p):
    i = cx.choose("i", len(p["rows"]))
    cmd = GROUPS[p["g"]]["command"]
    args, _parts = cmdspec.build(cx, cmd, p["s"], p["rows"][i], p["ln"] + i % 3, "rowword", "C01r", False)
    roundtrip(cx, p, cmd, line_of(cmd, args))
    cx.cover("row")


def twolines(cx, p):
    from harness.c02 import Prefixed
    cmd = GROUPS[p["g"]]["command"]
    text = ""
    for k, ids in enumerate(p["pair"]):
        args, _parts = cmdspec.build(Prefixed(cx, "l%d" % k), cmd, p["s"], ids, 1, "rowword", "C01r", False)
        text = text + line_of(cmd, args)
    roundtrip(cx, p, cmd, text)
    cx.cover("twolines")


def whole(cx, p):
    """A file of several commands, written and read back as a whole."""
    ver = p["v"]
    cmds = [c for c in p["cmds"] if c != "lilo"]         # written as bootloader; see roundtrip
    text = "".join([c14.line(ver, c, cx.string("v%d" % i, p["n"], "word")) for i, c in enumerate(cmds)])
    h = cmdlib.pool(ver)
    try:
        parse_line(h, text)
    except KickstartError:
        cx.assume(False)
    first = {c: state(h, c) for c in c14.active(ver) if c != "lilo"}
    out = str(h)
    h2 = cmdlib.pool(ver, 1)
    try:
        parse_line(h2, out)
    except KickstartError as e:
        cx.fail("written file is accepted", lambda: text + "-> " + out + str(e))
    second = {c: state(h2, c) for c in c14.active(ver) if c != "lilo"}
    cx.check_eq(second, first, "data of the file read back", lambda: text + "-> " + out)
    cx.check_eq(str(h2), out, "file written again", lambda: text)
    cx.cover("whole")


def kf(cx, p):
    """Replays a known finding."""
    roundtrip(cx, dict(p, kf=True), p["cmd"], p["text"])


def jobs(tier):
    q = tier == "quick"
    out = []
    for v in c14.ALL:
        for k in ((7,) if q else (3, 5, 7, 9)):
            for n in ((1,) if q else (1, 2)):
                for cmds in c14.files(v, k):
                    out.append({"h": "whole", "p": {"v": v, "cmds": cmds, "n": n}, "cost": k * k})
    for g, s, v in cmdspec.pairs("ends" if q else "all"):
        cmd = GROUPS[g]["command"]
        base = {"g": g, "s": s, "v": v}
        newest = v == GROUPS[g]["versions"][-1]
        ids = sorted(cmdspec.usable(cmd, s, "C01"))
        dep = sorted(cmdspec.deprecated(cmd, s, "C01"))
        if dep and cmd != "logging":            # --level has no effect any more
            out.append({"h": "single", "p": dict(base, ids=dep, lens=[1] if q else [1, 2, 3]), "cost": 5})
        if newest or not q:
            lens = [1, 2 + s % 2] if q else [1, 2, 3, 4, 5]
            for k in range(0, len(ids), 12):
                out.append({"h": "single", "p": dict(base, ids=ids[k:k + 12], lens=lens), "cost": len(lens) * 12})
        rs = cmdspec.rows(cmd, s, "C01r", (8 if newest else 3) if q else 24)
        if rs:
            for k in range(0, len(rs), 8):
                out.append({"h": "row", "p": dict(base, rows=rs[k:k + 8], ln=0), "cost": sum(map(len, rs[k:k + 8]))})
            if GROUPS[g].get("is_list") and len(rs) > 1 and (newest or not q):
                for k in range(0, len(rs) - 1, 4 if q else 1):
                    out.append({"h": "twolines", "p": dict(base, pair=[rs[k], rs[k + 1]]), "cost": 10})
    return out
