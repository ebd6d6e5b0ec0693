"""C18: conflicts and duplicates across storage commands are detected in any order."""
import warnings

from pykickstart.errors import KickstartParseError, KickstartParseWarning
from pykickstart.parser import KickstartParser
from harness import cmdlib
from harness.c03 import VERSIONS
from harness.cmdspec import GROUPS, SHAPES

BUDGET = {"quick": 150, "thorough": 3000}
BOUNDS = {"conflicts": "every ordered pair and triple of the storage commands (autopart, part, partition, raid, volgroup, logvol, "
                       "reqpart, mount) in every version, with other commands in between, fatal and non-fatal mode; "
                       "mount points and names of 1..2 symbolic characters",
          "duplicates": "2 and 3 lines of every command with named objects in every version, every key of 1..3 symbolic "
                        "characters (thorough 4), keys equal and different, other options different",
          "errors": "a second snapshot of the same name"}
ENCODED = ["parse() of autopart/part/raid/volgroup/logvol/reqpart/mount and of every list command", "__eq__ of every data class",
           "KickstartHandler.dispatcher", "KickstartParser._stateMachine"]
ASSUMPTIONS = ["alphabet of the engine"]
MUST_REACH = ["conflict", "noconflict", "dup", "nodup", "snapshot", "swap", "nonfatal"]
ALL = sorted(VERSIONS, key=lambda v: VERSIONS[v])


def since(v, lo):
    return VERSIONS[v] >= VERSIONS[lo]


CMDS = {}
for _g in GROUPS:
    if _g["kind"] == "active":
        for _v in _g["versions"]:
            CMDS.setdefault(_v, set()).add(_g["command"])

STORAGE = ["autopart", "part", "partition", "raid", "volgroup", "logvol", "reqpart", "mount"]


def fam(c):
    return "part" if c == "partition" else c


def conflict(ver, a, b):
    """Do the two commands exclude each other in the version?"""
    s = {fam(a), fam(b)}
    if len(s) == 1:
        return False
    if "mount" in s:
        return True
    if "autopart" in s:
        if "reqpart" in s:
            return True
        if "volgroup" in s and since(ver, "F16"):
            return True
        return ver == "RHEL6" or since(ver, "F20")
    return False


def sline(cx, ver, c, i):
    """A line of a storage command with symbolic names of its own."""
    s = cx.string("n%d" % i, 1, "lower")
    if c == "autopart" or c == "reqpart":
        return c
    if c in ("part", "partition"):
        return c + " /%d" % i + s + " --size=1"
    if c == "raid":
        return "raid /%d" % i + s + " --device=%d --level=1 raid.1 raid.2" % i
    if c == "volgroup":
        return "volgroup v%d" % i + s + " pv.1"
    if c == "logvol":
        return "logvol /%d" % i + s + " --vgname=v --name=n%d" % i + s + " --size=1"
    return "mount /dev/" + s + " /%d" % i + s


def pairs(cx, p):
    """Commands that exclude each other are refused at the line that completes the first such pair."""
    ver = p["v"]
    text, bad = "", None
    for i, c in enumerate(p["cmds"]):
        text = text + sline(cx, ver, c, i) + "\n"
        if bad is None and any(conflict(ver, c, d) for d in p["cmds"][:i]):
            bad = 2 * i + 1
        text = text + "# c\n"
    h = cmdlib.pool(ver)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            KickstartParser(h).readKickstartFromString(text)
        except KickstartParseError as e:
            cx.check(bad is not None, "commands without conflict accepted", lambda: text)
            cx.check_eq(e.lineno, bad, "line of the conflict", lambda: text)
            cx.cover("conflict")
            return
    cx.check(bad is None, "conflicting commands refused", lambda: text)
    cx.check_eq([x for x in w if issubclass(x.category, KickstartParseWarning)], [], "no duplicate warning")
    cx.cover("noconflict")


def counts(ver, cmds):
    """Conflicting lines when a refused line counts as seen, and when it does not."""
    a, b, left = 0, 0, []
    for i, c in enumerate(cmds):
        if any(conflict(ver, c, d) for d in cmds[:i]):
            a += 1
        if any(conflict(ver, c, d) for d in left):
            b += 1
        else:
            left.append(c)
    return a, b


def nonfatal(cx, p):
    """Without fatal errors every conflicting line counts."""
    ver = p["v"]
    text, bad = "", counts(ver, p["cmds"])[0]
    for i, c in enumerate(p["cmds"]):
        text = text + sline(cx, ver, c, i) + "\n"
    h = cmdlib.pool(ver)
    k = KickstartParser(h, errorsAreFatal=False)
    with cmdlib.quiet():
        k.readKickstartFromString(text)
    cx.check_eq(k.errorsCount, bad, "conflicts counted", lambda: repr([text, k.errorsCount, bad]))
    cx.cover("nonfatal")


# command: (first version, line pieces; %s is a part of the key)
def dup_templates(ver):
    t = {"part": ["part /%s --size=1", "part /%s --size=2 --grow"],
         "partition": ["partition /%s --size=1", "part /%s --size=2 --fstype=ext3"],
         "part#onpart": ["part raid.%s --size=1 --ondisk=sda", "part raid.%s --size=1 --ondisk=sdb"],
         "volgroup": ["volgroup %s pv.1", "volgroup %s pv.2 pv.3"],
         "logvol": ["logvol /x --vgname=%s --name=%s --size=1", "logvol /y --name=%s --size=2 --vgname=%s"],
         "raid": ["raid /a --device=%d --level=1 raid.1 raid.2", "raid /b --level=0 --device=md%d raid.3 raid.4"],
         "network": ["network --bootproto=dhcp --device=%s", "network --device=%s --onboot=yes"],
         "device": ["device %s"],
         "dmraid": ["dmraid --name=%s --dev=%s"],
         "zfcp": ["zfcp --devnum=%s --wwpn=%s --fcplun=%s"],
         "user": ["user --name=%s", "user --name=%s --homedir=/x"],
         "group": ["group --name=%s", "group --gid=7 --name=%s"],
         "sshpw": ["sshpw --username=%s pw", "sshpw --lock --username=%s other"],
         "sshkey": ["sshkey --username=%s key", "sshkey --username=%s other"],
         "repo": ["repo --name=%s --baseurl=http://x", "repo --baseurl=http://y --name=%s"],
         "fcoe": ["fcoe --nic=%s", "fcoe --nic=%s --dcb"],
         "btrfs": ["btrfs /%s part1", "btrfs /%s part2 part3 --label=l"],
         "nvdimm": ["nvdimm use --namespace=%s"],
         "nvdimm#blk": ["nvdimm use --blockdevs=%s,%s"],
         "nvdimm#rec": ["nvdimm reconfigure --namespace=%s --mode=sector --sectorsize=512",
                        "nvdimm reconfigure --namespace=%s --sectorsize=4096 --mode=sector"]}
    if not since(ver, "F8"):
        del t["device"]         # one plain command, not a list of modules
    if not since(ver, "F13"):
        del t["fcoe"][1]
    if since(ver, "F19"):
        t["raid"] = ["raid /a --device=%s --level=1 raid.1 raid.2", "raid /b --level=0 --device=%s raid.3 raid.4"]
    if not since(ver, "F12") or ver == "RHEL5":
        t["zfcp"] = ["zfcp --devnum=%s --wwpn=%s --fcplun=%s --scsiid=%s --scsilun=%s"]
    return {k: v for k, v in t.items() if k.split("#")[0] in CMDS[ver]}


def make(cx, tpl, i, n, parts):
    """(line, key): the parts-th piece of the key is symbolic, the others are fixed."""
    bits = tpl.replace("%d", "%s").split("%s")
    key, line = {}, bits[0]
    for j, b in enumerate(bits[1:]):
        s = "k"
        if j in parts:
            s = cx.string("k%d_%d" % (i, j), n, "digit" if "%d" in tpl else "alnum")
        word = bits[j].split()[-1] if bits[j].strip() else bits[j]
        key[(word if word.startswith("--") and len(bits) > 2 else "k") + ("" if word.startswith("--") else str(j))] = \
            int(s) if "%d" in tpl else s
        line = line + s + b
    return line, key


def dup(cx, p):
    """The later line of two with the same key warns, different keys never do."""
    ver = p["v"]
    tpl = dup_templates(ver)[p["t"]]
    text, seen, want = "", [], 0
    lst = []
    for i in range(p["lines"]):
        t = tpl[(i + p["rot"]) % len(tpl)]
        line, key = make(cx, t, i, p["ns"][i], p["parts"])
        text = text + line + "\n"
        key = [key[k] for k in sorted(key)]
        hit = False
        for k in seen:
            if all(a == b for a, b in zip(k, key)):
                hit = True
        if hit:
            want += 1
        seen.append(key)
    h = cmdlib.pool(ver)
    w = [m for c, m in cmdlib.parse_line(h, text) if issubclass(c, KickstartParseWarning)]
    cx.check_eq(len(w), want, "duplicates warned about", lambda: repr([text, want, len(w)]))
    c = p["t"].split("#")[0]
    cx.check_eq(len(h.commands[c].dataList()), p["lines"], "all objects kept")
    cx.cover("dup" if want else "nodup")


def cross(cx, p):
    """Objects of different commands are never duplicates of each other."""
    ver = p["v"]
    s = cx.string("s", 2, "alnum")
    text = ""
    names = [t for t in sorted(dup_templates(ver)) if "%d" not in dup_templates(ver)[t][0]
             and t not in ("partition", "part#onpart", "nvdimm#rec", "nvdimm#blk", "raid")]
    for t in names[p["from"]::2]:
        text = text + dup_templates(ver)[t][0].replace("%s", "%s" + str(len(text))).replace("%s", s) + "\n"
    h = cmdlib.pool(ver)
    w = [m for c, m in cmdlib.parse_line(h, text) if issubclass(c, KickstartParseWarning)]
    cx.check_eq(len(w), 0, "no duplicates among different commands", lambda: text)
    cx.cover("nodup")


def swap(cx, p):
    """Several swap partitions are no duplicates."""
    ver = p["v"]
    m = cx.string("m", 1, "lower")
    text = "part swap --size=1\n%s /%s --size=4\npart swap --size=2\npart swap --size=1\n" % (p["c"], m)
    h = cmdlib.pool(ver)
    w = [m for c, m in cmdlib.parse_line(h, text) if issubclass(c, KickstartParseWarning)]
    cx.check_eq(len(w), 0, "swap may repeat", lambda: text)
    cx.cover("swap")


def snapshot(cx, p):
    """A second snapshot of the same name is an error."""
    ver = p["v"]
    a, b = cx.string("a", p["n"], "alnum"), cx.string("b", p["n"], "alnum")
    text = "snapshot vg/lv --name=%s --when=post-install\n\nsnapshot vg/l2 --when=%s --name=%s\n" % (a, p["when"], b)
    h = cmdlib.pool(ver)
    try:
        cmdlib.parse_line(h, text)
    except KickstartParseError as e:
        cx.check(a == b, "different snapshots accepted", lambda: text)
        cx.check_eq(e.lineno, 3, "line of the duplicate")
        cx.cover("snapshot")
        return
    cx.check(a != b, "duplicate snapshot refused", lambda: text)
    cx.cover("nodup")


def known(cx, p):
    """Known findings."""
    h = cmdlib.pool(p["v"])
    try:
        cmdlib.parse_line(h, p["text"])
    except KickstartParseError:
        return
    cx.fail("conflicting commands refused", lambda: p["text"])


KNOWN = [(v, "volgroup", "autopart") for v in ("F16", "F17", "F18", "F19")]


def jobs(tier):
    q = tier == "quick"
    out = []

    def add(h, cost=5, **p):
        out.append({"h": h, "p": p, "cost": cost})

    n = 0
    for v in ALL:
        cs = [c for c in STORAGE if c in CMDS[v]]

        def isknown(seq):
            """The first conflict is the one that is a known finding."""
            seen = []
            for c in seq:
                if any((v, d, c) in KNOWN for d in seen):
                    return True
                seen.append(c)
            return False
        for a in cs:
            for b in cs:
                if isknown([a, b]):
                    continue
                add("pairs", 2, v=v, cmds=[a, b])
                for c in cs:
                    n += 1
                    if isknown([a, b, c]):
                        continue
                    if not q or n % 3 == 0:
                        add("pairs", 3, v=v, cmds=[a, b, c])
                    x, y = counts(v, [a, b, c])
                    if x == y and (not q or n % 3 == 1):
                        add("nonfatal", 3, v=v, cmds=[a, b, c])
        t = dup_templates(v)
        for k in t:
            np = t[k][0].count("%s") + t[k][0].count("%d")
            for rot in range(len(t[k])):
                for m in (1, 2, 3) if q else (1, 2, 3, 4):
                    n += 1
                    if q and m == 3 and n % 3:
                        continue
                    for j in range(np):
                        add("dup", 3, v=v, t=k, lines=2, rot=rot, ns=[m, m], parts=[j])
                    if np > 1 and m == 1:
                        add("dup", 4, v=v, t=k, lines=2, rot=rot, ns=[m, m], parts=list(range(np))[:3])
                add("dup", 3, v=v, t=k, lines=2, rot=rot, ns=[2, 1], parts=[0])
                add("dup", 6, v=v, t=k, lines=3, rot=rot, ns=[1, 1, 1], parts=[0])
                if not q:
                    add("dup", 9, v=v, t=k, lines=3, rot=rot, ns=[2, 2, 2], parts=[0])
        add("cross", 4, v=v, **{"from": 0})
        add("cross", 4, v=v, **{"from": 1})
        add("swap", 2, v=v, c="part")
        add("swap", 2, v=v, c="partition")
        if "snapshot" in CMDS[v]:
            for m in (1, 2, 3):
                add("snapshot", 3, v=v, n=m, when="pre-install")
                add("snapshot", 3, v=v, n=m, when="post-install")
    return out
