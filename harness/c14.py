"""C14: the written file has the documented shape and order."""
import os
import random

from pykickstart.base import BaseHandler, KickstartCommand
from pykickstart.parser import KickstartParser, Script
from pykickstart.sections import NullSection
from pykickstart.version import makeVersion
from pykickstart import __version__
from harness import cmdlib
from harness.c03 import VERSIONS
from harness.cmdspec import GROUPS

BUDGET = {"quick": 150, "thorough": 3000}
BOUNDS = {"order": "up to 4 (thorough 5) commands with symbolic priorities 0..9 (or none) and class names with up to 2 "
                   "symbolic letters, registered in every relative order, some under two names, some registered again",
          "files": "every version: files of 4..6 commands (every command of the version occurs, at several places) with "
                   "symbolic values, in 3 (thorough 24) input orders, with or without platform, scripts, tolerated "
                   "sections and packages",
          "unset": "every command of every version"}
ENCODED = ["KickstartHandler.__str__/_insertSorted/_setCommand/registerCommand", "BaseHandler.__str__", "__str__ of every command",
           "Script.__str__", "Packages.__str__", "KickstartParser and the parse() of every command"]
ASSUMPTIONS = ["alphabet of the engine"]
MUST_REACH = ["order", "shape", "unset", "again"]
ALL = sorted(VERSIONS, key=lambda v: VERSIONS[v])

# Documented priorities of the commands (the rest have priority 0).
PRIO = {"bootloader": 10, "lilo": 10, "zipl": 10, "multipath": 50, "dmraid": 60, "iscsiname": 70, "fcoe": 71, "zfcp": 71,
        "iscsi": 71, "nvdimm": 80, "autopart": 100, "reqpart": 100, "zerombr": 110, "clearpart": 120, "part": 130,
        "partition": 130, "raid": 131, "volgroup": 132, "btrfs": 132, "logvol": 133, "snapshot": 140}

# A line of each command with a value to fill in.
LINES = {
    "auth": "--enablemd5 --nisdomain=~", "authconfig": "--enablemd5 --nisdomain=~", "authselect": "select ~",
    "autopart": "", "autostep": "", "bootloader": "--location=mbr --append=~", "btrfs": "/b~ part.01", "cdrom": "",
    "clearpart": "--drives=~", "cmdline": "", "device": "~", "deviceprobe": "~", "dmraid": "--name=~ --dev=deva",
    "driverdisk": "/dev/~", "eula": "--agreed", "fcoe": "--nic=~", "firewall": "--enabled --trust=~",
    "firstboot": "--enabled", "graphical": "", "group": "--name=~", "halt": "", "harddrive": "--dir=/~ --partition=sda1",
    "hmc": "", "ignoredisk": "--drives=~", "install": "", "interactive": "", "iscsi": "--ipaddr=~", "iscsiname": "~",
    "key": "~", "keyboard": "~", "lang": "~", "langsupport": "--default=~", "lilo": "--append=~", "lilocheck": "",
    "liveimg": "--url=~", "logging": "--host=~", "logvol": "/l --vgname=~ --name=lv --size=10", "mediacheck": "",
    "module": "--name=~ --stream=s", "monitor": "--hsync=~", "mount": "~ /m", "mouse": "~",
    "multipath": "--name=~ --device=d --rule=r", "network": "--device=~ --bootproto=dhcp", "nfs": "--server=~ --dir=/d",
    "nvdimm": "use --namespace=~", "ostreesetup": "--osname=~ --url=http://x --ref=r", "part": "/p~ --size=10",
    "partition": "/p~ --size=10", "poweroff": "", "raid": "/r~ --device=0 --level=1 raid.1 raid.2", "realm": "join ~",
    "reboot": "", "repo": "--name=~ --baseurl=http://x", "reqpart": "", "rescue": "",
    "rhsm": "--organization=1 --activation-key=~", "rootpw": "~", "selinux": "--permissive", "services": "--enabled=~",
    "shutdown": "", "skipx": "", "snapshot": "v/l --name=~ --when=post-install", "sshkey": "--username=u ~",
    "sshpw": "--username=~ p", "syspurpose": "--role=~", "text": "", "timesource": "--ntp-server=~", "timezone": "~",
    "unsupported_hardware": "", "updates": "~", "upgrade": "", "url": "--url=~", "user": "--name=~", "vnc": "--password=~",
    "volgroup": "v~ pv.1", "xconfig": "--startxonboot --defaultdesktop=GNOME", "zerombr": "", "zfcp": "--devnum=~", "zipl": "--secure-boot",
}
ZFCP_OLD = "--devnum=~ --scsiid=a --wwpn=b --scsilun=c --fcplun=d"
# Commands that exclude each other stay in different files.
APART = [{"autopart"}, {"part", "partition", "raid", "volgroup", "logvol", "btrfs"}, {"reqpart"}, {"mount"}]


def shown(ver):
    return "DEVEL" if ver == ALL[-1] else ver


def active(ver):
    out = set()
    for g in GROUPS:
        if g["kind"] == "active" and ver in g["versions"]:
            out.add(g["command"])
    return sorted(out)


def line(ver, c, v):
    if c == "zfcp":
        s = ZFCP_OLD if VERSIONS[ver] < VERSIONS["F12"] else "--devnum=~ --wwpn=b --fcplun=d"
    elif c == "zerombr" and VERSIONS[ver] < VERSIONS["F9"]:
        s = "yes"
    elif c == "iscsi" and VERSIONS[ver] < VERSIONS["FC6"]:
        s = "--target=t --ipaddr=~"
    elif c == "device" and VERSIONS[ver] < VERSIONS["F8"]:
        s = "eth ~"
    else:
        s = LINES[c]
    a, m, b = s.partition("~")
    t = (c + " " + a + v + b) if m else (c + " " + s)
    return t.rstrip(" ") + "\n" if not m else t + "\n"


def files(ver, k):
    """Sets of k compatible commands; every command of the version is in one of them."""
    r = random.Random(VERSIONS[ver] * 31 + k)
    todo = active(ver)
    r.shuffle(todo)
    left, out = list(todo), []
    while left:
        s = []
        for c in left + todo:
            if len(s) < k and c not in s and not clash(s, c):
                s.append(c)
        left = [c for c in left if c not in s]
        out.append(s)
    return out


def cls_of(c):
    """Several names may stand for one object."""
    for grp in (("auth", "authconfig"), ("part", "partition"), ("cmdline", "graphical", "text"),
                ("halt", "poweroff", "reboot", "shutdown"), ("install", "upgrade"),
                ("cdrom", "harddrive", "nfs", "url", "liveimg", "hmc"), ("bootloader", "lilo")):
        if c in grp:
            return grp[0]
    return c


def clash(s, c):
    for d in s:
        if cls_of(d) == cls_of(c):
            return True
        for i, a in enumerate(APART):
            for j, b in enumerate(APART):
                if i != j and d in a and c in b:
                    return True
    return False


def written(h, skip=()):
    """[(priority, class name, text)] of the command objects of a handler."""
    seen, out = [], []
    for name in sorted(h.commands):
        o = h.commands[name]
        if o is None or any(o is x for x in seen):
            continue
        seen.append(o)
        if o.writePriority is not None:
            out.append([PRIO.get(name, 0), type(o).__name__, str(o)])
    return sorted(out, key=lambda t: (t[0], t[1]))


def shape(cx, p):
    """Header, commands by priority and name, scripts, tolerated sections, packages."""
    ver = p["v"]
    cmds = p["cmds"]
    lines = [line(ver, c, cx.string("v%d" % i, 1, "lower")) for i, c in enumerate(cmds)]
    h = cmdlib.pool(ver)
    base = dict((t[1], t[2]) for t in written(h))
    want = {}
    for c, l in zip(cmds, lines):
        h = cmdlib.pool(ver)
        with cmdlib.quiet():
            KickstartParser(h).readKickstartFromString(l)
        n = type(h.commands[c]).__name__
        want[n] = [PRIO.get(c, 0), str(h.commands[c])]
    h = cmdlib.pool(ver)
    order = []
    for x in written(h):
        order.append([x[0], x[1], want[x[1]][1] if x[1] in want else base[x[1]]])
    rest = list(range(len(cmds)))
    random.Random(p["perm"]).shuffle(rest)
    text = "".join([lines[i] for i in rest])
    expect = "# Generated by pykickstart v%s\n" % __version__
    h.platform = "x86" if p["tail"] & 1 else ""
    if h.platform:
        expect = expect + "#platform=x86\n"
    expect = expect + "#version=" + shown(ver) + "\n"
    for x in order:
        expect = expect + x[2]
    secs, body = [], ""
    old = VERSIONS[ver] < VERSIONS["F8"]
    end = "" if old else "%end\n"
    if p["tail"] & 4:
        b = cx.string("b", 1, "lower")
        secs.append("%post\n" + b + "\n" + end)
        secs.append("%pre\n" + b + "\n" + end)
    if p["tail"] & 8 and not old:
        n = "%addon a\n" + cx.string("n", 1, "lower") + "\n%end\n"
        secs.insert(1, n)
    if p["tail"] & 2:
        secs.append("%packages\n" + cx.string("q", 1, "lower") + "\n" + end)
    # tail sections may stand in any order among the commands from F8 on
    text = text + "".join(secs) if old or p["perm"] % 2 else "".join(secs[:1]) + text + "".join(secs[1:])
    k = KickstartParser(h)
    if not old:
        k.registerSection(NullSection(h, sectionOpen="%addon"))
    with cmdlib.quiet():
        k.readKickstartFromString(text)
    got = str(h)
    for s in h.scripts:
        expect = expect + str(s)
    if p["tail"] & 8 and not old:
        expect = expect + "\n" + n
    expect = expect + str(h.packages)
    cx.check_eq(len(h.scripts), 2 if p["tail"] & 4 else 0, "scripts read", lambda: text)
    cx.check_eq(got, expect, "shape of the file", lambda: repr([text, got, expect]))
    cx.cover("shape")


class Meta(type):
    """Lets a class have a symbolic name."""
    @property
    def __name__(cls):
        return cls.shown


def sym_class(shown, prio, mark):
    class Cmd(KickstartCommand, metaclass=Meta):
        def __init__(self):
            KickstartCommand.__init__(self, prio)

        def __str__(self):
            return mark + "\n"

        def parse(self, args):
            return self
    Cmd.shown = shown
    return Cmd


class Base(makeVersion("DEVEL").__class__):
    pass


def before(a, b):
    return a[0] < b[0] or (a[0] == b[0] and a[1] < b[1])


def order(cx, p):
    """Commands of symbolic priority and name are written in order, each once."""
    n = p["n"]
    cl = []
    for i in range(n):
        prio = cx.integer("p%d" % i, 0, 9)
        s = "A" + cx.string("s%d" % i, p["len"][i % len(p["len"])], "alpha") + "_C%d" % i
        cl.append([prio, s, sym_class(s, prio, "m%d" % i)])
    for i in range(n):
        for j in range(i):
            cx.assume(cl[i][1] != cl[j][1])
    mapping = {}
    for i in range(n):
        mapping["c%d" % i] = cl[i][2]
    if p["alias"] is not None:
        mapping["alias"] = cl[p["alias"]][2]
    if p["none"]:
        mapping["z"] = sym_class("AB_Z", None, "zz")
    h = Base(mapping=mapping)
    if p["again"] is not None:
        h.resetCommand("c%d" % p["again"])
        cx.cover("again")
    got = [x for x in str(h).split("\n")[2:] if x]
    cx.check_eq(len(got), n, "each command once", lambda: repr(got))
    cx.check_eq(sorted(got), ["m%d" % i for i in range(n)], "each command written", lambda: repr(got))
    for a, b in zip(got, got[1:]):
        cx.check(before(cl[int(a[1:])], cl[int(b[1:])]), "order of commands", lambda: repr([got, [x[:2] for x in cl]]))
    cx.cover("order")


# What a new handler writes.
DEFAULT = {"bootloader": ("bootloader --location=none", "bootloader --linear --location=none")}


def unset(cx, p):
    """A command that was not given writes nothing (the boot loader: its default)."""
    h = cmdlib.pool(p["v"])
    h.platform = cx.string("s", 1, "lower")
    for name, o in sorted(h.commands.items()):
        got = [x for x in str(o).split("\n") if x and not x.startswith("#")]
        cx.check(got == [] or (name in DEFAULT and len(got) == 1 and got[0] in DEFAULT[name]), "unset command",
                 lambda: repr([name, got]))
    got = [x for x in str(h).split("\n") if x and (not x.startswith("#") or x[:2] == "#p" or x[:2] == "#v")]
    cx.check_eq(got[:2], ["#platform=" + h.platform, "#version=" + shown(p["v"])], "header", lambda: repr(got))
    cx.check(len(got) == 3 and got[2] in DEFAULT["bootloader"], "rest of an empty file", lambda: repr(got))
    cx.cover("unset")


def jobs(tier):
    q = tier == "quick"
    out = []
    for v in ALL:
        out.append({"h": "unset", "p": {"v": v}, "cost": 2})
        for k in ((5,) if q else (4, 5, 6)):
            for i, cmds in enumerate(files(v, k)):
                for r in range(1 if q else 12):
                    out.append({"h": "shape", "p": {"v": v, "cmds": cmds, "perm": r + i, "tail": (i * 7 + r * 5 + VERSIONS[v]) % 16},
                                "cost": k})
    for n in (2, 3, 4) if q else (2, 3, 4, 5):
        for ln in ([1], [2, 0], [0, 1]):
            for al in (None, 0, n - 1):
                for ag in (None, 0, n - 1):
                    if q and n == 4 and (al == 0 or ag == 0):
                        continue
                    if n == 5 and (al == 0 or ag == 0):
                        continue
                    out.append({"h": "order", "p": {"n": n, "len": ln, "alias": al, "again": ag, "none": n % 2 == 0},
                                "cost": 6 ** (n - 1)})
    return out
