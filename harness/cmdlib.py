"""Shared pieces of the command harnesses (runs both instrumented and plain)."""
import copy
import sys
import warnings

from pykickstart.version import makeVersion
from pykickstart.parser import KickstartParser
from pykickstart.base import BaseData, KickstartCommand

SKIP = ("op", "handler", "lineno", "currentCmd", "currentLine", "writePriority", "seen")

_cache = {}


class HandlerPool(object):
    """Hands out handlers whose state is indistinguishable from new.

    get() puts every command object that has been used since the last call back
    to the attribute values it had when the handler was new.
    """
    def __init__(self, ver):
        self.ver = ver
        self.h = makeVersion(ver)
        self.pristine = {}
        for obj in self.h.commands.values():
            if obj is not None and id(obj) not in self.pristine:
                self.pristine[id(obj)] = (obj, {k: (v if k in ("op", "handler") else copy.deepcopy(v))
                                                for k, v in vars(obj).items()})
        self.pristine_packages = copy.deepcopy(self.h.packages)

    def get(self):
        h = self.h
        for obj, attrs in self.pristine.values():
            if obj.seen or obj.lineno or obj.currentLine or obj.currentCmd:
                d = {k: (v if k in ("op", "handler") else copy.deepcopy(v)) for k, v in attrs.items()}
                vars(obj).clear()
                vars(obj).update(d)
        h.scripts = []
        h.packages = copy.deepcopy(self.pristine_packages)
        h.platform = ""
        h._null_section_strings = []
        h.currentLine = ""
        return h


def pool(ver, slot=0):
    k = (ver, slot)
    p = _cache.get(k)
    if p is None:
        p = _cache[k] = HandlerPool(ver)
    return p.get()


def norm(v):
    """Observable value: nested data objects become dicts."""
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, set):
        return sorted(norm(x) for x in v)
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (BaseData, KickstartCommand)):
        return obs(v)
    if hasattr(v, "__dict__") and type(v).__module__.startswith("pykickstart"):
        return {k: norm(x) for k, x in vars(v).items() if not k.startswith("_")}
    return v


_decl = {}


def _declared(cls):
    if cls not in _decl:
        try:
            _decl[cls] = frozenset(vars(cls()))
        except Exception:
            _decl[cls] = None
    return _decl[cls]


def obs(o):
    """Public data attributes (those a new object starts with) of a command or data object."""
    out = {}
    keys = _declared(type(o))
    for k, v in vars(o).items():
        if k in SKIP or k.startswith("_") or callable(v) or (keys is not None and k not in keys):
            continue
        out[k] = norm(v)
    return out


def line_of(cmd, args):
    s = cmd
    for a in args:
        s = s + " " + a
    return s + "\n"


def parse_line(h, text):
    """Parse text with the real parser; returns list of (category, message) warnings."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        KickstartParser(h).readKickstartFromString(text)
    return [(x.category, x.message) for x in w]


def result_obj(h, cmd):
    """The object a command line fills: last data object, or the command itself."""
    c = h.commands[cmd]
    lst = c.dataList()
    if lst is not None:
        return lst[-1] if len(lst) else None
    return c


# -- reference conversions (independent of the code under test) --------------
def t_comma(v):
    out = []
    for p in v.split(","):
        p = p.strip()
        if len(p) > 0:
            out.append(p)
    return out


def t_bool(v):
    return v.lower() in ("on", "yes", "true", "1")


def t_mount(v):
    """Absolute paths are normalised (no doubled or trailing slash, no '.' or '..')."""
    if not v.startswith("/"):
        return v
    lead = "//" if v.startswith("//") and not v.startswith("///") else "/"
    parts = []
    for p in v.split("/"):
        if p == "" or p == ".":
            continue
        if p == "..":
            if parts:
                parts.pop()
            continue
        parts.append(p)
    return lead + "/".join(parts)


def t_nodev(v):
    return v[5:] if v.startswith("/dev/") else v


def t_nomd(v):
    return v[2:] if v.startswith("md") else v


def t_raidlevel(v):
    u = v.upper()
    return u if not u.isdigit() else "RAID" + u


def t_ports(v):
    out = []
    for p in v.split(","):
        p = p.strip()
        out.append(p if ":" in p else p + ":tcp")
    return out


def t_teams(v):
    """Comma separated slaves, each optionally followed by a quoted configuration (none here)."""
    return [[p, ""] for p in v.split(",")]


def compose(d0, parts, acc=False):
    """Data expected after the effects in parts are applied in order to d0."""
    d = dict(d0)
    touched = set()
    for eff, v in parts:
        for a, e in eff.items():
            k = e[0]
            if k == "c":
                if isinstance(e[1], list) and isinstance(d0.get(a), list) and a in touched:
                    d[a] = d[a] + e[1][len(d0[a]):]     # constant list entries accumulate
                else:
                    d[a] = e[1]
            elif k == "t":
                d[a] = TRANSFORMS[e[1]](v)
            elif k == "set":
                if a in touched and acc:
                    d[a] = d[a] + TRANSFORMS[e[1]](v)
                else:
                    d[a] = TRANSFORMS[e[1]](v)
            elif k == "ext":
                d[a] = d[a] + TRANSFORMS[e[1]](v)
            elif k == "app":
                d[a] = d[a] + [TRANSFORMS[e[1]](v)]
            elif k == "elem":
                d[a] = d[a][:e[1]] + [TRANSFORMS[e[2]](v)] + d[a][e[1] + 1:]
            elif k == "elemc":
                d[a] = d[a][:e[1]] + [e[2]] + d[a][e[1] + 1:]
            touched.add(a)
    return d


TRANSFORMS = {
    "btrfslevel": lambda v: "raid" + v,
    "raidlevel": t_raidlevel,
    "ports": t_ports,
    "teams": t_teams,
    "id": lambda v: v,
    "int": lambda v: int(v),
    "comma": t_comma,
    "bool": t_bool,
    "notbool": lambda v: not t_bool(v),
    "mount": t_mount,
    "nodev": t_nodev,
    "nomd": t_nomd,
    "nomdint": lambda v: int(t_nomd(v)),
    "lower": lambda v: v.lower(),
    "upper": lambda v: v.upper(),
    "list1": lambda v: [v],
    "split": lambda v: v.split(","),
    "stripid": lambda v: v.strip(),
    "ints": lambda v: [int(x) for x in t_comma(v)],
    "strint": lambda v: str(int(v)),
    "words": lambda v: v.split(),
}


class Sink(object):
    """Collects what is written to it."""
    _sx_ok = True

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        pass

    def reports(self):
        """Number of messages written."""
        return len([p for p in self.parts if not (isinstance(p, str) and p.strip() == "")])

    def text(self):
        out = ""
        for p in self.parts:
            out = out + p
        return out


class quiet(object):
    """Standard error and warnings go to a sink."""
    def __enter__(self):
        self.old = sys.stderr, sys.stdout
        self.err, self.out = Sink(), Sink()
        sys.stderr, sys.stdout = self.err, self.out
        self.cw = warnings.catch_warnings(record=True)
        self.w = self.cw.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *a):
        sys.stderr, sys.stdout = self.old
        self.cw.__exit__(*a)
        return False
