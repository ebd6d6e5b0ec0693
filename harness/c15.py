"""C15: typed option values are converted the documented way, or rejected."""
import warnings

from argparse import ArgumentTypeError

from pykickstart.errors import KickstartParseError, KickstartDeprecationWarning
from pykickstart.options import (ExtendAction, ExtendConstAction, KSOptionParser, commaSplit, ksboolean,
                                 mountpoint)
from pykickstart.version import FC3, F7, F34
from harness.cmdlib import t_comma, t_mount

BOUNDS = {"boolean": "every string of length 0..2, every printable unquoted string of length 3..6", "comma list": "every string of length 0..6 (thorough 7)",
          "mount point": "every string of length 0..6 (thorough 7) over {/ . a - and any other}",
          "option line": "1..3 occurrences of list options with symbolic values of length 1..4"}
ENCODED = ["options.commaSplit", "options.ksboolean", "options.mountpoint", "options.ExtendAction",
           "options.ExtendConstAction", "options.KSOptionParser.*", "argparse.ArgumentParser.*", "posixpath.normpath"]
ASSUMPTIONS = ["alphabet of the engine", "standard-library argparse/posixpath executed from their own source"]
MUST_REACH = ["bool-true", "bool-false", "bool-bad", "comma", "mount-abs", "mount-rel", "extend", "const",
              "removed", "deprecated"]


def boolean(cx, p):
    s = cx.string("s", p["n"], p.get("alph", "any"))
    u = s.lower()
    want = None
    for k in ("on", "yes", "true", "1"):
        if u == k:
            want = True
    for k in ("off", "no", "false", "0"):
        if u == k:
            want = False
    try:
        got = ksboolean(s)
    except ArgumentTypeError:
        got = None
    cx.check_eq(got, want, "boolean value")
    cx.cover("bool-bad" if want is None else "bool-true" if want else "bool-false")
    # the same through an option
    op = mkop()
    op.add_argument("--b", type=ksboolean, version=FC3, help="")
    try:
        ns = op.parse_args(args=["--b=" + s], lineno=7)
        got = ns.b
    except KickstartParseError as e:
        cx.check_eq(e.lineno, 7, "line of a rejected boolean")
        got = None
    cx.check_eq(got, want, "boolean option")


def mkop():
    return KSOptionParser(prog="x", description="", version=FC3)


def comma(cx, p):
    s = cx.string("s", p["n"], p.get("alph", "line"))
    want = t_comma(s)
    got = commaSplit(s)
    cx.check(isinstance(got, list), "comma list is a list")
    cx.check_eq(got, want, "comma list")
    cx.cover("comma")


def mount(cx, p):
    s = cx.string("s", p["n"], p.get("alph", "any"))
    got = mountpoint(s)
    cx.check_eq(got, t_mount(s), "mount point")
    cx.check_eq(mountpoint(got), got, "mount point normalisation is idempotent")
    cx.cover("mount-abs" if s.startswith("/") else "mount-rel")


def extend(cx, p):
    """Repeated list options accumulate in the order given, constants included."""
    op = mkop()
    op.add_argument("--l", dest="l", action=ExtendAction, type=commaSplit, version=FC3, help="")
    op.add_argument("--k", dest="l", action=ExtendConstAction, const=["K1", "K2"], nargs=0, version=FC3, help="")
    op.add_argument("--o", dest="l", action="append_const", const="O", version=FC3, help="")
    args, want = [], []
    for i, (kind, n) in enumerate(p["items"]):
        if kind == "l":
            v = cx.string("v%d" % i, n, "wordc")
            args.append("--l=" + v)
            want = want + t_comma(v)
        elif kind == "k":
            args.append("--k")
            want = want + ["K1", "K2"]
        else:
            args.append("--o")
            want = want + ["O"]
    for _again in range(2):                      # parsing twice must not share state
        ns = op.parse_args(args=list(args), lineno=3)
        cx.check_eq(list(ns.l), want, "accumulated list")
    cx.cover("extend")
    if any(k == "k" for k, _n in p["items"]):
        cx.cover("const")


def integer(cx, p):
    """An integer option takes exactly the decimal integers."""
    s = cx.string("s", p["n"], "intish")
    op = mkop()
    op.add_argument("--i", type=int, version=FC3, help="")
    body = s.strip()
    if body[:1] == "+" or body[:1] == "-":
        sign, digs = body[:1], body[1:]
    else:
        sign, digs = "", body
    ok = digs.isdigit()
    try:
        got = op.parse_args(args=["--i=" + s], lineno=9).i
    except KickstartParseError as e:
        cx.check(not ok, "decimal integer accepted")
        cx.check_eq(e.lineno, 9, "line of a rejected integer")
        return
    cx.check(ok, "non-integer rejected")
    v = 0
    for c in digs:
        v = v * 10 + int(c)
    cx.check_eq(got, -v if sign == "-" else v, "integer value")


def lifecycle(cx, p):
    """Options redefined, deprecated or removed later behave as last declared."""
    op = mkop()
    op.add_argument("--alpha", dest="a", default="d", version=FC3, help="")
    op.add_argument("--beta", "--bet2", dest="b", action="store_true", default=False, version=FC3, help="")
    if p["dep"]:
        op.add_argument("--alpha", dest="a", default="d", deprecated=F7)
    if p["redef"]:
        op.add_argument("--alpha", dest="a", type=int, version=F7, help="")
    if p["rm"]:
        op.remove_argument("--beta", version=F7)
    v = cx.string("v", p["n"], "digit")
    which = cx.choose("which", 4)
    args = [["--alpha=" + v], ["--alpha", v], ["--beta"], ["--bet2"]][which]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            ns = op.parse_args(args=args, lineno=5)
            err = None
        except KickstartParseError as e:
            ns, err = None, e
    dep = [x for x in w if issubclass(x.category, KickstartDeprecationWarning)]
    if which < 2:
        cx.check(err is None, "known option accepted")
        cx.check_eq(ns.a, int(v) if p["redef"] else v, "option value")
        cx.check_eq(len(dep) > 0, bool(p["dep"] and not p["redef"]), "deprecated option warns")
        for x in dep:
            cx.check("line 5" in str(x.message), "warning names the line")
            cx.cover("deprecated")
    elif p["rm"]:
        cx.check(err is not None if which == 2 else True, "removed option rejected")
        if err is not None:
            cx.check_eq(err.lineno, 5, "line of a removed option")
        cx.cover("removed")
    else:
        cx.check(err is None and ns.b is True, "flag stored")
    # declaring an option without a version must fail at once
    try:
        mkop().add_argument("--zz", help="")
        cx.fail("option without version declared")
    except KeyError:
        pass


def jobs(tier):
    q = tier == "quick"
    out = []
    for n in range(0, 7 if q else 9):
        out.append({"h": "boolean", "p": {"n": n, "alph": "any" if n < 3 else "text"}, "cost": 30})
    for n in range(0, 6 if q else 8):
        out.append({"h": "comma", "p": {"n": n}, "cost": 4 ** n})
    for n in range(6, 8 if q else 11):
        out.append({"h": "comma", "p": {"n": n, "alph": "commaish"}, "cost": 3 ** n})
    for n in range(0, 6 if q else 7):
        out.append({"h": "mount", "p": {"n": n}, "cost": 4 ** n})
    for n in range(0, 7 if q else 9):
        out.append({"h": "mount", "p": {"n": n, "alph": "pathish"}, "cost": 4 ** n})
    for n in range(0, 5 if q else 7):
        out.append({"h": "integer", "p": {"n": n}, "cost": 10 * n})
    kinds = [("l", 1), ("l", 3), ("k", 0), ("o", 0)]
    for a in kinds:
        out.append({"h": "extend", "p": {"items": [a]}})
        for b in kinds:
            out.append({"h": "extend", "p": {"items": [a, b]}})
            for c in kinds:
                out.append({"h": "extend", "p": {"items": [a, b, c]}})
    for dep in (0, 1):
        for redef in (0, 1):
            for rm in (0, 1):
                for n in (1, 2, 3):
                    out.append({"h": "lifecycle", "p": {"dep": dep, "redef": redef, "rm": rm, "n": n}})
    return out
