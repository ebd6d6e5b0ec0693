"""Differential validation of the symbolic value models against CPython.

For every operation, every path over symbolic strings (all lengths <= 3, full
alphabet) is explored; on each path several solver models are realised and the
symbolic result must equal what CPython computes on the realised inputs.
"""
import os
import posixpath
import random
import re
import shlex as real_shlex
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
real_split = real_shlex.split
real_quote = real_shlex.quote
import argparse as real_argparse
from pysx import instrument
instrument.install([])
from pysx import core, api, rt, values
import shlex as sx_shlex
C = rt.sx_call

OPS = {
    "strip": (1, lambda s: C(s.strip), lambda s: s.strip()),
    "lstrip": (1, lambda s: C(s.lstrip), lambda s: s.lstrip()),
    "rstrip": (1, lambda s: C(s.rstrip), lambda s: s.rstrip()),
    "stripc": (1, lambda s: C(s.strip, "ab "), lambda s: s.strip("ab ")),
    "split": (1, lambda s: C(s.split), lambda s: s.split()),
    "split1": (1, lambda s: C(s.split, None, 1), lambda s: s.split(None, 1)),
    "splitc": (1, lambda s: C(s.split, ","), lambda s: s.split(",")),
    "splitc1": (1, lambda s: C(s.split, "=", 1), lambda s: s.split("=", 1)),
    "rsplit1": (1, lambda s: C(s.rsplit, None, 1), lambda s: s.rsplit(None, 1)),
    "rsplitc1": (1, lambda s: C(s.rsplit, ":", 1), lambda s: s.rsplit(":", 1)),
    "splitlines": (1, lambda s: C(s.splitlines), lambda s: s.splitlines()),
    "splitlinesk": (1, lambda s: C(s.splitlines, True), lambda s: s.splitlines(True)),
    "lower": (1, lambda s: C(s.lower), lambda s: s.lower()),
    "upper": (1, lambda s: C(s.upper), lambda s: s.upper()),
    "upperlower": (1, lambda s: C(C(s.upper).lower), lambda s: s.upper().lower()),
    "isspace": (1, lambda s: bool(C(s.isspace)), lambda s: s.isspace()),
    "isdigit": (1, lambda s: bool(C(s.isdigit)), lambda s: s.isdigit()),
    "isalnum": (1, lambda s: bool(C(s.isalnum)), lambda s: s.isalnum()),
    "isupper": (1, lambda s: bool(C(s.isupper)), lambda s: s.isupper()),
    "islower": (1, lambda s: bool(C(s.islower)), lambda s: s.islower()),
    "partition": (1, lambda s: C(s.partition, "="), lambda s: s.partition("=")),
    "rpartition": (1, lambda s: C(s.rpartition, "="), lambda s: s.rpartition("=")),
    "replace": (1, lambda s: C(s.replace, "a", "bc"), lambda s: s.replace("a", "bc")),
    "find": (1, lambda s: C(s.find, "a"), lambda s: s.find("a")),
    "rfind": (1, lambda s: C(s.rfind, "a"), lambda s: s.rfind("a")),
    "count": (1, lambda s: C(s.count, "a"), lambda s: s.count("a")),
    "startswith": (1, lambda s: bool(C(s.startswith, ("a", "//"))), lambda s: s.startswith(("a", "//"))),
    "endswith": (1, lambda s: bool(C(s.endswith, "\n")), lambda s: s.endswith("\n")),
    "in": (1, lambda s: rt.sx_in(s, "abcab"), lambda s: s in "abcab"),
    "inlist": (1, lambda s: rt.sx_in(s, ["ab", "b", ""]), lambda s: s in ["ab", "b", ""]),
    "indict": (1, lambda s: C({"a": 1, "bb": 2}.get, s, 9), lambda s: {"a": 1, "bb": 2}.get(s, 9)),
    "mod": (1, lambda s: rt.sx_mod("%s-%5s|%-4s|%d", (s, s, s, 5)), lambda s: "%s-%5s|%-4s|%d" % (s, s, s, 5)),
    "fmt": (1, lambda s: C("{0}{x}".format, s, x=s), lambda s: "{0}{x}".format(s, x=s)),
    "repr": (1, lambda s: C(repr, s), lambda s: repr(s)),
    "int": (1, lambda s: C(int, s), lambda s: int(s)),
    "intstr": (1, lambda s: C(str, C(int, s)), lambda s: str(int(s))),
    "intplus": (1, lambda s: C(str, C(int, s) + 7), lambda s: str(int(s) + 7)),
    "intneg": (1, lambda s: C(str, -C(int, s)), lambda s: str(-int(s))),
    "intcmp": (1, lambda s: bool(C(int, s) > 12), lambda s: int(s) > 12),
    "int16": (1, lambda s: C(int, s, 16), lambda s: int(s, 16)),
    "normpath": (1, lambda s: C(os.path.normpath, s), lambda s: posixpath.normpath(s)),
    "normpath2": (1, lambda s: C(os.path.normpath, "/" + s), lambda s: posixpath.normpath("/" + s)),
    "dirname": (1, lambda s: C(os.path.dirname, s), lambda s: posixpath.dirname(s)),
    "basename": (1, lambda s: C(os.path.basename, s), lambda s: posixpath.basename(s)),
    "join": (2, lambda s, t: C(os.path.join, s, t), lambda s, t: posixpath.join(s, t)),
    "shlex": (1, lambda s: C(sx_shlex.split, s), lambda s: real_split(s)),
    "shlexc": (1, lambda s: C(sx_shlex.split, s, comments=True), lambda s: real_split(s, comments=True)),
    "quote": (1, lambda s: C(sx_shlex.quote, s), lambda s: real_quote(s)),
    "re1": (1, lambda s: _g(C(re.match, r"^-\d+$|^-\d*\.\d+$", s)), lambda s: _g(re.match(r"^-\d+$|^-\d*\.\d+$", s))),
    "re2": (1, lambda s: _g(C(re.match, r"^f.* (\d+)$", s, re.I)), lambda s: _g(re.match(r"^f.* (\d+)$", s, re.I))),
    "re3": (1, lambda s: _g(C(re.search, r"[a-f]+([\.\d]*)$", s)), lambda s: _g(re.search(r"[a-f]+([\.\d]*)$", s))),
    "resub": (1, lambda s: C(re.sub, r"[a-c]", "X", s), lambda s: re.sub(r"[a-c]", "X", s)),
    "eq": (2, lambda s, t: bool(s == t), lambda s, t: s == t),
    "lt": (2, lambda s, t: bool(s < t), lambda s, t: s < t),
    "le": (2, lambda s, t: bool(s <= t), lambda s, t: s <= t),
    "sorted": (2, lambda s, t: C(sorted, [s, t, "b"]), lambda s, t: sorted([s, t, "b"])),
    "set": (2, lambda s, t: sorted(rt.SxSet([s, t, "a"]) - rt.SxSet([t])), lambda s, t: sorted({s, t, "a"} - {t})),
    "joinstr": (2, lambda s, t: C(",".join, [s, "x", t]), lambda s, t: ",".join([s, "x", t])),
    "dictset": (2, lambda s, t: _dd(s, t), lambda s, t: _dd2(s, t)),
    "encode": (1, lambda s: s.encode("utf-8").decode(), lambda s: s),
}


def _dd(s, t):
    d = {"a": 0}
    rt.sx_setitem(d, s, 1)
    rt.sx_setitem(d, t, 2)
    return sorted(d.values()), rt.sx_getitem(d, s)


def _dd2(s, t):
    d = {"a": 0}
    d[s] = 1
    d[t] = 2
    return sorted(d.values()), d[s]


def _g(m):
    return None if m is None else (m.group(),) + m.groups()


def realise(x):
    if isinstance(x, (values.SymStr, values.SymInt)):
        return x.realise()
    if isinstance(x, (list, tuple)):
        return type(x)(realise(y) for y in x)
    return x


def main():
    maxlen = int(sys.argv[1]) if len(sys.argv) > 1 else 3
    rnd = random.Random(1)
    bad = 0
    total = 0
    for name, (arity, symop, realop) in sorted(OPS.items()):
        npaths = 0

        def harness(cx, p):
            nonlocal bad, npaths, total
            args = []
            for i in range(arity):
                n = cx.choose("n%d" % i, (maxlen if arity == 1 else min(maxlen, 2)) + 1)
                args.append(cx.string("s%d" % i, n, "any"))
            err = None
            try:
                r = symop(*args)
            except Exception as e:
                err = type(e)
                r = None
            E = core.ENG
            E.active = False
            npaths += 1
            if E.dirty:
                E.repair()
            for k in range(3):
                if k:
                    # another model: randomise free variables
                    for v in E.vars:
                        if v not in E.relvars and v.kind == "c":
                            E.model[v] = rnd.choice(core.mask_codes(E.dom[v]))
                rr = realise(r)
                ra = [realise(a) for a in args]
                try:
                    want, werr = realop(*ra), None
                except Exception as e:
                    want, werr = None, type(e)
                total += 1
                if err != werr or (err is None and want != rr):
                    bad += 1
                    if bad < 20:
                        print("MISMATCH", name, ra, "sym:", rr, err, "real:", want, werr)
        st, v = api.explore(harness, {}, max_paths=200000, max_violations=5)
        for x in v:
            bad += 1
            print("EXC", name, x["label"], x.get("tb", "")[-600:])
        if st.aborts:
            print("aborts", name, st.aborts)
        if "-v" in sys.argv:
            print(name, st.paths, st.aborted)
    print("ops=%d comparisons=%d mismatches=%d" % (len(OPS), total, bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
