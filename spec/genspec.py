"""Mine the command contracts of the baseline tree into commands.json.

Run once (with /opt/venv/bin/python, PYTHONPATH=/repo) when the specification is
(re)written; no check runs it.  The result is reviewed and committed and is the
oracle the symbolic checks verify the current tree against.
"""
import ast
import inspect
import json
import multiprocessing
import os
import random
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "harness")]
warnings.simplefilter("ignore")
import pykickstart.version as V
from pykickstart.base import DeprecatedCommand, RemovedCommand, BaseData
from pykickstart.errors import KickstartError
from pykickstart.options import KSOptionParser
from bases import BASES
import cmdlib
from cmdlib import TRANSFORMS, obs, parse_line, line_of, result_obj

WORDS = ["abc", "Zq7", "x.y_z"]
PATHS = ["/mnt/xx", "/q"]
# extra samples, used to tell conversions apart where they are accepted
EXTRA = {"word": ["p q", " r", "s.", "md7", "md7x"], "path": ["/q/./r//s", "/t/", "/u v ", "/dev/zz"], "list": ["f1, g2"], "int": []}


def quote(v):
    return '"' + v + '"' if " " in v else v

INTS = ["1", "37", "1234"]
LISTS = ["aa,bb", "c1,d2,e3"]
BOOLS = ["on", "no", "1", "false"]


def run(ver, cmd, args):
    """(accepted, data or None, errclass)"""
    h = cmdlib.pool(ver)
    try:
        parse_line(h, line_of(cmd, args))
    except KickstartError as e:
        return False, None, "K"
    except Exception as e:
        return False, None, type(e).__name__
    o = result_obj(h, cmd)
    return True, (obs(o) if o is not None else {}), ""


def outcome(ver, cmd, args):
    ok, d, err = run(ver, cmd, args)
    return "ok" if ok else "rej" if err == "K" else "exc"


def js(x):
    return json.loads(json.dumps(x, default=repr, sort_keys=True))


def literals(cls):
    """String literals of the command's module that look like option values."""
    out = set()
    mods = {inspect.getsourcefile(c) for c in cls.__mro__ if c.__module__.startswith("pykickstart.commands")}
    from pykickstart import constants
    for m in mods:
        for n in ast.walk(ast.parse(open(m).read())):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                s = n.value
                if 0 < len(s) <= 20 and all(c.isalnum() or c in "_.:/-,+" for c in s) and not s.startswith("-"):
                    out.add(s)
            if isinstance(n, ast.ImportFrom) and n.module == "pykickstart.constants":
                for a in n.names:
                    v = getattr(constants, a.name, None)
                    if isinstance(v, str) and v:
                        out.add(v)
    return sorted(out)


def fit(samples, attr, d0, eff):
    """Find a transform t with eff[v][attr] == t(v) for all samples."""
    vals = [eff[v].get(attr) for v in samples]
    base = d0.get(attr)
    if len(samples) > 1 and len({json.dumps(js(x)) for x in vals}) > 1:
        for name, t in TRANSFORMS.items():
            try:
                if all(js(t(v)) == js(x) and type(t(v)) is type(x) for v, x in zip(samples, vals)):
                    if isinstance(base, list):
                        return ["set", name]
                    return ["t", name]
            except Exception:
                pass
        if isinstance(base, list) and base and all(isinstance(x, list) and len(x) == len(base) for x in vals):
            idx = {i for x in vals for i in range(len(base)) if js(x[i]) != js(base[i])}
            if len(idx) == 1:
                i = idx.pop()
                for name, t in TRANSFORMS.items():
                    try:
                        if all(js(t(v)) == js(x[i]) for v, x in zip(samples, vals)):
                            return ["elem", i, name]
                    except Exception:
                        pass
        if isinstance(base, list):
            for name, t in TRANSFORMS.items():
                try:
                    if all(js(base + t(v)) == js(x) for v, x in zip(samples, vals)):
                        return ["ext", name]
                except Exception:
                    pass
                try:
                    if all(js(base + [t(v)]) == js(x) for v, x in zip(samples, vals)):
                        return ["app", name]
                except Exception:
                    pass
        return ["opaque"]
    if isinstance(base, list) and isinstance(vals[0], list) and len(base) == len(vals[0]):
        idx = [i for i in range(len(base)) if js(base[i]) != js(vals[0][i])]
        if len(idx) == 1:
            return ["elemc", idx[0], js(vals[0][idx[0]])]
    return ["c", js(vals[0])]


def effect(samples, d0, eff, dest=None):
    out = {}
    attrs = set(d0)
    for v in samples:
        attrs |= set(eff[v])
    for a in sorted(attrs):
        if a != dest and a in d0 and all(a in eff[v] and js(eff[v][a]) == js(d0.get(a)) for v in samples):
            continue
        if a == dest and not any(a in eff[v] for v in samples):
            continue
        out[a] = fit(samples, a, d0, eff)
    return out


def find_pos(base, names):
    for i, b in enumerate(base):
        if b.split("=")[0] in names:
            return i
    return None


def with_opt(base, names, word):
    i = find_pos(base, names)
    if i is not None:
        return base[:i] + [word] + base[i + 1:]
    # options before positionals and after: put at the end
    return base + [word]


RANGE = list(range(-3, 70)) + list(range(95, 105)) + list(range(250, 260)) + \
    [1000, 1023, 1024, 4093, 4094, 4095, 4096, 9999, 65534, 65535, 65536, 99999]


def mine_values(ver, cmd, d0, mk, name, dest, tn, choices, lits):
    """Atoms of one value slot; mk(v) is the full argument list with value v in place."""
    atoms = []

    def attempt(v):
        return run(ver, cmd, mk(quote(v)))

    def group(kind, samples, **kw):
        res = {v: attempt(v) for v in samples}
        good = [v for v in samples if res[v][0]]
        if len(good) == len(samples):
            for v in EXTRA[kind]:
                r = attempt(v)
                if r[0]:
                    res[v] = r
                    samples = samples + [v]
            at = {"k": kind, "ok": True, "word": name, "eff": effect(samples, d0, {v: res[v][1] for v in samples}, dest)}
            at.update(kw)
            return at
        if not good and all(res[v][2] == "K" for v in samples):
            return {"k": kind, "ok": False, "word": name}
        return None
    w = group("word", WORDS)
    if w is None:
        w = {"k": "word", "ok": None, "word": name}
    atoms.append(w)
    if tn != "int":
        p = group("path", PATHS)
        if p is not None and (p["ok"] != w["ok"] or p.get("eff") != w.get("eff")):
            atoms.append(p)
    if tn == "int" or not w["ok"]:
        acc = [n for n in RANGE if attempt(str(n))[0]]
        if acc:
            g = group("int", [str(n) for n in (acc if len(acc) < 4 else [acc[len(acc) // 3], acc[len(acc) // 2], acc[-1]])])
            if g is not None:
                lo, hi = min(acc), max(acc)
                g["lo"] = lo if lo > -3 else None
                g["hi"] = hi if hi < 99999 else None
                rng = [n for n in RANGE if (g["lo"] is None or n >= g["lo"]) and (g["hi"] is None or n <= g["hi"])]
                if rng != acc:
                    g["set"] = acc
                atoms.append(g)
    l = group("list", LISTS)
    if l is not None and l["ok"] and (not w["ok"] or l.get("eff") != w.get("eff") or tn == "commaSplit"):
        atoms.append(l)
    cand = sorted(set(lits) | set(map(str, choices or ())) | {"on", "off", "yes", "no", "true", "false", "1", "0",
                                                             "swap", "none", "recommended", "hibernation"})
    for v in cand:
        ok, d, err = attempt(v)
        if w["ok"]:
            if not ok:
                atoms.append({"k": "lit", "ok": False, "word": name + v, "v": v})
                continue
            want = dict(d0)
            want.update({k: _apply(e, v, d0, k) for k, e in w["eff"].items()})
            if js(want) != js(d):
                pa = [x for x in atoms if x["k"] in ("path", "list") and x["ok"]]
                if v.startswith("/") and pa and pa[0]["k"] == "path":
                    want = dict(d0)
                    want.update({k: _apply(e, v, d0, k) for k, e in pa[0]["eff"].items()})
                    if js(want) == js(d):
                        continue
                atoms.append({"k": "lit", "ok": True, "word": name + v, "v": v,
                              "eff": effect([v], d0, {v: d}, dest)})
        elif ok and not any(x["k"] == "int" and x["ok"] and _isint(v) for x in atoms):
            atoms.append({"k": "lit", "ok": True, "word": name + v, "v": v,
                          "eff": effect([v], d0, {v: d}, dest)})
    return atoms


def mine_option(ver, cmd, base, d0, a, lits):
    names = list(a.option_strings)
    o = {"names": names, "dest": a.dest, "deprecated": bool(getattr(a, "deprecated", False)),
         "required": bool(a.required)}
    name = names[-1]
    tn = getattr(a.type, "__name__", None)
    o["type"] = tn
    if a.choices is not None:
        o["choices"] = list(a.choices)
    if a.nargs == 0:
        o["takes"] = "none"
        ok, d, err = run(ver, cmd, with_opt(base, names, name))
        at = {"k": "flag", "ok": ok, "word": name}
        if ok:
            at["eff"] = effect([""], d0, {"": d}, a.dest)
        o["atoms"] = [at]
        o["flagval"] = outcome(ver, cmd, with_opt(base, names, name + "=x"))
        return o
    o["takes"] = "value"
    o["empty"] = outcome(ver, cmd, with_opt(base, names, name + "="))
    o["noval"] = outcome(ver, cmd, [b for b in base if b.split("=")[0] not in names] + [name])
    o["atoms"] = mine_values(ver, cmd, d0, lambda v: with_opt(base, names, name + "=" + v), name + "=", a.dest, tn,
                             a.choices, lits)
    # given twice: the last value wins, or the values accumulate
    g = [at for at in o["atoms"] if at["ok"] and at["k"] in ("word", "path", "int", "list")]
    if g and not any(e[0] == "opaque" for e in g[0]["eff"].values()):
        at = g[0]
        w1, v1 = atom_sample(at)
        w2, v2 = atom_sample(at, 1)
        i = find_pos(base, names)
        args = base[:i] + [w1, w2] + base[i + 1:] if i is not None else base + [w1, w2]
        ok, d, err = run(ver, cmd, args)
        o["repeat"] = "other"
        if not ok:
            o["repeat"] = "rej"
        else:
            for rule in ("seq", "acc"):
                want = compose(d0, [(at["eff"], v1), (at["eff"], v2)], acc=rule == "acc")
                if js(want) == js(d):
                    o["repeat"] = rule
                    break
        if o["repeat"] == "acc":
            for x in o["atoms"]:
                for k, e in (x.get("eff") or {}).items():
                    if e[0] == "set" and d0.get(k) == []:
                        e[0] = "ext"
            if js(compose(d0, [(at["eff"], v1), (at["eff"], v2)])) == js(d):
                o["repeat"] = "seq"
    return o


def _isint(v):
    try:
        int(v)
        return True
    except ValueError:
        return False


def _apply(e, v, d0, attr):
    if e[0] == "c":
        return e[1]
    if e[0] in ("t", "set"):
        try:
            return TRANSFORMS[e[1]](v)
        except Exception:
            return "<err>"
    if e[0] == "ext":
        return d0[attr] + TRANSFORMS[e[1]](v)
    if e[0] == "app":
        return d0[attr] + [TRANSFORMS[e[1]](v)]
    if e[0] == "elem":
        return d0[attr][:e[1]] + [TRANSFORMS[e[2]](v)] + d0[attr][e[1] + 1:]
    if e[0] == "elemc":
        return d0[attr][:e[1]] + [e[2]] + d0[attr][e[1] + 1:]
    return "<opaque>"


SAMPLE = {"word": ["wd", "we"], "path": ["/pp", "/pq"], "int": None, "list": ["l1,l2", "l3,l4"]}


def atom_sample(at, alt=0):
    """(word, value) of one concrete instance of an accepted atom."""
    k = at["k"]
    if k == "flag":
        return at["word"], ""
    if k == "lit":
        return at["word"], at["v"]
    if k == "int":
        if "set" in at:
            v = str(at["set"][(len(at["set"]) // 2 + alt) % len(at["set"])])
        else:
            lo = at["lo"] if at["lo"] is not None else 0
            hi = at["hi"] if at["hi"] is not None else 99999
            v = str(min(max(lo, 17 + alt), hi))
        return at["word"] + v, v
    return at["word"] + SAMPLE[k][alt], SAMPLE[k][alt]


def compose(d0, parts, acc=False):
    """Expected data after several atoms applied in order."""
    return cmdlib.compose(d0, parts, acc)


def mine_class(job):
    ver, cmd, cname, vers = job
    h = cmdlib.pool(ver)
    obj = h.commands[cmd]
    kind = "deprecated" if isinstance(obj, DeprecatedCommand) else "removed" if isinstance(obj, RemovedCommand) else "active"
    g = {"command": cmd, "class": cname, "versions": vers, "kind": kind}
    if kind != "active":
        return g
    if cmd not in BASES:
        g["kind"] = "internal"
        return g
    obj0 = type(obj)
    g["is_list"] = cmdlib.pool(ver).commands[cmd].dataList() is not None
    g["contexts"] = []
    for base in BASES[cmd]:
        ok, d0, err = run(ver, cmd, base)
        if ok:
            g["contexts"].append(mine_context(ver, cmd, base, d0, obj))
    if not g["contexts"]:
        raise SystemExit("no base for %s %s" % (ver, cmd))
    return g


def mine_context(ver, cmd, base, d0, obj):
    c = {"base": base, "data": js(d0)}
    lits = literals(type(obj))
    op = getattr(obj, "op", None)
    opts = []
    if isinstance(op, KSOptionParser):
        for a in op._actions:
            if a.option_strings:
                opts.append(mine_option(ver, cmd, base, d0, a, lits))
    # positional words of the context
    for i, w in enumerate(base):
        if not w.startswith("-"):
            atoms = mine_values(ver, cmd, d0, lambda v: base[:i] + [v] + base[i + 1:], "", None, None, None, lits)
            opts.append({"names": [], "pos": i, "takes": "value", "type": None, "atoms": atoms, "deprecated": False,
                         "required": True, "dest": None})
    c["options"] = opts
    # dropping one word of the context
    c["droppable"] = []
    for i, w in enumerate(base):
        ok, d, err = run(ver, cmd, base[:i] + base[i + 1:])
        c["droppable"].append(ok if ok or err == "K" else None)
    c["extra"] = outcome(ver, cmd, base + ["zz9"])
    flat = []
    for i, o in enumerate(opts):
        nl = 0
        for at in o["atoms"]:
            if at["ok"] and "opaque" not in [e[0] for e in at["eff"].values()]:
                at["id"] = len(flat)
                flat.append((i, at))
    def place(args, o, w):
        if "pos" in o:
            return args[:o["pos"]] + [w] + args[o["pos"] + 1:]
        return with_opt(args, o["names"], w)
    def ok_pair_lits(at, o):
        return at["k"] != "lit" or [x for x in o["atoms"] if x["k"] == "lit" and x["ok"]].index(at) < 8
    rej, exc = [], []
    for x in range(len(flat)):
        for y in range(x + 1, len(flat)):
            (i, a), (j, b) = flat[x], flat[y]
            if i == j or not ok_pair_lits(a, opts[i]) or not ok_pair_lits(b, opts[j]):
                continue
            wa, va = atom_sample(a)
            wb, vb = atom_sample(b, 1)
            res = []
            for order in (0, 1):
                p, q = ((i, wa), (j, wb)) if not order else ((j, wb), (i, wa))
                args = place(place(list(base), opts[p[0]], p[1]), opts[q[0]], q[1])
                ok, d, err = run(ver, cmd, args)
                if not ok:
                    res.append("rej" if err == "K" else "exc")
                    continue
                want = compose(d0, order_parts(base, opts, [(i, a, va), (j, b, vb)] if not order
                                               else [(j, b, vb), (i, a, va)]))
                res.append("ok" if js(want) == js(d) else "exc")
            if res == ["rej", "rej"]:
                rej.append([x, y])
            elif res != ["ok", "ok"]:
                exc.append([x, y, res[0], res[1]])
    c["rejected_pairs"] = rej
    c["interacting_pairs"] = exc
    # atoms rejected alone: is there another option that makes them legal?
    for i, o in enumerate(opts):
        for at in o["atoms"]:
            if at["ok"] or at["k"] not in ("flag", "word"):
                continue
            w = at["word"] + ("" if at["k"] == "flag" else "wd")
            en = []
            for y, (j, b) in enumerate(flat):
                if j == i or b["k"] == "lit" and not ok_pair_lits(b, opts[j]):
                    continue
                wb, vb = atom_sample(b)
                args = place(place(list(base), opts[j], wb), o, w)
                if run(ver, cmd, args)[0]:
                    en.append(y)
            if en:
                at["enabled_by"] = en
    c["company"] = mine_company(ver, cmd, base, opts, flat, rej, exc, c["droppable"])
    return c


def mine_company(ver, cmd, base, opts, flat, rej, exc, droppable):
    """Rejected pieces together with further options that do not make them legal."""
    bad = {}
    for p in rej + [q[:2] for q in exc]:
        bad.setdefault(p[0], set()).add(p[1])
        bad.setdefault(p[1], set()).add(p[0])
    units = [["pair", x, y] for x, y in rej]
    for i, o in enumerate(opts):
        if o.get("pos") is not None:
            continue
        lits = 0
        for k, at in enumerate(o["atoms"]):
            if at["ok"] is False and at["k"] in ("flag", "word", "lit"):
                lits += at["k"] == "lit"
                if lits < 3:
                    units.append(["atom", i, k])
            if at["ok"] and at["k"] == "int":
                for side in ("lo", "hi"):
                    if at.get(side) is not None:
                        units.append([side, i, k])
    units += [["drop", i] for i, d in enumerate(droppable) if d is False]
    rnd = random.Random(len(opts) * 131 + len(base))
    out = []
    for u in units:
        own, words, start = set(), [], list(base)
        if u[0] == "pair":
            own = {flat[u[1]][0], flat[u[2]][0]}
            words = [(flat[x][0], atom_sample(flat[x][1])[0]) for x in u[1:]]
        elif u[0] == "drop":
            name = base[u[1]].split("=")[0]
            own = {i for i, o in enumerate(opts) if name in o["names"]}
            if not own and not base[u[1]].startswith("-"):
                own = {i for i, o in enumerate(opts) if "pos" in o}
        else:
            o = opts[u[1]]
            at = o["atoms"][u[2]]
            own = {u[1]}
            w = at["word"] + {"word": "wd", "lo": str((at.get("lo") or 0) - 1), "hi": str((at.get("hi") or 0) + 1)}.get(
                u[0] if u[0] != "atom" else at["k"], "")
            words = [(u[1], w)]

        def line(row):
            args = list(base)
            for x in row:
                o = opts[flat[x][0]]
                w = atom_sample(flat[x][1])[0]
                args = args[:o["pos"]] + [w] + args[o["pos"] + 1:] if "pos" in o else with_opt(args, o["names"], w)
            for i, w in words:
                o = opts[i]
                args = args[:o["pos"]] + [w] + args[o["pos"] + 1:] if "pos" in o else with_opt(args, o["names"], w)
            if u[0] == "drop":
                args = args[:u[1]] + args[u[1] + 1:]
            return args
        if outcome(ver, cmd, line([])) != "rej":
            continue
        rows = []
        for r in range(3):
            row, used = [], set(own)
            ids = [x for x in range(len(flat)) if not opts[flat[x][0]]["deprecated"]]
            rnd.shuffle(ids)
            for x in ids:
                i = flat[x][0]
                if i in used or rnd.random() > (1.0, 0.5, 0.5)[r] or any(y in bad.get(x, ()) for y in row) or \
                        u[0] == "pair" and (u[1] in bad.get(x, ()) or u[2] in bad.get(x, ())):
                    continue
                if "pos" in opts[i] and u[0] == "drop":
                    continue
                if outcome(ver, cmd, line(row + [x])) == "rej":
                    row.append(x)
                    used.add(i)
            if row and row not in rows:
                rows.append(row)
        if rows:
            out.append([u, rows])
    return out


def order_parts(base, opts, items):
    """Sequence of (eff, value) in the order the words appear on the line."""
    inplace, tail = [], []
    for i, at, v in items:
        o = opts[i]
        pos = o["pos"] if "pos" in o else find_pos(base, o["names"])
        if pos is not None:
            inplace.append((pos, at["eff"], v))
        else:
            tail.append((at["eff"], v))
    return [(e, v) for _p, e, v in sorted(inplace, key=lambda t: t[0])] + tail


def main():
    jobs = {}
    for name in V.versionMap:
        if name == "DEVEL":
            continue
        h = V.makeVersion(name)
        for c, o in h.commands.items():
            dc = o.dataClass
            jobs.setdefault((c, type(o).__name__, dc.__name__ if dc else ""), []).append(name)
    order = sorted(V.versionMap, key=lambda n: V.versionMap[n])
    todo = []
    for (c, cn, _dc), vs in sorted(jobs.items()):
        vs.sort(key=order.index)
        todo.append((vs[-1], c, cn, vs))
    if len(sys.argv) > 2:
        todo = [t for t in todo if t[1] in sys.argv[2:]]
    with multiprocessing.Pool(8) as p:
        groups = p.map(mine_class, todo, chunksize=1)
    shapes, index = [], {}
    for g in groups:
        for n, c in enumerate(g.get("contexts", ())):
            k = json.dumps([g["command"], c], sort_keys=True)
            if k not in index:
                index[k] = len(shapes)
                shapes.append(c)
            g["contexts"][n] = index[k]
    out = {"versions": {n: V.versionMap[n] for n in order if n != "DEVEL"}, "groups": groups, "shapes": shapes}
    with open(sys.argv[1], "w") as f:
        json.dump(out, f, indent=None, separators=(",", ":"), sort_keys=True)
    print("groups", len(groups), "contexts", sum(len(g.get("contexts", ())) for g in groups), "shapes", len(shapes),
          "options", sum(len(c["options"]) for c in shapes), "atoms", sum(len(o["atoms"]) for c in shapes for o in c["options"]),
          "rejected", sum(len(c["rejected_pairs"]) for c in shapes),
          "interacting", sum(len(c["interacting_pairs"]) for c in shapes))
    from collections import Counter
    op, rp, ip = Counter(), Counter(), Counter()
    for g in groups:
        for ci in g.get("contexts", ()):
            c = shapes[ci]
            flat = {at["id"]: (o, at) for o in c["options"] for at in o["atoms"] if "id" in at}
            for o in c["options"]:
                if o.get("repeat") == "other":
                    rp[(g["command"], o["names"][0])] += 1
                for at in o["atoms"]:
                    if at["ok"]:
                        for a, e in at["eff"].items():
                            if e[0] == "opaque":
                                op[(g["command"], (o["names"] or [str(o.get("pos"))])[0], a, at["k"])] += 1
            for x in c["interacting_pairs"]:
                ip[(g["command"], flat[x[0]][1]["word"], flat[x[1]][1]["word"], x[2], x[3])] += 1
    for k, v in op.most_common(80):
        print("opaque", k, v)
    for k, v in rp.most_common(80):
        print("repeat", k, v)
    for k, v in ip.most_common(150):
        print("inter", k, v)


if __name__ == "__main__":
    main()
