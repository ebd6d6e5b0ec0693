"""pysx core: path-forking symbolic execution state, formulas and solver access.

A *path* is one execution of the harness (and so of the real, instrumented
pykickstart code) under a list of recorded decisions.  Symbolic inputs are
finite-domain character variables (domain = bit mask over ALPHABET) and
bounded mathematical integers.  Branches over symbolic conditions fork; the
alternatives are re-executed later with a longer decision prefix, so the set
of paths partitions the whole input space of the harness.  Every obligation
(`check`) becomes a z3 query "path condition and not property".
"""
import time
import z3

# --------------------------------------------------------------------------
# Alphabet: every character variable ranges over (a subset of) these code
# points.  ASCII plus representatives of the unicode classes the code can
# distinguish (unicode space, line separators, non-ASCII digit, letters).
ALPHABET = ([0, 9, 10, 11, 12, 13, 28, 31] + list(range(32, 127)) +
            [0x85, 0xA0, 0xB2, 0xC9, 0xE9, 0x416, 0x436, 0x661, 0x2028, 0x3042, 0x1F600])
ALPHABET = sorted(ALPHABET)
INDEX = {c: i for i, c in enumerate(ALPHABET)}
NALPHA = len(ALPHABET)
FULL = (1 << NALPHA) - 1


def mask_chars(s):
    m = 0
    for c in s:
        i = INDEX.get(ord(c) if isinstance(c, str) else c)
        if i is not None:
            m |= 1 << i
    return m


def mask_pred(p):
    m = 0
    for i, c in enumerate(ALPHABET):
        if p(chr(c)):
            m |= 1 << i
    return m


def mask_codes(mask):
    out = []
    i = 0
    while mask:
        if mask & 1:
            out.append(ALPHABET[i])
        mask >>= 1
        i += 1
    return out


class Control(BaseException):
    """Base of the engine's own control exceptions (never a code-under-test error)."""


class Infeasible(Control):
    """Current path contradicts an assumption."""


class PathAbort(Control):
    """Path cannot be continued symbolically (unsupported operation, limits)."""
    def __init__(self, why):
        Control.__init__(self, why)
        self.why = why


class Violation(Control):
    def __init__(self, label, model):
        Control.__init__(self, label)
        self.label = label
        self.model = model


# --------------------------------------------------------------------------
# Variables
class Var(object):
    __slots__ = ("name", "kind", "lo", "hi", "z", "idx", "dom0")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, name, kind, idx, lo=None, hi=None, dom0=FULL):
        self.name = name
        self.kind = kind            # 'c' (character) or 'i' (integer)
        self.idx = idx
        self.lo = lo
        self.hi = hi
        self.dom0 = dom0
        self.z = z3.Int(name)


_mask_z_cache = {}


def _ranges(mask):
    codes = mask_codes(mask)
    out = []
    for c in codes:
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


def mask_z3(z, mask):
    key = (z.get_id(), mask)
    r = _mask_z_cache.get(key)
    if r is not None:
        return r[0]
    rs = _ranges(mask)
    if not rs:
        e = z3.BoolVal(False)
    else:
        parts = [z == a if a == b else z3.And(z >= a, z <= b) for a, b in rs]
        e = parts[0] if len(parts) == 1 else z3.Or(parts)
    if len(_mask_z_cache) > 20000:
        _mask_z_cache.clear()
    _mask_z_cache[key] = (e, z)
    return e


# --------------------------------------------------------------------------
# Character terms: int (concrete code point) or Ch(var, table)
class Ch(object):
    __slots__ = ("var", "tab")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, var, tab=None):
        self.var = var
        self.tab = tab              # None = identity, else tuple over ALPHABET index

    def z3(self):
        z = self.var.z
        if self.tab is None:
            return z
        groups = {}
        for i, c in enumerate(ALPHABET):
            groups.setdefault(self.tab[i] - c, 0)
            groups[self.tab[i] - c] |= 1 << i
        e = z
        for d, m in sorted(groups.items()):
            if d:
                e = z3.If(mask_z3(z, m), z + d, e)
        return e

    def ev(self, model):
        v = model[self.var]
        return v if self.tab is None else self.tab[INDEX[v]]


_tab_mask_cache = {}


def ch_mask(ch, codes_mask_key, pred):
    """Mask of variable values for which pred(code of the term) holds."""
    key = (codes_mask_key, ch.tab)
    m = _tab_mask_cache.get(key)
    if m is None:
        m = 0
        for i, c in enumerate(ALPHABET):
            if pred(c if ch.tab is None else ch.tab[i]):
                m |= 1 << i
        _tab_mask_cache[key] = m
    return m


def ch_eq_mask(ch, code):
    if ch.tab is None:
        i = INDEX.get(code)
        return 0 if i is None else 1 << i
    return ch_mask(ch, ("eq", code), lambda x: x == code)


# --------------------------------------------------------------------------
# Formulas
class F(object):
    __slots__ = ()


class TrueF(F):
    __slots__ = ()
    vars = frozenset()

    def ev(self, model):
        return True

    def z3(self):
        return z3.BoolVal(True)


class FalseF(F):
    __slots__ = ()
    vars = frozenset()

    def ev(self, model):
        return False

    def z3(self):
        return z3.BoolVal(False)


TRUE = TrueF()
FALSE = FalseF()


class Lit(F):
    __slots__ = ("var", "mask")

    def __init__(self, var, mask):
        self.var = var
        self.mask = mask

    @property
    def vars(self):
        return frozenset((self.var,))

    def ev(self, model):
        return bool(self.mask >> INDEX[model[self.var]] & 1)

    def z3(self):
        return mask_z3(self.var.z, self.mask)


class Rel(F):
    """Comparison of two terms; op in '==', '<', '<='."""
    __slots__ = ("op", "a", "b", "vars")

    def __init__(self, op, a, b):
        self.op = op
        self.a = a
        self.b = b
        vs = set()
        for t in (a, b):
            if isinstance(t, Ch):
                vs.add(t.var)
            elif isinstance(t, IntTerm):
                vs |= t.vars
        self.vars = frozenset(vs)

    def ev(self, model):
        a = self.a if isinstance(self.a, int) else self.a.ev(model)
        b = self.b if isinstance(self.b, int) else self.b.ev(model)
        return a == b if self.op == "==" else a < b if self.op == "<" else a <= b

    def z3(self):
        a = self.a if isinstance(self.a, int) else self.a.z3()
        b = self.b if isinstance(self.b, int) else self.b.z3()
        if isinstance(a, int):
            a = z3.IntVal(a)
        return a == b if self.op == "==" else a < b if self.op == "<" else a <= b


class NotF(F):
    __slots__ = ("x", "vars")

    def __init__(self, x):
        self.x = x
        self.vars = x.vars

    def ev(self, model):
        return not self.x.ev(model)

    def z3(self):
        return z3.Not(self.x.z3())


class NaryF(F):
    __slots__ = ("xs", "vars")

    def __init__(self, xs):
        self.xs = xs
        vs = set()
        for x in xs:
            vs |= x.vars
        self.vars = frozenset(vs)


class AndF(NaryF):
    __slots__ = ()

    def ev(self, model):
        return all(x.ev(model) for x in self.xs)

    def z3(self):
        return z3.And([x.z3() for x in self.xs])


class OrF(NaryF):
    __slots__ = ()

    def ev(self, model):
        return any(x.ev(model) for x in self.xs)

    def z3(self):
        return z3.Or([x.z3() for x in self.xs])


def f_and(xs):
    out = []
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if isinstance(x, AndF):
            out.extend(x.xs)
        else:
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else AndF(out)


def f_or(xs):
    out = []
    for x in xs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if isinstance(x, OrF):
            out.extend(x.xs)
        else:
            out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else OrF(out)


def f_not(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if isinstance(x, NotF):
        return x.x
    if isinstance(x, Lit):
        return Lit(x.var, FULL & ~x.mask)
    if isinstance(x, OrF):
        return f_and([f_not(y) for y in x.xs])
    if isinstance(x, AndF):
        return f_or([f_not(y) for y in x.xs])
    return NotF(x)


def f_lit(ch, mask):
    """Membership of a character term's variable in mask."""
    m = mask & FULL
    if m == FULL:
        return TRUE
    if m == 0:
        return FALSE
    return Lit(ch.var, m)


def ch_eq(a, b):
    """Equality formula of two character terms."""
    if isinstance(a, int):
        if isinstance(b, int):
            return TRUE if a == b else FALSE
        return f_lit(b, ch_eq_mask(b, a))
    if isinstance(b, int):
        return f_lit(a, ch_eq_mask(a, b))
    if a.var is b.var:
        if a.tab == b.tab:
            return TRUE
        m = 0
        for i, c in enumerate(ALPHABET):
            if (c if a.tab is None else a.tab[i]) == (c if b.tab is None else b.tab[i]):
                m |= 1 << i
        return f_lit(a, m)
    return Rel("==", a, b)


def ch_lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return TRUE if a < b else FALSE
    if isinstance(a, int):
        return f_lit(b, ch_mask(b, ("gt", a), lambda x: x > a))
    if isinstance(b, int):
        return f_lit(a, ch_mask(a, ("lt", b), lambda x: x < b))
    return Rel("<", a, b)


# --------------------------------------------------------------------------
# Integer terms
class IntTerm(object):
    __slots__ = ("vars",)


class IVar(IntTerm):
    __slots__ = ("var",)

    def __init__(self, var):
        self.var = var
        self.vars = frozenset((var,))

    def z3(self):
        return self.var.z

    def ev(self, model):
        return model[self.var]


class IChDigit(IntTerm):
    """Decimal value of a character term known to be a digit."""
    __slots__ = ("ch",)

    def __init__(self, ch):
        self.ch = ch
        self.vars = frozenset((ch.var,))

    def z3(self):
        z = self.ch.z3()
        # U+0661 is the only non-ASCII digit of the alphabet (value 1)
        return z3.If(z == 0x661, z3.IntVal(1), z - 48)

    def ev(self, model):
        c = self.ch.ev(model)
        return 1 if c == 0x661 else c - 48


class ILin(IntTerm):
    __slots__ = ("const", "terms")

    def __init__(self, const, terms):
        self.const = const
        self.terms = terms          # list of (coef, IntTerm)
        vs = set()
        for _c, t in terms:
            vs |= t.vars
        self.vars = frozenset(vs)

    def z3(self):
        e = z3.IntVal(self.const)
        for c, t in self.terms:
            e = e + c * t.z3()
        return e

    def ev(self, model):
        return self.const + sum(c * t.ev(model) for c, t in self.terms)


class IOp(IntTerm):
    __slots__ = ("op", "a", "b")

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b
        vs = set()
        for t in (a, b):
            if isinstance(t, IntTerm):
                vs |= t.vars
        self.vars = frozenset(vs)

    def z3(self):
        a = self.a if isinstance(self.a, int) else self.a.z3()
        b = self.b if isinstance(self.b, int) else self.b.z3()
        if self.op == "*":
            return a * b
        if self.op == "//":         # divisor is a positive constant
            return (z3.IntVal(a) if isinstance(a, int) else a) / b
        if self.op == "%":
            return (z3.IntVal(a) if isinstance(a, int) else a) % b
        raise PathAbort("int op " + self.op)

    def ev(self, model):
        a = self.a if isinstance(self.a, int) else self.a.ev(model)
        b = self.b if isinstance(self.b, int) else self.b.ev(model)
        return a * b if self.op == "*" else a // b if self.op == "//" else a % b


# --------------------------------------------------------------------------
class Stats(object):
    FIELDS = ("paths", "infeasible", "aborted", "branches", "obligations", "folded", "queries",
              "unsat", "sat", "unknown", "solver_s", "concretised", "covers")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.aborts = {}
        self.exhausted = True
        self.labels = {}
        self.cover_labels = {}

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        for k, v in o.aborts.items():
            self.aborts[k] = self.aborts.get(k, 0) + v
        for k, v in o.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        for k, v in o.cover_labels.items():
            self.cover_labels[k] = self.cover_labels.get(k, 0) + v
        self.exhausted = self.exhausted and o.exhausted


class Engine(object):
    """Per-process symbolic execution engine (one active path at a time)."""

    def __init__(self):
        self.active = False
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.stats = Stats()
        self.hashed = False
        self.reset_path([])

    # -- path management ---------------------------------------------------
    def reset_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []             # decisions taken: (choice, n_alternatives_left)
        self.alts = []              # new prefixes discovered on this path
        self.vars = []
        self.by_name = {}
        self.dom = {}
        self.rels = []              # relational constraints (formulas)
        self.relvars = set()
        self.model = {}
        self.inputs = []            # (name, kind, payload) in creation order
        self.hashed = False
        self.concretised_here = []
        self.branch_count = 0
        self.fresh = 0
        self.dirty = False

    def new_char(self, name, mask):
        v = self.by_name.get(name)
        if v is not None:
            return v
        v = Var(name, "c", len(self.vars), dom0=mask)
        self.vars.append(v)
        self.by_name[name] = v
        self.dom[v] = mask
        self.model[v] = self._pick(mask)
        return v

    def new_int(self, name, lo, hi):
        v = Var(name, "i", len(self.vars), lo, hi)
        self.vars.append(v)
        self.by_name[name] = v
        self.model[v] = lo if lo is not None else 0
        return v

    @staticmethod
    def _pick(mask):
        # prefer a lower-case letter, else the lowest allowed character
        for pref in _PREF:
            if mask & pref:
                mask &= pref
                break
        return ALPHABET[(mask & -mask).bit_length() - 1]

    # -- feasibility -------------------------------------------------------
    def _component(self, seed):
        comp = set(seed)
        rels = []
        left = list(self.rels)
        changed = True
        while changed:
            changed = False
            rest = []
            for r in left:
                if r.vars & comp:
                    rels.append(r)
                    comp |= r.vars
                    changed = True
                else:
                    rest.append(r)
            left = rest
        return comp, rels

    def _var_z3(self, v):
        if v.kind == "c":
            return mask_z3(v.z, self.dom[v])
        cs = []
        if v.lo is not None:
            cs.append(v.z >= v.lo)
        if v.hi is not None:
            cs.append(v.z <= v.hi)
        return z3.And(cs) if cs else z3.BoolVal(True)

    def _query(self, comp, fs):
        """Solve domain(comp) and fs; returns dict model or None; raises on unknown."""
        s = self.solver
        t = time.time()
        s.push()
        try:
            for v in comp:
                s.add(self._var_z3(v))
            for f in fs:
                s.add(f.z3())
            r = s.check()
            self.stats.queries += 1
            if r == z3.unsat:
                self.stats.unsat += 1
                return None
            if r != z3.sat:
                self.stats.unknown += 1
                raise PathAbort("solver unknown")
            self.stats.sat += 1
            m = s.model()
            out = {}
            for v in comp:
                x = m.eval(v.z, model_completion=True)
                out[v] = x.as_long()
            return out
        finally:
            s.pop()
            self.stats.solver_s += time.time() - t

    def _quick_lits(self, f):
        """Return list of Lit for a conjunction of literals, else None."""
        if isinstance(f, Lit):
            return [f]
        if isinstance(f, AndF) and all(isinstance(x, Lit) for x in f.xs):
            return f.xs
        return None

    def find_model(self, f):
        """A model (partial dict over f's component) of path condition and f, or None."""
        if f is FALSE:
            return None
        lits = self._quick_lits(f)
        if lits is not None:
            dom = {}
            for l in lits:
                d = dom.get(l.var, self.dom[l.var]) & l.mask
                if not d:
                    return None
                dom[l.var] = d
            if not any(v in self.relvars for v in dom):
                return {v: self._pick(d) for v, d in dom.items()}
        elif isinstance(f, OrF):
            for l in f.xs:
                if isinstance(l, Lit) and l.var not in self.relvars and self.dom[l.var] & l.mask:
                    return {l.var: self._pick(self.dom[l.var] & l.mask)}
        comp, rels = self._component(f.vars)
        return self._query(comp, rels + [f])

    def assert_f(self, f):
        """Add f to the path condition (the current model must satisfy it afterwards)."""
        if f is TRUE:
            return
        lits = self._quick_lits(f)
        if lits is not None:
            for l in lits:
                self.dom[l.var] &= l.mask
            return
        if isinstance(f, AndF):
            for x in f.xs:
                self.assert_f(x)
            return
        self.rels.append(f)
        self.relvars |= f.vars

    def simplify(self, f):
        """Fold literals already decided by the current domains."""
        if isinstance(f, Lit):
            d = self.dom[f.var]
            if not d & ~f.mask:
                return TRUE
            if not d & f.mask:
                return FALSE
            return f
        if isinstance(f, AndF):
            return f_and([self.simplify(x) for x in f.xs])
        if isinstance(f, OrF):
            return f_or([self.simplify(x) for x in f.xs])
        if isinstance(f, NotF):
            return f_not(self.simplify(f.x))
        return f

    def branch(self, f):
        # decided by the domains alone?
        f = self.simplify(f)
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        self.branch_count += 1
        if self.branch_count > self.max_branches:
            raise PathAbort("branch limit")
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            side = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(side)
            if side >= 2:               # forced: the other side is infeasible
                return side == 3
            g = f if side else f_not(f)
            self.assert_f(g)
            if not self.dirty and not g.ev(self.model):
                self.dirty = True
            return bool(side)
        if self.dirty:
            self.repair()
        nf = f_not(f)
        cur = f.ev(self.model)
        other = self.find_model(nf if cur else f)
        self.pos += 1
        if other is None:
            self.trace.append(3 if cur else 2)
            return bool(cur)
        self.alts.append(self.trace + [0 if cur else 1])
        self.trace.append(1 if cur else 0)
        self.assert_f(f if cur else nf)
        return bool(cur)

    def repair(self):
        """Re-establish a model of the whole path condition."""
        self.dirty = False
        done = set()
        for v in self.vars:
            if v in done:
                continue
            if v in self.relvars:
                comp, rels = self._component((v,))
                done |= comp
                if all(r.ev(self.model) for r in rels) and \
                        all(x.kind != "c" or self.dom[x] >> INDEX[self.model[x]] & 1 for x in comp):
                    continue
                m = self._query(comp, rels)
                if m is None:
                    raise Infeasible()
                self.model.update(m)
            elif v.kind == "c":
                d = self.dom[v]
                if not d:
                    raise Infeasible()
                if not d >> INDEX[self.model[v]] & 1:
                    self.model[v] = self._pick(d)

    def choose(self, n):
        """Fork over n alternatives (harness-level finite choice)."""
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(c)
            return c
        self.pos += 1
        for k in range(n - 1, 0, -1):
            self.alts.append(self.trace + [k])
        self.trace.append(0)
        return 0

    def assume(self, f):
        if f is TRUE:
            return
        if f is FALSE:
            raise Infeasible()
        self.assert_f(f)
        if not self.dirty and f.ev(self.model):
            return
        self.repair()

    def check(self, f, label):
        """Obligation: path condition implies f, decided by z3."""
        self.stats.obligations += 1
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        if f is TRUE:
            self.stats.folded += 1
            return
        if self.dirty:
            self.repair()
        if f is FALSE:
            raise Violation(label, dict(self.model))
        nf = NotF(f)
        comp, rels = self._component(f.vars)
        m = self._query(comp, rels + [nf])
        if m is not None:
            full = dict(self.model)
            full.update(m)
            raise Violation(label, full)

    max_branches = 4000


_PREF = [mask_chars("abcdefghijklmnopqrstuvwxyz"), mask_chars("0123456789"), mask_chars("_"), FULL]

ENG = Engine()
