"""Run-time hooks called by the instrumented code.

Each hook behaves exactly like the Python operation it replaces unless a
symbolic value is involved.
"""
import builtins
import io
import os
import re
import sys
import types
import warnings
from .core import ENG, Control, PathAbort, TRUE, FALSE, f_or, f_and, f_not, Rel
from .values import (SymStr, SymInt, SymBool, SymBytes, RealisedStr, is_sym, chars_of, _norm, truth, eq_f,
                     to_f, simp_bool, parse_int, digits_of_int, concretise_int, concretise_str, pred_f, in_set_f)
from . import regex

FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinType = types.BuiltinFunctionType
_SYMT = (SymStr, SymInt, SymBool, SymBytes)
_SYMSET = frozenset(_SYMT)
Pattern = re.Pattern
BuiltinMethodType = type(re.compile('').search)


def any_sym(a, k=None):
    for x in a:
        if type(x) in _SYMSET:
            return True
    if k:
        for x in k.values():
            if type(x) in _SYMSET:
                return True
    return False


def deep_sym(x, depth=2):
    t = type(x)
    if t in _SYMSET:
        return True
    if depth and t in (list, tuple):
        return any(deep_sym(y, depth - 1) for y in x)
    if depth and t is dict:
        return any(deep_sym(y, depth - 1) for y in x.values())
    return False


# -- text conversion ---------------------------------------------------------
def to_text(x):
    """str(x) keeping symbolic characters."""
    t = type(x)
    if t is str:
        return x
    if t is SymStr:
        return x
    if t is SymInt:
        return digits_of_int(x)
    if t is SymBool:
        return "True" if x else "False"
    if t in (int, bool, float, type(None)):
        return str(x)
    if t is SymBytes:
        raise PathAbort("str(bytes)")
    if isinstance(x, RealisedStr):
        return x.sym if x.sym is not None else str.__str__(x)
    if isinstance(x, str):
        return str(x)
    if t in (list, tuple, dict, set):
        return to_repr(x)
    # Python-level __str__ (may return a SymStr)
    m = getattr(t, "__str__", None)
    if isinstance(m, FunctionType):
        r = m(x)
        if isinstance(r, (str, SymStr)):
            return r
        if isinstance(r, tuple):
            raise TypeError("__str__ returned non-string (type tuple)")
        raise TypeError("__str__ returned non-string (type %s)" % type(r).__name__)
    if isinstance(x, BaseException):
        a = x.args
        if len(a) == 0:
            return str(x)
        if len(a) == 1:
            return to_text(a[0])
        if deep_sym(a):
            return to_repr(a)
        return str(x)
    m = getattr(t, "__repr__", None)
    if isinstance(m, FunctionType):
        return m(x)
    return str(x)


def to_repr(x):
    t = type(x)
    if t is SymStr:
        # repr of plain printable characters; anything needing escapes aborts
        q = "'"
        hasq = truth(x.contains_f("'"))
        if hasq and not truth(x.contains_f('"')):
            q = '"'
        out = q
        for c in x.c:
            if type(c) is int:
                ch = chr(c)
                out = out + (("\\" + ch) if ch == q or ch == "\\" else repr(ch)[1:-1] if ch not in "'\"" else ch)
            else:
                if truth(pred_f(c, "plainrepr", lambda z: z.isprintable() and z not in "\\'\"")):
                    out = out + _norm((c,))
                else:
                    ch = concretise_str(SymStr((c,)))
                    out = out + (("\\" + ch) if ch == q or ch == "\\" else repr(ch)[1:-1] if ch not in "'\"" else ch)
        return out + q
    if t in (SymInt, SymBool):
        return to_text(x)
    if t is list and deep_sym(x):
        return "[" + sx_join(", ", [to_repr(y) for y in x]) + "]"
    if t is tuple and deep_sym(x):
        return "(" + sx_join(", ", [to_repr(y) for y in x]) + (",)" if len(x) == 1 else ")")
    if t is dict and deep_sym(x):
        return "{" + sx_join(", ", [to_repr(k) + ": " + to_repr(v) for k, v in x.items()]) + "}"
    if isinstance(x, SxSet):
        if not len(x):
            return "set()"
        return "{" + sx_join(", ", [to_repr(y) for y in x]) + "}"
    return repr(x)


def sx_join(sep, it):
    it = list(it)
    out = []
    sc = chars_of(sep)
    for i, x in enumerate(it):
        if not isinstance(x, (str, SymStr)):
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__))
        if i:
            out.extend(sc)
        out.extend(chars_of(x))
    return _norm(out)


_FMT = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[-#0 +]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\d+))?[hlL]?(?P<conv>.)", re.S)


_BASIC = frozenset((str, int, bool, float, type(None)))


def _basic(b):
    t = type(b)
    if t in _BASIC:
        return True
    if t is tuple:
        return all(type(x) in _BASIC for x in b)
    if t is dict:
        return all(type(x) in _BASIC for x in b.values())
    return False


def sx_mod(a, b):
    """a % b"""
    if not ENG.active or not isinstance(a, (str, SymStr)):
        return a % b
    if type(a) is str and _basic(b):
        return a % b
    if type(a) is SymStr:
        if truth(a.contains_f("%")):
            raise PathAbort("symbolic format string")
        if isinstance(b, tuple) and len(b) == 0 or isinstance(b, dict):
            return a
        raise TypeError("not all arguments converted during string formatting")
    out = []
    pos = 0
    args = b if isinstance(b, tuple) else (b,)
    ai = 0
    is_map = not isinstance(b, (tuple, str, SymStr)) and hasattr(b, "__getitem__")
    used_key = False
    sym = False
    parts = []
    for m in _FMT.finditer(a):
        if m.start() < pos:
            continue
        # raw '%' that does not start a match cannot occur: finditer scans all
        parts.append(a[pos:m.start()])
        pos = m.end()
        conv = m.group("conv")
        if conv == "%":
            parts.append("%")
            continue
        if m.group("key") is not None:
            if not is_map:
                raise TypeError("format requires a mapping")
            v = b[m.group("key")]
            used_key = True
        else:
            if ai >= len(args):
                raise TypeError("not enough arguments for format string")
            v = args[ai]
            ai += 1
        spec = "%" + m.group("flags") + (m.group("width") or "") + \
            ("." + m.group("prec") if m.group("prec") is not None else "")
        plain = spec == "%"
        if m.group("width") == "*":
            raise PathAbort("format width *")
        if conv in "sr":
            t = to_text(v) if conv == "s" else to_repr(v)
            if isinstance(t, SymStr):
                if m.group("prec") is not None:
                    t = t[:int(m.group("prec"))]
                if m.group("width"):
                    w = int(m.group("width"))
                    t = t.ljust(w) if "-" in m.group("flags") else t.rjust(w)
                parts.append(t)
            else:
                parts.append((spec + "s") % (t,))
        elif conv in "diu":
            if type(v) in (SymInt, SymBool):
                if type(v) is SymBool:
                    v = int(bool(v))
                    parts.append((spec + "d") % (v,))
                elif plain:
                    parts.append(digits_of_int(v))
                else:
                    t = digits_of_int(v)
                    w = int(m.group("width") or 0)
                    if "-" in m.group("flags"):
                        t = t + " " * max(0, w - len(t))
                    elif "0" in m.group("flags"):
                        if not isinstance(t, str) and truth(Rel("<", v.t, 0)):
                            raise PathAbort("zero-padded negative")
                        t = "0" * max(0, w - len(t)) + t
                    else:
                        t = " " * max(0, w - len(t)) + t
                    parts.append(t)
            else:
                if type(v) is SymStr:
                    raise TypeError("%%%s format: a real number is required, not str" % conv)
                parts.append((spec + conv) % (v,))
        else:
            if is_sym(v):
                raise PathAbort("format %" + conv)
            parts.append((spec + conv) % (v,))
    rest = a[pos:]
    if "%" in rest:
        return a % b            # malformed format: real error
    parts.append(rest)
    if not used_key and ai < len(args) and not (is_map and not isinstance(b, tuple)):
        raise TypeError("not all arguments converted during string formatting")
    return sx_join("", parts)


def sx_format_value(v, conv, spec):
    if conv in ("s", ord("s")):
        v = to_text(v)
    elif conv in ("r", ord("r")):
        v = to_repr(v)
    if isinstance(spec, SymStr):
        raise PathAbort("symbolic format spec")
    if spec == "" or spec is None:
        return to_text(v)
    if is_sym(v):
        m = re.match(r"^(.?[<>])?(\d*)(s?)$", spec)
        if isinstance(v, SymStr) and m:
            w = int(m.group(2) or 0)
            return v.rjust(w) if m.group(1) and m.group(1)[-1] == ">" else v.ljust(w)
        if isinstance(v, SymInt) and spec == "d":
            return digits_of_int(v)
        raise PathAbort("format spec " + spec)
    return format(v, spec)


def sx_fstr(*parts):
    """f-string: parts are str or (value, conversion, spec)."""
    return sx_join("", [p if isinstance(p, (str, SymStr)) else sx_format_value(*p) for p in parts])


def sx_format(fmt, /, *a, **k):
    if isinstance(fmt, SymStr):
        raise PathAbort("symbolic format string")
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        m = re.match(r"^(\d*|[A-Za-z_]\w*)((?:\.\w+|\[\w+\])*)$", field)
        if not m:
            raise PathAbort("format field " + field)
        name, rest = m.groups()
        if name == "":
            v = a[auto]
            auto += 1
        elif name.isdigit():
            v = a[int(name)]
        else:
            v = k[name]
        for acc in re.findall(r"\.\w+|\[\w+\]", rest):
            if acc[0] == ".":
                v = getattr(v, acc[1:])
            else:
                key = acc[1:-1]
                v = v[int(key) if key.isdigit() else key]
        out.append(sx_format_value(v, conv, spec or ""))
    return sx_join("", out)


# -- containers --------------------------------------------------------------
def _find_key(d, key):
    """Existing key of mapping/set d equal to key (forking), or None wrapped."""
    for k in list(d):
        if k is key:
            return (k,)
    kt = type(key)
    for k in list(d):
        tk = type(k)
        if kt is SymStr and (tk is str or tk is SymStr) or tk is SymStr and isinstance(key, str):
            if len(k) == len(key) and truth(eq_f(k, key)):
                return (k,)
        elif kt is SymInt and isinstance(k, (int, SymInt)) or tk is SymInt and isinstance(key, int):
            if bool(k == key):
                return (k,)
        elif kt not in _SYMSET and tk not in _SYMSET:
            if k == key:
                return (k,)
        elif kt is SymBool or tk is SymBool:
            if bool(k == key):
                return (k,)
        elif kt is tuple or tk is tuple:
            if k == key:
                return (k,)
    return None


def _needs_scan(d, key):
    t = type(key)
    if t in _SYMSET:
        return True
    if t is tuple and deep_sym(key):
        return True
    if ENG.hashed:
        for k in d:
            if type(k) in _SYMSET:
                return True
    return False


_codesets = {}


def _codeset(b):
    r = _codesets.get(b)
    if r is None:
        r = _codesets[b] = frozenset(map(ord, b))
    return r


def sx_in(a, b):
    if not ENG.active:
        return a in b
    t = type(b)
    if t is str:
        if type(a) is SymStr:
            if len(a) == 1:
                return truth(in_set_f(a.c[0], _codeset(b)))
            return truth(SymStr(chars_of(b)).contains_f(a))
        return a in b
    if isinstance(b, (dict, frozenset)) or t is set or t is type({}.keys()):
        if _needs_scan(b, a):
            return _find_key(b, a) is not None
        return a in b
    if t in (list, tuple) and type(a) is SymStr:
        # membership as one disjunction: a single fork
        fs = []
        for x in b:
            if x is a:
                return True
            if isinstance(x, (str, SymStr)):
                fs.append(eq_f(a, x))
        return truth(f_or(fs))
    return a in b


def sx_in_lazy(a, b):
    """Membership without a fork where it is one formula."""
    if ENG.active and type(a) is SymStr:
        t = type(b)
        if t is str:
            if len(a) == 1:
                return mkbool(in_set_f(a.c[0], _codeset(b)))
            return mkbool(SymStr(chars_of(b)).contains_f(a))
        if t in (list, tuple):
            fs = []
            for x in b:
                if x is a:
                    return True
                if isinstance(x, (str, SymStr)):
                    fs.append(eq_f(a, x))
            return mkbool(f_or(fs))
    return sx_in(a, b)


def sx_notin_lazy(a, b):
    r = sx_in_lazy(a, b)
    return mkbool(f_not(r.f)) if type(r) is SymBool else not r


def mkbool(f):
    return True if f is TRUE else False if f is FALSE else SymBool(f)


def sx_or(*fs):
    return _junct(fs, True)


def sx_and(*fs):
    return _junct(fs, False)


def _junct(fs, stop):
    """Short-circuit connective over side-effect free conditions, decided as one formula."""
    acc = []
    for fn in fs:
        try:
            r = fn()
        except Exception:
            if not acc:
                raise
            g = f_or(acc) if stop else f_and(acc)
            if truth(g) is stop:
                return stop
            raise
        if type(r) is SymBool:
            acc.append(r.f)
        elif bool(r) is stop:
            if stop:
                return True
            return False
    if not acc:
        return not stop
    return mkbool(f_or(acc) if stop else f_and(acc))


def sx_notin(a, b):
    return not sx_in(a, b)


def sx_getitem(o, i):
    if not ENG.active:
        return o[i]
    if isinstance(o, dict):
        if _needs_scan(o, i):
            k = _find_key(o, i)
            if k is None:
                if hasattr(type(o), "__missing__"):
                    return type(o).__missing__(o, i)
                raise KeyError(i)
            return o[k[0]]
        return o[i]
    if type(i) is SymInt and isinstance(o, (str, list, tuple)):
        i = concretise_int(i)
    return o[i]


def sx_setitem(o, i, v):
    if ENG.active and isinstance(o, dict) and _needs_scan(o, i):
        k = _find_key(o, i)
        o[k[0] if k else i] = v
        return
    if type(i) is SymInt and isinstance(o, list):
        i = concretise_int(i)
    o[i] = v


def sx_delitem(o, i):
    if ENG.active and isinstance(o, dict) and _needs_scan(o, i):
        k = _find_key(o, i)
        if k is None:
            raise KeyError(i)
        del o[k[0]]
        return
    del o[i]


class SxSet(set):
    """List-backed set whose membership is decided by (forking) equality."""
    def __init__(self, it=()):
        set.__init__(self)
        self._l = []
        for x in it:
            self.add(x)

    def __contains__(self, x):
        return sx_in_list(x, self._l)

    def __iter__(self):
        return iter(list(self._l))

    def __len__(self):
        return len(self._l)

    def __bool__(self):
        return bool(self._l)

    def add(self, x):
        try:
            hash(x)
        except TypeError:
            raise
        if not sx_in_list(x, self._l):
            self._l.append(x)

    def _idx(self, x):
        for i, y in enumerate(self._l):
            if y is x or bool(y == x):
                return i
        return -1

    def discard(self, x):
        i = self._idx(x)
        if i >= 0:
            del self._l[i]

    def remove(self, x):
        i = self._idx(x)
        if i < 0:
            raise KeyError(x)
        del self._l[i]

    def pop(self):
        if not self._l:
            raise KeyError("pop from an empty set")
        return self._l.pop(0)

    def clear(self):
        self._l = []

    def copy(self):
        s = SxSet()
        s._l = list(self._l)
        return s

    def update(self, *its):
        for it in its:
            for x in list(it):
                self.add(x)

    def union(self, *its):
        s = self.copy()
        s.update(*its)
        return s

    def difference(self, *its):
        s = SxSet()
        ls = [list(i) for i in its]
        s._l = [x for x in self._l if not any(sx_in_list(x, l) for l in ls)]
        return s

    def intersection(self, *its):
        s = SxSet()
        ls = [list(i) for i in its]
        s._l = [x for x in self._l if all(sx_in_list(x, l) for l in ls)]
        return s

    def symmetric_difference(self, o):
        return self.difference(o).union(SxSet(o).difference(self))

    def difference_update(self, *its):
        self._l = self.difference(*its)._l

    def intersection_update(self, *its):
        self._l = self.intersection(*its)._l

    def symmetric_difference_update(self, o):
        self._l = self.symmetric_difference(o)._l

    def issubset(self, o):
        o = list(o)
        return all(sx_in_list(x, o) for x in self._l)

    def issuperset(self, o):
        return all(sx_in_list(x, self._l) for x in o)

    def isdisjoint(self, o):
        return not any(sx_in_list(x, self._l) for x in o)

    def __or__(self, o):
        return self.union(o) if isinstance(o, (set, frozenset)) else NotImplemented
    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o) if isinstance(o, (set, frozenset)) else NotImplemented
    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o) if isinstance(o, (set, frozenset)) else NotImplemented

    def __rsub__(self, o):
        return SxSet(o).difference(self) if isinstance(o, (set, frozenset)) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if isinstance(o, (set, frozenset)) else NotImplemented
    __rxor__ = __xor__

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self._l = self.intersection(o)._l
        return self

    def __isub__(self, o):
        self._l = self.difference(o)._l
        return self

    def __ixor__(self, o):
        self._l = self.symmetric_difference(o)._l
        return self

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o):
        return self.issubset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    __hash__ = None

    def __repr__(self):
        return "{%s}" % ", ".join(repr(x) for x in self._l)


def sx_in_list(x, l):
    if type(x) is SymStr or ENG.hashed:
        return sx_in(x, l)
    return x in l


def sx_set(items):
    if ENG.active:
        return SxSet(items)
    return set(items)


class SymIO(object):
    """io.StringIO over symbolic text."""
    def __init__(self, text=""):
        self.t = text
        self.pos = 0

    def read(self, n=-1):
        if n is None or n < 0:
            r = self.t[self.pos:]
            self.pos = len(self.t)
        else:
            r = self.t[self.pos:self.pos + n]
            self.pos += len(r)
        return r

    def readline(self):
        rest = self.t[self.pos:]
        i = rest.find("\n")
        r = rest if i < 0 else rest[:i + 1]
        self.pos += len(r)
        return r

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def write(self, s):
        self.t = self.t[:self.pos] + s + self.t[self.pos + len(s):]
        self.pos += len(s)
        return len(s)

    def getvalue(self):
        return self.t

    def seek(self, p, whence=0):
        self.pos = p

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# -- calls -------------------------------------------------------------------
def _isinstance(x, cls):
    t = type(x)
    if t in _SYMSET:
        base = str if t is SymStr else int if t is SymInt else bytes if t is SymBytes else bool
        cl = cls if isinstance(cls, tuple) else (cls,)
        for c in cl:
            if isinstance(c, tuple):
                if _isinstance(x, c):
                    return True
            elif isinstance(c, type) and issubclass(base, c):
                return True
            elif c is t:
                return True
        return False
    return isinstance(x, cls)


def _type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t in _SYMSET:
            return str if t is SymStr else int if t is SymInt else bytes if t is SymBytes else bool
        if t is SxSet:
            return set
    return type(*a)


def _int(*a, **k):
    if a and type(a[0]) is SymStr:
        return parse_int(a[0], *a[1:], **k)
    if a and type(a[0]) is SymInt:
        return a[0]
    if a and type(a[0]) is SymBool:
        return int(bool(a[0]))
    return int(*a, **k)


def _str(*a, **k):
    if len(a) == 1 and not k:
        return to_text(a[0])
    if a and type(a[0]) is SymBytes:
        return a[0].decode(*a[1:], **k)
    return str(*a, **k)


def _repr(x):
    return to_repr(x)


def _bool(*a):
    return bool(*a)


def _print(*a, **k):
    f = k.get("file")
    sep = k.get("sep") or " "
    end = k.get("end")
    end = "\n" if end is None else end
    txt = sx_join(sep, [to_text(x) for x in a]) + end
    if f is None:
        f = sys.stdout
    if isinstance(txt, SymStr) and not isinstance(f, SymIO) and not getattr(f, "_sx_ok", False):
        txt = str(txt)
    f.write(txt)


def _plain(x):
    """Display-only text for C code."""
    if type(x) is SymStr:
        return str(x)
    return x


def _warn(*a, **k):
    a = tuple(_plain(x) for x in a)
    if "stacklevel" in k or len(a) > 2:
        k.pop("stacklevel", None)
        a = a[:2]
    if a and not isinstance(a[0], Warning):
        cat = a[1] if len(a) > 1 else k.pop("category", None) or UserWarning
        warnings.warn(cat(a[0]), **{x: v for x, v in k.items() if x != "category"})
        return
    warnings.warn(*a, **k)


def _getattr(o, n, *d):
    if type(n) is SymStr:
        n = concretise_str(n)
    return getattr(o, n, *d)


def _hasattr(o, n):
    if type(n) is SymStr:
        n = concretise_str(n)
    if type(o) is SymStr:
        return hasattr("", n)
    return hasattr(o, n)


def _setattr(o, n, v):
    if type(n) is SymStr:
        n = concretise_str(n)
    return setattr(o, n, v)


def _ord(c):
    if type(c) is SymStr:
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        from .core import IntTerm

        class _T(IntTerm):
            __slots__ = ("ch",)

            def z3(self):
                return self.ch.z3()

            def ev(self, m):
                return self.ch.ev(m)
        t = _T()
        t.ch = c.c[0]
        t.vars = frozenset((c.c[0].var,))
        return SymInt(t)
    return ord(c)


def _float(x=0.0):
    if type(x) in _SYMSET:
        raise PathAbort("float()")
    return float(x)


def _filter(f, it):
    if f is None:
        return iter([x for x in it if x])
    return iter([x for x in it if sx_call(f, x)])


def _map(f, *its):
    return iter([sx_call(f, *xs) for xs in zip(*its)])


def _range(*a):
    return range(*[concretise_int(x) if type(x) is SymInt else x for x in a])


def _frozenset(*a):
    if a and deep_sym(list(a[0]) if not isinstance(a[0], (list, tuple)) else a[0]):
        return SxSet(*a)
    return frozenset(*a)


def _dict(*a, **k):
    if a and not isinstance(a[0], dict):
        d = {}
        for kk, v in a[0]:
            sx_setitem(d, kk, v)
        for kk, v in k.items():
            sx_setitem(d, kk, v)
        return d
    return dict(*a, **k)


def _set(*a):
    if not ENG.active:
        return set(*a)
    return SxSet(*a)


def _stringio(*a, **k):
    if a and type(a[0]) is SymStr:
        return SymIO(a[0])
    return io.StringIO(*a, **k)


def _chr(x):
    return chr(concretise_int(x)) if type(x) is SymInt else chr(x)


def _callable(x):
    return callable(x)


def _sum(it, *a):
    return sum(list(it), *a)


def _format(v, spec=""):
    return sx_format_value(v, None, spec)


TYPE_OVERRIDES = {str: _str, int: _int, set: _set, type: _type, float: _float, frozenset: _frozenset,
                  filter: _filter, map: _map, range: _range, io.StringIO: _stringio, dict: _dict}
BUILTIN_OVERRIDES = {isinstance: _isinstance, print: _print, getattr: _getattr, setattr: _setattr,
                     hasattr: _hasattr, repr: _repr, ord: _ord, chr: _chr, format: _format,
                     warnings.warn: _warn, ascii: _repr}
FUNC_OVERRIDES = {}                  # filled by stdlib clones (posixpath, ...)

_STR_METHODS = {n for n in dir(SymStr) if not n.startswith("_")}


def _dict_method(d, name, a, k):
    if name in ("get", "pop", "setdefault", "__contains__", "has_key") and a and _needs_scan(d, a[0]):
        key = _find_key(d, a[0])
        if name == "get":
            return d[key[0]] if key else (a[1] if len(a) > 1 else None)
        if name == "pop":
            if key:
                return d.pop(key[0])
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        if name == "setdefault":
            if not key:
                d[a[0]] = a[1] if len(a) > 1 else None
                return d[a[0]]
            return d[key[0]]
        return key is not None
    if name == "update" and ENG.hashed or name == "update" and any_sym(a):
        for src in a:
            items = src.items() if hasattr(src, "items") else src
            for kk, v in items:
                sx_setitem(d, kk, v)
        for kk, v in k.items():
            sx_setitem(d, kk, v)
        return None
    return NotImplemented


def sx_call(f, /, *a, **k):
    if not ENG.active:
        return f(*a, **k)
    t = type(f)
    if t is FunctionType:
        o = FUNC_OVERRIDES.get(f)
        if o is not None:
            return o(*a, **k)
        return f(*a, **k)
    if t is MethodType:
        return f(*a, **k)
    if t is BuiltinType or t is BuiltinMethodType:
        s = f.__self__
        ts = type(s)
        if ts is str:
            n = f.__name__
            if n == "join":
                it = list(a[0]) if a else []
                for x in it:
                    if type(x) is SymStr:
                        return sx_join(s, it)
                return s.join(it)
            if n == "format":
                if any_sym(a, k) or deep_sym(list(a) + list(k.values()), 1) or any(
                        not isinstance(x, (str, int, float, type(None))) for x in list(a) + list(k.values())):
                    return sx_format(s, *a, **k)
                return f(*a, **k)
            if any_sym(a, k) or (a and type(a[0]) is tuple and deep_sym(a[0])):
                if n in _STR_METHODS:
                    return getattr(SymStr(chars_of(s)), n)(*a, **k)
                raise PathAbort("str." + n)
            return f(*a, **k)
        if ts is bytes:
            if any_sym(a, k):
                raise PathAbort("bytes." + f.__name__)
            return f(*a, **k)
        if isinstance(s, dict):
            r = _dict_method(s, f.__name__, a, k)
            if r is not NotImplemented:
                return r
            return f(*a, **k)
        if ts is Pattern:
            if any_sym(a, k):
                return _pattern(s, f.__name__, a, k)
            return f(*a, **k)
        o = BUILTIN_OVERRIDES.get(f) if s is builtins or s is None or ts is types.ModuleType else None
        if o is not None:
            return o(*a, **k)
        if s is builtins or ts is types.ModuleType:
            if any_sym(a, k) and f not in _OK_BUILTINS:
                return _unsupported(f, a, k)
            return f(*a, **k)
        if ts is list or ts is tuple or isinstance(s, (set, list, tuple)):
            return f(*a, **k)
        if any_sym(a, k):
            # method of some C object (file, deque, ...)
            if f.__name__ in ("append", "extend", "insert", "appendleft", "send", "put"):
                return f(*a, **k)
            if f.__name__ == "write":
                return f(*[_plain(x) for x in a])
            return _unsupported(f, a, k)
        return f(*a, **k)
    if t is type:
        o = TYPE_OVERRIDES.get(f)
        if o is not None:
            return o(*a, **k)
        return f(*a, **k)
    if t is types.MethodDescriptorType and a:
        # str.lower(x), dict.get(d, k) ...
        if type(a[0]) is SymStr or (isinstance(a[0], str) and any_sym(a)):
            return getattr(a[0] if type(a[0]) is SymStr else SymStr(chars_of(a[0])), f.__name__)(*a[1:], **k)
        if isinstance(a[0], (dict, str)):
            return sx_call(getattr(a[0], f.__name__), *a[1:], **k)
        return f(*a, **k)
    return f(*a, **k)


_METACLASSES = set()
_OK_BUILTINS = {len, id, callable, iter, next, sorted, min, max, any, all, abs, hash, issubclass, sum, enumerate,
                zip, reversed, delattr, vars, divmod}


def _unsupported(f, a, k):
    raise PathAbort("call of %s with symbolic argument" % getattr(f, "__qualname__", f))


def _pattern(p, name, a, k):
    if name in ("match", "search", "fullmatch"):
        s = a[0] if a else k["string"]
        return regex.sym_match(p, s, name, *[x for x in a[1:2]])
    if name == "sub":
        return regex.sym_sub(p, *a, **k)
    if name == "split":
        return regex.sym_split(p, *a, **k)
    if name == "findall":
        return regex.sym_findall(p, a[0])
    if name == "finditer":
        return iter(regex.sym_finditer(p, a[0]))
    raise PathAbort("re." + name)


def _re_fn(name):
    orig = getattr(re, name)

    def f(pattern, *a, **k):
        if any_sym(a, k) or is_sym(pattern):
            if is_sym(pattern):
                raise PathAbort("symbolic regex")
            flags = k.pop("flags", 0)
            a = list(a)
            npos = {"match": 1, "search": 1, "fullmatch": 1, "findall": 1, "finditer": 1}.get(name)
            if npos is not None and len(a) > npos:
                flags = a.pop()
            p = re.compile(pattern, flags)
            return _pattern(p, name, tuple(a), k)
        return orig(pattern, *a, **k)
    return f


for _n in ("match", "search", "fullmatch", "sub", "split", "findall", "finditer"):
    FUNC_OVERRIDES[getattr(re, _n)] = _re_fn(_n)


def _re_escape(s):
    if is_sym(s):
        raise PathAbort("re.escape")
    return _orig_escape(s)


_orig_escape = re.escape
FUNC_OVERRIDES[re.escape] = _re_escape


def _os_fspath(p):
    if type(p) is SymStr:
        return p
    return os.fspath(p)


BUILTIN_OVERRIDES[os.fspath] = _os_fspath
FUNC_OVERRIDES[os.fspath] = _os_fspath


def sx_guard():
    """First statement of every bare/BaseException handler: let engine control pass."""
    e = sys.exc_info()[1]
    if isinstance(e, Control):
        raise e


HOOKS = {"__sx_call__": sx_call, "__sx_mod__": sx_mod, "__sx_fstr__": sx_fstr, "__sx_in__": sx_in,
         "__sx_notin__": sx_notin, "__sx_getitem__": sx_getitem, "__sx_setitem__": sx_setitem,
         "__sx_delitem__": sx_delitem, "__sx_or__": sx_or, "__sx_and__": sx_and, "__sx_inl__": sx_in_lazy, "__sx_notinl__": sx_notin_lazy, "__sx_set__": sx_set, "__sx_guard__": sx_guard}
