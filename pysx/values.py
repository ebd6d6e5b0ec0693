"""Symbolic values: SymStr (fixed length, symbolic characters), SymInt, SymBool."""
from .core import (ENG, ALPHABET, INDEX, FULL, Ch, IntTerm, IVar, IChDigit, ILin, IOp, Rel, Lit,
                   TRUE, FALSE, F, f_and, f_or, f_not, f_lit, ch_eq, ch_lt, ch_mask, ch_eq_mask,
                   PathAbort, mask_pred)


def simp_bool(f):
    if f is TRUE:
        return True
    if f is FALSE:
        return False
    return SymBool(f)


class SymBool(object):
    __slots__ = ("f",)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return ENG.branch(self.f)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return bool(self) == bool(o)
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return bool(self) != bool(o)
        return NotImplemented

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return "<SymBool>"


def to_f(x):
    if isinstance(x, SymBool):
        return x.f
    return TRUE if x else FALSE


# --------------------------------------------------------------------------
class RealisedStr(str):
    """Text handed to C code for display only (messages, warnings)."""
    sym = None


def _norm(chars):
    """Build a str if every character is concrete, else a SymStr."""
    for c in chars:
        if type(c) is not int:
            return SymStr(tuple(chars))
    return "".join(map(chr, chars))


def chars_of(s):
    if isinstance(s, SymStr):
        return s.c
    return tuple(map(ord, s))


def is_sym(x):
    t = type(x)
    return t is SymStr or t is SymInt or t is SymBool or t is SymBytes


_SPACE = mask_pred(str.isspace)
_preds = {}


def pred_f(c, name, p):
    """Formula: str predicate p holds of character term c."""
    if type(c) is int:
        return TRUE if p(chr(c)) else FALSE
    return f_lit(c, ch_mask(c, ("p", name), lambda x: p(chr(x))))


def in_set_f(c, codes):
    """Formula: character term c is one of the concrete codes (frozenset)."""
    if type(c) is int:
        return TRUE if c in codes else FALSE
    return f_lit(c, ch_mask(c, ("in", codes), lambda x: x in codes))


def truth(f):
    return ENG.branch(f) if f is not TRUE and f is not FALSE else f is TRUE


def eq_f(a, b):
    ca, cb = chars_of(a), chars_of(b)
    if len(ca) != len(cb):
        return FALSE
    return f_and([ch_eq(x, y) for x, y in zip(ca, cb)])


def lt_f(a, b, or_equal):
    """a < b lexicographically."""
    ca, cb = chars_of(a), chars_of(b)
    n = min(len(ca), len(cb))
    res = (len(ca) <= len(cb)) if or_equal else (len(ca) < len(cb))
    f = TRUE if res else FALSE
    for i in range(n - 1, -1, -1):
        e = ch_eq(ca[i], cb[i])
        f = f_or([ch_lt(ca[i], cb[i]), f_and([e, f])])
    return f


_maps = {}


def map_char(c, name, fn):
    """Apply a one-to-one-length character mapping (lower/upper)."""
    if type(c) is int:
        return list(map(ord, fn(chr(c))))
    key = (name, c.tab)
    t = _maps.get(key)
    if t is None:
        t = []
        for i, code in enumerate(ALPHABET):
            code = code if c.tab is None else c.tab[i]
            r = fn(chr(code))
            if len(r) != 1:
                raise PathAbort("length-changing case map")
            t.append(ord(r))
        t = tuple(t)
        if t == tuple(ALPHABET):
            t = None
        _maps[key] = t
    d = ENG.dom[c.var]
    # concrete result over the whole domain?
    if t is not None:
        vals = set()
        i = 0
        m = d
        while m and len(vals) < 2:
            if m & 1:
                vals.add(t[i])
            m >>= 1
            i += 1
        if len(vals) == 1:
            return [vals.pop()]
        # identity on the domain?
        m = d
        i = 0
        ident = c.tab is None
        while m and ident:
            if m & 1 and t[i] != ALPHABET[i]:
                ident = False
            m >>= 1
            i += 1
        if ident:
            return [c]
    return [Ch(c.var, t)]


def _lines_split(chars, keepends):
    out = []
    cur = []
    i = 0
    n = len(chars)
    while i < n:
        c = chars[i]
        if truth(pred_f(c, "linebreak", lambda x: len(("a" + x + "b").splitlines()) > 1)):
            end = [c]
            if i + 1 < n and truth(ch_eq(c, 13)) and truth(ch_eq(chars[i + 1], 10)):
                end.append(chars[i + 1])
                i += 1
            out.append(_norm(cur + (end if keepends else [])))
            cur = []
        else:
            cur.append(c)
        i += 1
    if cur:
        out.append(_norm(cur))
    return out


class SymStr(object):
    __slots__ = ("c",)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, chars):
        self.c = chars

    # -- basic protocol ----------------------------------------------------
    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        for c in self.c:
            yield _norm((c,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return _norm(self.c[i])
        if isinstance(i, SymInt):
            i = i.__index__()
        return _norm((self.c[i],))

    def __hash__(self):
        ENG.hashed = True
        return 0x5EED

    def __str__(self):
        r = RealisedStr(self.realise())
        r.sym = self
        return r

    def __repr__(self):
        return repr(self.realise())

    def __format__(self, spec):
        if spec == "":
            return self.__str__()
        raise PathAbort("format spec on symbolic string")

    def realise(self):
        if ENG.dirty:
            ENG.repair()
        return "".join(chr(c) if type(c) is int else chr(c.ev(ENG.model)) for c in self.c)

    # -- comparison --------------------------------------------------------
    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            return simp_bool(eq_f(self, o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (str, SymStr)):
            return simp_bool(f_not(eq_f(self, o)))
        return NotImplemented

    def __lt__(self, o):
        if isinstance(o, (str, SymStr)):
            return simp_bool(lt_f(self, o, False))
        return NotImplemented

    def __le__(self, o):
        if isinstance(o, (str, SymStr)):
            return simp_bool(lt_f(self, o, True))
        return NotImplemented

    def __gt__(self, o):
        if isinstance(o, (str, SymStr)):
            return simp_bool(lt_f(o, self, False))
        return NotImplemented

    def __ge__(self, o):
        if isinstance(o, (str, SymStr)):
            return simp_bool(lt_f(o, self, True))
        return NotImplemented

    # -- concatenation -----------------------------------------------------
    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return _norm(self.c + chars_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return _norm(chars_of(o) + self.c)
        return NotImplemented

    def __mul__(self, n):
        if isinstance(n, int):
            return _norm(self.c * n)
        return NotImplemented

    __rmul__ = __mul__

    def __mod__(self, args):
        from .rt import sx_mod
        return sx_mod(self, args)

    # -- searching ---------------------------------------------------------
    def _match_at(self, sub, i):
        return f_and([ch_eq(x, y) for x, y in zip(self.c[i:i + len(sub)], sub)])

    def contains_f(self, sub):
        s = chars_of(sub)
        n = len(s)
        if n == 0:
            return TRUE
        return f_or([self._match_at(s, i) for i in range(len(self.c) - n + 1)])

    def __contains__(self, sub):
        if not isinstance(sub, (str, SymStr)):
            raise TypeError("'in <string>' requires string as left operand, not %s" % type(sub).__name__)
        return truth(self.contains_f(sub))

    def find(self, sub, start=None, end=None):
        s = chars_of(_want_str(sub))
        lo, hi, _ = slice(start, end).indices(len(self.c))
        for i in range(lo, hi - len(s) + 1):
            if truth(self._match_at(s, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        s = chars_of(_want_str(sub))
        lo, hi, _ = slice(start, end).indices(len(self.c))
        for i in range(hi - len(s), lo - 1, -1):
            if truth(self._match_at(s, i)):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, *a):
        s = chars_of(_want_str(sub))
        lo, hi, _ = slice(*(a + (None,) * (2 - len(a)))).indices(len(self.c))
        if not s:
            return hi - lo + 1
        n = 0
        i = lo
        while i <= hi - len(s):
            if truth(self._match_at(s, i)):
                n += 1
                i += len(s)
            else:
                i += 1
        return n

    def startswith(self, prefix, start=0, end=None):
        me = self.c[slice(start, end)]
        if isinstance(prefix, tuple):
            return simp_bool(f_or([to_f(_norm_sw(me, p)) for p in prefix]))
        return _norm_sw(me, _want_str(prefix))

    def endswith(self, suffix, start=0, end=None):
        me = self.c[slice(start, end)]
        if isinstance(suffix, tuple):
            return simp_bool(f_or([to_f(_norm_ew(me, p)) for p in suffix]))
        return _norm_ew(me, _want_str(suffix))

    # -- stripping and splitting -------------------------------------------
    def _strip_f(self, chars):
        if chars is None:
            return lambda c: pred_f(c, "space", str.isspace)
        if isinstance(chars, SymStr):
            cs = chars.c
            return lambda c: f_or([ch_eq(c, x) for x in cs])
        codes = frozenset(map(ord, chars))
        return lambda c: in_set_f(c, codes)

    def lstrip(self, chars=None):
        f = self._strip_f(chars)
        i = 0
        while i < len(self.c) and truth(f(self.c[i])):
            i += 1
        return _norm(self.c[i:])

    def rstrip(self, chars=None):
        f = self._strip_f(chars)
        j = len(self.c)
        while j > 0 and truth(f(self.c[j - 1])):
            j -= 1
        return _norm(self.c[:j])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        out = []
        c = self.c
        if sep is None:
            i = 0
            n = len(c)
            while True:
                while i < n and truth(pred_f(c[i], "space", str.isspace)):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(_norm(c[i:]).rstrip())
                    break
                j = i
                while j < n and not truth(pred_f(c[j], "space", str.isspace)):
                    j += 1
                out.append(_norm(c[i:j]))
                i = j
            return out
        s = chars_of(_want_str(sep))
        if not s:
            raise ValueError("empty separator")
        i = 0
        start = 0
        while i <= len(c) - len(s):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if truth(self._match_at(s, i)):
                out.append(_norm(c[start:i]))
                i += len(s)
                start = i
            else:
                i += 1
        out.append(_norm(c[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            rev = SymStr(self.c[::-1]).split(None, maxsplit)
        else:
            rev = SymStr(self.c[::-1]).split(_norm(chars_of(sep)[::-1]), maxsplit)
        return [_norm(chars_of(x)[::-1]) for x in rev][::-1]

    def splitlines(self, keepends=False):
        return _lines_split(self.c, keepends)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (_norm(self.c[:i]), sep, _norm(self.c[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (_norm(self.c[:i]), sep, _norm(self.c[i + len(sep):]))

    def replace(self, old, new, count=-1):
        o = chars_of(_want_str(old))
        w = chars_of(_want_str(new))
        out = []
        i = 0
        n = 0
        if not o:
            raise PathAbort("replace of empty string")
        while i < len(self.c):
            if (count < 0 or n < count) and i + len(o) <= len(self.c) and truth(self._match_at(o, i)):
                out.extend(w)
                i += len(o)
                n += 1
            else:
                out.append(self.c[i])
                i += 1
        return _norm(out)

    def removeprefix(self, p):
        return _norm(self.c[len(p):]) if truth(to_f(self.startswith(p))) else self

    def removesuffix(self, p):
        return _norm(self.c[:-len(p)]) if p and truth(to_f(self.endswith(p))) else self

    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out.extend(self.c)
            out.extend(chars_of(_want_str(x)))
            first = False
        return _norm(out)

    # -- case and classes --------------------------------------------------
    def _map(self, name, fn):
        out = []
        for c in self.c:
            out.extend(map_char(c, name, fn))
        return _norm(out)

    def lower(self):
        return self._map("lower", str.lower)

    def upper(self):
        return self._map("upper", str.upper)

    def casefold(self):
        return self._map("casefold", str.casefold)

    def swapcase(self):
        return self._map("swapcase", str.swapcase)

    def capitalize(self):
        return _norm(tuple(map_char(self.c[0], "upper", str.upper)) +
                     chars_of(SymStr(self.c[1:]).lower())) if self.c else self

    def title(self):
        raise PathAbort("str.title")

    def _all(self, name, p):
        if not self.c:
            return False
        return simp_bool(f_and([pred_f(c, name, p) for c in self.c]))

    def isspace(self):
        return self._all("space", str.isspace)

    def isdigit(self):
        return self._all("digit", str.isdigit)

    def isdecimal(self):
        return self._all("decimal", str.isdecimal)

    def isnumeric(self):
        return self._all("numeric", str.isnumeric)

    def isalpha(self):
        return self._all("alpha", str.isalpha)

    def isalnum(self):
        return self._all("alnum", str.isalnum)

    def isascii(self):
        return self._all("ascii", str.isascii)

    def isprintable(self):
        return self._all("printable", str.isprintable)

    def islower(self):
        return simp_bool(f_and([f_or([pred_f(c, "lowerc", str.islower) for c in self.c])] +
                               [f_not(pred_f(c, "upperc", str.isupper)) for c in self.c]))

    def isupper(self):
        return simp_bool(f_and([f_or([pred_f(c, "upperc", str.isupper) for c in self.c])] +
                               [f_not(pred_f(c, "lowerc", str.islower)) for c in self.c]))

    def isidentifier(self):
        if not self.c:
            return False
        return simp_bool(f_and([pred_f(self.c[0], "ident0", str.isidentifier)] +
                               [pred_f(c, "ident1", lambda x: ("a" + x).isidentifier()) for c in self.c[1:]]))

    def ljust(self, n, fill=" "):
        return _norm(self.c + (ord(fill),) * max(0, n - len(self.c)))

    def rjust(self, n, fill=" "):
        return _norm((ord(fill),) * max(0, n - len(self.c)) + self.c)

    def zfill(self, n):
        raise PathAbort("zfill")

    def expandtabs(self, n=8):
        if truth(self.contains_f("\t")):
            raise PathAbort("expandtabs")
        return self

    def translate(self, table):
        out = []
        for c in self.c:
            if type(c) is int:
                out.extend(chars_of(chr(c).translate(table)))
                continue
            done = False
            for k in list(table.keys() if hasattr(table, "keys") else []):
                if truth(ch_eq(c, k)):
                    v = table[k]
                    if v is not None:
                        out.extend([v] if isinstance(v, int) else chars_of(v))
                    done = True
                    break
            if not done:
                out.append(c)
        return _norm(out)

    def encode(self, encoding="utf-8", errors="strict"):
        enc = str(encoding).lower().replace("_", "-")
        if enc in ("utf-8", "utf8"):
            return SymBytes(self)
        if enc in ("ascii", "us-ascii", "latin-1", "iso-8859-1"):
            lim = 128 if "ascii" in enc else 256
            for c in self.c:
                if not truth(pred_f(c, ("lt", lim), lambda x: ord(x) < lim)):
                    if errors == "strict":
                        raise UnicodeEncodeError(enc, "?", 0, 1, "ordinal not in range")
                    raise PathAbort("encode errors=" + errors)
            return SymBytes(self)
        raise PathAbort("encode " + enc)

    def format(self, *a, **k):
        from .rt import sx_format
        return sx_format(self, *a, **k)


def _want_str(x):
    if isinstance(x, (str, SymStr)):
        return x
    raise TypeError("expected str, got %s" % type(x).__name__)


def _norm_sw(me, p):
    s = chars_of(p)
    if len(s) > len(me):
        return False
    return simp_bool(f_and([ch_eq(x, y) for x, y in zip(me, s)]))


def _norm_ew(me, p):
    s = chars_of(p)
    if len(s) > len(me):
        return False
    if not s:
        return True
    return simp_bool(f_and([ch_eq(x, y) for x, y in zip(me[-len(s):], s)]))


# --------------------------------------------------------------------------
class SymBytes(object):
    """UTF-8 encoding of a symbolic text (kept as the text; UTF-8 is injective)."""
    __slots__ = ("t",)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, text):
        self.t = text

    def __add__(self, o):
        if isinstance(o, bytes):
            return SymBytes(self.t + o.decode("utf-8"))
        if isinstance(o, SymBytes):
            return SymBytes(self.t + o.t)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, bytes):
            return SymBytes(o.decode("utf-8") + self.t)
        return NotImplemented

    def decode(self, encoding="utf-8", errors="strict"):
        return self.t

    def __bool__(self):
        return len(self.t) > 0

    def __len__(self):
        n = 0
        for c in chars_of(self.t):
            if type(c) is int:
                n += len(chr(c).encode("utf-8"))
            else:
                for k in (1, 2, 3, 4):
                    if truth(pred_f(c, ("u8", k), lambda x: len(x.encode("utf-8")) == k)):
                        n += k
                        break
        return n

    def __eq__(self, o):
        if isinstance(o, SymBytes):
            return self.t == o.t
        if isinstance(o, bytes):
            return self.t == o.decode("utf-8")
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (not r)

    def __hash__(self):
        ENG.hashed = True
        return 0x5EED

    def realise(self):
        return (self.t.realise() if isinstance(self.t, SymStr) else self.t).encode("utf-8")


# --------------------------------------------------------------------------
def _term(x):
    return x.t if isinstance(x, SymInt) else int(x)


def _isint(x):
    return isinstance(x, (int, SymInt)) or isinstance(x, SymBool)


class SymInt(object):
    __slots__ = ("t", "digits")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, term, digits=None):
        self.t = term
        self.digits = digits        # character terms when this is a digit string's value

    def __hash__(self):
        ENG.hashed = True
        return 0x5EED

    def _cmp(self, o, op):
        a, b = self.t, _term(o)
        return simp_bool({"==": lambda: Rel("==", a, b), "<": lambda: Rel("<", a, b),
                          "<=": lambda: Rel("<=", a, b), ">": lambda: Rel("<", b, a),
                          ">=": lambda: Rel("<=", b, a)}[op]())

    def __eq__(self, o):
        return self._cmp(o, "==") if _isint(o) else NotImplemented

    def __ne__(self, o):
        return simp_bool(f_not(to_f(self._cmp(o, "==")))) if _isint(o) else NotImplemented

    def __lt__(self, o):
        return self._cmp(o, "<") if _isint(o) else NotImplemented

    def __le__(self, o):
        return self._cmp(o, "<=") if _isint(o) else NotImplemented

    def __gt__(self, o):
        return self._cmp(o, ">") if _isint(o) else NotImplemented

    def __ge__(self, o):
        return self._cmp(o, ">=") if _isint(o) else NotImplemented

    def __bool__(self):
        return ENG.branch(f_not(Rel("==", self.t, 0)))

    def _lin(self, ca, o, cb):
        const = 0
        terms = []
        for c, x in ((ca, self.t), (cb, _term(o))):
            if isinstance(x, int):
                const += c * x
            else:
                terms.append((c, x))
        return SymInt(ILin(const, terms))

    def __add__(self, o):
        return self._lin(1, o, 1) if _isint(o) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return self._lin(1, o, -1) if _isint(o) else NotImplemented

    def __rsub__(self, o):
        return self._lin(-1, o, 1) if _isint(o) else NotImplemented

    def __neg__(self):
        return SymInt(ILin(0, [(-1, self.t)]))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __mul__(self, o):
        if isinstance(o, int):
            return SymInt(ILin(0, [(int(o), self.t)]))
        if isinstance(o, SymInt):
            return SymInt(IOp("*", self.t, o.t))
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return SymInt(IOp("//", self.t, o))
        raise PathAbort("symbolic //")

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return SymInt(IOp("%", self.t, o))
        raise PathAbort("symbolic %")

    def __int__(self):
        return self.__index__()

    def __index__(self):
        return concretise_int(self)

    def __str__(self):
        r = RealisedStr(str(self.realise()))
        r.sym = self
        return r

    def __repr__(self):
        return str(self.realise())

    def __format__(self, spec):
        return format(self.realise(), spec)

    def realise(self):
        if ENG.dirty:
            ENG.repair()
        return self.t.ev(ENG.model)


def concretise_int(s, limit=64):
    """Fork over the feasible values of s (complete when few), else pin to one value."""
    for _ in range(limit):
        v = s.realise()
        if ENG.branch(Rel("==", s.t, v)):
            return v
    raise PathAbort("too many values for a concrete integer")


def concretise_str(s, limit=64):
    for _ in range(limit):
        v = s.realise()
        if truth(eq_f(s, v)):
            return v
    raise PathAbort("too many values for a concrete string")


_DEC = "0123456789"


def digits_of_int(s):
    """Canonical decimal text of a SymInt, as a string value."""
    if s.digits is not None:
        d = list(s.digits)
        while len(d) > 1 and truth(pred_f(d[0], "dec0", lambda x: x.isdecimal() and int(x) == 0)):
            d.pop(0)
        # non-ASCII digits render as ASCII
        out = []
        for c in d:
            if type(c) is not int and truth(ch_eq(c, 0x661)):
                out.append(ord("1"))
            else:
                out.append(c if type(c) is not int else ord(str(int(chr(c)))))
        return _norm(out)
    if truth(Rel("<", s.t, 0)):
        return "-" + digits_of_int(-s)
    n = 1
    while not truth(Rel("<", s.t, 10 ** n)):
        n += 1
        if n > 12:
            raise PathAbort("integer too long to print")
    ds = []
    mask = mask_pred(lambda ch: ch in _DEC)
    for i in range(n):
        ENG.fresh += 1
        v = ENG.new_char("%%fd%d" % ENG.fresh, mask)
        ds.append(Ch(v))
    term = ILin(0, [(10 ** (n - 1 - i), IChDigit(c)) for i, c in enumerate(ds)])
    ENG.assume(Rel("==", term, s.t))
    return SymStr(tuple(ds))


def parse_int(s, base=10):
    """int(str) for symbolic text, base 10 and 16."""
    if base == 0:
        raise PathAbort("int base 0")
    c = list(chars_of(s))
    sp = lambda x: x.isspace() and not 0x1c <= ord(x) <= 0x1f
    while c and truth(pred_f(c[0], "intspace", sp)):
        c.pop(0)
    while c and truth(pred_f(c[-1], "intspace", sp)):
        c.pop()
    err = ValueError("invalid literal for int() with base %d: %r" % (base, str(s)))
    neg = False
    if c and truth(in_set_f(c[0], frozenset((43, 45)))):
        neg = truth(ch_eq(c[0], 45))
        c.pop(0)
    if base == 16 and len(c) > 2 and truth(ch_eq(c[0], 48)) and truth(in_set_f(c[1], frozenset((120, 88)))):
        c = c[2:]
        if c and truth(ch_eq(c[0], 95)):
            c.pop(0)
    digits = []
    prev_us = True
    for x in c:
        if truth(ch_eq(x, 95)):
            if prev_us:
                raise err
            prev_us = True
            continue
        if base == 10:
            if not truth(pred_f(x, "decimal", str.isdecimal)):
                raise err
        elif base == 16:
            if not truth(in_set_f(x, frozenset(map(ord, "0123456789abcdefABCDEF")))):
                raise err
        else:
            raise PathAbort("int base")
        prev_us = False
        digits.append(x)
    if not digits or prev_us:
        raise err
    if base != 10:
        v = 0
        for x in digits:
            if type(x) is not int:
                x = ord(concretise_str(SymStr((x,))))
            v = v * base + int(chr(x), base)
        return -v if neg else v
    n = len(digits)
    const = 0
    terms = []
    for i, x in enumerate(digits):
        p = 10 ** (n - 1 - i)
        if type(x) is int:
            const += p * int(chr(x))
        else:
            terms.append((p, IChDigit(x)))
    if not terms:
        return -const if neg else const
    val = SymInt(ILin(const, terms), tuple(digits))
    if neg:
        return -val
    return val
