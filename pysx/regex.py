"""Backtracking regular-expression matcher over symbolic strings (subset of re)."""
import re
from re import _parser as sp
from re import _constants as sc
from .core import PathAbort, TRUE, FALSE, f_or, f_not, ch_eq, Ch
from .values import SymStr, chars_of, _norm, truth, pred_f


def _codes_fold(code, flags):
    if flags & re.I:
        ch = chr(code)
        return {ord(x) for x in (ch, ch.lower(), ch.upper()) if len(x) == 1}
    return {code}


def _one_f(c, op, av, flags):
    """Formula: one-character pattern node matches the character term c."""
    if op is sc.LITERAL:
        codes = frozenset(_codes_fold(av, flags))
        return pred_f(c, ("rl", codes), lambda x: ord(x) in codes)
    if op is sc.NOT_LITERAL:
        return f_not(_one_f(c, sc.LITERAL, av, flags))
    if op is sc.ANY:
        if flags & re.S:
            return TRUE
        return f_not(ch_eq(c, 10))
    if op is sc.IN:
        neg = False
        fs = []
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                fs.append(_one_f(c, sc.LITERAL, a, flags))
            elif o is sc.RANGE:
                lo, hi = a
                ci = bool(flags & re.I)
                fs.append(pred_f(c, ("rr", lo, hi, ci), lambda x: lo <= ord(x) <= hi or (
                    ci and (lo <= ord(x.lower()[0]) <= hi or lo <= ord(x.upper()[0]) <= hi))))
            elif o is sc.CATEGORY:
                fs.append(_cat_f(c, a, flags))
            else:
                raise PathAbort("regex set op %s" % o)
        f = f_or(fs)
        return f_not(f) if neg else f
    if op is sc.CATEGORY:
        return _cat_f(c, av, flags)
    raise PathAbort("regex op %s" % op)


def _cat_f(c, cat, flags):
    n = str(cat)
    asc = bool(flags & re.A)

    def lim(p):
        return (lambda x: ord(x) < 128 and p(x)) if asc else p
    neg = n.startswith("CATEGORY_NOT_")
    k = n.replace("CATEGORY_NOT_", "CATEGORY_")
    if k == "CATEGORY_DIGIT":
        f = pred_f(c, ("rd", asc), lim(str.isdecimal))
    elif k == "CATEGORY_SPACE":
        f = pred_f(c, ("rs", asc), (lambda x: x in " \t\n\r\f\v") if asc else str.isspace)
    elif k == "CATEGORY_WORD":
        f = pred_f(c, ("rw", asc), lim(lambda x: x.isalnum() or x == "_"))
    else:
        raise PathAbort("regex category " + n)
    return f_not(f) if neg else f


_SINGLE = (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN, sc.CATEGORY)


def _m(nodes, k, chars, i, groups, flags):
    """Yield (end, groups) for every way nodes[k:] matches at i, in re's priority order."""
    if k == len(nodes):
        yield i, groups
        return
    op, av = nodes[k]
    if op in _SINGLE:
        if i < len(chars) and truth(_one_f(chars[i], op, av, flags)):
            yield from _m(nodes, k + 1, chars, i + 1, groups, flags)
    elif op is sc.AT:
        n = str(av)
        if n in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
            ok = i == 0
        elif n == "AT_END_STRING":
            ok = i == len(chars)
        elif n == "AT_END":
            ok = i == len(chars) or (i == len(chars) - 1 and truth(ch_eq(chars[i], 10)))
        else:
            raise PathAbort("regex " + n)
        if ok:
            yield from _m(nodes, k + 1, chars, i, groups, flags)
    elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = av
        yield from _rep(nodes, k, op is sc.MAX_REPEAT, lo, hi, list(sub), 0, chars, i, groups, flags)
    elif op is sc.SUBPATTERN:
        gid, add, _del, sub = av
        for e, g in _m(list(sub), 0, chars, i, groups, flags | add):
            if gid is not None:
                g = dict(g)
                g[gid] = (i, e)
            yield from _m(nodes, k + 1, chars, e, g, flags)
    elif op is sc.BRANCH:
        for alt in av[1]:
            for e, g in _m(list(alt), 0, chars, i, groups, flags):
                yield from _m(nodes, k + 1, chars, e, g, flags)
    elif op in (sc.ASSERT, sc.ASSERT_NOT):
        direction, sub = av
        if direction < 0:
            raise PathAbort("regex lookbehind")
        ok = False
        for _x in _m(list(sub), 0, chars, i, groups, flags):
            ok = True
            break
        if ok == (op is sc.ASSERT):
            yield from _m(nodes, k + 1, chars, i, groups, flags)
    else:
        raise PathAbort("regex op %s" % op)


def _rep(nodes, k, greedy, lo, hi, sub, n, chars, i, groups, flags):
    more = hi is sc.MAXREPEAT or n < hi

    def again():
        if more:
            for e, g in _m(sub, 0, chars, i, groups, flags):
                if e == i and n >= lo:
                    continue
                yield from _rep(nodes, k, greedy, lo, hi, sub, n + 1, chars, e, g, flags)

    def stop():
        if n >= lo:
            yield from _m(nodes, k + 1, chars, i, groups, flags)
    if greedy:
        yield from again()
        yield from stop()
    else:
        yield from stop()
        yield from again()


class SymMatch(object):
    def __init__(self, pat, s, start, end, groups):
        self.re = pat
        self.string = s
        self._s, self._e, self._g = start, end, groups

    def _one(self, g):
        if g == 0:
            return self.string[self._s:self._e]
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if g not in self._g:
            return None
        a, b = self._g[g]
        return self.string[a:b]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(i) if i in self._g else default for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: (self._one(i) if i in self._g else default) for n, i in self.re.groupindex.items()}

    def start(self, g=0):
        return self._s if g == 0 else self._g[g][0] if g in self._g else -1

    def end(self, g=0):
        return self._e if g == 0 else self._g[g][1] if g in self._g else -1

    def span(self, g=0):
        return self.start(g), self.end(g)

    def __bool__(self):
        return True


_parsed = {}


def _parse(pat):
    k = (pat.pattern, pat.flags)
    if k not in _parsed:
        _parsed[k] = list(sp.parse(pat.pattern, pat.flags & (re.I | re.S | re.M | re.X | re.A)))
    return _parsed[k]


def sym_match(pat, s, how, pos=0):
    nodes = _parse(pat)
    chars = chars_of(s)
    starts = range(pos, len(chars) + 1) if how == "search" else [pos]
    for st in starts:
        for e, g in _m(nodes, 0, chars, st, {}, pat.flags):
            if how == "fullmatch" and e != len(chars):
                continue
            return SymMatch(pat, s, st, e, g)
    return None


def sym_finditer(pat, s):
    pos = 0
    n = len(s)
    out = []
    while pos <= n:
        m = sym_match(pat, s, "search", pos)
        if m is None:
            break
        out.append(m)
        pos = m.end() if m.end() > m.start() else m.end() + 1
    return out


def sym_sub(pat, repl, s, count=0):
    out = ""
    pos = 0
    for n, m in enumerate(sym_finditer(pat, s)):
        if count and n >= count:
            break
        r = repl(m) if callable(repl) else repl
        if not callable(repl) and isinstance(repl, str) and "\\" in repl:
            raise PathAbort("regex template")
        out = out + s[pos:m.start()] + r
        pos = m.end()
    return out + s[pos:]


def sym_split(pat, s, maxsplit=0):
    out = []
    pos = 0
    for m in sym_finditer(pat, s):
        if maxsplit and len(out) >= maxsplit:
            break
        if m.end() == m.start():
            raise PathAbort("regex split on empty match")
        out.append(s[pos:m.start()])
        out.extend(m.groups())
        pos = m.end()
    out.append(s[pos:])
    return out


def sym_findall(pat, s):
    out = []
    for m in sym_finditer(pat, s):
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            out.append(m.group(1))
        else:
            out.append(m.groups(""))
    return out
