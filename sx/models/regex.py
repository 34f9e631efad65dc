"""Backtracking matcher for Python regular expressions over symbolic text (semantics of `re`).

The pattern is parsed with CPython's own parser (re._parser); priorities follow the usual backtracking
order.  A branch on a symbolic character forks the path.
"""
import re
import re._constants as C
import re._parser as P

from .. import rt
from .. import values as V
from ..rope import Rope
from ..seq import SymStr, SymBytes, as_seq, idx, mkstr, mkbytes
from ..values import SymInt, fork, in_ranges, in_set, b_and, b_or, b_not

MAXREPEAT = C.MAXREPEAT


def cat_pred(cat, text, flags):
    asc = not text or flags & re.ASCII
    name = str(cat)
    neg = "NOT_" in name
    if name.endswith("DIGIT"):
        f = (lambda v: 48 <= v <= 57) if asc else (lambda v: chr(v).isdecimal())
    elif name.endswith("SPACE"):
        f = (lambda v: v in (9, 10, 11, 12, 13, 32)) if asc else (lambda v: chr(v).isspace())
    elif name.endswith("WORD"):
        f = (lambda v: v < 128 and (chr(v).isalnum() or v == 95)) if asc else \
            (lambda v: chr(v).isalnum() or v == 95)
    else:
        raise V.eng()._die(rt._eng.HarnessError("regex category " + name))
    return (lambda v: not f(v)) if neg else f


_RANGES = {}


def pred_ranges(key, f, hi):
    got = _RANGES.get(key)
    if got is None:
        got = []
        start = None
        for v in range(hi + 1):
            if f(v):
                if start is None:
                    start = v
            elif start is not None:
                got.append((start, v - 1))
                start = None
        if start is not None:
            got.append((start, hi))
        _RANGES[key] = got
    return got


class Matcher:
    def __init__(self, pat, s, text):
        self.pat = pat
        self.flags = pat.flags
        self.cells = s
        self.text = text
        self.n = len(s)
        self.top = 0x10FFFF if text else 255
        self.ic = bool(pat.flags & re.IGNORECASE)
        self.parsed = P.parse(pat.pattern, pat.flags)

    # -------------------------------------------------------------------- character tests
    def lit(self, c, v):
        if self.ic:
            vs = {v}
            ch = chr(v)
            for x in (ch.lower(), ch.upper()):
                if len(x) == 1:
                    vs.add(ord(x))
            return in_set(c, vs)
        return in_set(c, {v})

    def charset(self, c, items):
        neg = False
        conds = []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                conds.append(self.lit(c, av))
            elif op is C.RANGE:
                rs = [av]
                if self.ic:
                    vs = set()
                    for v in range(av[0], min(av[1], 0x17F) + 1):
                        for x in (chr(v), chr(v).lower(), chr(v).upper()):
                            if len(x) == 1:
                                vs.add(ord(x))
                    conds.append(in_set(c, vs))
                conds.append(in_ranges(c, rs))
            elif op is C.CATEGORY:
                conds.append(self.cat(c, av))
            else:
                raise V.eng()._die(rt._eng.HarnessError("regex charset op %s" % op))
        r = b_or(*conds)
        return b_not(r) if neg else r

    def cat(self, c, av):
        f = cat_pred(av, self.text, self.flags)
        if type(c) is int:
            return f(c)
        key = (str(av), self.text, bool(self.flags & re.ASCII))
        return in_ranges(c, pred_ranges(key, f, self.top))

    # -------------------------------------------------------------------- matching (continuations)
    def seq(self, items, k, i, g, cont):
        """Match items[k:] at i with groups g; cont(i, g) -> result or None."""
        if k == len(items):
            return cont(i, g)
        op, av = items[k]

        def nxt(i2, g2):
            return self.seq(items, k + 1, i2, g2, cont)

        if op is C.LITERAL:
            return nxt(i + 1, g) if i < self.n and fork(self.lit(self.cells[i], av)) else None
        if op is C.NOT_LITERAL:
            return nxt(i + 1, g) if i < self.n and fork(b_not(self.lit(self.cells[i], av))) else None
        if op is C.ANY:
            if i >= self.n:
                return None
            if not self.flags & re.DOTALL and fork(in_set(self.cells[i], {10})):
                return None
            return nxt(i + 1, g)
        if op is C.IN:
            return nxt(i + 1, g) if i < self.n and fork(self.charset(self.cells[i], av)) else None
        if op is C.AT:
            return nxt(i, g) if self.at(av, i) else None
        if op is C.SUBPATTERN:
            gid, add, sub, p = av
            if add or sub:
                raise V.eng()._die(rt._eng.HarnessError("regex inline flags"))

            def done(i2, g2):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, i2)
                return nxt(i2, g2)
            return self.seq(list(p), 0, i, g, done)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, i, g, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            return self.rep(list(p), lo, hi, op is C.MIN_REPEAT, 0, i, g, nxt)
        if op is C.POSSESSIVE_REPEAT:
            lo, hi, p = av
            r = self.rep(list(p), lo, hi, False, 0, i, g, lambda a, b: (a, b))
            return nxt(*r) if r is not None else None
        if op is C.ATOMIC_GROUP:
            r = self.seq(list(av), 0, i, g, lambda a, b: (a, b))
            return nxt(*r) if r is not None else None
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            m = b - a
            if i + m > self.n:
                return None
            from ..seq import cells_eq
            return nxt(i + m, g) if fork(cells_eq(self.cells[a:b], self.cells[i:i + m])) else None
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d < 0:
                w = p.getwidth()
                if w[0] != w[1]:
                    raise V.eng()._die(rt._eng.HarnessError("regex look-behind"))
                r = None if i - w[0] < 0 else self.seq(list(p), 0, i - w[0], g, lambda a, b: (a, b))
            else:
                r = self.seq(list(p), 0, i, g, lambda a, b: (a, b))
            if op is C.ASSERT:
                return nxt(i, r[1]) if r is not None else None
            return nxt(i, g) if r is None else None
        raise V.eng()._die(rt._eng.HarnessError("regex op %s" % op))

    def rep(self, p, lo, hi, lazy, count, i, g, cont):
        if count < lo:
            return self.seq(p, 0, i, g, lambda a, b: self.rep(p, lo, hi, lazy, count + 1, a, b, cont))

        def more():
            if hi is not MAXREPEAT and count >= hi:
                return None
            return self.seq(p, 0, i, g,
                            lambda a, b: None if a == i else self.rep(p, lo, hi, lazy, count + 1, a, b, cont))
        if lazy:
            r = cont(i, g)
            return r if r is not None else more()
        r = more()
        return r if r is not None else cont(i, g)

    def at(self, av, i):
        if av is C.AT_BEGINNING:
            if i == 0:
                return True
            return bool(self.flags & re.MULTILINE) and fork(in_set(self.cells[i - 1], {10}))
        if av is C.AT_BEGINNING_STRING:
            return i == 0
        if av is C.AT_END:
            if i == self.n:
                return True
            if self.flags & re.MULTILINE:
                return fork(in_set(self.cells[i], {10}))
            return i == self.n - 1 and fork(in_set(self.cells[i], {10}))
        if av is C.AT_END_STRING:
            return i == self.n
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = i > 0 and fork(self.cat(self.cells[i - 1], C.CATEGORY_WORD))
            b = i < self.n and fork(self.cat(self.cells[i], C.CATEGORY_WORD))
            return (a != b) == (av is C.AT_BOUNDARY)
        raise V.eng()._die(rt._eng.HarnessError("regex anchor %s" % av))

    def match_at(self, i, full=False, advance=False):
        return self.seq(list(self.parsed), 0, i, {},
                        lambda a, b: (a, b) if (not full or a == self.n) and not (advance and a == i) else None)


class MatchModel(rt.Model):
    def __init__(self, pat, string, seq, start, end, groups, pos):
        self.re = pat
        self.string = string
        self._seq = seq
        self._g = dict(groups)
        self._g[0] = (start, end)
        self.pos = pos
        self.endpos = len(seq.cells)

    def __bool__(self):
        return True

    def _id(self, x):
        if isinstance(x, str):
            if x not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[x]
        x = idx(x)
        if not 0 <= x <= self.re.groups:
            raise IndexError("no such group")
        return x

    def _val(self, i, default=None):
        if i not in self._g:
            return default
        a, b = self._g[i]
        return self._seq[a:b]

    def group(self, *ids):
        if not ids:
            return self._val(0)
        if len(ids) == 1:
            return self._val(self._id(ids[0]))
        return tuple(self._val(self._id(i)) for i in ids)

    def __getitem__(self, i):
        return self._val(self._id(i))

    def groups(self, default=None):
        return tuple(self._val(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._val(i, default) for n, i in self.re.groupindex.items()}

    def span(self, i=0):
        return self._g.get(self._id(i), (-1, -1))

    def start(self, i=0):
        return self.span(i)[0]

    def end(self, i=0):
        return self.span(i)[1]

    @property
    def lastindex(self):
        return max([i for i in self._g if i], default=None)


def _prep(pat, string):
    s = as_seq(string)
    if s is None or s.TEXT != isinstance(pat.pattern, str):
        raise TypeError("cannot use a %s pattern on a %s-like object" % (
            ("string", "bytes") if isinstance(pat.pattern, str) else ("bytes", "string")))
    if string.__class__ is bytearray:
        s = SymBytes(s.cells)
    return s


def run(pat, string, mode, pos=0, endpos=None):
    if type(string) not in rt.SYMSET:
        f = getattr(pat, mode)
        return f(string, *([pos] if endpos is None else [pos, endpos])) if (pos or endpos is not None) else f(string)
    s = _prep(pat, string)
    if endpos is not None:
        s = as_seq(s[:idx(endpos)])
    m = Matcher(pat, s.cells, s.TEXT)
    n = len(s.cells)
    pos = min(max(idx(pos), 0), n)
    starts = [pos] if mode != "search" else range(pos, n + 1)
    for st in starts:
        r = m.match_at(st, mode == "fullmatch")
        if r is not None:
            return MatchModel(pat, string, s, st, r[0], r[1], pos)
    return None


def finditer(pat, string):
    if type(string) not in rt.SYMSET:
        return pat.finditer(string)
    return iter(list(_finditer(pat, string)))


def _finditer(pat, string):
    s = _prep(pat, string)
    m = Matcher(pat, s.cells, s.TEXT)
    n = len(s.cells)
    i = 0
    advance = False
    while i <= n:
        for st in range(i, n + 1):
            r = m.match_at(st, advance=advance and st == i)
            if r is not None:
                break
        else:
            return
        yield MatchModel(pat, string, s, st, r[0], r[1], 0)
        advance = r[0] == st
        i = r[0]


def _pattern(p, flags=0):
    if isinstance(p, re.Pattern):
        return p
    return re.compile(rt.concretize(p), flags)


for _mode in ("match", "fullmatch", "search"):
    def _mk(mode):
        def meth(self, string, pos=0, endpos=None):
            return run(self, string, mode, pos, endpos)

        def func(pattern, string, flags=0):
            return run(_pattern(pattern, flags), string, mode)
        return meth, func
    _m, _f = _mk(_mode)
    rt.OVM[(re.Pattern, _mode)] = _m
    rt.override(getattr(re, _mode))(_f)


@rt.override_method(re.Pattern, "finditer")
def p_finditer(self, string):
    return finditer(self, string)


@rt.override(re.finditer)
def f_finditer(p, s, flags=0):
    return finditer(_pattern(p, flags), s)


@rt.override_method(re.Pattern, "findall")
def p_findall(self, string):
    if type(string) not in rt.SYMSET:
        return self.findall(string)
    out = []
    for m in _finditer(self, string):
        if self.groups == 0:
            out.append(m.group())
        elif self.groups == 1:
            out.append(m._val(1, as_seq(string)[:0]))
        else:
            out.append(m.groups(as_seq(string)[:0]))
    return out


@rt.override(re.findall)
def f_findall(p, s, flags=0):
    return p_findall(_pattern(p, flags), s)


@rt.override_method(re.Pattern, "split")
def p_split(self, string, maxsplit=0):
    if type(string) not in rt.SYMSET:
        return self.split(string, maxsplit)
    s = as_seq(string)
    out, last = [], 0
    for m in _finditer(self, string):
        if maxsplit and (len(out) // (1 + self.groups)) >= maxsplit:
            break
        out.append(s[last:m.start()])
        out.extend(m.groups())
        last = m.end()
    out.append(s[last:])
    return out


@rt.override(re.split)
def f_split(p, s, maxsplit=0, flags=0):
    return p_split(_pattern(p, flags), s, maxsplit)


@rt.override_method(re.Pattern, "sub")
def p_sub(self, repl, string, count=0):
    if type(string) not in rt.SYMSET and not rt.has_sym(repl):
        return self.sub(repl, string, count)
    s = as_seq(string)
    out, last, n = [], 0, 0
    for m in _finditer(self, string if type(string) in rt.SYMSET else as_seq(string)):
        if count and n >= count:
            break
        n += 1
        out.append(s[last:m.start()])
        if callable(repl):
            out.append(rt.call(repl, m))
        else:
            r = repl if type(repl) in rt.SYMSET else None
            if r is None:
                if "\\" in (repl if isinstance(repl, str) else repl.decode("latin-1")):
                    raise V.eng()._die(rt._eng.HarnessError("regex template"))
                r = repl
            out.append(r)
        last = m.end()
    out.append(s[last:])
    return rt.join("" if s.TEXT else b"", out)


@rt.override(re.sub)
def f_sub(p, repl, s, count=0, flags=0):
    return p_sub(_pattern(p, flags), repl, s, count)


@rt.override(re.compile)
def f_compile(p, flags=0):
    return re.compile(rt.concretize(p), flags)
