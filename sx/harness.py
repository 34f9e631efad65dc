"""Symbolic side of the harness interface `h` (see native.py for the concrete side)."""
import os
import shutil
import tempfile

import z3

from . import engine as _eng
from . import rt
from . import values as V
from .rope import Blob, Rope
from .seq import SymBytes, SymStr, SymByteArray, as_seq, mkbytes, mkstr, cells_eq
from .values import SymInt, SymBool, fork, b_and, b_or, b_not, int_eq


def fresh_cells(E, name, n, lo=0, hi=255):
    w = max(1, hi.bit_length())
    out = []
    group = []
    E.input_leaves.append(group)
    for i in range(n):
        leaf = E.fresh_bv("%s[%d]" % (name, i), w)
        group.append(leaf)
        c = V.mkbits(E.leaf_bits(leaf))
        if lo > 0 or hi < (1 << w) - 1:
            E.add(z3.And(z3.ULE(lo, leaf), z3.ULE(leaf, hi)))
            c = SymInt(leaf, lo, hi, bits=c.bits)
        out.append(c)
    return tuple(out)


def ev_cells(cells):
    def f(m):
        return [ev_int(c, m) for c in cells]
    return f


def ev_int(c, m):
    if type(c) is int:
        return c
    if type(c) is SymBool:
        return int(z3.is_true(m.eval(V.zexpr(c), model_completion=True)))
    e = m.eval(c.e, model_completion=True)
    v = e.as_long()
    if c.lo < 0 and v >= 1 << (c.w - 1):
        v -= 1 << c.w
    return v


class SymH:
    native = False

    def __init__(self, E, world, tier):
        self.E = E
        self.world = world
        self.tier = tier
        self.tmp = []

    # ------------------------------------------------------------------ inputs
    def _reg(self, name, kind, fn):
        E = self.E
        k = E.fresh_name("in:" + name)[3:]
        E.inputs[k] = (kind, fn)
        return k

    def bytes(self, name, n):
        cells = fresh_cells(self.E, name, n)
        self._reg(name, "bytes", lambda m: bytes(ev_cells(cells)(m)).hex())
        return mkbytes(cells)

    def text(self, name, n, chars=None, lo=0, hi=0x10FFFF):
        """Symbolic string of n characters; chars: iterable of allowed characters."""
        E = self.E
        if chars is not None and isinstance(chars, str) and len(chars) == 64 == len(set(chars)):
            cells = tuple(V.tab_cell(tuple(map(ord, chars)), i) for i in fresh_cells(E, name, n, 0, 63))
            self._reg(name, "text", lambda m: "".join(map(chr, ev_cells(cells)(m))))
            return mkstr(cells)
        if chars is not None:
            vals = sorted(set(map(ord, chars)))
            lo, hi = vals[0], vals[-1]
        cells = fresh_cells(E, name, n, lo, hi)
        for c in cells:
            if chars is not None and len(vals) != hi - lo + 1:
                self.assume(V.in_set(c, set(vals)))
            elif hi >= 0xD800 and lo < 0xE000:
                self.assume(b_or(c < 0xD800, c > 0xDFFF))
        self._reg(name, "text", lambda m: "".join(map(chr, ev_cells(cells)(m))))
        return mkstr(cells)

    def int(self, name, lo, hi):
        E = self.E
        w = max(1, (hi - lo).bit_length())
        leaf = E.fresh_bv(name, w)
        E.input_leaves.append([leaf])
        if hi - lo != (1 << w) - 1:
            E.add(z3.ULE(leaf, hi - lo))
        base = SymInt(leaf, 0, hi - lo, bits=V.mkbits(E.leaf_bits(leaf)).bits)
        v = base + lo if lo else base
        self._reg(name, "int", lambda m: ev_int(v, m))
        return v

    def bool(self, name):
        return self.int(name, 0, 1) != 0

    def choose(self, name, options):
        options = list(options)
        i = self.E.choose(len(options), name)
        self._reg(name, "choice", lambda m: i)
        return options[i]

    def blob(self, name, lo, hi, origin=None):
        """Generic byte string whose length is any value in [lo, hi]."""
        n = self.int(name + ".len", lo, hi) if lo != hi else lo
        if lo == hi:
            self._reg(name + ".len", "int", lambda m: lo)
        b = Blob(self.E.fresh_name(name), n, origin)
        return Rope.blob(b)

    def other(self, name, value):
        """Any byte string of the same length that differs from value."""
        cells = as_seq(value).cells
        new = fresh_cells(self.E, name, len(cells))

        def delta(m):
            return bytes(a ^ b for a, b in zip(ev_cells(cells)(m), ev_cells(new)(m))).hex()
        self._reg(name, "delta", delta)
        r = mkbytes(new)
        self.assume(b_not(cells_eq(cells, as_seq(r).cells)))
        return r

    def substitute(self, name, data, supports, alphabet):
        """data with the characters at exactly the positions of one of `supports` replaced by others."""
        E = self.E
        out, leaves = [], []
        for k, c in enumerate(as_seq(data).cells):
            v = V.map_cell(c, lambda q: alphabet.index(chr(q)) if chr(q) in alphabet else 0)
            leaf = E.fresh_bv("%s[%d]" % (name, k), (len(alphabet) - 1).bit_length())
            leaves.append(leaf)
            out.append(V.tab_cell(tuple(map(ord, alphabet)), v ^ V.mkbits(E.leaf_bits(leaf))))
        self._reg(name, "changes", lambda m: [m.eval(x, model_completion=True).as_long() for x in leaves])
        E.splits = (leaves, supports)
        return mkstr(out)

    # ------------------------------------------------------------------ conditions
    def assume(self, c):
        if type(c) is SymInt:
            c = c.truth()
        if c is True:
            return
        if c is False:
            raise self.E._die(_eng.Infeasible())
        if type(c) is SymBool:
            self.E.add(V.zexpr(c))
            V.learn(c)
            return
        if not c:
            raise self.E._die(_eng.Infeasible())

    def check(self, c, label):
        t = type(c)
        if t is SymInt:
            c = c.truth()
        if type(c) is SymBool:
            c = V.zexpr(c)
        elif type(c) is not bool:
            c = bool(c)
        self.E.check(c, label)

    def fail(self, label):
        self.E.check(False, label)

    def cover(self, label):
        self.E.checks_reached[label] = self.E.checks_reached.get(label, 0) + 1

    def all(self, *cs):
        return b_and(*[c.truth() if type(c) is SymInt else c for c in cs])

    def any(self, *cs):
        return b_or(*[c.truth() if type(c) is SymInt else c for c in cs])

    def no(self, c):
        return rt.not_(c)

    def implies(self, a, b):
        return b_or(b_not(a) if type(a) is SymBool else not a, b)

    def iff(self, a, b):
        if type(a) is not SymBool and type(b) is not SymBool:
            return bool(a) == bool(b)
        return V.mkbool(V.zexpr(a) == V.zexpr(b))

    def decide(self, c):
        """Case split on a condition: concrete bool."""
        return fork(c) if type(c) is SymBool else bool(c)

    def sure(self, c):
        """Does the condition hold for every input of this path?  (No case split.)"""
        if type(c) is SymInt:
            c = c.truth()
        return self.E.entails(V.zexpr(c)) if type(c) is SymBool else bool(c)

    def run(self, fn, *a, **k):
        """(value, None) or (None, exception); engine control passes through."""
        try:
            return rt.call(fn, *a, **k), None
        except Exception as e:
            self._guard(e)
            return None, e

    def _guard(self, e):
        if self.E.dead is not None:
            raise self.E.dead

    # ------------------------------------------------------------------ environment
    def path_state(self):
        return self.E.path_state

    def mod(self, name):
        return self.world.load(name)

    def cleanup(self):
        for d in self.tmp:
            shutil.rmtree(d, ignore_errors=True)
        self.tmp = []

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix="sxh.")
        self.tmp.append(d)
        return d

    def note(self, what):
        self.E.bounds.append(what)

    def finish(self):
        pass
