"""Does an output contain (a part of) a secret?

Symbolic side: data flow.  The output is tainted when one of its cells depends on a variable of the secret
other than through an ideal function (hash, AEAD, point multiplication: their outputs are variables of their
own).  The verdict is a condition that also fixes the secret to a recognisable value, so that a
counterexample can be replayed by searching the real output.
"""
import random

import z3

from . import values as V
from .leak import occurs
from .rope import Rope
from .seq import as_seq
from .values import SymInt, SymBool, b_and


def leaves(c, out):
    """Names of the variables a cell depends on."""
    if type(c) is int or c is None:
        return
    e = c.e if type(c) is SymInt else V.zexpr(c)
    todo, seen = [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        todo.extend(t.children())


def parts(x):
    """(cells, blobs)"""
    if isinstance(x, (tuple, list)):
        cs, bs = [], []
        for y in x:
            c, b = parts(y)
            cs += c
            bs += b
        return cs, bs
    if x is None:
        return [], []
    if type(x) is Rope:
        cs, bs = [], []
        for s in x.segs:
            if s[0] == "c":
                cs += list(s[1])
            else:
                bs.append(s[1])
                cs += [c for c in s[1].cells.values()]
        return cs, bs
    return list(as_seq(x).cells), []


def pattern(n):
    """A recognisable secret of n bytes with no repeated byte triple."""
    return random.Random("pattern").randbytes(n)


def contains(text, secret, least=8):
    scells, sblobs = parts(secret)
    tcells, tblobs = parts(text)
    if sblobs:
        return any(b in tblobs for b in sblobs)
    svars, tvars = set(), set()
    for c in scells:
        leaves(c, svars)
    if not svars:
        # a constant secret: search for it
        s = bytes(scells)
        if len(s) < least:
            return False
        hay = b"".join(bytes([c]) if type(c) is int and c < 256 else b"\xff" for c in tcells)
        return occurs(hay, s, least)
    for c in tcells:
        leaves(c, tvars)
    if not (svars & tvars):
        return False
    cond = True
    for c, p in zip(scells, pattern(len(scells))):
        if type(c) is SymInt and c.bits is not None and c.lo == 0 and c.hi == 255:
            cond = b_and(cond, c == p)
    return cond
