"""Byte strings of symbolic length: concatenations of concrete-length cells and slices of opaque blobs.

A Blob stands for generic content: two slices of blobs are equal only if they are the same slice of the
same blob (or both empty).  Inputs, ciphertexts and garbage of symbolic length are blobs.
"""
from . import values as V
from . import engine as _eng
from .seq import SymBytes, SymByteArray, as_seq, cells_eq, idx
from .values import SymInt, fork, b_and, norm_int, lo_of, hi_of


class Blob:
    def __init__(self, name, length, origin=None):
        self.name = name
        self.length = length
        self.origin = origin
        self.cells = {}

    def cell(self, off):
        c = self.cells.get(off)
        if c is None:
            E = V.eng()
            leaf = E.fresh_bv("%s[%d]" % (self.name, off), 8)
            c = V.mkbits(E.leaf_bits(leaf))
            self.cells[off] = c
        return c


class Rope:
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = segs

    @property
    def __class__(self):
        return bytes

    __hash__ = object.__hash__

    # ------------------------------------------------------------------------------------------------
    @staticmethod
    def of(x):
        if type(x) is Rope:
            return x
        s = as_seq(x)
        return Rope([("c", tuple(s.cells))] if s.cells else [])

    @staticmethod
    def blob(b):
        return make([("b", b, 0, b.length)])

    def length(self):
        n = 0
        for s in self.segs:
            n = n + (len(s[1]) if s[0] == "c" else s[3])
        return n

    def __len__(self):
        return idx(self.length())

    def __bool__(self):
        return fork(nonzero(self.length()))

    def to_seq(self):
        out = []
        for s in self.segs:
            if s[0] == "c":
                out.extend(s[1])
            else:
                n = s[3] if type(s[3]) is int else concrete_len(s[3])
                off = s[2] if type(s[2]) is int else V.pick_int(s[2])
                if n > 70000:
                    raise V.eng()._die(_eng.HarnessError("byte string of symbolic length used bytewise"))
                out.extend(s[1].cell(off + k) for k in range(n))
        return SymBytes(tuple(out))

    @property
    def cells(self):
        return self.to_seq().cells

    def __iter__(self):
        return iter(self.to_seq())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.to_seq(), name)

    def __add__(self, o):
        if as_seq_or_rope(o) is None:
            return NotImplemented
        return make(self.segs + Rope.of(o).segs)

    def __radd__(self, o):
        if as_seq_or_rope(o) is None:
            return NotImplemented
        return make(Rope.of(o).segs + self.segs)

    def __eq__(self, o):
        if as_seq_or_rope(o) is None:
            return False
        return rope_eq(self, Rope.of(o))

    def __ne__(self, o):
        return V.b_not(self.__eq__(o))

    def __contains__(self, x):
        return x in self.to_seq()

    def __getitem__(self, i):
        if isinstance(i, slice):
            step = idx(i.step)
            if step not in (None, 1):
                return self.to_seq()[i]
            L = self.length()
            a = clamp(i.start, L, 0)
            b = clamp(i.stop, L, L)
            if not fork(lt(a, b)):
                return b""
            return make(take(self.segs, a, b))
        n = norm_int(i)
        L = self.length()
        if type(n) is int and n < 0:
            n = L + n
            if fork(n < 0 if type(n) is int else n < 0):
                raise IndexError("index out of range")
        if not fork(lt(n, L)):
            raise IndexError("index out of range")
        r = take(self.segs, n, n + 1)
        s = Rope(r).to_seq()
        return s.cells[0]

    def __repr__(self):
        return "<symbolic bytes>"

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return V.b_or(*[self.startswith(q) for q in p])
        n = len(p)
        if not fork(le(n, self.length())):
            return False
        return self[:n] == p

    def endswith(self, p, *a):
        n = len(p)
        L = self.length()
        if not fork(le(n, L)):
            return False
        return self[L - n:] == p

    def tobytes(self):
        return self

    def release(self):
        pass


def concrete_len(n):
    if n.hi - n.lo <= 300:
        return V.concretize_int(n)
    return V.pick_int(n)


def as_seq_or_rope(x):
    if type(x) is Rope:
        return x
    t = type(x)
    if t in (bytes, bytearray, memoryview, SymBytes, SymByteArray):
        return x
    return None


def nonzero(n):
    return n != 0


def lt(a, b):
    if type(a) is int and type(b) is SymInt:
        return b > a
    return a < b


def le(a, b):
    if type(a) is int and type(b) is SymInt:
        return b >= a
    return a <= b


def sym_eq(a, b):
    if type(a) is int and type(b) is SymInt:
        return b == a
    return a == b


def clamp(x, L, default):
    if x is None:
        return default
    x = norm_int(x)
    if fork(lt(x, 0)):
        x = L + x
        if fork(lt(x, 0)):
            return 0
        return x
    if fork(le(x, L)):
        return x
    return L


def take(segs, a, b):
    """Segments of [a, b) with 0 <= a < b <= total length."""
    out = []
    pos = 0
    for s in segs:
        n = len(s[1]) if s[0] == "c" else s[3]
        end = pos + n
        # skip if end <= a
        if fork(le(end, a)):
            pos = end
            continue
        start = a if fork(lt(pos, a)) else pos      # absolute
        last = False
        if fork(le(b, end)):
            stop = b
            last = True
        else:
            stop = end
        o1 = start - pos
        o2 = stop - pos
        if s[0] == "c":
            i, j = idx(o1), idx(o2)
            if j > i:
                out.append(("c", s[1][i:j]))
        else:
            ln = o2 - o1
            out.append(("b", s[1], s[2] + o1, ln))
        if last:
            break
        pos = end
    return out


def make(segs):
    """Normalise: merge cells, drop empty cells, turn pure concrete-length content into bytes."""
    out = []
    for s in segs:
        if s[0] == "c":
            if not s[1]:
                continue
            if out and out[-1][0] == "c":
                out[-1] = ("c", out[-1][1] + s[1])
                continue
        else:
            if type(s[3]) is int and s[3] == 0:
                continue
            if out and out[-1][0] == "b" and out[-1][1] is s[1]:
                p = out[-1]
                q = sym_eq(p[2] + p[3], s[2])
                if q is True or (q is not False and q.known() is None and not V.SPEC.depth and fork_known(q)):
                    out[-1] = ("b", p[1], p[2], p[3] + s[3])
                    continue
        out.append(s)
    if not out:
        return b""
    if all(s[0] == "c" for s in out):
        return SymBytes.make(out[0][1])
    return Rope(out)


def fork_known(q):
    """True if the condition is already entailed (no split is introduced for a false answer)."""
    E = V.eng()
    return E.entails(q.e)


def rope_eq(x, y):
    """Structural equality with case splits on lengths; bool|SymBool."""
    if not fork(sym_eq(x.length(), y.length())):
        return False
    a = [list(s) for s in x.segs]
    b = [list(s) for s in y.segs]
    conds = []
    while True:
        while a and is0(seg_len(a[0])):
            a.pop(0)
        while b and is0(seg_len(b[0])):
            b.pop(0)
        if not a or not b:
            # equal total lengths: what is left has length zero
            return b_and(*conds) if conds else True
        la, lb = seg_len(a[0]), seg_len(b[0])
        if type(la) is SymInt and not fork(la != 0):
            a.pop(0)
            continue
        if type(lb) is SymInt and not fork(lb != 0):
            b.pop(0)
            continue
        if fork(sym_eq(la, lb)):
            n = la
        elif fork(lt(la, lb)):
            n = la
        else:
            n = lb
        ha, ra = split(a[0], n, la)
        hb, rb = split(b[0], n, lb)
        q = seg_eq(ha, hb, n)
        if q is False:
            return False
        if q is not True:
            conds.append(q)
        a[0:1] = [ra] if ra is not None else []
        b[0:1] = [rb] if rb is not None else []


def is0(n):
    return type(n) is int and n == 0


def seg_len(s):
    return len(s[1]) if s[0] == "c" else s[3]


def split(s, n, ln):
    if n is ln or (type(n) is int and type(ln) is int and n == ln) or fork(sym_eq(n, ln)):
        return s, None
    if s[0] == "c":
        k = idx(n)
        return ["c", s[1][:k]], ["c", s[1][k:]]
    return ["b", s[1], s[2], n], ["b", s[1], s[2] + n, ln - n]


def seg_eq(a, b, n):
    if a[0] == "c" and b[0] == "c":
        return cells_eq(a[1], b[1])
    if a[0] == "b" and b[0] == "b":
        if a[1] is b[1]:
            return fork(sym_eq(a[2], b[2]))
        return False
    if a[0] == "b":
        a, b = b, a
    # cells against a blob slice
    if b[1].origin == "ct" or b[1].origin == "junk":
        return False
    off = b[2] if type(b[2]) is int else None
    if off is None:
        return False
    return cells_eq(a[1], tuple(b[1].cell(off + k) for k in range(len(a[1]))))
