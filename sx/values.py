"""Symbolic values: integers, booleans, byte strings and text.

SymInt   a Python int whose value is a bit-vector term; an interval [lo, hi] is kept so that every
         operation is carried out at a width at which it cannot wrap (Python ints do not wrap).
         Two extra views keep terms small: `bits`, the GF(2)-affine form of every bit over the bits of
         the input variables, and `tab`/`idx`, a finite table indexed by a smaller symbolic integer.
SymBool  a symbolic truth value; `bool()` of it forks the path.
SymBytes / SymStr / SymByteArray  sequences of concrete length whose cells are int or SymInt.
"""
import functools

import z3

from . import engine as _eng


def eng():
    return _eng.ENGINE


class SpecAbort(BaseException):
    """Speculative evaluation needs a fork or an effect: fall back to forking."""


class _Spec:
    merging = False               # both branches are done, their results are being joined
    depth = 0


SPEC = _Spec()


def fork(cond):
    """cond: bool | SymBool -> bool"""
    if cond is True or cond is False:
        return cond
    if type(cond) is SymBool:
        k = cond.known()
        if k is not None:
            return k
        e = cond.e
        if SPEC.depth:
            c = z3.simplify(e)
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
            neg = False
            if z3.is_not(c):
                neg = True
                c = c.arg(0)
            v = eng().facts.get(c.get_id())
            if v is not None:
                return v ^ neg
            raise SpecAbort()
        E = eng()
        if cond.lin is not None and (E.neq or E.splits) and E.lin_impossible(cond.lin):
            return not cond.pol
        r = E.fork(e)
        learn(cond, r)
        return r
    return bool(cond)


def learn(cond, truth=True):
    """Record the affine equations a decided condition implies (Gaussian elimination over GF(2))."""
    if type(cond) is not SymBool:
        return
    if cond.bit is not None:
        eng().lin_learn((cond.bit ^ 1 if truth else cond.bit,), False)
    elif cond.lin is not None:
        if cond.pol == truth:
            eng().lin_learn(cond.lin, True)
        else:
            eng().neq.append(cond.lin)


# ---------------------------------------------------------------------------------------------------
class SymBool:
    __slots__ = ("_e", "bit", "lin", "pol")
    __hash__ = None

    def __init__(self, e=None, bit=None, lin=None, pol=True):
        self._e = e
        self.bit = bit
        self.lin = lin        # tuple of affine masks: the condition is (all of them zero) == pol
        self.pol = pol

    @property
    def __class__(self):
        return bool

    @property
    def e(self):
        if self._e is None:
            self._e = bit_to_z3(self.bit) == z3.BitVecVal(1, 1)
        return self._e

    def known(self):
        if self.bit is not None:
            if self.bit == 0:
                return False
            if self.bit == 1:
                return True
            return None
        e = self._e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return None

    def __bool__(self):
        return fork(self)

    def as_int(self):
        if self.bit is not None:
            return mkbits((self.bit,))
        return SymInt(z3.If(self.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 0, 1)

    def __index__(self):
        return 1 if self else 0

    __int__ = __index__

    def __eq__(self, o):
        if type(o) is SymBool:
            if self.bit is not None and o.bit is not None:
                return mkbool(bit=self.bit ^ o.bit ^ 1)
            return mkbool(self.e == o.e)
        if o is True or (type(o) is int and o == 1):
            return self
        if o is False or (type(o) is int and o == 0):
            return b_not(self)
        if is_intlike(o):
            return self.as_int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __and__(self, o):
        if isinstance(o, bool):
            return b_and(self, o)
        return self.as_int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return b_or(self, o)
        return self.as_int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return b_not(self == o)
        return self.as_int() ^ o

    __rxor__ = __xor__

    def __repr__(self):
        return "<SymBool>"

    def __str__(self):
        return "True" if self else "False"

    def __format__(self, spec):
        return format(bool(self), spec)


def _fwd(name):
    def f(self, *a):
        x = self.as_int()
        if type(x) is int:
            return getattr(x, name)(*a)
        return getattr(x, name)(*a)

    f.__name__ = name
    return f


for _n in ("__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __lshift__ __rlshift__ __rshift__ "
           "__rrshift__ __floordiv__ __mod__ __lt__ __le__ __gt__ __ge__ __neg__ __invert__ __pow__ "
           "__rpow__ __truediv__").split():
    setattr(SymBool, _n, _fwd(_n))


def mkbool(e=None, bit=None):
    if bit is not None:
        if bit == 0:
            return False
        if bit == 1:
            return True
        E = eng()
        if E.lin:
            r = E.lin_reduce(bit)
            if r <= 1:
                return r == 1
        return SymBool(None, bit)
    if e is True or e is False:
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def b_not(a):
    if type(a) is SymBool:
        if a.bit is not None:
            return mkbool(bit=a.bit ^ 1)
        r = mkbool(z3.Not(a.e))
        if type(r) is SymBool and a.lin is not None:
            r.lin, r.pol = a.lin, not a.pol
        return r
    return not a


def b_and(*xs):
    es = []
    last = None
    for x in xs:
        if type(x) is not SymBool:
            if not x:
                return False
            continue
        es.append(x.e)
        last = x
    if not es:
        return True
    if len(es) == 1:
        return last
    r = mkbool(z3.And(es))
    if type(r) is SymBool:
        lin = []
        for x in xs:
            if type(x) is SymBool:
                if x.bit is not None:
                    lin.append(x.bit ^ 1)
                elif x.lin is not None and x.pol:
                    lin.extend(x.lin)
                else:
                    lin = None
                    break
        if lin:
            r.lin = tuple(lin)
    return r


def b_or(*xs):
    es = []
    last = None
    for x in xs:
        if type(x) is not SymBool:
            if x:
                return True
            continue
        es.append(x.e)
        last = x
    if not es:
        return False
    if len(es) == 1:
        return last
    return mkbool(z3.Or(es))


def zexpr(b):
    return b.e if type(b) is SymBool else z3.BoolVal(bool(b))


# ---------------------------------------------------------------------------------------------------
def bit_to_z3(mask):
    """Affine mask -> 1-bit BV term."""
    E = eng()
    parts = []
    m = mask & ~1
    while m:
        low = m & -m
        leaf, i = E.leaf_info[low.bit_length() - 1]
        parts.append(z3.Extract(i, i, leaf))
        m ^= low
    if mask & 1:
        parts.append(z3.BitVecVal(1, 1))
    if not parts:
        return z3.BitVecVal(0, 1)
    r = parts[0]
    for p in parts[1:]:
        r = r ^ p
    return r


def bits_to_z3(bits):
    """LSB-first affine masks -> BV term, grouping runs."""
    E = eng()
    info = E.leaf_info
    pieces = []     # LSB first terms
    i = 0
    n = len(bits)
    while i < n:
        m = bits[i]
        if m in (0, 1):
            j = i
            v = 0
            while j < n and bits[j] in (0, 1):
                v |= bits[j] << (j - i)
                j += 1
            pieces.append(z3.BitVecVal(v, j - i))
            i = j
            continue
        v = m & ~1
        if v & (v - 1) == 0:
            leaf, b = info[v.bit_length() - 1]
            j = i + 1
            const = m & 1
            while j < n:
                m2 = bits[j]
                v2 = m2 & ~1
                if not v2 or v2 & (v2 - 1):
                    break
                l2, b2 = info[v2.bit_length() - 1]
                if l2 is not leaf or b2 != b + (j - i):
                    break
                const |= (m2 & 1) << (j - i)
                j += 1
            if b == 0 and j - i == leaf.size():
                t = leaf
            else:
                t = z3.Extract(b + (j - i) - 1, b, leaf)
            if const == (1 << (j - i)) - 1:
                t = ~t
            elif const:
                t = t ^ z3.BitVecVal(const, j - i)
            pieces.append(t)
            i = j
            continue
        pieces.append(bit_to_z3(m))
        i += 1
    if len(pieces) == 1:
        return pieces[0]
    return z3.Concat(list(reversed(pieces)))


def width_for(lo, hi):
    if lo >= 0:
        return max(1, hi.bit_length())
    return max(hi.bit_length(), (-lo - 1).bit_length()) + 1


def is_intlike(x):
    t = type(x)
    return t is int or t is SymInt or t is bool or t is SymBool


def norm_int(x):
    """int | SymInt from int-like"""
    t = type(x)
    if t is int or t is SymInt:
        return x
    if t is bool:
        return int(x)
    if t is SymBool:
        return x.as_int()
    if isinstance(x, int):
        return int(x)
    return None


MAXTAB = 1 << 9


class SymInt:
    __slots__ = ("_e", "lo", "hi", "bits", "tab", "idx", "xo")

    def __init__(self, e, lo, hi, bits=None, tab=None, idx=None):
        self._e = e
        self.lo = lo
        self.hi = hi
        self.bits = bits
        self.tab = tab
        self.idx = idx
        self.xo = None            # (value, constant) this is the XOR of

    @property
    def __class__(self):
        return int

    def __hash__(self):
        return 0x51ED

    # -- representation ---------------------------------------------------------------------------
    @property
    def w(self):
        return width_for(self.lo, self.hi)

    @property
    def e(self):
        if self._e is None:
            if self.bits is not None:
                t = bits_to_z3(self.bits)
                w = self.w
                if t.size() > w:
                    t = z3.Extract(w - 1, 0, t)
                elif t.size() < w:
                    t = z3.ZeroExt(w - t.size(), t)
                self._e = z3.simplify(t)
            else:
                self._e = tab_to_z3(self.tab, self.idx, self.w, self.lo < 0)
        return self._e

    def ext(self, W):
        e = self.e
        d = W - e.size()
        if d == 0:
            return e
        if d < 0:
            return z3.Extract(W - 1, 0, e)
        return z3.SignExt(d, e) if self.lo < 0 else z3.ZeroExt(d, e)

    def getbits(self, n=None):
        """Affine bits (non-negative values only), padded with zeros to n; None if not affine."""
        if self.bits is None:
            return None
        b = self.bits
        if n is not None and len(b) < n:
            b = b + (0,) * (n - len(b))
        return b

    def force_bits(self):
        """Bits, introducing a definition variable if the value is not affine."""
        if self.lo < 0:
            return None
        if self.bits is None:
            E = eng()
            leaf = E.fresh_bv("d", self.w)
            E.add(leaf == self.e)
            self.bits = E.leaf_bits(leaf)
            self._e = leaf
        return self.bits

    # -- control ------------------------------------------------------------------------------------
    def __bool__(self):
        return fork(self.truth())

    def truth(self):
        return b_not(self == 0)

    def __index__(self):
        return concretize_int(self)

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __repr__(self):
        return "<SymInt %d..%d>" % (self.lo, self.hi)

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    # -- arithmetic -----------------------------------------------------------------------------------
    def __add__(self, o):
        o = norm_int(o)
        if o is None:
            return NotImplemented
        if type(o) is int:
            if o == 0:
                return self
            if self.tab is not None:
                return map_cell(self, lambda v: v + o)
        b = disjoint_or(self, o)
        if b is not None:
            return b
        return arith(self, o, lambda x, y: x + y, lo_of(self) + lo_of(o), hi_of(self) + hi_of(o))

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        o = norm_int(o)
        if o is None:
            return NotImplemented
        if type(o) is int:
            if o == 0:
                return self
            if self.tab is not None:
                return map_cell(self, lambda v: v - o)
        elif o is self:
            return 0
        return arith(self, o, lambda x, y: x - y, lo_of(self) - hi_of(o), hi_of(self) - lo_of(o))

    def __rsub__(self, o):
        o = norm_int(o)
        if o is None:
            return NotImplemented
        if self.tab is not None and type(o) is int:
            return map_cell(self, lambda v: o - v)
        return arith(o, self, lambda x, y: x - y, lo_of(o) - self.hi, hi_of(o) - self.lo)

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return ite(self < 0, -self, self)

    def __mul__(self, o):
        if isinstance(o, (bytes, str, list, tuple)) and not is_intlike(o):
            return o * self.__index__()
        o = norm_int(o)
        if o is None:
            return NotImplemented
        if type(o) is int:
            if o == 0:
                return 0
            if o == 1:
                return self
            if self.tab is not None:
                return map_cell(self, lambda v: v * o)
            if o > 0 and o & (o - 1) == 0 and self.lo >= 0:
                return self << (o.bit_length() - 1)
        c = [lo_of(self) * lo_of(o), lo_of(self) * hi_of(o), hi_of(self) * lo_of(o), hi_of(self) * hi_of(o)]
        return arith(self, o, lambda x, y: x * y, min(c), max(c))

    def __rmul__(self, o):
        return self.__mul__(o)

    def __floordiv__(self, o):
        return divmod_(self, o)[0]

    def __mod__(self, o):
        return divmod_(self, o)[1]

    def __divmod__(self, o):
        return divmod_(self, o)

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        return o % self.__index__()

    def __rdivmod__(self, o):
        return divmod(o, self.__index__())

    def __truediv__(self, o):
        o = norm_int(o)
        if o is None:
            return NotImplemented
        if type(o) is SymInt:
            o = o.__index__()
        if o == 0:
            raise ZeroDivisionError("division by zero")
        if o < 0:
            return SymFrac(-self, -o)
        return SymFrac(self, o)

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __pow__(self, o, mod=None):
        if mod is not None:
            return pow(self.__index__(), int(o), int(mod))
        if type(o) is int and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return self.__index__() ** int(o)

    def __rpow__(self, o):
        if o == 2 and self.lo >= 0:
            return 1 << self
        return o ** self.__index__()

    def __lshift__(self, o):
        o = norm_int(o)
        if o is None:
            return NotImplemented
        if type(o) is SymInt:
            o = o.__index__()
        if o < 0:
            raise ValueError("negative shift count")
        if o == 0:
            return self
        if self.bits is not None:
            return mkbits((0,) * o + self.bits)
        if self.tab is not None:
            return map_cell(self, lambda v: v << o)
        lo, hi = self.lo << o, self.hi << o
        W = width_for(lo, hi)
        return fit(self.ext(W) << o, lo, hi)

    def __rlshift__(self, o):
        o = norm_int(o)
        if o is None:
            return NotImplemented
        if type(o) is int and self.lo >= 0 and self.hi <= 4096:
            lo, hi = (o << self.lo, o << self.hi) if o >= 0 else (o << self.hi, o << self.lo)
            W = width_for(lo, hi)
            W = max(W, self.w)
            return fit(z3.BitVecVal(o, W) << self.ext(W), lo, hi)
        return o << self.__index__()

    def __rshift__(self, o):
        o = norm_int(o)
        if o is None:
            return NotImplemented
        if type(o) is SymInt:
            if self.lo >= 0 and o.lo >= 0:
                W = max(self.w, o.w)
                return fit(z3.LShR(self.ext(W), o.ext(W)), 0, self.hi >> o.lo)
            o = o.__index__()
        if o < 0:
            raise ValueError("negative shift count")
        if o == 0:
            return self
        if self.bits is not None:
            return mkbits(self.bits[o:])
        if self.tab is not None:
            return map_cell(self, lambda v: v >> o)
        lo, hi = self.lo >> o, self.hi >> o
        e = self.e >> o if self.lo < 0 else z3.LShR(self.e, o)
        return fit(e, lo, hi)

    def __rrshift__(self, o):
        o = norm_int(o)
        if type(o) is int and o >= 0 and self.lo >= 0:
            W = max(width_for(0, o), self.w)
            return fit(z3.LShR(z3.BitVecVal(o, W), self.ext(W)), 0, o >> self.lo)
        return o >> self.__index__()

    def __and__(self, o):
        o = norm_int(o)
        if o is None:
            return NotImplemented
        if type(o) is int:
            if o >= 0 and self.bits is not None:
                return mkbits(tuple(b if (o >> i) & 1 else 0 for i, b in enumerate(self.bits)))
            if o < 0 and self.bits is not None:
                return mkbits(tuple(b if (o >> i) & 1 else 0 for i, b in enumerate(self.bits)))
            if self.tab is not None:
                return map_cell(self, lambda v: v & o)
        elif o is self:
            return self
        if lo_of(self) >= 0 and lo_of(o) >= 0:
            lo, hi = 0, min(hi_of(self), hi_of(o))
        elif lo_of(o) >= 0:
            lo, hi = 0, hi_of(o)
        elif self.lo >= 0:
            lo, hi = 0, self.hi
        else:
            m = 1 << (max(width_for(self.lo, self.hi), width_for(lo_of(o), hi_of(o))) - 1)
            lo, hi = -m, m - 1
        return arith(self, o, lambda x, y: x & y, lo, hi)

    __rand__ = __and__

    def __or__(self, o):
        o = norm_int(o)
        if o is None:
            return NotImplemented
        if type(o) is int:
            if o == 0:
                return self
            if o > 0 and self.bits is not None:
                n = max(len(self.bits), o.bit_length())
                b = self.getbits(n)
                return mkbits(tuple(1 if (o >> i) & 1 else b[i] for i in range(n)))
            if self.tab is not None:
                return map_cell(self, lambda v: v | o)
        b = disjoint_or(self, o)
        if b is not None:
            return b
        return arith(self, o, lambda x, y: x | y, *bw_range(self, o))

    __ror__ = __or__

    def __xor__(self, o):
        o = norm_int(o)
        if o is None:
            return NotImplemented
        if type(o) is int:
            if o == 0:
                return self
            if o > 0 and self.bits is not None:
                n = max(len(self.bits), o.bit_length())
                b = self.getbits(n)
                return mkbits(tuple(b[i] ^ ((o >> i) & 1) for i in range(n)))
            if self.tab is not None:
                return map_cell(self, lambda v: v ^ o)
        else:
            if self.bits is not None and o.bits is not None:
                n = max(len(self.bits), len(o.bits))
                x, y = self.getbits(n), o.getbits(n)
                return mkbits(tuple(x[i] ^ y[i] for i in range(n)))
            if self.tab is not None and o.tab is not None and (self.idx is o.idx or self.idx.bits is not None and self.idx.bits == o.idx.bits):
                n = min(len(self.tab), len(o.tab))
                return tab_cell(tuple(self.tab[k] ^ o.tab[k] for k in range(n)), self.idx)
            if self.lo >= 0 and o.lo >= 0 and (self.bits is not None or o.bits is not None) and (not SPEC.depth or SPEC.merging):
                # linear over defined bits: chains of XORs (checksums) stay affine
                x, y = self.force_bits(), o.force_bits()
                n = max(len(x), len(y))
                x, y = self.getbits(n), o.getbits(n)
                return mkbits(tuple(x[i] ^ y[i] for i in range(n)))
        r = arith(self, o, lambda x, y: x ^ y, *bw_range(self, o))
        if type(o) is int and type(r) is SymInt:
            r.xo = (self, o)
        return r

    __rxor__ = __xor__

    def __invert__(self):
        return -1 - self

    # -- comparison ----------------------------------------------------------------------------------
    def __eq__(self, o):
        x = norm_int(o)
        if x is None:
            if type(o) is SymFrac:
                return o == self
            if isinstance(o, float):
                return (self == int(o)) if o == int(o) else False
            return NotImplemented
        return int_eq(self, x)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __lt__(self, o):
        return int_cmp(self, o, "<")

    def __le__(self, o):
        return int_cmp(self, o, "<=")

    def __gt__(self, o):
        return int_cmp(self, o, ">")

    def __ge__(self, o):
        return int_cmp(self, o, ">=")

    # -- int methods -----------------------------------------------------------------------------------
    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        length = norm_int(length)
        if type(length) is SymInt:
            length = length.__index__()
        if self.lo < 0 and not signed:
            if fork(self < 0):
                raise OverflowError("can't convert negative int to unsigned")
            x = fit(self.e, 0, self.hi)
        else:
            x = self
        if signed:
            lim = 1 << (8 * length - 1) if length else 0
            if fork(b_or(x < -lim, x >= max(lim, 1))):
                raise OverflowError("int too big to convert")
            e = x.ext(max(8 * length, 1))
            cells = [fit(z3.Extract(8 * i + 7, 8 * i, e), 0, 255) for i in range(length)]
        else:
            if hi_of(x) >= 1 << (8 * length):
                if fork(x >= (1 << (8 * length))):
                    raise OverflowError("int too big to convert")
            cells = []
            for i in range(length):
                cells.append((x >> (8 * i)) & 0xFF)
        if byteorder == "big":
            cells.reverse()
        return mkbytes(cells)

    def bit_length(self):
        if self.lo < 0:
            return self.__index__().bit_length()
        r = 0
        w = self.w
        for i in range(w):
            r = ite(self >= (1 << i), i + 1, r)
        return r

    def bit_count(self):
        r = 0
        for i in range(self.w):
            r = r + ((self >> i) & 1)
        return r

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    denominator = 1
    imag = 0

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self


def lo_of(x):
    return x if type(x) is int else x.lo


def hi_of(x):
    return x if type(x) is int else x.hi


def zx(x, W):
    return z3.BitVecVal(x, W) if type(x) is int else x.ext(W)


def fit(e, lo, hi):
    """SymInt from a term whose value lies in [lo, hi]; brings it to the canonical width."""
    if lo == hi:
        return lo
    w = width_for(lo, hi)
    n = e.size()
    if n > w:
        e = z3.Extract(w - 1, 0, e)
    elif n < w:
        e = z3.SignExt(w - n, e) if lo < 0 else z3.ZeroExt(w - n, e)
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_signed_long() if lo < 0 else e.as_long()
    return SymInt(e, lo, hi)


def arith(a, b, op, lo, hi):
    W = max(width_for(lo, hi), width_for(min(lo_of(a), lo_of(b), lo), max(hi_of(a), hi_of(b), hi)))
    return fit(op(zx(a, W), zx(b, W)), lo, hi)


def bw_range(a, b):
    if lo_of(a) >= 0 and lo_of(b) >= 0:
        n = max(hi_of(a).bit_length(), hi_of(b).bit_length())
        return 0, (1 << n) - 1
    m = 1 << (max(width_for(lo_of(a), hi_of(a)), width_for(lo_of(b), hi_of(b))) - 1)
    return -m, m - 1


def mkbits(bits):
    """Integer from affine bits (LSB first)."""
    n = len(bits)
    while n and bits[n - 1] == 0:
        n -= 1
    bits = bits[:n]
    lo = hi = 0
    sym = False
    for i, b in enumerate(bits):
        if b == 1:
            lo |= 1 << i
            hi |= 1 << i
        elif b:
            hi |= 1 << i
            sym = True
    if not sym:
        return lo
    return SymInt(None, lo, hi, bits=tuple(bits))


def disjoint_or(a, b):
    """a + b == a | b when no bit can be set in both (affine operands)."""
    if type(a) is SymInt and a.bits is None or type(b) is SymInt and b.bits is None:
        return None
    if lo_of(a) < 0 or lo_of(b) < 0:
        return None
    n = max(hi_of(a).bit_length(), hi_of(b).bit_length())
    x = a.getbits(n) if type(a) is SymInt else tuple((a >> i) & 1 for i in range(n))
    y = b.getbits(n) if type(b) is SymInt else tuple((b >> i) & 1 for i in range(n))
    for i in range(n):
        if x[i] and y[i]:
            return None
    return mkbits(tuple(x[i] or y[i] for i in range(n)))


def divmod_(a, b):
    b = norm_int(b)
    if b is None:
        raise TypeError("unsupported operand")
    if type(b) is SymInt:
        b = b.__index__()
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if type(a) is int:
        return divmod(a, b)
    if b < 0:
        q, r = divmod_(-a, -b)
        return q, -r
    if b == 1:
        return a, 0
    if a.tab is not None:
        return map_cell(a, lambda v: v // b), map_cell(a, lambda v: v % b)
    if b & (b - 1) == 0:
        k = b.bit_length() - 1
        return a >> k, a & (b - 1)
    if a.lo < 0:
        k = -(a.lo // b)
        q, r = divmod_(a + k * b, b)
        return q - k, r
    W = max(a.w, b.bit_length())
    x = a.ext(W)
    d = z3.BitVecVal(b, W)
    q = fit(z3.UDiv(x, d), a.lo // b, a.hi // b)
    rlo, rhi = (0, b - 1) if a.lo // b != a.hi // b else (a.lo % b, a.hi % b)
    r = fit(z3.URem(x, d), rlo, min(rhi, a.hi))
    return q, r


def int_eq(a, b):
    """a SymInt, b int|SymInt -> bool|SymBool"""
    if a is b:
        return True
    if lo_of(b) > a.hi or hi_of(b) < a.lo:
        return False
    if type(b) is int:
        if a.bits is not None:
            return bits_eq(a.bits, tuple((b >> i) & 1 for i in range(max(len(a.bits), b.bit_length()))))
        if a.tab is not None:
            return tab_pred(a, lambda v: v == b)
        return mkbool(a.e == z3.BitVecVal(b, a.w))
    if a.bits is not None and b.bits is not None:
        return bits_eq(a.bits, b.bits)
    if a.tab is not None and b.tab is not None and a.idx is b.idx and len(a.tab) == len(b.tab):
        t1, t2 = a.tab, b.tab
        return in_set(a.idx, {k for k in range(len(t1)) if t1[k] == t2[k]})
    if a.tab is not None and a.tab == b.tab and len(set(a.tab)) == len(a.tab):
        return a.idx == b.idx
    if a.tab is not None and b.tab is not None and a.idx.bits is not None and a.idx.bits == b.idx.bits:
        return in_set(a.idx, {k for k in range(min(len(a.tab), len(b.tab))) if a.tab[k] == b.tab[k]})
    inv = eng().path_state.get("inv")
    if inv:
        for x, y in ((a, b), (b, a)):
            if x.tab is not None:
                for tab, v in inv.get(cell_key(y), ()):
                    if tab == x.tab:
                        return int_eq(x.idx, v)
    W = width_for(min(a.lo, b.lo), max(a.hi, b.hi))
    return mkbool(a.ext(W) == b.ext(W))


def cell_key(c):
    if c.tab is not None:
        return c.tab, c.idx.bits if c.idx.bits is not None else id(c.idx)
    return c.bits if c.bits is not None else id(c)


@functools.lru_cache(4096)
def const_bits(v, n):
    return tuple((v >> i) & 1 for i in range(n))


def bits_eq(x, y):
    n = max(len(x), len(y))
    x = x + (0,) * (n - len(x))
    y = y + (0,) * (n - len(y))
    diffs = set()
    idx = []
    for i in range(n):
        d = x[i] ^ y[i]
        if d == 1:
            return False
        if d and d not in diffs:
            diffs.add(d)
            idx.append(i)
    if not diffs:
        return True
    E = eng()
    if E.lin:
        keep, red, seen = [], [], set()
        for i in idx:
            r = E.lin_reduce(x[i] ^ y[i])
            if r == 1:
                return False
            if r and r not in seen:
                seen.add(r)
                keep.append(i)
                red.append(r)
        idx = keep
        if not idx:
            return True
    masks = tuple(x[i] ^ y[i] for i in idx)
    if len(idx) == 1:
        return mkbool(bit=masks[0] ^ 1)
    xs = tuple(x[i] for i in idx)
    ys = tuple(y[i] for i in idx)
    r = mkbool(bits_to_z3(xs) == bits_to_z3(ys))
    if type(r) is SymBool:
        r.lin = masks
    return r


def int_cmp(a, o, op):
    b = norm_int(o)
    if b is None:
        if type(o) is SymFrac:
            return {"<": o.__gt__, "<=": o.__ge__, ">": o.__lt__, ">=": o.__le__}[op](a)
        if isinstance(o, float):
            import math
            if o == math.inf:
                return op in ("<", "<=")
            if op in ("<", ">="):
                return int_cmp(a, math.ceil(o), op)
            return int_cmp(a, math.floor(o), op)
        return NotImplemented
    bl, bh = lo_of(b), hi_of(b)
    if op == ">":
        r = int_cmp(a, b, "<=")
        return b_not(r)
    if op == ">=":
        return b_not(int_cmp(a, b, "<"))
    if op == "<":
        if a.hi < bl:
            return True
        if a.lo >= bh:
            return False
    else:
        if a.hi <= bl:
            return True
        if a.lo > bh:
            return False
    if a.tab is not None and type(b) is int:
        return tab_pred(a, (lambda v: v < b) if op == "<" else (lambda v: v <= b))
    lo, hi = min(a.lo, bl), max(a.hi, bh)
    W = width_for(lo, hi)
    x, y = a.ext(W), zx(b, W)
    if lo < 0:
        return mkbool(x < y if op == "<" else x <= y)
    return mkbool(z3.ULT(x, y) if op == "<" else z3.ULE(x, y))


# --------------------------------------------------------------------------------------------- tables
def tab_to_z3(tab, idx, W, signed):
    """Piecewise formula for tab[idx], built over runs where tab[k]-k is constant."""
    runs = []      # (start, offset or const, kind)
    n = len(tab)
    lo, hi = idx.lo, min(idx.hi, n - 1)
    k = lo
    WI = max(W, idx.w) + 1
    ie = idx.ext(WI)
    while k <= hi:
        j = k + 1
        while j <= hi and tab[j] == tab[k]:
            j += 1
        jl = k + 1
        while jl <= hi and tab[jl] - jl == tab[k] - k:
            jl += 1
        if j >= jl:
            runs.append((k, z3.BitVecVal(tab[k], WI)))
            k = j
        else:
            d = tab[k] - k
            runs.append((k, ie if d == 0 else ie + z3.BitVecVal(d, WI)))
            k = jl

    def build(i, j):
        if j - i == 1:
            return runs[i][1]
        m = (i + j) // 2
        return z3.If(z3.ULT(ie, z3.BitVecVal(runs[m][0], WI)), build(i, m), build(m, j))

    e = build(0, len(runs))
    return z3.simplify(z3.Extract(W - 1, 0, e))


def tab_cell(tab, idx):
    """tab[idx] as an integer; idx int|SymInt within range."""
    if type(idx) is int:
        return tab[idx]
    if idx.tab is not None:
        return tab_cell(tuple(tab[v] if 0 <= v < len(tab) else tab[0] for v in idx.tab), idx.idx)
    n = min(len(tab), idx.hi + 1)
    vals = tab[idx.lo:n]
    lo, hi = min(vals), max(vals)
    if lo == hi:
        return lo
    if idx.bits is not None and lo >= 0:
        # affine table?
        nb = len(idx.bits)
        if n == 1 << nb and idx.lo == 0:
            base = tab[0]
            cols = [tab[1 << i] ^ base for i in range(nb)]
            ok = True
            for k in range(n):
                v = base
                for i in range(nb):
                    if (k >> i) & 1:
                        v ^= cols[i]
                if v != tab[k]:
                    ok = False
                    break
            if ok:
                outw = hi.bit_length()
                bits = []
                for i in range(outw):
                    m = (base >> i) & 1
                    for j in range(nb):
                        if (cols[j] >> i) & 1:
                            m ^= idx.bits[j]
                    bits.append(m)
                return mkbits(tuple(bits))
    if all(tab[k] == k for k in range(idx.lo, n)):
        return idx
    return SymInt(None, lo, hi, tab=tuple(tab[:n]), idx=idx)


def map_cell(c, f):
    """f(c) for a unary function f on small non-negative ints."""
    if type(c) is int:
        return f(c)
    if c.tab is not None:
        lo, hi = c.idx.lo, c.idx.hi
        return tab_cell(tuple(f(v) if lo <= k <= hi else 0 for k, v in enumerate(c.tab)), c.idx)
    if c.lo >= 0 and c.hi < MAXTAB:
        return tab_cell(tuple(f(v) if v >= c.lo else 0 for v in range(c.hi + 1)), c)
    raise SpecAbort() if SPEC.depth else _eng.HarnessError("map_cell on wide cell %r" % (c,))


def small(c):
    return type(c) is int or c.tab is not None or (c.lo >= 0 and c.hi < MAXTAB)


def tab_pred(c, f):
    lo, hi = c.idx.lo, c.idx.hi
    return in_set(c.idx, {k for k in range(lo, min(hi, len(c.tab) - 1) + 1) if f(c.tab[k])})


def in_set(c, s):
    """c in s for a set of ints; bool|SymBool."""
    if type(c) is int:
        return c in s
    if c.tab is not None:
        return in_set(c.idx, {k for k in range(c.idx.lo, min(c.idx.hi, len(c.tab) - 1) + 1) if c.tab[k] in s})
    vs = sorted(v for v in s if c.lo <= v <= c.hi)
    if not vs:
        return False
    if len(vs) == c.hi - c.lo + 1:
        return True
    if len(vs) > (c.hi - c.lo + 1) // 2 and c.hi - c.lo < MAXTAB:
        sv = set(vs)
        return b_not(in_set(c, {v for v in range(c.lo, c.hi + 1) if v not in sv}))
    if len(vs) == 1:
        return c == vs[0]
    rs = []
    a = b = vs[0]
    for v in vs[1:]:
        if v == b + 1:
            b = v
        else:
            rs.append((a, b))
            a = b = v
    rs.append((a, b))
    return in_ranges(c, rs)


def in_ranges(c, ranges):
    if type(c) is int:
        return any(a <= c <= b for a, b in ranges)
    if c.tab is not None:
        return tab_pred(c, lambda v: any(a <= v <= b for a, b in ranges))
    out = []
    for a, b in ranges:
        if b < c.lo or a > c.hi:
            continue
        if a <= c.lo and c.hi <= b:
            return True
        if a == b:
            out.append(c == a)
        elif a <= c.lo:
            out.append(c <= b)
        elif b >= c.hi:
            out.append(c >= a)
        else:
            out.append(b_and(c >= a, c <= b))
    return b_or(*out)


# --------------------------------------------------------------------------------------- concretisation
def concretize_int(x, limit=400):
    """All feasible values are explored, one per path."""
    if type(x) is int:
        return x
    if SPEC.depth:
        e = z3.simplify(x.e)
        if z3.is_bv_value(e):
            return e.as_signed_long() if x.lo < 0 else e.as_long()
        raise SpecAbort()
    v = eng().enumerate_int(x.e, limit)
    if x.lo < 0 and v >= 1 << (x.w - 1):
        v -= 1 << x.w
    return v


def pick_int(x):
    """One feasible value (exploration becomes incomplete)."""
    if type(x) is int:
        return x
    E = eng()
    s = z3.simplify(x.e)
    if z3.is_bv_value(s):
        v = s.as_long()
    else:
        if SPEC.depth:
            raise SpecAbort()
        v = E.pick(x.e)
    if x.lo < 0 and v >= 1 << (x.w - 1):
        v -= 1 << x.w
    return v


# --------------------------------------------------------------------------------------------- ite
def xor_between(a, b):
    """The constant two symbolic values differ by (XOR), where that is evident."""
    if type(a) is not SymInt or type(b) is not SymInt or a.lo < 0 or b.lo < 0 or max(a.hi, b.hi) < 1 << 16:
        return None
    if a.xo is not None and a.xo[0] is b:
        return a.xo[1]
    if b.xo is not None and b.xo[0] is a:
        return b.xo[1]
    if a.tab is not None and b.tab is not None and a.idx is b.idx and len(a.tab) == len(b.tab):
        d = {x ^ y for x, y in zip(a.tab, b.tab)}
        return d.pop() if len(d) == 1 else None
    if a.bits is not None and b.bits is not None:
        n = max(len(a.bits), len(b.bits))
        d = [x ^ y for x, y in zip(a.getbits(n), b.getbits(n))]
        return sum(x << i for i, x in enumerate(d)) if set(d) <= {0, 1} else None
    return None


def ite(c, a, b):
    """Merged conditional; a, b int-like, bool or equal-length sequences. Raises SpecAbort if not mergeable."""
    if type(c) is not SymBool:
        return a if c else b
    k = c.known()
    if k is not None:
        return a if k else b
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if ta in (bool, SymBool) and tb in (bool, SymBool):
        if ta is bool and tb is bool:
            if a == b:
                return a
            return c if a else b_not(c)
        return mkbool(z3.If(c.e, zexpr(a), zexpr(b)))
    if is_intlike(a) and is_intlike(b):
        a, b = norm_int(a), norm_int(b)
        if type(a) is int and type(b) is int and a == b:
            return a
        if c.bit is not None and lo_of(a) >= 0 and lo_of(b) >= 0:
            xa = a.bits if type(a) is SymInt else ()
            xb = b.bits if type(b) is SymInt else ()
            if xa is not None and xb is not None:
                # a and b must differ by a constant: bit = b ^ c*(a^b)
                n = max(hi_of(a).bit_length(), hi_of(b).bit_length())
                x = a.getbits(n) if type(a) is SymInt else tuple((a >> i) & 1 for i in range(n))
                y = b.getbits(n) if type(b) is SymInt else tuple((b >> i) & 1 for i in range(n))
                out = []
                ok = True
                for i in range(n):
                    d = x[i] ^ y[i]
                    if d == 0:
                        out.append(y[i])
                    elif d == 1:
                        out.append(y[i] ^ c.bit)
                    elif y[i] == 0 and x[i] == c.bit:
                        out.append(x[i])
                    else:
                        ok = False
                        break
                if ok:
                    return mkbits(tuple(out))
        g = xor_between(a, b)
        if g is not None:
            return b ^ ite(c, g, 0)
        lo, hi = min(lo_of(a), lo_of(b)), max(hi_of(a), hi_of(b))
        W = width_for(lo, hi)
        return fit(z3.If(c.e, zx(a, W), zx(b, W)), lo, hi)
    sa, sb = as_seq(a), as_seq(b)
    if sa is not None and sb is not None and type(sa) is type(sb) and len(sa.cells) == len(sb.cells):
        return sa.make([ite(c, x, y) for x, y in zip(sa.cells, sb.cells)])
    if ta is tuple and tb is tuple and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if a is None and b is None:
        return None
    raise SpecAbort()


# --------------------------------------------------------------------------------------------- fractions
class SymFrac:
    """num/den with num SymInt and den a positive int: the exact quotient."""
    __slots__ = ("num", "den")

    def __init__(self, num, den):
        self.num = num
        self.den = den

    @property
    def __class__(self):
        return float

    def __ceil__(self):
        return -((-self.num) // self.den)

    def __floor__(self):
        return self.num // self.den

    def __trunc__(self):
        if lo_of(self.num) >= 0:
            return self.num // self.den
        return ite(self.num >= 0, self.num // self.den, -((-self.num) // self.den))

    __int__ = __trunc__

    def __bool__(self):
        return fork(b_not(self.num == 0))

    def is_integer(self):
        return self.num % self.den == 0

    def _other(self, o):
        if type(o) is SymFrac:
            return o
        n = norm_int(o)
        if n is not None:
            return SymFrac(n, 1)
        if isinstance(o, float):
            a, b = o.as_integer_ratio()
            return SymFrac(a, b)
        return None

    def _cmp(self, o, op):
        o = self._other(o)
        if o is None:
            return NotImplemented
        x, y = self.num * o.den, o.num * self.den
        return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
                "==": lambda: x == y, "!=": lambda: x != y}[op]()

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")
    def __eq__(self, o): return self._cmp(o, "==")
    def __ne__(self, o): return self._cmp(o, "!=")
    __hash__ = None

    def __add__(self, o):
        o = self._other(o)
        return NotImplemented if o is None else SymFrac(self.num * o.den + o.num * self.den, self.den * o.den)

    __radd__ = __add__

    def __sub__(self, o):
        o = self._other(o)
        return NotImplemented if o is None else SymFrac(self.num * o.den - o.num * self.den, self.den * o.den)

    def __rsub__(self, o):
        o = self._other(o)
        return NotImplemented if o is None else o - self

    def __neg__(self):
        return SymFrac(-self.num, self.den)

    def __mul__(self, o):
        o = self._other(o)
        return NotImplemented if o is None else SymFrac(self.num * o.num, self.den * o.den)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        n = o.num if type(o.num) is int else o.num.__index__()
        if n == 0:
            raise ZeroDivisionError("float division by zero")
        if n < 0:
            return SymFrac(-self.num * o.den, self.den * -n)
        return SymFrac(self.num * o.den, self.den * n)

    def __floordiv__(self, o):
        return (self / o).__floor__()

    def __float__(self):
        return pick_int(self.num) / self.den

    def __round__(self, n=None):
        if n is None:
            q = (self.num * 2 + self.den) // (2 * self.den)
            half = (self.num * 2 + self.den) % (2 * self.den) == 0
            return ite(b_and(half, q % 2 == 1), q - 1, q)
        return round(float(self), n)

    def __repr__(self):
        return "<SymFrac>"


# registered by seq.py to avoid an import cycle
def as_seq(x):
    return None


def mkbytes(cells):
    raise NotImplementedError
