"""Symbolic byte strings and text of concrete length."""
import re as _re

from . import values as V
from . import engine as _eng
from .values import SymInt, SymBool, SymFrac, fork, b_and, b_or, b_not, norm_int, in_ranges, in_set, map_cell

WS_BYTES = [(9, 13), (32, 32)]
WS_TEXT = [(9, 13), (28, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A),
           (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]
LB_TEXT = [(10, 13), (28, 30), (0x85, 0x85), (0x2028, 0x2029)]


def is_native_seq(x):
    return isinstance(x, (bytes, str, bytearray)) and type(x) not in SEQ_TYPES


class SymSeq:
    __slots__ = ("cells",)
    TEXT = False
    KIND = bytes

    def __init__(self, cells):
        self.cells = cells

    # identity of kinds -------------------------------------------------------------------------------
    @classmethod
    def make(cls, cells):
        """Normalise: all-concrete sequences become native."""
        for c in cells:
            if type(c) is not int:
                return cls(tuple(cells))
        return bytes(cells)

    def coerce(self, o):
        """SymSeq of the same kind from o, or None."""
        s = as_seq(o)
        if s is None or s.TEXT != self.TEXT:
            return None
        return s

    def need(self, o):
        s = self.coerce(o)
        if s is None:
            raise TypeError("expected %s, got %s" % (self.KIND.__name__, type_name(o)))
        return s

    def __hash__(self):
        return 0x5E0 + len(self.cells)

    def __len__(self):
        return len(self.cells)

    def __iter__(self):
        if self.TEXT:
            for c in self.cells:
                yield self.make([c])
        else:
            yield from self.cells

    def __reversed__(self):
        if self.TEXT:
            for c in reversed(self.cells):
                yield self.make([c])
        else:
            yield from reversed(self.cells)

    def __bool__(self):
        return bool(self.cells)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.make(self.cells[native_slice(i)])
        i = norm_int(i)
        if i is None:
            raise TypeError("indices must be integers or slices")
        if type(i) is SymInt:
            c = index_cells(self.cells, i)
        else:
            c = self.cells[i]
        return self.make([c]) if self.TEXT else c

    def __add__(self, o):
        if type(o).__name__ == "Rope":
            return NotImplemented
        s = self.coerce(o)
        if s is None:
            return NotImplemented
        return self.make(self.cells + tuple(s.cells))

    def __radd__(self, o):
        s = self.coerce(o)
        if s is None:
            return NotImplemented
        return self.make(tuple(s.cells) + self.cells)

    def __mul__(self, n):
        n = norm_int(n)
        if n is None:
            return NotImplemented
        if type(n) is SymInt:
            n = n.__index__()
        return self.make(self.cells * n)

    __rmul__ = __mul__

    def __mod__(self, args):
        from . import fmt
        return fmt.percent(self, args)

    # comparison --------------------------------------------------------------------------------------
    def __eq__(self, o):
        if type(o).__name__ == "Rope":
            return o.__eq__(self)
        s = self.coerce(o)
        if s is None:
            return False if not isinstance(o, SymSeq) or s is None else NotImplemented
        return cells_eq(self.cells, s.cells)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def _lt(self, a, b, strict):
        n = min(len(a), len(b))
        if n <= 8:
            r = len(a) < len(b) if strict else len(a) <= len(b)
            for i in reversed(range(n)):
                r = V.b_or(norm_lt(a[i], b[i]), V.b_and(cell_eq(a[i], b[i]), r))
            return r
        for i in range(n):
            if fork(cell_eq(a[i], b[i])):
                continue
            return norm_lt(a[i], b[i])
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        s = self.coerce(o)
        return NotImplemented if s is None else self._lt(self.cells, s.cells, True)

    def __le__(self, o):
        s = self.coerce(o)
        return NotImplemented if s is None else self._lt(self.cells, s.cells, False)

    def __gt__(self, o):
        s = self.coerce(o)
        return NotImplemented if s is None else self._lt(s.cells, self.cells, True)

    def __ge__(self, o):
        s = self.coerce(o)
        return NotImplemented if s is None else self._lt(s.cells, self.cells, False)

    def __contains__(self, x):
        return fork(self.contains(x))

    def contains(self, x):
        if not self.TEXT:
            n = norm_int(x)
            if n is not None:
                if type(n) is SymInt and all(type(c) is int for c in self.cells):
                    return V.in_set(n, set(self.cells))
                return b_or(*[cell_eq(c, n) for c in self.cells])
        s = self.need(x)
        m = len(s.cells)
        if m == 0:
            return True
        if m == 1 and all(type(c) is int for c in self.cells):
            return V.in_set(s.cells[0], set(self.cells))
        return b_or(*[cells_eq(self.cells[i:i + m], s.cells) for i in range(len(self.cells) - m + 1)])

    # searching ---------------------------------------------------------------------------------------
    def _range(self, start, end):
        n = len(self.cells)
        a, b, _ = slice(idx(start), idx(end)).indices(n)
        return a, b

    def _needle(self, sub):
        if not self.TEXT:
            k = norm_int(sub)
            if k is not None:
                return (k,)
        return self.need(sub).cells

    def find(self, sub, start=None, end=None):
        s = self._needle(sub)
        a, b = self._range(start, end)
        m = len(s)
        if m == 1 and type(s[0]) is SymInt:
            r = table_lookup(s[0], {c: a + i for i, c in reversed(list(enumerate(self.cells[a:b])))}
                             if all(type(c) is int for c in self.cells[a:b]) else None)
            if r is not None:
                return -1 if r is MISSING else r
        for i in range(a, b - m + 1):
            if fork(cells_eq(self.cells[i:i + m], s)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        s = self._needle(sub)
        a, b = self._range(start, end)
        m = len(s)
        for i in range(b - m, a - 1, -1):
            if fork(cells_eq(self.cells[i:i + m], s)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        s = self._needle(sub)
        a, b = self._range(start, end)
        m = len(s)
        if m == 1:
            total = 0
            for c in self.cells[a:b]:
                q = cell_eq(c, s[0])
                total = total + (q.as_int() if type(q) is SymBool else int(q))
            return total
        n = 0
        i = a
        if m == 0:
            return b - a + 1
        while i + m <= b:
            if fork(cells_eq(self.cells[i:i + m], s)):
                n += 1
                i += m
            else:
                i += 1
        return n

    def startswith(self, prefix, start=None, end=None):
        if isinstance(prefix, tuple):
            return b_or(*[self.startswith(p, start, end) for p in prefix])
        a, b = self._range(start, end)
        if start is not None and idx(start) > len(self.cells):
            return False
        s = self.need(prefix).cells
        if len(s) > b - a:
            return False
        return cells_eq(self.cells[a:a + len(s)], s)

    def endswith(self, suffix, start=None, end=None):
        if isinstance(suffix, tuple):
            return b_or(*[self.endswith(p, start, end) for p in suffix])
        a, b = self._range(start, end)
        s = self.need(suffix).cells
        if len(s) > b - a:
            return False
        return cells_eq(self.cells[b - len(s):b], s)

    def removeprefix(self, p):
        return self[len(p):] if fork(self.startswith(p)) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and fork(self.endswith(p)) else self

    # stripping and splitting ---------------------------------------------------------------------------
    def _stripset(self, chars):
        if chars is None:
            rs = WS_TEXT if self.TEXT else WS_BYTES
            return lambda c: in_ranges(c, rs)
        s = self.need(chars).cells
        return lambda c: b_or(*[cell_eq(c, x) for x in s])

    def lstrip(self, chars=None):
        f = self._stripset(chars)
        i = 0
        while i < len(self.cells) and fork(f(self.cells[i])):
            i += 1
        return self.make(self.cells[i:])

    def rstrip(self, chars=None):
        f = self._stripset(chars)
        j = len(self.cells)
        while j > 0 and fork(f(self.cells[j - 1])):
            j -= 1
        return self.make(self.cells[:j])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        s = as_seq(r)
        return s.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = idx(maxsplit)
        out = []
        if sep is None:
            f = self._stripset(None)
            i = 0
            n = len(self.cells)
            while True:
                while i < n and fork(f(self.cells[i])):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(as_seq(self.make(self.cells[i:])).rstrip())
                    break
                j = i
                while j < n and not fork(f(self.cells[j])):
                    j += 1
                out.append(self.make(self.cells[i:j]))
                i = j
            return out
        s = self.need(sep).cells
        m = len(s)
        if m == 0:
            raise ValueError("empty separator")
        i = start = 0
        while i + m <= len(self.cells):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if fork(cells_eq(self.cells[i:i + m], s)):
                out.append(self.make(self.cells[start:i]))
                i += m
                start = i
            else:
                i += 1
        out.append(self.make(self.cells[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = idx(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        rev = self.make(self.cells[::-1])
        if sep is None:
            parts = as_seq(rev).split(None, maxsplit)
        else:
            parts = as_seq(rev).split(self.make(self.need(sep).cells[::-1]), maxsplit)
        return [p[::-1] for p in parts[::-1]]

    def partition(self, sep):
        i = self.find(sep)
        e = self.make(())
        if i < 0:
            return (self, e, e)
        m = len(sep)
        return (self.make(self.cells[:i]), sep, self.make(self.cells[i + m:]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        e = self.make(())
        if i < 0:
            return (e, e, self)
        m = len(sep)
        return (self.make(self.cells[:i]), sep, self.make(self.cells[i + m:]))

    def splitlines(self, keepends=False):
        out = []
        i = start = 0
        n = len(self.cells)
        lb = LB_TEXT if self.TEXT else [(10, 10), (13, 13)]
        while i < n:
            if fork(in_ranges(self.cells[i], lb)):
                j = i + 1
                if fork(cell_eq(self.cells[i], 13)) and j < n and fork(cell_eq(self.cells[j], 10)):
                    j += 1
                out.append(self.make(self.cells[start:j if keepends else i]))
                i = start = j
            else:
                i += 1
        if start < n:
            out.append(self.make(self.cells[start:]))
        return out

    def join(self, items):
        out = []
        first = True
        for it in items:
            s = self.coerce(it)
            if s is None:
                raise TypeError("sequence item: expected %s instance, %s found" % (self.KIND.__name__, type_name(it)))
            if not first:
                out.extend(self.cells)
            out.extend(s.cells)
            first = False
        return self.make(out)

    def replace(self, old, new, count=-1):
        count = idx(count)
        o = self.need(old).cells
        nw = self.need(new).cells
        m = len(o)
        if m == 0:
            return concretize_seq(self).replace(old, new, count)
        if m == 1 and len(nw) == 1 and count < 0:
            out = []
            for c in self.cells:
                q = cell_eq(c, o[0])
                if type(q) is SymBool and type(o[0]) is int and type(nw[0]) is int and V.small(c):
                    a, b = o[0], nw[0]
                    out.append(map_cell(c, lambda v: b if v == a else v))
                else:
                    out.append(nw[0] if fork(q) else c)
            return self.make(out)
        out = []
        i = k = 0
        n = len(self.cells)
        while i < n:
            if (count < 0 or k < count) and i + m <= n and fork(cells_eq(self.cells[i:i + m], o)):
                out.extend(nw)
                i += m
                k += 1
            else:
                out.append(self.cells[i])
                i += 1
        return self.make(out)

    # case -----------------------------------------------------------------------------------------------
    def _casemap(self, fn, lofn):
        out = []
        for c in self.cells:
            if type(c) is int:
                r = fn(chr(c)) if self.TEXT else lofn(c)
                if self.TEXT:
                    out.extend(ord(x) for x in r)
                else:
                    out.append(r)
                continue
            if not self.TEXT:
                out.append(same_value(map_cell(c, lofn)))
                continue
            out.extend(text_case(c, fn))
        return self.make(out)

    def lower(self):
        return self._casemap(str.lower, lambda v: v + 32 if 65 <= v <= 90 else v)

    def upper(self):
        return self._casemap(str.upper, lambda v: v - 32 if 97 <= v <= 122 else v)

    def casefold(self):
        return self._casemap(str.casefold, None)

    def swapcase(self):
        return self._casemap(str.swapcase, lambda v: v ^ 32 if (65 <= v <= 90 or 97 <= v <= 122) else v)

    def _all(self, f, empty=False):
        if not self.cells:
            return empty
        return b_and(*[f(c) for c in self.cells])

    def _pred(self, name):
        def f(c):
            if self.TEXT:
                if type(c) is int:
                    return getattr(chr(c), name)()
                return unicode_pred(c, name)
            if type(c) is int:
                return getattr(bytes([c]), name)()
            return in_set(c, {v for v in range(256) if getattr(bytes([v]), name)()})
        return f

    def isdigit(self): return self._all(self._pred("isdigit"))
    def isalpha(self): return self._all(self._pred("isalpha"))
    def isalnum(self): return self._all(self._pred("isalnum"))
    def isspace(self): return self._all(self._pred("isspace"))
    def isdecimal(self): return self._all(self._pred("isdecimal"))
    def isnumeric(self): return self._all(self._pred("isnumeric"))
    def isprintable(self): return self._all(self._pred("isprintable"), True)

    def isascii(self):
        return self._all(lambda c: c < 128 if type(c) is SymInt else c < 128, True)

    def isupper(self):
        return b_and(self._any_(self._pred("isupper")), b_not(self._any_(self._pred("islower"))))

    def islower(self):
        return b_and(self._any_(self._pred("islower")), b_not(self._any_(self._pred("isupper"))))

    def _any_(self, f):
        return b_or(*[f(c) for c in self.cells])

    # padding ---------------------------------------------------------------------------------------------
    def ljust(self, w, fill=None):
        f = self.need(fill).cells[0] if fill is not None else 32
        return self.make(tuple(self.cells) + (f,) * (idx(w) - len(self.cells)))

    def rjust(self, w, fill=None):
        f = self.need(fill).cells[0] if fill is not None else 32
        return self.make((f,) * (idx(w) - len(self.cells)) + tuple(self.cells))

    def center(self, w, fill=None):
        n = max(0, idx(w) - len(self.cells))
        f = self.need(fill).cells[0] if fill is not None else 32
        left = n // 2 + (n & idx(w) & 1)
        return self.make((f,) * left + tuple(self.cells) + (f,) * (n - left))

    def zfill(self, w):
        n = idx(w) - len(self.cells)
        if n <= 0:
            return self
        if self.cells and fork(b_or(cell_eq(self.cells[0], 43), cell_eq(self.cells[0], 45))):
            return self.make((self.cells[0],) + (48,) * n + tuple(self.cells[1:]))
        return self.make((48,) * n + tuple(self.cells))

    def translate(self, table, delete=b""):
        if not self.TEXT:
            t = table if table is not None else bytes(range(256))
            out = []
            dels = as_seq(delete).cells
            for c in self.cells:
                if dels and fork(b_or(*[cell_eq(c, d) for d in dels])):
                    continue
                ts = as_seq(t)
                out.append(index_cells(ts.cells, c) if type(c) is SymInt else ts.cells[c])
            return self.make(out)
        out = []
        for c in self.cells:
            for k, v in table.items():
                if fork(cell_eq(c, k)):
                    if v is None:
                        pass
                    elif isinstance(v, int):
                        out.append(v)
                    else:
                        out.extend(as_seq(v).cells)
                    break
            else:
                out.append(c)
        return self.make(out)

    def __repr__(self):
        # used for messages only; see fmt.sym_repr for symbolic representations
        return "<%s len %d>" % (type(self).__name__, len(self.cells))

    def __getattr__(self, name):
        # anything not modelled: concretise and use the native method
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(self.KIND, name):
            return getattr(concretize_seq(self), name)
        raise AttributeError("'%s' object has no attribute '%s'" % (self.KIND.__name__, name))


class SymBytes(SymSeq):
    __slots__ = ()
    TEXT = False
    KIND = bytes

    @property
    def __class__(self):
        return bytes

    def decode(self, encoding="utf-8", errors="strict"):
        return decode_bytes(self.cells, encoding, errors)

    def hex(self, sep=None, bytes_per_sep=1):
        out = []
        n = len(self.cells)
        if sep is not None:
            sepc = as_seq(sep).cells[0]
            k = abs(idx(bytes_per_sep))
        for i, c in enumerate(self.cells):
            if sep is not None and i:
                pos = n - i if idx(bytes_per_sep) > 0 else i
                if pos % k == 0:
                    out.append(sepc)
            out.append(map_cell(c >> 4 if type(c) is SymInt else c >> 4, lambda v: ord("0123456789abcdef"[v])))
            out.append(map_cell(c & 15 if type(c) is SymInt else c & 15, lambda v: ord("0123456789abcdef"[v])))
        return SymStr.make(out)

    def __buffer__(self, flags):
        return concretize_seq(self).__buffer__(flags)

    def __bytes__(self):
        return concretize_seq(self)

    def tobytes(self):
        return self

    def release(self):
        pass


class SymStr(SymSeq):
    __slots__ = ()
    TEXT = True
    KIND = str

    @property
    def __class__(self):
        return str

    @classmethod
    def make(cls, cells):
        for c in cells:
            if type(c) is not int:
                return cls(tuple(cells))
        return "".join(map(chr, cells))

    def encode(self, encoding="utf-8", errors="strict"):
        return encode_text(self.cells, encoding, errors)

    def __str__(self):
        return "<symbolic text>"

    def __format__(self, spec):
        return "<symbolic text>"

    def format(self, *a, **k):
        return concretize_seq(self).format(*a, **k)

    def expandtabs(self, n=8):
        return concretize_seq(self).expandtabs(n)

    def title(self):
        return concretize_seq(self).title()

    def capitalize(self):
        if not self.cells:
            return self
        return self[:1].upper() + self[1:].lower()

    def isidentifier(self):
        return concretize_seq(self).isidentifier()


class SymByteArray(SymSeq):
    """Mutable byte array (always a model object, even when concrete)."""
    __slots__ = ("rope",)
    TEXT = False
    KIND = bytearray

    def __init__(self, cells=()):
        self.cells = tuple(cells)
        self.rope = None

    __hash__ = None

    def value(self):
        return self.rope if self.rope is not None else mkbytes(self.cells)

    def length(self):
        return self.rope.length() if self.rope is not None else len(self.cells)

    def _set(self, v):
        if type(v).__name__ == "Rope":
            self.rope, self.cells = v, ()
        else:
            self.rope, self.cells = None, tuple(as_seq(v).cells)

    def __len__(self):
        return len(self.rope) if self.rope is not None else len(self.cells)

    def __bool__(self):
        return bool(self.rope) if self.rope is not None else bool(self.cells)

    def __getitem__(self, i):
        if self.rope is not None:
            r = self.rope[i]
            if isinstance(i, slice):
                o = SymByteArray()
                o._set(r)
                return o
            return r
        return SymSeq.__getitem__(self, i)

    def __eq__(self, o):
        if self.rope is not None:
            return self.rope == o
        return SymSeq.__eq__(self, o)

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __add__(self, o):
        if self.rope is not None or type(o).__name__ == "Rope":
            r = SymByteArray()
            r._set(self.value() + o)
            return r
        return SymSeq.__add__(self, o)

    @property
    def __class__(self):
        return bytearray

    @classmethod
    def make(cls, cells):
        return SymByteArray(tuple(cells))

    def decode(self, encoding="utf-8", errors="strict"):
        return decode_bytes(self.cells, encoding, errors)

    def hex(self, *a):
        return SymBytes(self.cells).hex(*a)

    def append(self, v):
        self.cells = self.cells + (byte_cell(v),)

    def extend(self, it):
        if type(it).__name__ == "Rope" or self.rope is not None:
            self._set(self.value() + (it.value() if type(it) is SymByteArray else it))
            return
        s = as_seq(it) if not isinstance(it, (list, tuple)) else None
        self.cells = self.cells + (tuple(s.cells) if s is not None else tuple(byte_cell(v) for v in it))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __setitem__(self, i, v):
        l = list(self.cells)
        if isinstance(i, slice):
            s = as_seq(v)
            l[native_slice(i)] = s.cells if s is not None else [byte_cell(x) for x in v]
        else:
            l[idx(i)] = byte_cell(v)
        self.cells = tuple(l)

    def __delitem__(self, i):
        if self.rope is not None and isinstance(i, slice) and i.step is None:
            r = self.rope
            a, b = i.start, i.stop
            if a is None:
                self._set(r[b:] if b is not None else b"")
            else:
                self._set(r[:a] + (r[b:] if b is not None else b""))
            return
        l = list(self.cells)
        del l[native_slice(i) if isinstance(i, slice) else idx(i)]
        self.cells = tuple(l)

    def insert(self, i, v):
        l = list(self.cells)
        l.insert(idx(i), byte_cell(v))
        self.cells = tuple(l)

    def pop(self, i=-1):
        l = list(self.cells)
        r = l.pop(idx(i))
        self.cells = tuple(l)
        return r

    def clear(self):
        self.cells = ()

    def copy(self):
        return SymByteArray(self.cells)

    def reverse(self):
        self.cells = self.cells[::-1]


SEQ_TYPES = (SymBytes, SymStr, SymByteArray)


def type_name(x):
    if type(x) is SymInt:
        return "int"
    if type(x) is SymBool:
        return "bool"
    return x.__class__.__name__


def idx(x):
    if x is None or type(x) is int:
        return x
    n = norm_int(x)
    if type(n) is SymInt:
        return n.__index__()
    if n is None:
        return x.__index__()
    return n


def native_slice(s):
    return slice(idx(s.start), idx(s.stop), idx(s.step))


def byte_cell(v):
    v = norm_int(v)
    if v is None:
        raise TypeError("an integer is required")
    if type(v) is int:
        if not 0 <= v <= 255:
            raise ValueError("byte must be in range(0, 256)")
        return v
    if v.lo < 0 or v.hi > 255:
        if fork(b_or(v < 0, v > 255)):
            raise ValueError("byte must be in range(0, 256)")
        return V.fit(v.ext(max(9, v.w)), 0, 255)
    return v


def as_seq(x):
    """SymSeq view of native or symbolic byte/text sequences, else None."""
    t = type(x)
    if t in SEQ_TYPES:
        return x
    if t is bytes:
        return SymBytes(tuple(x))
    if t is str:
        return SymStr(tuple(map(ord, x)))
    if t is bytearray or t is memoryview:
        return SymBytes(tuple(bytes(x)))
    if t.__name__ == "Rope":
        return x.to_seq()
    if isinstance(x, bytes) and t is not SymInt:
        return SymBytes(tuple(x))
    if isinstance(x, str):
        return SymStr(tuple(map(ord, x)))
    return None


def mkbytes(cells):
    return SymBytes.make(cells)


def mkstr(cells):
    return SymStr.make(cells)


V.as_seq = as_seq
V.mkbytes = mkbytes


MISSING = object()


def table_lookup(c, table):
    """table[c] for a symbolic cell and a concrete int->int table: value, MISSING, or None if not applicable."""
    if not table or any(type(v) is not int for v in table.values()):
        return None
    if not fork(V.in_set(c, set(table))):
        return MISSING
    if not V.small(c):
        c = narrow(c, max(c.lo, min(table)), min(c.hi, max(table)))
    if not V.small(c):
        return None
    r = map_cell(c, lambda v: table.get(v, 0))
    if type(r) is SymInt and r.bits is None and len(table) >= 8:
        vals = sorted(table.values())
        n = len(vals)
        if vals == list(range(n)) and n & (n - 1) == 0:
            # change of variable: a fresh index v with c == inverse[v]
            inv = {v: k for k, v in table.items()}
            E = V.eng()
            leaf = E.fresh_bv("ix", n.bit_length() - 1)
            v = V.mkbits(E.leaf_bits(leaf))
            back = V.tab_cell(tuple(inv[i] for i in range(n)), v)
            E.add(V.zexpr(cell_eq(c, back)))
            if type(back) is SymInt and back.tab is not None:
                E.path_state.setdefault("inv", {}).setdefault(V.cell_key(c), []).append((back.tab, v))
            return v
    return r


def cell_eq(a, b):
    if type(a) is int:
        if type(b) is int:
            return a == b
        return V.int_eq(b, a)
    return V.int_eq(a, b)


def norm_lt(a, b):
    if type(a) is int and type(b) is int:
        return a < b
    if type(a) is int:
        return b > a
    return a < b


def cells_eq(a, b):
    """Equality of two cell tuples: bool | SymBool."""
    if len(a) != len(b):
        return False
    if len(a) > 3:
        xa, ya = [], []
        for x, y in zip(reversed(a), reversed(b)):
            if x is y:
                continue
            tx, ty = type(x), type(y)
            if tx is int and ty is int:
                if x != y:
                    return False
                continue
            if tx is SymInt and x.bits is None or ty is SymInt and y.bits is None or tx is not SymInt and tx is not int \
                    or ty is not SymInt and ty is not int or tx is int and x < 0 or ty is int and y < 0:
                xa = None
                break
            if V.lo_of(x) > V.hi_of(y) or V.hi_of(x) < V.lo_of(y):
                return False
            n = max(8, len(x.bits) if tx is SymInt else x.bit_length(), len(y.bits) if ty is SymInt else y.bit_length())
            xa.extend(x.getbits(n) if tx is SymInt else V.const_bits(x, n))
            ya.extend(y.getbits(n) if ty is SymInt else V.const_bits(y, n))
        if xa is not None:
            return V.bits_eq(tuple(xa), tuple(ya)) if xa else True
    pend = []
    for x, y in zip(a, b):
        if x is y:
            continue
        if type(x) is int:
            if type(y) is int:
                if x != y:
                    return False
                continue
            q = V.int_eq(y, x) if type(y) is SymInt else x == y
        else:
            q = V.int_eq(x, y)
        if q is False:
            return False
        if q is not True:
            pend.append(q)
    if not pend:
        return True
    if len(pend) > 3:
        # whole-block affine comparison gives much smaller terms than a conjunction
        ok = all((type(x) is int or x.bits is not None) and (type(y) is int or y.bits is not None)
                 for x, y in zip(a, b))
        if ok:
            xa, ya = [], []
            for x, y in zip(reversed(a), reversed(b)):
                if x is y:
                    continue
                n = 8
                if type(x) is SymInt:
                    n = max(n, len(x.bits))
                if type(y) is SymInt:
                    n = max(n, len(y.bits))
                xa.extend(x.getbits(n) if type(x) is SymInt else tuple((x >> i) & 1 for i in range(n)))
                ya.extend(y.getbits(n) if type(y) is SymInt else tuple((y >> i) & 1 for i in range(n)))
            return V.bits_eq(tuple(xa), tuple(ya))
    return b_and(*pend)


def index_cells(cells, i):
    """cells[i] for a symbolic index."""
    n = len(cells)
    if i.lo < -n or i.hi >= n:
        if fork(b_or(i < -n, i >= n)):
            raise IndexError("index out of range")
    if i.lo < 0:
        if fork(i < 0):
            i = i + n
            i = V.fit(i.ext(max(i.w, 1)), 0, min(n - 1, max(0, i.hi)))
        else:
            i = V.fit(i.e, 0, min(i.hi, n - 1))
        if type(i) is int:
            return cells[i]
    if i.hi >= n:
        j = V.fit(i.e, i.lo, n - 1)
        if type(j) is int:
            return cells[j]
        if i.bits is not None:
            j.bits = i.bits[:j.w]
        if i.tab is not None:
            j.tab, j.idx = tuple(min(v, n - 1) for v in i.tab), i.idx
        i = j
    if all(type(c) is int for c in cells):
        return V.tab_cell(tuple(cells), i)
    r = cells[min(i.hi, n - 1)]
    for k in range(min(i.hi, n - 1) - 1, max(i.lo, 0) - 1, -1):
        r = V.ite(i == k, cells[k], r)
    return r


def getitem_native(seq, i):
    """Native list/tuple/str/bytes/range indexed by a SymInt."""
    n = len(seq)
    if isinstance(seq, (bytes, bytearray)):
        return index_cells(tuple(seq), i)
    if isinstance(seq, str):
        return mkstr([index_cells(tuple(map(ord, seq)), i)])
    if all(V.is_intlike(v) for v in seq) and n:
        return index_cells(tuple(V.norm_int(v) for v in seq), i)
    return seq[i.__index__()]


# --------------------------------------------------------------------------------------------- text
_CASE_SPECIAL = {}


def text_case(c, fn):
    """Case mapping of one symbolic code point -> list of cells."""
    lim = c.hi
    sp = _CASE_SPECIAL.get(fn)
    if sp is None:
        sp = sorted(v for v in range(0x250) if len(fn(chr(v))) != 1 or ord(fn(chr(v))) >= 0x10000)
        _CASE_SPECIAL[fn] = sp
    if c.tab is not None:
        vals = set(c.tab[c.idx.lo:c.idx.hi + 1])
        if all(len(fn(chr(v))) == 1 for v in vals):
            return [same_value(map_cell(c, lambda v: ord(fn(chr(v)))))]
    if lim < V.MAXTAB:
        hit = {v for v in sp if c.lo <= v <= lim}
        if not hit or not fork(V.in_set(c, hit)):
            return [same_value(map_cell(c, lambda v: ord(fn(chr(v))) if v not in hit else v))]
        return [ord(x) for x in fn(chr(V.concretize_int(c, 600)))]
    if fork(c < 128):
        d = narrow(c, 0, 127)
        return [same_value(map_cell(d, lambda v: ord(fn(chr(v)))))]
    v = V.concretize_int(c, 600)
    return [ord(x) for x in fn(chr(v))]


def same_value(r):
    """A table cell that is the identity on every value possible on this path is replaced by its index."""
    if type(r) is int or r.tab is None or r.idx.bits is None or r.idx.tab is not None:
        return r
    i = r.idx
    n = len(r.tab)
    diff = {k for k in range(i.lo, min(i.hi, n - 1) + 1) if r.tab[k] != k}
    if len(diff) > 60:
        return r
    q = V.in_set(i, diff)
    if q is False:
        return i
    if q is True:
        return r
    if V.eng().entails(V.z3.Not(q.e)):
        return i
    return r


def narrow(c, lo, hi):
    """Same value, known to lie in [lo, hi] on this path."""
    if type(c) is int:
        return c
    lo = max(lo, c.lo)
    hi = min(hi, c.hi)
    if lo == c.lo and hi == c.hi:
        return c
    if c.tab is not None:
        return c
    r = V.fit(c.e, lo, hi)
    if type(r) is SymInt and c.bits is not None:
        r.bits = c.bits[:r.w]
    return r


_UPRED = {}


def unicode_pred(c, name):
    rs = _UPRED.get(name)
    if rs is None:
        rs = []
        prev = None
        for v in range(0x110000):
            if getattr(chr(v), name)():
                if prev is not None and prev[1] == v - 1:
                    prev[1] = v
                else:
                    prev = [v, v]
                    rs.append(prev)
        _UPRED[name] = rs = [tuple(r) for r in rs]
    return in_ranges(c, rs)


def norm_enc(e):
    return e.lower().replace("_", "-") if isinstance(e, str) else "utf-8"


class SymUnicodeError:
    pass


def _udec(enc, pos, why):
    return UnicodeDecodeError(enc, b"\xff" * (pos + 1), pos, pos + 1, why)


def decode_bytes(cells, encoding="utf-8", errors="strict"):
    enc = norm_enc(encoding)
    if enc in ("ascii", "us-ascii"):
        out = []
        for i, c in enumerate(cells):
            if fork(c < 128):
                out.append(narrow(c, 0, 127))
            elif errors == "strict":
                raise _udec("ascii", i, "ordinal not in range(128)")
            elif errors == "replace":
                out.append(0xFFFD)
            elif errors == "surrogateescape":
                out.append(c + 0xDC00)
        return mkstr(out)
    if enc in ("latin-1", "latin1", "iso-8859-1", "iso8859-1"):
        return mkstr(cells)
    if enc not in ("utf-8", "utf8", "u8"):
        return concretize_seq(SymBytes(cells)).decode(encoding, errors)
    out = []
    i = 0
    n = len(cells)

    def bad(k, why="invalid start byte"):
        if errors == "strict":
            raise _udec("utf-8", i, why)
        if errors == "replace":
            out.append(0xFFFD)
        elif errors == "surrogateescape":
            for q in range(k):
                out.append(cells[i + q] + 0xDC00)
        elif errors != "ignore":
            raise LookupError("unknown error handler name " + str(errors))
        return k

    while i < n:
        c = cells[i]
        if fork(c < 0x80):
            out.append(narrow(c, 0, 127))
            i += 1
            continue
        if fork(in_ranges(c, [(0xC2, 0xDF)])):
            need, first = 1, (0x80, 0xBF)
        elif fork(in_ranges(c, [(0xE0, 0xEF)])):
            need = 2
            if fork(cell_eq(c, 0xE0)):
                first = (0xA0, 0xBF)
            elif fork(cell_eq(c, 0xED)):
                first = (0x80, 0x9F)
            else:
                first = (0x80, 0xBF)
        elif fork(in_ranges(c, [(0xF0, 0xF4)])):
            need = 3
            if fork(cell_eq(c, 0xF0)):
                first = (0x90, 0xBF)
            elif fork(cell_eq(c, 0xF4)):
                first = (0x80, 0x8F)
            else:
                first = (0x80, 0xBF)
        else:
            i += bad(1)
            continue
        got = 0
        ok = True
        while got < need:
            if i + 1 + got >= n:
                ok = False
                break
            r = first if got == 0 else (0x80, 0xBF)
            if not fork(in_ranges(cells[i + 1 + got], [r])):
                ok = False
                break
            got += 1
        if not ok:
            i += bad(1 + got, "invalid continuation byte")
            continue
        if need == 1:
            cp = ((c & 0x1F) << 6) | (cells[i + 1] & 0x3F)
        elif need == 2:
            cp = ((c & 0x0F) << 12) | ((cells[i + 1] & 0x3F) << 6) | (cells[i + 2] & 0x3F)
        else:
            cp = ((c & 0x07) << 18) | ((cells[i + 1] & 0x3F) << 12) | ((cells[i + 2] & 0x3F) << 6) | (cells[i + 3] & 0x3F)
        out.append(cp)
        i += need + 1
    return mkstr(out)


def encode_text(cells, encoding="utf-8", errors="strict"):
    enc = norm_enc(encoding)
    out = []
    if enc in ("ascii", "us-ascii", "latin-1", "latin1", "iso-8859-1", "iso8859-1"):
        lim = 128 if "ascii" in enc else 256
        for i, c in enumerate(cells):
            if fork(c < lim):
                out.append(narrow(c, 0, lim - 1))
            elif errors == "strict":
                raise UnicodeEncodeError(enc, "\uffff" * (i + 1), i, i + 1, "ordinal not in range(%d)" % lim)
            elif errors == "replace":
                out.append(63)
        return mkbytes(out)
    if enc not in ("utf-8", "utf8", "u8"):
        return concretize_seq(SymStr(cells)).encode(encoding, errors)
    for i, c in enumerate(cells):
        if fork(c < 0x80):
            out.append(narrow(c, 0, 127))
        elif fork(c < 0x800):
            c = narrow(c, 0x80, 0x7FF)
            out += [0xC0 | (c >> 6), 0x80 | (c & 0x3F)]
        elif fork(c < 0x10000):
            if fork(in_ranges(c, [(0xD800, 0xDFFF)])):
                if errors == "surrogateescape" and fork(in_ranges(c, [(0xDC80, 0xDCFF)])):
                    out.append(c - 0xDC00)
                    continue
                raise UnicodeEncodeError("utf-8", "\ud800" * (i + 1), i, i + 1, "surrogates not allowed")
            c = narrow(c, 0x800, 0xFFFF)
            out += [0xE0 | (c >> 12), 0x80 | ((c >> 6) & 0x3F), 0x80 | (c & 0x3F)]
        else:
            out += [0xF0 | (c >> 18), 0x80 | ((c >> 12) & 0x3F), 0x80 | ((c >> 6) & 0x3F), 0x80 | (c & 0x3F)]
    return mkbytes([byte_cell(x) for x in out])


# --------------------------------------------------------------------------------------------- concretisation
def concretize_seq(s):
    """One feasible value of the sequence (incomplete)."""
    t = type(s)
    if t is SymStr:
        return "".join(chr(V.pick_int(c)) for c in s.cells)
    if t is SymBytes:
        return bytes(V.pick_int(c) for c in s.cells)
    if t is SymByteArray:
        return bytearray(V.pick_int(c) for c in s.cells)
    return s
