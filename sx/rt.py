"""Runtime called by instrumented code (`__sx__`)."""
import builtins
import collections
import functools
import itertools
import math
import operator
import re
import types

from . import engine as _eng
from . import values as V
from . import fmt as _fmt
from .seq import (SymSeq, SymBytes, SymStr, SymByteArray, SEQ_TYPES, as_seq, mkbytes, mkstr, idx,
                  concretize_seq, getitem_native, native_slice, byte_cell, is_native_seq, cell_eq, cells_eq, table_lookup, MISSING)
from .rope import Rope
from .values import SymInt, SymBool, SymFrac, SpecAbort, SPEC, fork, b_and, b_or, b_not, ite, norm_int

SYM = (SymInt, SymBool, SymFrac, SymBytes, SymStr, SymByteArray, Rope)
SYMSET = frozenset(SYM)
slice = builtins.slice


class SpecFail(BaseException):
    pass


class _SpecFailMeta(type):
    pass


SpecFail = (SpecAbort, Exception)


class Model:
    """Base of model objects (stand-ins for library objects)."""


OV = {}          # id(obj) -> (obj, fn)
OVM = {}         # (type, method name) -> fn(self, *args)
PASS_MODULES = {"typing", "functools", "collections", "contextlib", "dataclasses", "enum", "abc",
                "operator", "itertools", "numbers", "click.decorators", "click.core", "copy", "copyreg"}
SAFE_C = set()
SAFE_OBJS = []


def override(*objs):
    def deco(fn):
        for o in objs:
            OV[id(o)] = (o, fn)
        return fn
    return deco


def override_method(cls, *names):
    def deco(fn):
        for n in names:
            OVM[(cls, n)] = fn
        return fn
    return deco


def safe(*objs):
    for o in objs:
        SAFE_C.add(id(o))
        SAFE_OBJS.append(o)


def has_sym(x, depth=3):
    t = type(x)
    if t in SYMSET:
        return True
    if depth and (t is list or t is tuple or t is set or t is frozenset):
        for e in x:
            if has_sym(e, depth - 1):
                return True
        return False
    if depth and t is dict:
        for k, v in x.items():
            if has_sym(k, depth - 1) or has_sym(v, depth - 1):
                return True
    return False


def any_sym(a, k):
    for x in a:
        if has_sym(x):
            return True
    for x in k.values():
        if has_sym(x):
            return True
    return False


def concretize(x, depth=4):
    t = type(x)
    if t is SymInt:
        return V.pick_int(x)
    if t is SymBool:
        return bool(x)
    if t is SymFrac:
        return float(x)
    if t in SEQ_TYPES:
        return concretize_seq(x)
    if t is Rope:
        return concretize_seq(x.to_seq())
    if depth:
        if t is list or t is tuple:
            return t(concretize(e, depth - 1) for e in x)
        if t is dict:
            return {concretize(q, depth - 1): concretize(v, depth - 1) for q, v in x.items()}
    return x


# ---------------------------------------------------------------------------------------------------
def call(f, *a, **k):
    ov = OV.get(id(f))
    if ov is not None and ov[0] is f:
        return ov[1](*a, **k)
    t = type(f)
    if t is types.FunctionType:
        if "__sx__" in f.__globals__:
            return f(*a, **k)
        return call_native_py(f, f, a, k)
    if t is types.MethodType:
        fn = f.__func__
        if type(fn) is types.FunctionType:
            if "__sx__" in fn.__globals__:
                return f(*a, **k)
            ov = OV.get(id(fn))
            if ov is not None:
                return ov[1](f.__self__, *a, **k)
            s = f.__self__
            m = OVM.get((s if isinstance(s, type) and type(s) is not SymInt else type(s), fn.__name__))
            if m is not None:
                return m(s, *a, **k)
            return call_native_py(f, fn, a, k)
        return f(*a, **k)
    if t is types.BuiltinFunctionType or t is CMETHOD:
        s = f.__self__
        if s is None or type(s) is types.ModuleType:
            if id(f) in SAFE_C:
                return f(*a, **k)
            if any_sym(a, k):
                return call_concrete(f, a, k)
            return f(*a, **k)
        return call_builtin_method(f, s, f.__name__, a, k)
    if t is types.MethodDescriptorType or t is types.ClassMethodDescriptorType:
        if a:
            s = a[0]
            if type(s) in SYMSET:
                return getattr(s, f.__name__)(*a[1:], **k)
            return call(getattr(s, f.__name__), *a[1:], **k)
        return f(*a, **k)
    if t is type or isinstance(f, type):
        return call_class(f, a, k)
    mod = getattr(t, "__module__", "")
    if t.__name__ == "NewType" and mod == "typing":
        return a[0]
    if t is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    if t is functools._lru_cache_wrapper:
        m = OVM.get(("lru", id(f)))
        return lru_call(f, a, k)
    if t is types.MethodWrapperType:
        return f(*a, **k)
    if isinstance(f, operator_types):
        return f(*a, **k)
    if isinstance(f, Model) or hasattr(t, "__call__") and hasattr(t.__call__, "__globals__") \
            and "__sx__" in t.__call__.__globals__:
        return f(*a, **k)
    if any_sym(a, k):
        return call_concrete(f, a, k)
    return f(*a, **k)


CMETHOD = type(re.compile("").match)
operator_types = (operator.itemgetter, operator.attrgetter, operator.methodcaller)


def call_native_py(f, fn, a, k):
    mod = getattr(fn, "__module__", "") or ""
    if mod in PASS_MODULES or mod.startswith("sx.") or mod == "sx":
        return f(*a, **k)
    if any_sym(a, k):
        return call_concrete(f, a, k)
    return f(*a, **k)


def call_concrete(f, a, k):
    name = getattr(f, "__qualname__", None) or getattr(f, "__name__", None) or repr(f)
    E = _eng.ENGINE
    if E is not None:
        E.note_incomplete("unmodelled call " + str(name))
    if SPEC.depth:
        raise SpecAbort()
    return f(*[concretize(x) for x in a], **{n: concretize(v) for n, v in k.items()})


def lru_call(f, a, k):
    """functools.lru_cache: symbolic arguments are compared with earlier ones."""
    E = _eng.ENGINE
    store = E.path_state.setdefault("lru", {}).setdefault(id(f), [])
    for a0, k0, r in store:
        if len(a0) == len(a) and k0.keys() == k.keys() and type_match(a0, a) \
                and all(fork(x is y or x == y) for x, y in zip(a0, a)) \
                and all(fork(k0[n] == k[n]) for n in k):
            return r
    r = call(f.__wrapped__, *a, **k)
    store.append((a, k, r))
    return r


def type_match(a, b):
    return all(x.__class__ is y.__class__ for x, y in zip(a, b))


LIFT_SELF = (str, bytes, bytearray)


def call_builtin_method(f, s, name, a, k):
    ts = type(s)
    if isinstance(s, type) and ts is not SymInt:
        m = OVM.get((s, name))
        if m is not None:
            return m(*a, **k)
        if s in (bytes, bytearray, str, int, dict) and any_sym(a, k):
            m = CLS_METHODS.get((s, name))
            if m is not None:
                return m(*a, **k)
            return call_concrete(f, a, k)
        if any_sym(a, k):
            return call_concrete(f, a, k)
        return f(*a, **k)
    m = OVM.get((ts, name))
    if m is not None:
        return m(s, *a, **k)
    if isinstance(s, LIFT_SELF) and ts not in SYMSET:
        if name == "join" and a:
            items = list(a[0])
            if any(type(x) in SYMSET for x in items):
                return join(s, items)
            return f(items)
        if name == "format" and (any_sym(a, k) or any(not isinstance(x, (str, int, bytes)) for x in a)):
            return str_format(s, a, k)
        if any_sym(a, k):
            return getattr(as_seq(s), name)(*a, **k)
        return f(*a, **k)
    if isinstance(s, dict):
        return dict_method(f, s, name, a, k)
    if ts is list or ts is tuple or ts is collections.deque:
        if name in ("index", "count", "remove") and (has_sym(s) or any_sym(a, k)):
            return list_search(s, name, a)
        return f(*a, **k)
    if id(f) in SAFE_C or isinstance(s, types.GeneratorType) or ts.__module__ in ("itertools", "functools", "collections"):
        return f(*a, **k)
    if ts in (set, frozenset):
        return f(*a, **k)
    if ts is int and any_sym(a, k):
        return getattr(_int_as_sym(s), name)(*a, **k)
    if any_sym(a, k):
        return call_concrete(f, a, k)
    return f(*a, **k)


class _IntShim:
    def __init__(self, v):
        self.v = v

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        return self.v.to_bytes(idx(length), byteorder, signed=signed)

    def __getattr__(self, n):
        return getattr(self.v, n)


def _int_as_sym(s):
    return _IntShim(s)


def list_search(s, name, a):
    x = a[0]
    if name == "count":
        return sum(1 for y in s if fork(y is x or y == x))
    for i, y in enumerate(s):
        if fork(y is x or y == x):
            if name == "index":
                return i
            del s[i]
            return None
    raise ValueError("value not in list")


def dict_find(d, key):
    """Stored key equal to `key`, or _MISS."""
    for q in d:
        if q is key:
            return q
    for q in list(d):
        if q.__class__ is key.__class__ or isinstance(q, type(key)) or V.is_intlike(q) and V.is_intlike(key) \
                or type(key) is tuple:
            if fork(q == key):
                return q
    return _MISS


_MISS = object()


def dict_table(d, key):
    """Lookup of one symbolic character / small integer in a concrete table: value, MISSING or None."""
    if len(d) < 3 or type(d) is not dict:
        return None
    t = type(key)
    if t is SymStr and len(key.cells) == 1 and type(key.cells[0]) is SymInt:
        if not all(type(q) is str and len(q) == 1 for q in d):
            return None
        return table_lookup(key.cells[0], {ord(q): v for q, v in d.items()})
    if t is SymInt and all(type(q) is int for q in d):
        return table_lookup(key, d)
    return None


def dict_needs_scan(d, key):
    if has_sym(key):
        return True
    for q in d:
        if type(q) in SYMSET or type(q) is tuple and has_sym(q):
            return True
    return False


def dict_method(f, s, name, a, k):
    if name in ("get", "pop", "setdefault", "__contains__", "__getitem__") and a and dict_needs_scan(s, a[0]):
        if name in ("get", "__getitem__"):
            q = dict_table(s, a[0])
            if q is not None:
                if q is not MISSING:
                    return q
                if name == "get":
                    return a[1] if len(a) > 1 else None
                raise KeyError(a[0])
        q = dict_find(s, a[0])
        if name == "get":
            return s[q] if q is not _MISS else (a[1] if len(a) > 1 else None)
        if name == "__contains__":
            return q is not _MISS
        if name == "__getitem__":
            return getitem(s, a[0])
        if name == "pop":
            if q is not _MISS:
                return s.pop(q)
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        if q is _MISS:
            s[a[0]] = a[1] if len(a) > 1 else None
            return s[a[0]]
        return s[q]
    return f(*a, **k)


def call_class(cls, a, k):
    m = OV.get(id(cls))
    if m is not None:
        return m[1](*a, **k)
    mod = cls.__module__
    if mod.partition(".")[0] in OWN_ROOTS or isinstance(cls, type) and issubclass(cls, (Model, BaseException)):
        return cls(*a, **k)
    if id(cls) in SAFE_C or mod in PASS_MODULES or mod == "builtins" and cls in SAFE_CLASSES:
        return cls(*a, **k)
    if issubclass(cls, tuple):
        return cls(*a, **k)
    if any_sym(a, k):
        return call_concrete(cls, a, k)
    return cls(*a, **k)


OWN_ROOTS = {"age", "checks"}
SAFE_CLASSES = {list, tuple, enumerate, zip, object, property, staticmethod, classmethod, super, type, dict}


def join(sep, items):
    items = list(items)
    if any(type(x) is Rope for x in items):
        r = b""
        for i, x in enumerate(items):
            if i and len(sep):
                r = r + sep
            r = Rope.of(r) + x if type(r) is not Rope else r + x
        return r
    return as_seq(sep).join(items)


def str_format(s, a, k):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "" or field[0] in ".[":
            field = str(auto) + field
            auto += 1
        import _string
        first, rest = _string.formatter_field_name_split(field)
        v = a[first] if isinstance(first, int) else k[first]
        for is_attr, n in rest:
            v = getattr(v, n) if is_attr else getitem(v, n)
        sp = str_format(spec, a, k) if "{" in (spec or "") else (spec or "")
        out.append((v, ord(conv) if conv else -1, sp))
    return _fmt.fstr(*out)


# ------------------------------------------------------------------------------------------- hooks
def enter(q):
    E = _eng.ENGINE
    if E is not None:
        E.functions.add(q)
        if E.dead is not None:
            raise E.dead


def and_(x, *thunks):
    for i, th in enumerate(thunks):
        if type(x) is SymBool and x.known() is None and not decided(x):
            got = spec_eval(th)
            if type(got) is bool or type(got) is SymBool:
                x = b_and(x, got)
                continue
            if not fork(x):
                return False
            x = th()
        else:
            if not x:
                return x
            x = th()
    return x


def or_(x, *thunks):
    for th in thunks:
        if type(x) is SymBool and x.known() is None and not decided(x):
            got = spec_eval(th)
            if type(got) is bool or type(got) is SymBool:
                x = b_or(x, got)
                continue
            if fork(x):
                return True
            x = th()
        else:
            if x:
                return x
            x = th()
    return x


def decided(x):
    """Has this condition already been decided on the path?"""
    E = _eng.ENGINE
    if E is None:
        return False
    import z3
    c = z3.simplify(x.e)
    if z3.is_not(c):
        c = c.arg(0)
    return c.get_id() in E.facts


_FAIL = object()


def spec_eval(th):
    SPEC.depth += 1
    try:
        return th()
    except SpecAbort:
        return _FAIL
    except Exception:
        return _FAIL
    finally:
        SPEC.depth -= 1


def spec_begin():
    SPEC.depth += 1


def spec_end():
    SPEC.depth -= 1


def cond(t):
    if type(t) is SymInt:
        return t.truth()
    return t


def symcond(t):
    return type(t) is SymBool and t.known() is None and not decided(t)


def merge(c, a, b):
    SPEC.merging = SPEC.depth == 1
    try:
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    finally:
        SPEC.merging = False


def not_(x):
    t = type(x)
    if t is SymBool:
        return b_not(x)
    if t is SymInt:
        return b_not(x.truth())
    return not x


def ifexp(c, a, b):
    c = cond(c)
    if type(c) is SymBool and c.known() is None and not decided(c):
        x = spec_eval(a)
        if x is not _FAIL:
            y = spec_eval(b)
            if y is not _FAIL:
                try:
                    return ite(c, x, y)
                except SpecAbort:
                    pass
        return a() if fork(c) else b()
    return a() if c else b()


def contains(c, x):
    t = type(c)
    if t in SEQ_TYPES:
        return c.contains(x)
    if t is Rope:
        return c.to_seq().contains(x)
    if isinstance(c, (str, bytes, bytearray)):
        if type(x) in SYMSET:
            return as_seq(c).contains(x)
        return x in c
    if isinstance(c, dict):
        if dict_needs_scan(c, x):
            return dict_find(c, x) is not _MISS
        return x in c
    if t is SymSet:
        return c.contains(x)
    if t in (list, tuple, collections.deque, set, frozenset) or t.__name__ in ("dict_keys", "dict_values"):
        if has_sym(x) or any(has_sym(y) for y in c) or not isinstance(x, (str, bytes, int, type(None))):
            out = []
            for y in c:
                if y is x:
                    return True
                q = y == x
                if type(q) is SymBool:
                    out.append(q)
                elif q:
                    return True
            return b_or(*out)
        return x in c
    if t is range and type(x) is SymInt:
        if len(c) == 0:
            return False
        lo, hi = min(c[0], c[-1]), max(c[0], c[-1])
        return b_and(x >= lo, x <= hi, (x - lo) % abs(c.step) == 0)
    return x in c


def not_contains(c, x):
    return not_(contains(c, x))


def getitem(o, i):
    if type(i) is SymInt:
        if isinstance(o, (list, tuple, str, bytes, bytearray, range)) and type(o) not in SYMSET:
            return getitem_native(o, i)
    elif type(i) is slice:
        if isinstance(o, (list, tuple, str, bytes, bytearray, range)) and type(o) not in SYMSET:
            return o[native_slice(i)]
        return o[i]
    if isinstance(o, dict) and dict_needs_scan(o, i):
        q = dict_table(o, i)
        if q is not None:
            if q is MISSING:
                raise KeyError(i)
            return q
        q = dict_find(o, i)
        if q is not _MISS:
            return o[q]
        if isinstance(o, collections.defaultdict) and o.default_factory is not None:
            v = call(o.default_factory)
            o[i] = v
            return v
        raise KeyError(i)
    return o[i]


def setitem(o, i, v):
    if isinstance(o, dict) and dict_needs_scan(o, i):
        q = dict_find(o, i)
        o[i if q is _MISS else q] = v
        return
    if type(i) is SymInt and type(o) not in SYMSET and isinstance(o, list):
        i = i.__index__()
    elif type(i) is slice and isinstance(o, list):
        i = native_slice(i)
    o[i] = v


def delitem(o, i):
    if isinstance(o, dict) and dict_needs_scan(o, i):
        q = dict_find(o, i)
        if q is _MISS:
            raise KeyError(i)
        del o[q]
        return
    if type(i) is SymInt:
        i = i.__index__()
    elif type(i) is slice and isinstance(o, list):
        i = native_slice(i)
    del o[i]


def mod(a, b):
    if isinstance(a, (str, bytes)) and not V.is_intlike(a):
        if type(a) in SYMSET or has_sym(b) or isinstance(b, tuple) and any(
                not isinstance(x, (str, bytes, int, float)) for x in b) or \
                not isinstance(b, (str, bytes, int, float, tuple)):
            return _fmt.percent(a, b)
    return a % b


fstr = _fmt.fstr


def mkset(items):
    return SymSet(items)


def mkdict(pairs):
    d = {}
    for a, b in pairs:
        setitem(d, a, b)
    return d


def base(b):
    ov = BASES.get(b) if isinstance(b, type) else None
    if ov is not None:
        return ov
    return b


BASES = {}


# ------------------------------------------------------------------------------------------- sets
def obj_hash(x):
    t = type(x)
    if t in SYMSET:
        return sym_hash(x)
    if t is tuple:
        if has_sym(x) or any(not isinstance(e, (int, str, bytes, type(None))) for e in x):
            hs = [obj_hash(e) for e in x]
            if any(type(h) is SymInt for h in hs):
                return sym_hash_cells("tuple", hs)
        return hash(x)
    h = getattr(t, "__sx_hash__", None) or getattr(t, "__hash__", None)
    if h is None:
        raise TypeError("unhashable type: '%s'" % t.__name__)
    if hasattr(h, "__code__"):
        return h(x)
    return hash(x)


def sym_hash(x):
    t = type(x)
    if t is SymInt or t is SymBool:
        return sym_hash_cells("int", [norm_int(x)])
    if t is SymByteArray:
        raise TypeError("unhashable type: 'bytearray'")
    if t is Rope:
        return id(x.segs[0][1])
    if t is SymFrac:
        return sym_hash_cells("frac", [x.num, x.den])
    return sym_hash_cells("str" if t is SymStr else "bytes", list(x.cells))


def sym_hash_cells(kind, cells):
    """Uninterpreted: equal arguments give equal hashes, nothing else is known."""
    import z3
    E = _eng.ENGINE
    reg = E.path_state.setdefault("pyhash", [])
    leaf = None
    for k2, c2, h2 in reg:
        if k2 == kind and len(c2) == len(cells):
            q = cells_eq(tuple(c2), tuple(cells))
            if q is True:
                return h2
    leaf = E.fresh_bv("hash", 61)
    h = V.mkbits(E.leaf_bits(leaf))
    for k2, c2, h2 in reg:
        if k2 == kind and len(c2) == len(cells):
            q = cells_eq(tuple(c2), tuple(cells))
            if q is not False:
                E.add(z3.Implies(V.zexpr(q), V.zexpr(h == h2)))
    reg.append((kind, list(cells), h))
    return h


def same_elem(x, y):
    if x is y:
        return True
    q = x == y
    if type(q) is not SymBool and not q:
        return False
    if not fork(q):
        return False
    return fork(obj_hash(x) == obj_hash(y))


class SymSet(Model):
    """Set whose iteration order is unspecified: for up to three elements every order is explored."""

    def __init__(self, items=()):
        self.items = []
        for x in items:
            self.add(x)

    @property
    def __class__(self):
        return set

    def add(self, x):
        if type(x) is int or type(x) is str or type(x) is bytes:
            pass
        else:
            obj_hash(x)
        for y in self.items:
            if same_elem(x, y):
                return
        self.items.append(x)

    def contains(self, x):
        for y in self.items:
            if same_elem(x, y):
                return True
        return False

    __contains__ = contains

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return bool(self.items)

    def __iter__(self):
        items = list(self.items)
        n = len(items)
        if n < 2 or all(isinstance(x, (int, str, bytes)) and type(x) not in SYMSET for x in items):
            return iter(items)
        E = _eng.ENGINE
        if n <= 3:
            perms = list(itertools.permutations(range(n)))
            p = perms[E.choose(len(perms), "set order")]
            return iter([items[i] for i in p])
        if E.choose(2, "set order"):
            items.reverse()
        return iter(items)

    def discard(self, x):
        for i, y in enumerate(self.items):
            if same_elem(x, y):
                del self.items[i]
                return

    def remove(self, x):
        n = len(self.items)
        self.discard(x)
        if len(self.items) == n:
            raise KeyError(x)

    def pop(self):
        if not self.items:
            raise KeyError("pop from an empty set")
        it = list(iter(self))
        self.items.remove(it[0])
        return it[0]

    def update(self, *others):
        for o in others:
            for x in o:
                self.add(x)

    def clear(self):
        self.items = []

    def copy(self):
        return SymSet(self.items)

    def union(self, *o):
        r = SymSet(self.items)
        r.update(*o)
        return r

    def intersection(self, o):
        o = SymSet(o)
        return SymSet([x for x in self.items if o.contains(x)])

    def difference(self, o):
        o = SymSet(o)
        return SymSet([x for x in self.items if not o.contains(x)])

    def issubset(self, o):
        o = SymSet(o)
        return all(o.contains(x) for x in self.items)

    def issuperset(self, o):
        return SymSet(o).issubset(self)

    def isdisjoint(self, o):
        return len(self.intersection(o)) == 0

    def symmetric_difference(self, o):
        o = SymSet(o)
        return self.difference(o).union(o.difference(self))

    __or__ = __ror__ = union
    __and__ = __rand__ = intersection
    __sub__ = difference
    __xor__ = symmetric_difference
    __le__ = issubset
    __ge__ = issuperset

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return False
        o = SymSet(list(o) if type(o) is not SymSet else o.items)
        return len(o.items) == len(self.items) and self.issubset(o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return 77

    def __repr__(self):
        return "{...}"


# ------------------------------------------------------------------------------------------- builtins
@override(len)
def m_len(x):
    t = type(x)
    if t in SEQ_TYPES:
        return len(x.cells) if t is not SymByteArray else x.length()
    if t is Rope:
        return x.length()
    f = getattr(t, "__len__", None)
    if f is not None and hasattr(f, "__code__"):
        r = f(x)
        if type(r) is SymInt:
            return r
        return r
    return len(x)


@override(ord)
def m_ord(c):
    t = type(c)
    if t in SEQ_TYPES:
        if len(c.cells) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(c.cells))
        return c.cells[0]
    return ord(c)


@override(chr)
def m_chr(i):
    i = norm_int(i) if V.is_intlike(i) else i
    if type(i) is SymInt:
        if i.lo < 0 or i.hi > 0x10FFFF:
            if fork(b_or(i < 0, i > 0x10FFFF)):
                raise ValueError("chr() arg not in range(0x110000)")
        return mkstr([i])
    return chr(i)


@override(bytes)
def m_bytes(*a, **k):
    if not a or len(a) > 1 or k:
        if a and type(a[0]) is SymStr:
            return a[0].encode(*a[1:], **k)
        return bytes(*a, **k)
    x = a[0]
    t = type(x)
    if t is SymBytes or t is Rope:
        return x
    if t is SymByteArray:
        return x.value()
    if t is SymStr:
        raise TypeError("string argument without an encoding")
    if V.is_intlike(x):
        n = idx(x)
        return bytes(n)
    if isinstance(x, (bytes, bytearray, memoryview, str)):
        return bytes(x)
    f = getattr(t, "__bytes__", None)
    if f is not None:
        return f(x)
    if isinstance(x, types.GeneratorType) or hasattr(x, "__iter__"):
        return mkbytes([byte_cell(v) for v in x])
    return bytes(x)


@override(bytearray)
def m_bytearray(*a, **k):
    if not a:
        return SymByteArray()
    x = a[0]
    if isinstance(x, str):
        return SymByteArray(as_seq(call(getattr(x, "encode"), *a[1:], **k)).cells)
    if type(x) is Rope:
        r = SymByteArray()
        r.extend(x)
        return r
    if V.is_intlike(x):
        return SymByteArray((0,) * idx(x))
    s = as_seq(x)
    if s is not None:
        return SymByteArray(s.cells)
    return SymByteArray([byte_cell(v) for v in x])


@override(memoryview)
def m_memoryview(x):
    t = type(x)
    if t in (SymBytes, Rope):
        return x
    if t is SymByteArray:
        return x
    return memoryview(x)


@override(str)
def m_str(*a, **k):
    if not a:
        return str(*a, **k)
    if len(a) > 1 or k:
        return call(getattr(a[0], "decode"), *a[1:], **k) if type(a[0]) in SYMSET else str(*a, **k)
    return _fmt.rt_str(a[0])


@override(repr, ascii)
def m_repr(x):
    return _fmt.rt_repr(x)


@override(format)
def m_format(x, spec=""):
    return _fmt.rt_format(x, spec)


@override(hash)
def m_hash(x):
    return obj_hash(x)


@override(bool)
def m_bool(x=False):
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt:
        return x.truth()
    return bool(x)


@override(int)
def m_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return x.as_int()
    if t is SymFrac:
        return x.__trunc__()
    if t is SymStr or t is SymBytes or t is SymByteArray:
        b = a[1] if len(a) > 1 else k.get("base", 10)
        return parse_int(x.cells, idx(b))
    return int(*a, **k)


def parse_int(cells, base):
    from .seq import WS_TEXT
    cs = list(as_seq(SymStr(tuple(cells)).strip()).cells)
    bad = ValueError("invalid literal for int() with base %d" % base)
    if not cs:
        raise bad
    neg = False
    if fork(V.in_set(cs[0], {43, 45})):
        neg = fork(cell_eq(cs[0], 45))
        cs = cs[1:]
    if base in (0, 2, 8, 16) and len(cs) > 1 and fork(cell_eq(cs[0], 48)):
        pref = {2: {66, 98}, 8: {79, 111}, 16: {88, 120}}.get(base)
        if pref and fork(V.in_set(cs[1], pref)):
            cs = cs[2:]
    if not cs:
        raise bad
    val = 0
    prev_us = True
    for c in cs:
        if fork(cell_eq(c, 95)):
            if prev_us:
                raise bad
            prev_us = True
            continue
        ok = set(range(48, 48 + min(base, 10)))
        if base > 10:
            ok |= {65 + i for i in range(base - 10)} | {97 + i for i in range(base - 10)}
        if not fork(V.in_set(c, ok)):
            if type(c) is SymInt and fork(c >= 128):
                v = V.concretize_int(c, 700)
                try:
                    d = int(chr(v), base)
                except ValueError:
                    raise bad from None
            elif type(c) is int and c >= 128:
                d = int(chr(c), base)
            else:
                raise bad
        else:
            from .seq import narrow
            d = V.map_cell(narrow(c, 48, 127), lambda v: v - 48 if v <= 57 else ((v | 32) - 87))
            if type(d) is SymInt and d.lo < 0:
                d = V.fit(d.e, 0, d.hi) if False else d
            if type(d) is SymInt and (d.lo < 0 or d.hi >= base):
                d = V.fit(z_nonneg(d, base), 0, base - 1)
        val = val * base + d
        prev_us = False
    if prev_us:
        raise bad
    return -val if neg else val


def z_nonneg(d, base):
    import z3
    return d.ext(max(d.w, base.bit_length() + 1))


@override(float)
def m_float(x=0.0):
    if type(x) is SymInt:
        return SymFrac(x, 1)
    if type(x) is SymFrac:
        return x
    return float(concretize(x))


@override(math.ceil)
def m_ceil(x):
    return x.__ceil__() if type(x) in (SymFrac, SymInt) else math.ceil(x)


@override(math.floor)
def m_floor(x):
    return x.__floor__() if type(x) in (SymFrac, SymInt) else math.floor(x)


@override(math.trunc)
def m_trunc(x):
    return x.__trunc__() if type(x) is SymFrac else (x if type(x) is SymInt else math.trunc(x))


@override(round)
def m_round(x, n=None):
    if type(x) in (SymFrac, SymInt):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


@override(divmod)
def m_divmod(a, b):
    if type(b) is SymInt:
        b = b.__index__()
    return V.divmod_(a, b) if type(a) is SymInt else divmod(a, b)


@override(pow)
def m_pow(a, b, m=None):
    if m is not None:
        return pow(V.concretize_int(norm_int(a)), V.concretize_int(norm_int(b)), V.concretize_int(norm_int(m)))
    return a ** b


@override(abs)
def m_abs(x):
    return x.__abs__() if type(x) is SymInt else abs(x)


@override(hex)
def m_hex(x):
    return join("", ["0x", mkstr(_fmt.digits(x, 16))]) if type(x) is SymInt and x.lo >= 0 else hex(x)


@override(bin)
def m_bin(x):
    return join("", ["0b", mkstr(_fmt.digits(x, 2))]) if type(x) is SymInt and x.lo >= 0 else bin(x)


@override(oct)
def m_oct(x):
    return join("", ["0o", mkstr(_fmt.digits(x, 8))]) if type(x) is SymInt and x.lo >= 0 else oct(x)


class SymRange(Model):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        while fork(i < self.stop if self.step > 0 else i > self.stop):
            yield i
            i = i + self.step

    def __len__(self):
        return idx(m_len_range(self))

    def __getitem__(self, i):
        return self.start + i * self.step

    def __reversed__(self):
        return iter(list(self)[::-1])


def m_len_range(r):
    n = (r.stop - r.start + r.step - 1) // r.step
    return V.ite(n > 0, n, 0) if type(n) is SymInt else max(0, n)


@override(range)
def m_range(*a):
    a = [norm_int(x) if V.is_intlike(x) else x for x in a]
    if not any(type(x) is SymInt for x in a):
        return range(*a)
    if len(a) == 1:
        return SymRange(0, a[0], 1)
    step = idx(a[2]) if len(a) > 2 else 1
    if step == 0:
        raise ValueError("range() arg 3 must not be zero")
    return SymRange(a[0], a[1], step)


def _minmax(a, k, less):
    items = list(a[0]) if len(a) == 1 else list(a)
    key = k.get("key")
    if not items:
        if "default" in k:
            return k["default"]
        raise ValueError("min()/max() arg is an empty sequence")
    best = items[0]
    bk = call(key, best) if key else best
    for x in items[1:]:
        xk = call(key, x) if key else x
        c = less(xk, bk)
        if type(c) is SymBool and key is None and V.is_intlike(x) and V.is_intlike(best):
            best = bk = ite(c, x, best)
        elif fork(c):
            best, bk = x, xk
    return best


@override(min)
def m_min(*a, **k):
    return _minmax(a, k, lambda x, b: x < b)


@override(max)
def m_max(*a, **k):
    return _minmax(a, k, lambda x, b: x > b)


def _anyall(it, want):
    pend = []
    it = iter(it)
    while True:
        try:
            x = next(it)
        except StopIteration:
            break
        except Exception:
            if pend and fork(b_or(*pend)):
                return want
            raise
        x = m_bool(x)
        if type(x) is SymBool:
            pend.append(x if want else b_not(x))
            continue
        if x is want:
            if pend:
                return want
            return want
    r = b_or(*pend)
    return r if want else b_not(r)


@override(any)
def m_any(it):
    return _anyall(it, True)


@override(all)
def m_all(it):
    return _anyall(it, False)


@override(sum)
def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


@override(set, frozenset)
def m_set(it=()):
    return SymSet(it)


@override(map)
def m_map(f, *its):
    def gen():
        for xs in zip(*its):
            yield call(f, *xs)
    return gen()


@override(filter)
def m_filter(f, it):
    def gen():
        for x in it:
            if (x if f is None else call(f, x)):
                yield x
    return gen()


@override(sorted)
def m_sorted(it, *, key=None, reverse=False):
    items = list(it)
    if key is None:
        return sorted(items, reverse=reverse)
    ks = [call(key, x) for x in items]
    order = sorted(range(len(items)), key=functools.cmp_to_key(
        lambda i, j: -1 if ks[i] < ks[j] else (1 if ks[j] < ks[i] else 0)), reverse=reverse)
    return [items[i] for i in order]


@override(functools.reduce)
def m_reduce(f, it, *init):
    return functools.reduce(lambda x, y: call(f, x, y), it, *init)


@override(reversed)
def m_reversed(x):
    if type(x) in SEQ_TYPES:
        return iter(list(x)[::-1])
    return reversed(x)


@override(type)
def m_type(*a, **k):
    if len(a) == 1:
        if type(a[0]) in SYMSET:
            return a[0].__class__
        if type(a[0]) is SymSet:
            return set
        return type(a[0])
    return type(*a, **k)


@override(isinstance)
def m_isinstance(x, t):
    if isinstance(x, t):
        return True
    return False


@override(operator.contains)
def m_op_contains(c, x):
    return contains(c, x)


@override(operator.getitem)
def m_op_getitem(c, x):
    return getitem(c, x)


@override(operator.not_)
def m_op_not(x):
    return not_(x)


@override(operator.mod)
def m_op_mod(a, b):
    return mod(a, b)


@override(dict)
def m_dict(*a, **k):
    if not a or not isinstance(a[0], dict):
        if a:
            return mkdict([(x, y) for x, y in a[0]] + list(k.items()))
        return dict(**k)
    return dict(*a, **k)


safe(iter, next, getattr, setattr, hasattr, delattr, callable, issubclass, id, vars, print,
     *[getattr(operator, n) for n in ("eq ne lt le gt ge add sub mul and_ or_ xor lshift rshift neg pos inv "
                                      "invert floordiv truediv index itemgetter is_ is_not concat iadd ixor "
                                      "ior iand iconcat").split()])
for _n in dir(itertools):
    _o = getattr(itertools, _n)
    if isinstance(_o, type):
        safe(_o)
safe(functools.partial, functools.cmp_to_key, functools.wraps, collections.deque, collections.OrderedDict,
     collections.defaultdict, collections.namedtuple)


@override(itertools.takewhile)
def m_takewhile(f, it):
    def gen():
        for x in it:
            if not call(f, x):
                return
            yield x
    return gen()


@override(itertools.dropwhile)
def m_dropwhile(f, it):
    def gen():
        it2 = iter(it)
        for x in it2:
            if not call(f, x):
                yield x
                break
        yield from it2
    return gen()


@override(itertools.accumulate)
def m_accumulate(it, func=operator.add, *, initial=None):
    def gen():
        acc = initial
        first = initial is None
        if not first:
            yield acc
        for x in it:
            acc = x if first else call(func, acc, x)
            first = False
            yield acc
    return gen()


@override(operator.index)
def m_op_index(x):
    return x if type(x) is SymInt else operator.index(x)


# class methods with symbolic arguments
def int_from_bytes(data, byteorder="big", *, signed=False):
    if type(data) is Rope:
        data = data.to_seq()
    s = as_seq(data)
    cells = list(s.cells) if s is not None else [byte_cell(x) for x in data]
    if byteorder == "big":
        cells = cells[::-1]
    if not cells:
        return 0
    if all(type(c) is int for c in cells):
        return int.from_bytes(bytes(cells), "little", signed=signed)
    if all(type(c) is int or c.bits is not None for c in cells):
        bits = []
        for c in cells:
            if type(c) is int:
                bits.extend((c >> i) & 1 for i in range(8))
            else:
                bits.extend(c.getbits(8)[:8])
        r = V.mkbits(tuple(bits))
    else:
        import z3
        e = z3.Concat([V.zx(c, 8) for c in reversed(cells)]) if len(cells) > 1 else V.zx(cells[0], 8)
        r = V.fit(e, 0, (1 << (8 * len(cells))) - 1)
    if signed:
        n = 8 * len(cells)
        r = ite(r >= (1 << (n - 1)), r - (1 << n), r)
    return r


def bytes_fromhex(s):
    cells = [c for c in as_seq(s).cells]
    out = []
    i = 0
    hexd = set(b"0123456789abcdefABCDEF")
    while i < len(cells):
        if fork(V.in_ranges(cells[i], [(9, 13), (32, 32)])):
            i += 1
            continue
        if i + 1 >= len(cells) or not fork(b_and(V.in_set(cells[i], hexd), V.in_set(cells[i + 1], hexd))):
            raise ValueError("non-hexadecimal number found in fromhex() arg")
        v = 0
        for c in cells[i:i + 2]:
            from .seq import narrow
            d = V.map_cell(narrow(c, 0, 127), lambda q: int(chr(q), 16) if q in hexd else 0)
            v = v * 16 + d if type(v) is int and v == 0 else (v << 4) | d
        out.append(v)
        i += 2
    return mkbytes(out)


CLS_METHODS = {(int, "from_bytes"): int_from_bytes, (bytes, "fromhex"): bytes_fromhex,
               (bytearray, "fromhex"): lambda s: SymByteArray(as_seq(bytes_fromhex(s)).cells)}


def fixclass(cls):
    """C-level hashing of instances must not see symbolic hashes: use a constant, keep the real one."""
    h = cls.__dict__.get("__hash__")
    if h is not None and hasattr(h, "__code__"):
        cls.__sx_hash__ = h
        cls.__hash__ = lambda self: 0x51ED
    return cls
