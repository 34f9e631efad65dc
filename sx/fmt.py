"""Text formatting of symbolic values."""
from . import values as V
from .seq import SymStr, SymBytes, SymByteArray, SymSeq, as_seq, mkstr, concretize_seq, idx
from .values import SymInt, SymBool, SymFrac, fork, map_cell

HEX = "0123456789abcdef"


def digits(x, base, upper=False):
    """Cells of the representation of a non-negative SymInt, without leading zeros (forks on length)."""
    tab = HEX.upper() if upper else HEX
    if type(x) is int:
        s = {2: bin, 8: oct, 16: hex}[base](x)[2:] if base != 10 else str(x)
        return [ord(c) for c in (s.upper() if upper else s)]
    n = 1
    while x.hi >= base ** n and fork(x >= base ** n):
        n += 1
    out = []
    cur = x
    for _ in range(n):
        if type(cur) is int:
            q, r = divmod(cur, base)
        else:
            q, r = V.divmod_(cur, base)
        if type(r) is SymInt and r.hi >= base:
            r = V.fit(r.e, 0, base - 1)
        out.append(map_cell(r, lambda v: ord(tab[v]) if v < base else 48))
        cur = q
    return out[::-1]


def fixed_digits(x, base, n, upper=False):
    tab = HEX.upper() if upper else HEX
    out = []
    cur = x
    for _ in range(n):
        q, r = V.divmod_(cur, base) if type(cur) is SymInt else divmod(cur, base)
        out.append(map_cell(r, lambda v: ord(tab[v]) if v < base else 48))
        cur = q
    return out[::-1]


BASES = {"x": 16, "X": 16, "d": 10, "": 10, "b": 2, "o": 8}


def format_int(x, spec):
    import re
    m = re.fullmatch(r"(#?)(0?)(\d*)([xXdbo]?)", spec)
    if not m or m.group(1):
        return format(V.concretize_int(x), spec)
    base = BASES[m.group(4)]
    w = int(m.group(3) or 0)
    up = m.group(4) == "X"
    if V.lo_of(x) < 0:
        if fork(x < 0):
            return format(V.concretize_int(x), spec)
        from .seq import narrow
        x = narrow(x, 0, x.hi)
    if m.group(2) and w and V.hi_of(x) < base ** w:
        return mkstr(fixed_digits(x, base, w, up))
    d = digits(x, base, up)
    pad = 48 if m.group(2) else 32
    return mkstr([pad] * (w - len(d)) + d)


def format_str(s, spec):
    import re
    m = re.fullmatch(r"(?:(.)?([<>^]))?(\d*)s?", spec, re.S)
    if not m:
        return format(concretize_seq(s), spec)
    w = int(m.group(3) or 0)
    fill = m.group(1) or " "
    al = m.group(2) or "<"
    return {"<": s.ljust, ">": s.rjust, "^": s.center}[al](w, fill)


def to_str(x):
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        return format_int(x, "")
    if t is SymBool:
        return "True" if fork(x) else "False"
    if t is SymBytes or t is SymByteArray:
        return sym_repr(x)
    if t.__name__ == "Rope":
        return "b'...'"
    return None


def sym_repr(x):
    """Representation for messages: characters shown as they are (escaping is not modelled)."""
    t = type(x)
    if t is SymStr:
        return mkstr((39,) + tuple(x.cells) + (39,))
    if t is SymBytes:
        return mkstr((98, 39) + tuple(x.cells) + (39,))
    if t is SymByteArray:
        return mkstr(tuple(map(ord, "bytearray(b'")) + tuple(x.cells) + (39, 41))
    if t is SymInt or t is SymBool:
        return to_str(x)
    if t.__name__ == "Rope":
        return "b'...'"
    return None


def rt_str(x):
    r = to_str(x)
    if r is not None:
        return r
    from . import rt
    if isinstance(x, (list, tuple, dict)) and rt.has_sym(x):
        return rt_repr(x)
    t = type(x)
    f = getattr(t, "__str__", None)
    if f is not None and hasattr(f, "__code__"):
        return f(x)
    if isinstance(x, BaseException) and type(x).__str__ is BaseException.__str__:
        if not x.args:
            return ""
        if len(x.args) == 1:
            return rt_str(x.args[0])
        return rt_repr(x.args)
    if t.__str__ is object.__str__:
        return rt_repr(x)
    return str(x)


def rt_repr(x):
    r = sym_repr(x)
    if r is not None:
        return r
    from . import rt
    if type(x) in (list, tuple) and rt.has_sym(x):
        out = [rt_repr(e) for e in x]
        s = rt.join(", ", out)
        if type(x) is list:
            return "[" + s + "]"
        return "(" + s + (",)" if len(x) == 1 else ")")
    if type(x) is dict and rt.has_sym(x):
        return "{" + rt.join(", ", [rt_repr(k) + ": " + rt_repr(v) for k, v in x.items()]) + "}"
    f = getattr(type(x), "__repr__", None)
    if f is not None and hasattr(f, "__code__"):
        return f(x)
    return repr(x)


def rt_format(x, spec=""):
    if type(spec) is not str:
        spec = concretize_seq(spec)
    t = type(x)
    if t is SymInt:
        return format_int(x, spec)
    if t is SymBool:
        return rt_format(bool(x), spec)
    if t is SymStr:
        return x if not spec else format_str(x, spec)
    if t is SymFrac:
        return format(float(x), spec)
    if not spec:
        return rt_str(x)
    f = getattr(t, "__format__", None)
    if f is not None and hasattr(f, "__code__"):
        return f(x, spec)
    if t.__name__ in ("SymBytes", "SymByteArray", "Rope"):
        raise TypeError("unsupported format string passed to bytes.__format__")
    return format(x, spec)


def fstr(*parts):
    out = []
    sym = False
    for p in parts:
        if isinstance(p, str) and type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114 or conv == 97:
            v = rt_repr(v)
        elif conv == 115:
            v = rt_str(v)
        s = rt_format(v, spec)
        if type(s) is SymStr:
            sym = True
        out.append(s)
    if not sym:
        return "".join(out)
    cells = []
    for s in out:
        cells.extend(as_seq(s).cells)
    return mkstr(cells)


def percent(fmtstr, args):
    """printf-style formatting."""
    f = as_seq(fmtstr)
    text = f.TEXT
    if not isinstance(args, tuple):
        args = (args,)
    out = []
    cells = f.cells
    i = 0
    k = 0
    n = len(cells)
    while i < n:
        c = cells[i]
        if type(c) is not int or c != 37:
            out.append(c)
            i += 1
            continue
        j = i + 1
        spec = ""
        while type(cells[j]) is int and chr(cells[j]) in "0123456789.-+ #":
            spec += chr(cells[j])
            j += 1
        t = chr(cells[j])
        i = j + 1
        if t == "%":
            out.append(37)
            continue
        a = args[k]
        k += 1
        if t in "di":
            s = rt_format(a, spec) if V.is_intlike(a) else "%d" % a
        elif t in "xXo":
            s = rt_format(a, spec + t)
        elif t == "c":
            from . import rt
            s = rt.call(chr, a) if V.is_intlike(a) else a
        elif t == "r" or t == "a":
            s = rt_repr(a)
        elif t == "s" or t == "b":
            s = rt_str(a) if text else a
            if spec:
                s = format_str(as_seq(s), spec if not spec.startswith("-") else "<" + spec[1:])
        else:
            s = ("%" + spec + t) % (a,)
        out.extend(as_seq(s).cells)
    if k < len(args) and not isinstance(args[0], dict):
        raise TypeError("not all arguments converted during string formatting")
    return f.make(out) if type(f) is not SymByteArray else SymByteArray(out)
