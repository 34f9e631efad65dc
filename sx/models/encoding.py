"""base64 / binascii / struct / textwrap models (exact re-implementations over symbolic cells)."""
import base64
import binascii
import struct
import textwrap

from .. import rt
from .. import values as V
from ..rope import Rope
from ..seq import SymBytes, SymStr, SymByteArray, as_seq, idx, mkbytes, mkstr, byte_cell
from ..values import SymInt, fork, in_set, tab_cell, map_cell, b_and, norm_int

STD = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
STD_TAB = tuple(STD)
STD_SET = frozenset(STD)
DEC = {c: i for i, c in enumerate(STD)}


def _cells(x, what="data"):
    t = type(x)
    if t is Rope:
        return x.to_seq().cells
    s = as_seq(x)
    if s is None or s.TEXT:
        raise TypeError("a bytes-like object is required, not %r" % ("str" if s is not None else t.__name__))
    return s.cells


def ascii_cells(x):
    """bytes-like or ASCII-only string (binascii.a2b_*, base64._bytes_from_decode_data)."""
    if type(x) is Rope:
        return x.to_seq().cells
    s = as_seq(x)
    if s is None:
        raise TypeError("argument should be a bytes-like object or ASCII string, not %r" % type(x).__name__)
    if s.TEXT:
        ok = b_and(*[(c < 128 if type(c) is SymInt else c < 128) for c in s.cells]) if s.cells else True
        if not fork(ok):
            raise ValueError("string argument should contain only ASCII characters")
        from ..seq import narrow
        return tuple(narrow(c, 0, 127) if type(c) is SymInt and c.tab is None else c for c in s.cells)
    return s.cells


def enc64(cells):
    out = []
    n = len(cells)
    for i in range(0, n, 3):
        b = cells[i:i + 3]
        b0 = b[0]
        b1 = b[1] if len(b) > 1 else 0
        b2 = b[2] if len(b) > 2 else 0
        s = [b0 >> 2, ((b0 & 3) << 4) | (b1 >> 4), ((b1 & 15) << 2) | (b2 >> 6), b2 & 63]
        k = len(b) + 1
        for v in s[:k]:
            out.append(tab_cell(STD_TAB, v))
        out.extend([61] * (4 - k))
    return out


def dec64(cells, strict):
    out = []
    quad = 0
    left = 0
    pads = 0
    padding_started = False
    n = len(cells)
    if strict and n and fork(in_set(cells[0], {61})):
        raise binascii.Error("Leading padding not allowed")
    for i, c in enumerate(cells):
        if not fork(in_set(c, STD_SET)):
            if fork(in_set(c, {61})):
                padding_started = True
                if quad >= 2:
                    pads += 1
                    if quad + pads >= 4:
                        if strict and i + 1 < n:
                            raise binascii.Error("Excess data after padding")
                        return out
                continue
            if strict:
                raise binascii.Error("Only base64 data is allowed")
            continue
        if strict and padding_started:
            raise binascii.Error("Discontinuous padding not allowed")
        pads = 0
        v = map_cell(c, lambda x: DEC.get(x, 0))
        if quad == 0:
            left = v
        elif quad == 1:
            out.append(((left & 63) << 2) | (v >> 4))
            left = v & 15
        elif quad == 2:
            out.append((left << 4) | (v >> 2))
            left = v & 3
        else:
            out.append((left << 6) | (v & 63))
        quad = (quad + 1) % 4
    if quad == 1:
        raise binascii.Error("Invalid base64-encoded string: number of data characters (%d) cannot be 1 more "
                             "than a multiple of 4" % (len(out) // 3 * 4 + 1))
    if quad:
        raise binascii.Error("Incorrect padding")
    return out


def _tr(cells, frm, to):
    m = dict(zip(frm, to))
    return tuple(map_cell(c, lambda v: m.get(v, v)) for c in cells)


@rt.override(binascii.b2a_base64)
def b2a_base64(data, *, newline=True):
    return mkbytes(enc64(_cells(data)) + ([10] if newline else []))


@rt.override(binascii.a2b_base64)
def a2b_base64(data, *, strict_mode=False):
    return mkbytes(dec64(ascii_cells(data), bool(strict_mode)))


@rt.override(base64.b64encode)
def b64encode(s, altchars=None):
    cells = enc64(_cells(s))
    if altchars is not None:
        cells = _tr(cells, b"+/", bytes(altchars))
    return mkbytes(cells)


@rt.override(base64.b64decode)
def b64decode(s, altchars=None, validate=False):
    cells = ascii_cells(s)
    if altchars is not None:
        cells = _tr(cells, base64._bytes_from_decode_data(altchars), b"+/")
    return mkbytes(dec64(cells, bool(validate)))


@rt.override(base64.standard_b64encode)
def standard_b64encode(s):
    return b64encode(s)


@rt.override(base64.standard_b64decode)
def standard_b64decode(s):
    return b64decode(s)


@rt.override(base64.urlsafe_b64encode)
def urlsafe_b64encode(s):
    return mkbytes(_tr(enc64(_cells(s)), b"+/", b"-_"))


@rt.override(base64.urlsafe_b64decode)
def urlsafe_b64decode(s):
    return mkbytes(dec64(_tr(ascii_cells(s), b"-_", b"+/"), False))


@rt.override(base64.encodebytes)
def encodebytes(s):
    cells = _cells(s)
    out = []
    for i in range(0, len(cells), 57):
        out += enc64(cells[i:i + 57]) + [10]
    return mkbytes(out)


@rt.override(base64.decodebytes)
def decodebytes(s):
    return mkbytes(dec64(_cells(s), False))


@rt.override(binascii.hexlify, binascii.b2a_hex)
def hexlify(data, sep=None, bytes_per_sep=1):
    s = mkbytes(_cells(data))
    return as_seq(s).hex(*(() if sep is None else (sep, bytes_per_sep))).encode("ascii")


@rt.override(binascii.unhexlify, binascii.a2b_hex)
def unhexlify(data):
    cells = ascii_cells(data)
    if len(cells) % 2:
        raise binascii.Error("Odd-length string")
    out = []
    for c in cells:
        if not fork(in_set(c, frozenset(b"0123456789abcdefABCDEF"))):
            raise binascii.Error("Non-hexadecimal digit found")
    hv = {ord(ch): int(ch, 16) for ch in "0123456789abcdefABCDEF"}
    d = [map_cell(c, lambda v: hv.get(v, 0)) for c in cells]
    for i in range(0, len(d), 2):
        out.append((d[i] << 4) | d[i + 1])
    return mkbytes(out)


@rt.override(base64.b16encode)
def b16encode(s):
    return hexlify(s).upper()


# ------------------------------------------------------------------------------------------------ struct
SIZES = {"b": 1, "B": 1, "?": 1, "c": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8}


def _parse_fmt(fmt):
    f = fmt if type(fmt) in (str, bytes) else rt.concretize(fmt)
    if isinstance(f, bytes):
        f = f.decode("ascii")
    if not f or f[0] not in "<>!=":
        if f[:1] == "@":
            f = f[1:]
        if any(ch in "hHiIlLqQnN" for ch in f):
            if len([ch for ch in f if ch.isalpha()]) != 1:
                return None
            big = False
            sizes = dict(SIZES, l=8, L=8)
        else:
            big, sizes = False, SIZES
    else:
        big = f[0] in ">!"
        f = f[1:]
        sizes = SIZES
    items = []
    num = ""
    for ch in f:
        if ch.isspace():
            continue
        if ch.isdigit():
            num += ch
            continue
        k = int(num) if num else 1
        if ch == "s":
            items.append(("s", k))
        elif ch == "x":
            items.append(("x", k))
        elif ch in sizes:
            items.extend([(ch, sizes[ch])] * k)
        else:
            return None
        num = ""
    return big, items


def unpack_cells(fmt, cells):
    p = _parse_fmt(fmt)
    if p is None:
        raise V.eng()._die(rt._eng.HarnessError("struct format %r is not modelled" % (fmt,)))
    big, items = p
    need = sum(n for _, n in items)
    if len(cells) != need:
        raise struct.error("unpack requires a buffer of %d bytes" % need)
    out = []
    pos = 0
    for ch, n in items:
        part = cells[pos:pos + n]
        pos += n
        if ch == "x":
            continue
        if ch == "s" or ch == "c":
            out.append(mkbytes(part))
        elif ch == "?":
            out.append(part[0] != 0)
        else:
            v = rt.int_from_bytes(mkbytes(part), "big" if big else "little", signed=ch.islower())
            out.append(v)
    return tuple(out)


@rt.override(struct.unpack)
def s_unpack(fmt, data):
    if not rt.has_sym(data) and not rt.has_sym(fmt):
        return struct.unpack(fmt, data)
    return unpack_cells(fmt, _cells(data))


@rt.override(struct.unpack_from)
def s_unpack_from(fmt, data, offset=0):
    n = struct.calcsize(rt.concretize(fmt))
    cells = _cells(data)
    o = idx(offset)
    if o < 0:
        o += len(cells)
    if o < 0 or len(cells) - o < n:
        raise struct.error("unpack_from requires a buffer of at least %d bytes" % (o + n))
    return unpack_cells(fmt, cells[o:o + n])


@rt.override(struct.iter_unpack)
def s_iter_unpack(fmt, data):
    n = struct.calcsize(fmt)
    cells = _cells(data)
    if n == 0 or len(cells) % n:
        raise struct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % n)
    return iter([unpack_cells(fmt, cells[i:i + n]) for i in range(0, len(cells), n)])


@rt.override(struct.pack)
def s_pack(fmt, *vals):
    if not rt.has_sym(vals):
        return struct.pack(fmt, *vals)
    p = _parse_fmt(fmt)
    if p is None:
        raise V.eng()._die(rt._eng.HarnessError("struct format %r is not modelled" % (fmt,)))
    big, items = p
    out = []
    vi = iter(vals)
    for ch, n in items:
        if ch == "x":
            out.extend([0] * n)
            continue
        v = next(vi)
        if ch == "s" or ch == "c":
            cells = list(_cells(v))[:n]
            out.extend(cells + [0] * (n - len(cells)))
        elif ch == "?":
            out.append(norm_int(rt.m_bool(v)))
        else:
            v = norm_int(v)
            lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if ch.islower() else (0, (1 << (8 * n)) - 1)
            bad = V.b_or(v < lo, v > hi)
            if fork(bad):
                raise struct.error("argument out of range")
            b = rt.call(v.to_bytes, n, "big" if big else "little", signed=ch.islower()) if type(v) is int \
                else v.to_bytes(n, "big" if big else "little", signed=ch.islower())
            out.extend(as_seq(b).cells)
    return mkbytes(out)


class StructModel(rt.Model):
    def __init__(self, fmt):
        self._s = struct.Struct(rt.concretize(fmt))
        self.format = self._s.format
        self.size = self._s.size

    def unpack(self, data):
        return s_unpack(self.format, data)

    def unpack_from(self, data, offset=0):
        return s_unpack_from(self.format, data, offset)

    def pack(self, *vals):
        return s_pack(self.format, *vals)

    def iter_unpack(self, data):
        return s_iter_unpack(self.format, data)


@rt.override(struct.Struct)
def m_Struct(fmt):
    return StructModel(fmt)


@rt.override_method(struct.Struct, "unpack")
def _su(self, data):
    return s_unpack(self.format, data)


@rt.override_method(struct.Struct, "unpack_from")
def _suf(self, data, offset=0):
    return s_unpack_from(self.format, data, offset)


@rt.override_method(struct.Struct, "pack")
def _sp(self, *v):
    return s_pack(self.format, *v)


# ---------------------------------------------------------------------------------------------- textwrap
WS = frozenset(map(ord, "\t\n\x0b\x0c\r "))


def _skeleton(text):
    """Native text of the same shape: one 'x' per character that provably behaves like a letter.

    Case-splits on white space, and on the hyphen if it can matter.  Returns (skeleton, marker->cell)."""
    s = as_seq(text)
    if s is None or not s.TEXT:
        raise TypeError("expected string")
    out = []
    for c in s.cells:
        if type(c) is int:
            out.append(chr(c))
        elif fork(in_set(c, WS)):
            out.append(chr(V.concretize_int(c)))
        elif fork(in_set(c, {45})):
            out.append("-")
        else:
            out.append(None)
    return s.cells, out


def _wrap(text, width, kw):
    if type(text) is str and not rt.has_sym(width):
        return None
    cells, sk = _skeleton(text)
    if "-" in sk and kw.get("break_on_hyphens", True) and None in sk:
        raise V.eng()._die(rt._eng.HarnessError("textwrap of symbolic text with hyphens is not modelled"))
    # non-blank characters are neither dropped nor reordered, and the layout depends only on which are blank
    src = [c for c, ch in zip(cells, sk) if ch is None or ch not in BLANK]
    lines = textwrap.wrap("".join("x" if ch is None else ch for ch in sk), width=idx(width), **kw)
    out, p = [], 0
    for ln in lines:
        row = []
        for ch in ln:
            if ch in BLANK:
                row.append(ord(ch))
            else:
                row.append(src[p])
                p += 1
        out.append(mkstr(row))
    if p != len(src):
        raise V.eng()._die(rt._eng.HarnessError("textwrap layout"))
    return out


BLANK = "\t\n\x0b\x0c\r "
OKKW = {"break_on_hyphens", "break_long_words", "expand_tabs", "replace_whitespace", "drop_whitespace",
        "fix_sentence_endings", "tabsize"}


@rt.override(textwrap.wrap)
def m_wrap(text, width=70, **kw):
    if not rt.has_sym(text) and not rt.has_sym(width):
        return textwrap.wrap(text, width=width, **kw)
    if set(kw) - OKKW:
        raise V.eng()._die(rt._eng.HarnessError("textwrap options not modelled"))
    return _wrap(text, width, kw)


@rt.override(textwrap.fill)
def m_fill(text, width=70, **kw):
    if not rt.has_sym(text) and not rt.has_sym(width):
        return textwrap.fill(text, width=width, **kw)
    return rt.join("\n", m_wrap(text, width, **kw))
