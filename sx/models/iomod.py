"""Streams: in-memory, text wrappers, the raw base class, files with symbolic content, fake terminals."""
import builtins
import glob
import io
import os
import os.path
import pathlib

from .. import engine as _eng
from .. import rt
from .. import values as V
from ..rope import Rope
from ..rt import BASES, Model, override, override_method
from ..seq import SymBytes, SymStr, SymByteArray, as_seq, cell_eq, decode_bytes, encode_text, idx, mkbytes, mkstr
from ..values import SymInt, fork, norm_int


def E():
    return _eng.ENGINE


def cur_path():
    e = E()
    return e.path_state if e is not None else None


def content(x):
    t = type(x)
    if t is Rope or t is SymBytes or t is bytes:
        return x
    if t is SymByteArray:
        return x.value()
    if isinstance(x, (bytes, bytearray, memoryview)):
        return bytes(x)
    raise TypeError("a bytes-like object is required, not %r" % type(x).__name__)


def cat(a, b):
    if type(a) is Rope or type(b) is Rope:
        return Rope.of(a) + b
    if type(a) is bytes and type(b) is bytes:
        return a + b
    return mkbytes(tuple(as_seq(a).cells) + tuple(as_seq(b).cells))


def size_of(x):
    return x.length() if type(x) is Rope else len(x)


def part(x, a, b):
    """x[a:b] with 0 <= a <= b <= len (a, b int or SymInt)."""
    if type(x) is not Rope and type(a) is int and type(b) is int:
        return x[a:b]
    if type(x) is not Rope:
        a, b = idx(a), idx(b)
        return x[a:b]
    return x[rt.slice(a, b)]


def leading(x, a):
    """Cells of x from offset a on as far as they are individually known, and whether that is all of it."""
    if type(x) is not Rope:
        a = idx(a)
        return as_seq(x).cells[a:], True
    r = part(x, a, x.length())
    if type(r) is not Rope:
        return as_seq(r).cells, True
    out = []
    for k, s in enumerate(r.segs):
        if s[0] != "c":
            if type(s[3]) is int and s[3] <= 256 and type(s[2]) is int:
                out.extend(s[1].cell(s[2] + i) for i in range(s[3]))
                continue
            return tuple(out), False
        out.extend(s[1])
    return tuple(out), True


class MIOBase(Model):
    """io.IOBase"""
    _sx_closed = False

    def __init__(self, *a, **k):
        pass

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        o.__dict__["_sx_path"] = cur_path()
        return o

    @property
    def closed(self):
        return self._sx_closed

    def _checkClosed(self, msg=None):
        if self.closed:
            raise ValueError("I/O operation on closed file." if msg is None else msg)

    def flush(self):
        self._checkClosed()

    def close(self):
        if not self._sx_closed:
            try:
                self.flush()
            finally:
                self.__dict__["_sx_closed"] = True

    def __del__(self):
        e = E()
        if e is None or not e.running or e.dead is not None or self.__dict__.get("_sx_path") is not e.path_state:
            return
        try:
            if self.closed:
                return
        except AttributeError:
            return
        try:
            self.close()
        except Exception:
            pass        # "Exception ignored in ..."

    def seekable(self):
        return False

    def readable(self):
        return False

    def writable(self):
        return False

    def isatty(self):
        self._checkClosed()
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def seek(self, *a):
        raise io.UnsupportedOperation("seek")

    def tell(self):
        return self.seek(0, 1)

    def truncate(self, *a):
        raise io.UnsupportedOperation("truncate")

    def __enter__(self):
        self._checkClosed()
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        self._checkClosed()
        return self

    def __next__(self):
        line = self.readline()
        if not size_of(line) if type(line) is not Rope else not fork(size_of(line) != 0):
            raise StopIteration
        return line

    def readline(self, size=-1):
        """Byte-wise for raw streams."""
        res = b""
        while True:
            b = self.read(1)
            if not b:
                break
            res = cat(res, b)
            if fork(cell_eq(as_seq(b).cells[0], 10)):
                break
        return res

    def readlines(self, hint=None):
        return list(self)

    def writelines(self, lines):
        self._checkClosed()
        for x in lines:
            self.write(x)


class MRawIOBase(MIOBase):
    def read(self, size=-1):
        if size is None:
            size = -1
        if fork(norm_int(size) < 0):
            return self.readall()
        buf = SymByteArray((0,) * idx(size))
        n = self.readinto(buf)
        if n is None:
            return None
        return buf.value()[:idx(n)]

    def readall(self):
        res = b""
        while True:
            d = self.read(8192)
            if not d:
                break
            res = cat(res, d)
        return res

    def readinto(self, b):
        raise io.UnsupportedOperation("readinto")

    def write(self, b):
        raise io.UnsupportedOperation("write")


class MBufferedIOBase(MIOBase):
    def read(self, *a):
        raise io.UnsupportedOperation("read")

    def write(self, *a):
        raise io.UnsupportedOperation("write")


class MBytesIO(MBufferedIOBase):
    def __init__(self, initial_bytes=b""):
        self._d = b"" if initial_bytes is None else content(initial_bytes)
        self._p = 0

    def _checkClosed(self, msg=None):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def getvalue(self):
        self._checkClosed()
        return self._d

    def getbuffer(self):
        self._checkClosed()
        return self._d

    def _left(self):
        L = size_of(self._d)
        if type(L) is int and type(self._p) is int:
            return max(0, L - self._p)
        return L - self._p if fork(norm_int(L) >= self._p if type(L) is SymInt else self._p <= L) else 0

    def read(self, size=-1):
        self._checkClosed()
        left = self._left()
        if size is None:
            n = left
        else:
            if isinstance(size, str) or norm_int(size) is None:
                raise TypeError("argument should be integer or None")
            size = norm_int(size)
            if fork(size < 0):
                n = left
            elif type(size) is int and type(left) is int:
                n = min(size, left)
            elif fork((left >= size) if type(left) is SymInt else (size <= left)):
                n = size
            else:
                n = left
        if type(n) is int and n == 0:
            return b""
        if type(n) is SymInt and not fork(n != 0):
            return b""
        r = part(self._d, self._p, self._p + n)
        self._p = self._p + n
        return r

    read1 = read

    def readall(self):
        return self.read()

    def readinto(self, b):
        d = self.read(len(b) if type(b) is not SymByteArray else b.length())
        n = size_of(d)
        b[0:idx(n)] = d
        return n

    def readline(self, size=-1):
        self._checkClosed()
        size = -1 if size is None else idx(size)
        left = self._left()
        if type(left) is int and left == 0:
            return b""
        cells, whole = leading(self._d, self._p)
        for i, c in enumerate(cells):
            if size >= 0 and i >= size:
                return self.read(size)
            if fork(cell_eq(c, 10)):
                return self.read(i + 1)
        if not whole:
            raise E()._die(_eng.HarnessError("line read inside a byte string of symbolic length"))
        return self.read(len(cells) if size < 0 else min(size, len(cells)))

    def write(self, b):
        self._checkClosed()
        if isinstance(b, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        b = content(b)
        n = size_of(b)
        L = size_of(self._d)
        at_end = self._p is L or (self._p == L if type(self._p) is int and type(L) is int
                                  else fork(norm_int(self._p) == L))
        if at_end:
            self._d = cat(self._d, b)
        else:
            p = idx(self._p)
            d = self._d.to_seq() if type(self._d) is Rope else self._d
            if p > len(d):
                d = cat(d, bytes(p - len(d)))
            m = idx(n)
            self._d = cat(cat(d[:p], b), d[p + m:])
        self._p = self._p + n
        return n

    def seek(self, pos, whence=0):
        self._checkClosed()
        pos = norm_int(pos)
        if whence == 0:
            if fork(pos < 0):
                raise ValueError("negative seek value")
            self._p = pos
        elif whence == 1:
            self._p = self._p + pos
        elif whence == 2:
            self._p = size_of(self._d) + pos
        else:
            raise ValueError("invalid whence")
        if type(self._p) is int and self._p < 0:
            self._p = 0
        return self._p

    def tell(self):
        self._checkClosed()
        return self._p

    def truncate(self, size=None):
        self._checkClosed()
        n = idx(self._p if size is None else size)
        self._d = self._d[:n]
        return n

    def seekable(self):
        self._checkClosed()
        return True

    readable = writable = seekable


# ------------------------------------------------------------------------------------------- text
class MTextIOBase(MIOBase):
    encoding = None
    errors = None
    newlines = None


def text_lines(cells, pos, translated):
    """End of the line starting at pos; translated: only '\\n' ends a line."""
    n = len(cells)
    i = pos
    while i < n:
        c = cells[i]
        if fork(cell_eq(c, 10)):
            return i + 1
        if not translated and fork(cell_eq(c, 13)):
            if i + 1 < n and fork(cell_eq(cells[i + 1], 10)):
                return i + 2
            return i + 1
        i += 1
    return n


def translate_newlines(cells):
    out = []
    i = 0
    while i < len(cells):
        c = cells[i]
        if fork(cell_eq(c, 13)):
            out.append(10)
            if i + 1 < len(cells) and fork(cell_eq(cells[i + 1], 10)):
                i += 1
        else:
            out.append(c)
        i += 1
    return tuple(out)


class TextCore(MTextIOBase):
    """Reading and writing characters over a cell buffer."""

    def _fill(self):
        pass

    def _check_readable(self):
        self._checkClosed()

    def read(self, size=-1):
        self._check_readable()
        self._fill()
        n = len(self._t) - self._p
        size = -1 if size is None else idx(size)
        if size >= 0:
            n = min(n, size)
        r = mkstr(self._t[self._p:self._p + n])
        self._p += n
        return r

    def readline(self, size=-1):
        self._check_readable()
        self._fill()
        e = text_lines(self._t, self._p, self._universal_done)
        size = -1 if size is None else idx(size)
        if size >= 0:
            e = min(e, self._p + size)
        r = mkstr(self._t[self._p:e])
        self._p = e
        return r


class MStringIO(TextCore):
    def __init__(self, initial_value="", newline="\n"):
        if initial_value is None:
            initial_value = ""
        if not isinstance(initial_value, str):
            raise TypeError("initial_value must be str or None, not %s" % type(initial_value).__name__)
        cells = tuple(as_seq(initial_value).cells)
        self._newline = newline
        self._universal_done = newline not in ("",)
        if newline is None:
            cells = translate_newlines(cells)
        elif newline in ("\r", "\r\n"):
            raise E()._die(_eng.HarnessError("unmodelled newline mode"))
        self._t = cells
        self._p = 0

    def getvalue(self):
        self._checkClosed()
        return mkstr(self._t)

    def write(self, s):
        self._checkClosed()
        if not isinstance(s, str):
            raise TypeError("string argument expected, got %r" % type(s).__name__)
        c = tuple(as_seq(s).cells)
        if self._newline is None:
            c = translate_newlines(c)
        t = self._t + (0,) * max(0, self._p - len(self._t))
        self._t = t[:self._p] + c + t[self._p + len(c):]
        self._p += len(c)
        return len(s)

    def seek(self, pos, whence=0):
        self._checkClosed()
        if whence == 0:
            self._p = idx(pos)
        elif whence == 2:
            self._p = len(self._t)
        return self._p

    def tell(self):
        self._checkClosed()
        return self._p

    def truncate(self, size=None):
        n = idx(self._p if size is None else size)
        self._t = self._t[:n]
        return n

    def seekable(self):
        self._checkClosed()
        return True

    readable = writable = seekable


class MTextIOWrapper(TextCore):
    def __init__(self, buffer, encoding=None, errors=None, newline=None, line_buffering=False, write_through=False):
        if newline not in (None, "", "\n"):
            raise E()._die(_eng.HarnessError("unmodelled newline mode"))
        self.buffer = buffer
        self.encoding = encoding or "utf-8"
        self.errors = errors or "strict"
        self._newline = newline
        self._universal_done = newline is not None and newline == "\n" or newline is None
        self.line_buffering = line_buffering
        self.write_through = write_through
        self._t = None
        self._p = 0
        self._pending = b""
        # what the constructor asks of the stream
        buffer.seekable()

    @property
    def closed(self):
        return self.buffer.closed if self.buffer is not None else False

    def _fill(self):
        if self._t is None:
            if not self.buffer.readable():
                raise io.UnsupportedOperation("not readable")
            d = self.buffer.read()
            d = d.to_seq() if type(d) is Rope else d
            t = decode_bytes(tuple(as_seq(d).cells), self.encoding, self.errors)
            cells = tuple(as_seq(t).cells)
            self._t = translate_newlines(cells) if self._newline is None else cells

    def write(self, s):
        self._checkClosed()
        if not isinstance(s, str):
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        d = as_seq(encode_text(tuple(as_seq(s).cells), self.encoding, self.errors))
        self._pending = cat(self._pending, d)
        if self.write_through or size_of(self._pending) > 8192:
            self._flush_pending()
        return len(s)

    def _flush_pending(self):
        p, self._pending = self._pending, b""
        if size_of(p):
            self.buffer.write(p if type(p) is not SymBytes or p.cells else b"")

    def flush(self):
        self._checkClosed()
        self._flush_pending()
        f = getattr(self.buffer, "flush", None)
        if f is not None:
            f()

    def close(self):
        if self.buffer is not None and not self.closed:
            try:
                self.flush()
            finally:
                self.buffer.close()

    def detach(self):
        self.flush()
        b, self.buffer = self.buffer, None
        return b

    def readable(self):
        return self.buffer.readable()

    def writable(self):
        return self.buffer.writable()

    def seekable(self):
        return self.buffer.seekable()

    def isatty(self):
        return self.buffer.isatty()

    def fileno(self):
        return self.buffer.fileno()

    def reconfigure(self, **k):
        self.write_through = k.get("write_through", self.write_through)


io.IOBase.register(MIOBase)
io.RawIOBase.register(MRawIOBase)
io.BufferedIOBase.register(MBufferedIOBase)
io.TextIOBase.register(MTextIOBase)
BASES.update({io.IOBase: MIOBase, io.RawIOBase: MRawIOBase, io.BufferedIOBase: MBufferedIOBase,
              io.BytesIO: MBytesIO, io.StringIO: MStringIO, io.TextIOWrapper: MTextIOWrapper,
              io.TextIOBase: MTextIOBase})


@override(io.BytesIO)
def m_bytesio(*a, **k):
    return MBytesIO(*a, **k)


@override(io.StringIO)
def m_stringio(*a, **k):
    return MStringIO(*a, **k)


@override(io.TextIOWrapper)
def m_textio(*a, **k):
    return MTextIOWrapper(*a, **k)


class Passthrough(MBytesIO):
    """io.BufferedReader / BufferedWriter around another stream."""


@override(io.BufferedReader)
def m_bufreader(raw, buffer_size=8192):
    return MBytesIO(raw.read())


# ------------------------------------------------------------------------------------------- files
def files():
    e = E()
    return e.path_state.setdefault("files", {}) if e is not None else {}


def real(p):
    try:
        return os.path.realpath(os.fspath(p))
    except TypeError:
        return None


class SymFile(MBytesIO):
    """A binary file opened for reading, with registered content."""

    def __init__(self, data, name):
        super().__init__(data)
        self.name = name
        self.mode = "rb"

    def writable(self):
        return False

    def write(self, b):
        raise io.UnsupportedOperation("write")


@override(builtins.open, io.open)
def m_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if type(file) is SymStr:
        file = rt.concretize(file)
    data = files().get(real(file)) if not isinstance(file, int) else None
    if data is None:
        return builtins.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if "r" not in mode or "+" in mode:
        raise E()._die(_eng.HarnessError("write to a file with symbolic content"))
    f = SymFile(data, file)
    if "b" in mode:
        return f
    t = MTextIOWrapper(f, encoding or "utf-8", errors, newline)
    t.name = file
    t.mode = mode
    return t


@override_method(pathlib.PosixPath, "open")
def m_path_open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
    return m_open(str(self), mode, buffering, encoding, errors, newline)


@override_method(pathlib.PosixPath, "read_text")
def m_path_read_text(self, encoding=None, errors=None):
    with m_open(str(self), "r", encoding=encoding, errors=errors) as f:
        return f.read()


@override_method(pathlib.PosixPath, "read_bytes")
def m_path_read_bytes(self):
    with m_open(str(self), "rb") as f:
        return f.read()


def conc_path(p):
    return rt.concretize(p) if rt.has_sym(p) else p


for _f in (os.path.isfile, os.path.exists, os.path.isdir, os.path.expanduser):
    def _mk(f):
        @override(f)
        def m(p):
            if rt.has_sym(p):
                return sym_path(f, p)
            return f(p)
    _mk(_f)


def sym_path(f, p):
    """File-system queries about a symbolic name: only the registered names exist."""
    if f is os.path.expanduser:
        if not len(p) or not fork(cell_eq(as_seq(p).cells[0], 126)):
            return p
        return f(rt.concretize(p))
    for name in E().path_state.get("known_paths", ()):
        if len(name) == len(p) and fork(p == name):
            return f(name)
    E().assumptions.add("a symbolic name denotes no file other than the registered ones")
    return False


@override(glob.glob)
def m_glob(*a, **k):
    return sorted(glob.glob(*a, **k))


@override(glob.iglob)
def m_iglob(*a, **k):
    return iter(sorted(glob.glob(*a, **k)))


@override(os.listdir)
def m_listdir(*a, **k):
    return sorted(os.listdir(*a, **k))
