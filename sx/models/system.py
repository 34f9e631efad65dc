"""Process environment: standard streams, printing, prompts, HTTP, file status."""
import builtins
import os
import stat
import sys
import unicodedata

import click
import requests

from .. import engine as _eng
from .. import rt
from .. import fmt
from .. import standin
from .. import values as V
from ..rt import override
from ..seq import SymStr, as_seq
from ..values import SymInt, fork
from .crypto import E, state


def target(file):
    """The stream a print or echo call writes to; None is the process's own standard output."""
    return file


@override(builtins.print)
def m_print(*args, sep=" ", end="\n", file=None, flush=False):
    if file is None:
        file = state("sys", sys).stdout
    if file is None:
        return
    text = ""
    for i, a in enumerate(args):
        if i:
            text = text + (" " if sep is None else sep)
        text = text + rt.call(str, a)
    rt.call(file.write, text + ("\n" if end is None else end))
    if flush:
        file.flush()


@override(click.echo)
def m_echo(message=None, file=None, nl=True, err=False, color=None):
    s = state("sys", sys)
    if file is None:
        file = s.stderr if err else s.stdout
    if message is None:
        message = ""
    if isinstance(message, (bytes, bytearray)):
        rt.call(file.buffer.write, message + (b"\n" if nl else b""))
        return
    rt.call(file.write, rt.call(str, message) + ("\n" if nl else ""))


@override(click.secho)
def m_secho(message=None, file=None, nl=True, err=False, color=None, **styles):
    m_echo(message, file, nl, err, color)


@override(click.prompt)
def m_prompt(text, default=None, hide_input=False, confirmation_prompt=False, type=None, value_proc=None,
             prompt_suffix=": ", show_default=True, err=False, show_choices=True):
    script = state("prompts", [])
    log = state("prompt_log", [])
    log.append((text, hide_input))
    if not script:
        raise click.Abort()
    return script.pop(0)


@override(requests.get)
def m_get(url, params=None, **kw):
    log = state("requests", [])
    log.append(url)
    for u, (status, text) in state("urls", {}).items():
        if fork(url == u):
            return standin.Response(u, status, text)
    raise requests.ConnectionError("no such host")


def is_fake(fd):
    return type(fd) is int and fd == standin.FAKE_FD


@override(os.stat)
def m_stat(path, *a, **k):
    if is_fake(path):
        return standin.FakeStat(state("fake_mode", 0))
    return os.stat(rt.concretize(path) if rt.has_sym(path) else path, *a, **k)


@override(os.fstat)
def m_fstat(fd):
    if is_fake(fd):
        return standin.FakeStat(state("fake_mode", 0))
    return os.fstat(fd)


def mk_fmt(name, value):
    f = getattr(stat, name)

    @override(f)
    def m(mode):
        if type(mode) is SymInt:
            return (mode & 0o170000) == value
        return f(mode)


for _n, _v in (("S_ISREG", stat.S_IFREG), ("S_ISDIR", stat.S_IFDIR), ("S_ISCHR", stat.S_IFCHR),
               ("S_ISBLK", stat.S_IFBLK), ("S_ISFIFO", stat.S_IFIFO), ("S_ISLNK", stat.S_IFLNK),
               ("S_ISSOCK", stat.S_IFSOCK)):
    mk_fmt(_n, _v)


@override(stat.S_IMODE)
def m_imode(mode):
    return mode & 0o7777


@override(stat.S_IFMT)
def m_ifmt(mode):
    return mode & 0o170000


_INERT = {}


def inert_ranges(form):
    """Code points that no neighbour and no normalisation changes."""
    rs = _INERT.get(form)
    if rs is None:
        seconds = set()
        for v in range(0x110000):
            d = unicodedata.decomposition(chr(v)).split()
            if d and not d[0].startswith("<"):
                seconds |= {int(x, 16) for x in d[1:]}
        seconds |= set(range(0x1100, 0x1200)) | set(range(0xA960, 0xA980)) | set(range(0xD7B0, 0xD800))
        rs, start = [], None
        for v in range(0x110001):
            ok = v < 0x110000 and v not in seconds and not unicodedata.combining(chr(v)) and unicodedata.normalize(form, chr(v)) == chr(v)
            if ok and start is None:
                start = v
            elif not ok and start is not None:
                rs.append((start, v - 1))
                start = None
        _INERT[form] = rs
    return rs


@override(unicodedata.normalize)
def m_normalize(form, s):
    if type(s) is not SymStr:
        return unicodedata.normalize(form, s)
    if fork(V.b_and(*[V.in_ranges(c, inert_ranges(form)) for c in s.cells])):
        return s
    return as_seq(unicodedata.normalize(form, rt.concretize(s)))
