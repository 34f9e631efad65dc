"""Case descriptions shared by the symbolic and the native side (no imports of either)."""
import io


class Case:
    def __init__(self, fn, name, params, opts):
        self.fn = fn
        self.name = name
        self.params = params
        self.opts = opts


def case(fn, name=None, timeout=None, max_paths=None, witnesses=None, solver_ms=None, needs=None, weight=1, **params):
    """fn: function (or its name) of the checks module, called as fn(h, **params)."""
    fname = fn if isinstance(fn, str) else fn.__name__
    if name is None:
        name = fname + ("(" + ",".join("%s=%s" % kv for kv in params.items()) + ")" if params else "")
    opts = {"timeout": timeout, "max_paths": max_paths, "witnesses": witnesses, "solver_ms": solver_ms,
            "needs": needs, "weight": weight}
    return Case(fname, name, params, opts)


class Sink(io.BytesIO):
    """Output file that keeps what was written when it is closed."""

    def __init__(self, initial=b""):
        super().__init__(initial)
        self.kept = None
        self.seek(0, 2)

    def close(self):
        if self.kept is None:
            self.kept = self.getvalue()
        super().close()

    def content(self):
        return self.getvalue() if self.kept is None else self.kept


class Input:
    """sys.stdin of a command: a binary stream behind a text one."""

    def __init__(self, buffer):
        self.buffer = buffer

    def isatty(self):
        return False


class Terminal:
    """sys.stdout of a command: a text stream over a binary one."""

    def __init__(self, tty=False, buffer=None):
        self.buffer = Sink() if buffer is None else buffer
        self.tty = tty
        self.text = ""

    def isatty(self):
        return self.tty

    def write(self, s):
        self.text = self.text + s
        return len(s)

    def flush(self):
        pass

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


def opened(h, via, tag, fn, key, *fields):
    """(file key, error) of opening a stanza of these fields: by the function for them, or as text."""
    if not via:
        return h.run(fn, key, *fields)
    import base64

    def text(x):
        return str(x) if isinstance(x, int) else base64.b64encode(x).decode("ascii").rstrip("=")

    def go():
        from age.recipients.helpers import get_recipient
        return get_recipient(tag, [text(x) for x in fields[:-1]], text(fields[-1])).decrypt(key)
    return h.run(go)


def command_line(h, name, flags, words, infile=None, outfile=None):
    """(result, error) of the command of this name, called as its command line does: click takes the options and
    arguments apart (words stand for the arguments), the opened files are put in place of theirs."""
    def go():
        from age.cli import main
        command = main.commands[name]
        stand_ins = {"word%d" % i: word for i, word in enumerate(words)}
        context = command.make_context(name, list(flags) + list(stand_ins))
        values = dict(context.params)
        for param in command.params:
            if "-i" in param.opts and infile is not None:
                values[param.name] = infile
            elif "-o" in param.opts and outfile is not None:
                values[param.name] = outfile
            elif isinstance(values[param.name], tuple):
                values[param.name] = tuple(stand_ins[x] for x in values[param.name])
        return command.callback(**values)
    return h.run(go)
