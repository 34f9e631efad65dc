"""C27: a generated key file is usable and its exposure is reported."""
import io
import os

from checks.lib import Terminal, case, command_line

BOUNDS = {"quick": {"secret": "every 32-byte draw of the random source", "output": "a file, a stream without file descriptor, standard output (terminal or not, with and without descriptor)",
                    "permissions": "every value of the 12 permission bits (all symbolic) of a regular file"},
          "thorough": {"secret": "as quick", "output": "as quick", "permissions": "as quick"}}
OUTSIDE = ["the clock", "outputs that are no regular files: a warning is not judged", "the key file is read by load_keys_txt; failing writes"]
EXPECT_LABELS = ["generated", "one usable identity", "public key in the comment", "public key on standard error", "secret only in the output", "warning iff exposed", "fresh secret"]
WHERE = ["file", "stream", "stdout", "stdout tty", "stdout file"]


def cases(tier):
    return [case(f, where=w) for w in WHERE for f in (usable, secrecy, warning)] + [case(fresh), case(fixed_modes)]


class Out(io.StringIO):
    """Output of the command: a text stream, with or without a file descriptor."""
    name = "keys.txt"
    mode = "w"

    def __init__(self, fd=None, tty=False):
        super().__init__()
        self.fd = fd
        self.tty = tty

    def fileno(self):
        if self.fd is None:
            raise io.UnsupportedOperation("fileno")
        return self.fd

    def isatty(self):
        return self.tty


FD = 990017


def generate(h, where, mode=None, line=False):
    """(text written to the output, text on standard error)"""
    from age.cli import generate
    if mode is None:
        mode = h.int("permissions", 0, 0o7777)
    h.fake_mode(mode + 0o100000)
    fd = FD if where in ("file", "stdout file") else None
    out = Out(fd, where == "stdout tty")
    other = Terminal(tty=h.choose("tty", [False, True]) if where in ("file", "stream") else False)
    if where in ("file", "stream"):
        h.set_std(stdout=other)
        _, err = command_line(h, "generate", [], [], None, out) if line else h.run(generate, out)
    else:
        h.set_std(stdout=out)
        _, err = command_line(h, "generate", [], []) if line else h.run(generate)
    h.check(err is None, "generated")
    h.check(len(other.text) == 0, "secret only in the output")
    h.check(len(other.buffer.content()) == 0, "secret only in the output")
    return out.getvalue(), h.stderr_text()


def usable(h, where):
    from age.keyloader import load_keys_txt
    from age.keys.agekey import AgePrivateKey
    text, errors = generate(h, where, 0o644, h.choose("command line", [False, True]))
    path = os.path.join(h.home(), "generated.txt")
    h.write_file(path, text)
    keys, err = h.run(load_keys_txt, path)
    h.check(err is None, "one usable identity")
    h.check(len(keys) == 1, "one usable identity")
    h.check(type(keys[0]).__name__ == "AgePrivateKey", "one usable identity")
    drawn = [v for n, v in h.draws() if n == 32]
    h.check(len(drawn) > 0, "fresh secret")
    if drawn:
        h.check(h.any(*[keys[0].private_bytes() == AgePrivateKey.from_private_bytes(v).private_bytes() for v in drawn]), "fresh secret")
    public = keys[0].public_key().public_string()
    comments = [x for x in text.split("\n") if x[:1] == "#" and "age1" in x]
    h.check(len(comments) == 1, "public key in the comment")
    h.check(comments[0] == "# " + public, "public key in the comment")
    if where != "stdout tty":
        lines = [x for x in errors.split("\n") if "age1" in x]
        h.check(len(lines) == 1, "public key on standard error")
        h.check(lines[0][-len(public):] == public, "public key on standard error")
    else:
        h.check(all(x == public for x in errors.split() if x[:4] == "age1"), "public key on standard error")


def secrecy(h, where):
    """The secret goes nowhere but to the output."""
    text, errors = generate(h, where, 0o600)
    for n, secret in h.draws():
        h.check(not h.tainted(errors, secret), "secret only in the output")


def fresh(h):
    """Two keys come from two draws."""
    a, _ = generate(h, "file", 0o600)
    before = len(h.draws())
    b, _ = generate(h, "stream", 0o600)
    h.check(len(h.draws()) > before, "fresh secret")
    n, secret = h.draws()[0]
    h.check(not h.tainted(b, secret), "fresh secret")


def warning(h, where):
    mode = h.int("permissions", 0, 0o7777)
    text, errors = generate(h, where, mode)
    exposed = (mode & 0o077) != 0
    warned = "arning" in errors
    if where in ("file", "stdout file"):
        h.check(h.iff(exposed, warned), "warning iff exposed")
    else:
        h.check(not warned, "warning iff exposed")


def fixed_modes(h):
    """The permissions are named in the warning."""
    mode = h.choose("mode", [0o644, 0o640, 0o604, 0o601, 0o610, 0o777, 0o600, 0o700, 0o400, 0o4600, 0o2600, 0o1600])
    text, errors = generate(h, "file", mode)
    h.check(("arning" in errors) == bool(mode & 0o77), "warning iff exposed")
