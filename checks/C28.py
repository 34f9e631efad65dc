"""C28: the encrypt command encrypts for all its recipients or writes nothing."""
import io
import itertools
import os

from checks.C14 import CommandKeys, run_decrypt, store
from checks.lib import Input, Sink, Terminal, case, command_line

K = 65536
KINDS = ("age", "ed", "rsa")
BOUNDS = {"quick": {"recipients": "every list of 0..2 recipients out of age, ssh-ed25519 and ssh-rsa keys, three of one each, each named directly or by an alias, with and without a passphrase; keys fixed; one argument (alias, file, GitHub name, alias of files) that denotes an age and an ssh-ed25519 key, alone or with an ssh-rsa key",
                    "input": "every data of 0..5 bytes; generic data of every length 0..131072 and 1048577..1114112 for one recipient",
                    "passphrase": "every text of 0..3 characters of 1, 2, 3 and 4 UTF-8 bytes",
                    "options": "output file (also the input file itself) and standard output (a terminal or not), binary and armored, standard input and input file; also as options of the command line (0..3 recipients)"},
          "thorough": {"recipients": "every list of 0..3", "input": "0..32 bytes, generic data to 3 chunks, of 17 and of 33 chunks", "passphrase": "0..5 characters", "options": "as quick"}}
OUTSIDE = ["armored: keys, draws and data are fixed values (the armor codec itself: C19)", "failing writes to the output"]
ASSUMPTIONS = ["long data is generic: no two different slices of it are equal", "random draws of different runs of the encryption are distinct (C13)"]
EXPECT_LABELS = ["terminal refused", "recipient required", "nothing written", "decrypts for every recipient", "decrypts with the passphrase typed", "prompt is hidden", "output goes where asked", "command succeeds"]


def lists(n):
    return list(itertools.product(KINDS, repeat=n))


def cases(tier):
    q = tier == "quick"
    out = [case(refused, armored=a, ask=p) for a in (False, True) for p in (False, True)]
    out += [case(no_terminal_test, armored=a) for a in (False, True)]
    out += [case(required, armored=a, to=t) for a in (False, True) for t in ("file", "stdout")]
    groups = lists(1) + lists(2) + ([KINDS] if q else lists(3))
    for armored in (False, True):
        for ask in (False, True):
            for to in ("file", "stdout"):
                for names in [()] * ask + groups:
                    if q and (armored or to == "stdout") and len(names) == 2 and names != ("rsa", "age"):
                        continue
                    out.append(case(works, recipients="-".join(names) or "none", armored=armored, ask=ask, to=to, n=3 if len(names) < 3 else 1))
    for n in ((0, 1, 5) if q else range(33)):
        out.append(case(works, recipients="age", armored=False, ask=False, to="file", n=n))
    for n in range(0, 4 if q else 6):
        for width in (1, 2, 3, 4):
            if n:
                out.append(case(typed, n=n, width=width))
    out.append(case(typed, n=0, width=1))
    out += [case(options, recipients=r) for r in ("", "age", "ed-age", "age-rsa-age")]
    out += [case(in_place, armored=a) for a in (False, True)]
    out += [case(several, how=how, count=c) for how in ("alias", "file", "github", "alias of files") for c in ((2,) if q else (2, 3))]
    for lo, hi in ((0, K), (K + 1, 2 * K), (16 * K + 1, 17 * K)) + (() if q else ((2 * K + 1, 3 * K), (32 * K + 1, 33 * K))):
        out.append(case(long, lo=lo, hi=hi))
    return out


def world(h, names):
    """Keys, and the recipient arguments naming them."""
    keys = CommandKeys(h, True)
    keys.plain = True
    args, lines = [], []
    for i, name in enumerate(names):
        text = argument(h, keys, name)
        if name[:-1] == "age" and h.choose("by alias", [False, True]):
            lines.append("friend%d: %s" % (i, text))
            text = "friend%d" % i
        args.append(text)
    if lines:
        h.write_file(os.path.join(h.home(), ".config/age/aliases.txt"), "\n".join(lines) + "\n")
    return keys, args


def argument(h, keys, name):
    """The text of the public key."""
    kind = name[:-1]
    if kind == "age":
        return keys[name].public_key().public_string()
    import base64
    label = {"ed": "ssh-ed25519", "rsa": "ssh-rsa"}[kind]
    return label + " " + base64.b64encode(keys[name].public_key().binary_encoding()).decode("ascii") + " comment"


def run_encrypt(h, args, data, to="file", armored=False, ask=False, tty=False, stdin=False, flags=None):
    """(output file, standard output, error)"""
    from age.cli import encrypt
    sink = Sink()
    term = Terminal(tty=tty, buffer=Sink())
    source = io.BytesIO(data)
    if stdin:
        h.set_std(stdout=term, stdin=Input(source))
    else:
        h.set_std(stdout=term)
    source, target = None if stdin else source, sink if to == "file" else None
    if flags is None:
        _, err = h.run(encrypt, recipients=args, infile=source, outfile=target, ask_password=ask, ascii_armored=armored)
    else:
        _, err = command_line(h, "encrypt", flags, args, source, target)
    h.check(len(term.text) == 0, "output goes where asked")
    return sink.content(), term.buffer.content(), err


def failed(h, err, label):
    h.check(err is not None, label)
    h.check(not (isinstance(err, SystemExit) and not err.code), label)


def refused(h, armored, ask):
    """A terminal on standard output gets nothing."""
    names = h.choose("recipients", [("age1",), ("age1", "ed1"), ()])
    keys, args = world(h, names)
    h.prompts("secret words")
    out, shown, err = run_encrypt(h, args, h.bytes("data", 3), "stdout", armored, ask, tty=True)
    failed(h, err, "terminal refused")
    h.check(len(shown) == 0, "nothing written")
    h.check(len(out) == 0, "nothing written")


def no_terminal_test(h, armored):
    """A terminal does not matter when an output file is named."""
    h.randomness("fixed")
    keys, args = world(h, ("age1",))
    data = b"abc" if armored else h.bytes("data", 3)
    out, shown, err = run_encrypt(h, args, data, "file", armored, False, tty=True)
    h.check(err is None, "command succeeds")
    h.check(len(shown) == 0, "output goes where asked")
    readable(h, keys, "age1", out, armored, data)


def required(h, armored, to):
    args = h.choose("recipients", [[], None])
    out, shown, err = run_encrypt(h, args, h.bytes("data", 3), to, armored)
    failed(h, err, "recipient required")
    h.check(len(out) == 0, "nothing written")
    h.check(len(shown) == 0, "nothing written")


def readable(h, keys, name, ct, armored, data, label="decrypts for every recipient"):
    files, ask = store(h, keys, name)
    got, err = run_decrypt(h, ct, armored, "file", files, ask)
    h.check(err is None, label)
    h.check(got == data, label)


def works(h, recipients, armored, ask, to, n):
    kinds = () if recipients == "none" else recipients.split("-")
    names = [k + str(1 + kinds[:i].count(k)) for i, k in enumerate(kinds)]
    h.randomness("fixed")
    keys, args = world(h, names)
    data = bytes(range(65, 65 + n)) if armored else h.bytes("data", n)
    if ask:
        h.prompts("horse staple")
    out, shown, err = run_encrypt(h, args, data, to, armored, ask, stdin=h.choose("standard input", [False, True]))
    h.check(err is None, "command succeeds")
    if to == "stdout":
        out, shown = shown, out
    h.check(len(shown) == 0, "output goes where asked")
    if ask:
        h.check(len(h.prompt_log()) == 1, "prompt is hidden")
        h.check(all(hidden for text, hidden in h.prompt_log()), "prompt is hidden")
    which = h.choose("reader", names + ["pass"] * ask)
    if which == "pass":
        h.prompts("horse staple")
        got, err = run_decrypt(h, out, armored, "file", [], True)
        h.check(err is None, "decrypts with the passphrase typed")
        h.check(got == data, "decrypts with the passphrase typed")
    else:
        readable(h, keys, which, out, armored, data)


def options(h, recipients):
    """The options of the command line."""
    names = [k + str(1 + i) for i, k in enumerate(recipients.split("-"))] if recipients else []
    h.randomness("fixed")
    keys, args = world(h, names)
    data = b"abc"
    asked, armored = h.choose("passphrase", [[], ["-p"], ["--password"]]), h.choose("armor", [[], ["-a"], ["--ascii"]])
    if asked:
        h.prompts("horse staple")
    few = len(names) < 2
    to, stdin = h.choose("to", ["file", "stdout"] if few else ["file"]), h.choose("standard input", [False, True] if few else [False])
    tty = h.choose("terminal", [False, True] if few else [False])
    if not armored:
        data = h.bytes("data", 3)
    out, shown, err = run_encrypt(h, args, data, to, bool(armored), bool(asked), tty, stdin, asked + armored)
    if tty and to == "stdout":
        failed(h, err, "terminal refused")
        h.check(len(shown) == 0, "nothing written")
        return
    if not names and not asked:
        failed(h, err, "recipient required")
        h.check(len(out) == 0, "nothing written")
        h.check(len(shown) == 0, "nothing written")
        return
    h.check(err is None, "command succeeds")
    h.check(len(h.prompt_log()) == (1 if asked else 0), "prompt is hidden")
    if to == "stdout":
        out, shown = shown, out
    h.check(len(shown) == 0, "output goes where asked")
    which = h.choose("reader", names + ["pass"] * bool(asked))
    if which == "pass":
        h.prompts("horse staple")
        got, err = run_decrypt(h, out, bool(armored), "file", [], True)
        h.check(err is None, "decrypts with the passphrase typed")
        h.check(got == data, "decrypts with the passphrase typed")
    else:
        readable(h, keys, which, out, bool(armored), data)


class SameFile(Sink):
    """The input file, opened for writing: emptied by the first write."""

    def __init__(self, source):
        super().__init__()
        self.source = source

    def write(self, data):
        if self.source is not None:
            self.source.truncate(0)
            self.source = None
        return super().write(data)


def in_place(h, armored):
    """Input and output are the same file."""
    h.randomness("fixed")
    keys, args = world(h, ("age1",))
    data = b"abc" if armored else h.bytes("data", h.choose("n", [1, 5]))
    source = io.BytesIO(data)
    same = SameFile(source)
    flags = ["-a"] if armored else []
    h.set_std(stdout=Terminal(buffer=Sink()))
    _, err = command_line(h, "encrypt", flags, args, source, same)
    h.check(err is None, "command succeeds")
    readable(h, keys, "age1", same.content(), armored, data)


def several(h, how, count):
    """One argument denotes several keys: all of them decrypt."""
    h.randomness("fixed")
    keys, args = world(h, ())
    names = ["age1", "ed1", "age2"][:count]
    if how == "alias":   # the words of an alias have no spaces
        names = ["age1", "age2", "age3"][:count]
    if h.choose("other way around", [False, True]):
        names = names[::-1]
    lines = [argument(h, keys, name) for name in names]
    alias = None
    if how == "alias":
        alias, arg = "team: " + " ".join(lines), "team"
    elif how == "github":
        h.urls({"https://github.com/Team-1.keys": (200, "\n".join(lines) + "\n")})
        arg = "github:Team-1"
    elif how == "file":
        arg = os.path.join(h.home(), "recipients")
        h.write_file(arg, "# all of us\n" + "\n".join(lines) + "\n")
    else:
        paths = []
        for i, x in enumerate(lines):
            paths.append(os.path.join(h.home(), "recipients%d" % i))
            h.write_file(paths[-1], x)
        alias, arg = "team: " + " ".join(paths), "team"
    if alias:
        h.write_file(os.path.join(h.home(), ".config/age/aliases.txt"), alias + "\n")
    more = h.choose("another", [[], ["rsa1"]])
    args = [arg] + [argument(h, keys, name) for name in more]
    if h.choose("last", [False, True]):
        args = args[::-1]
    data = h.bytes("data", 3)
    out, shown, err = run_encrypt(h, args, data)
    h.check(err is None, "command succeeds")
    readable(h, keys, h.choose("reader", names + more), out, False, data)


def typed(h, n, width):
    """The passphrase is the UTF-8 encoding of the text typed."""
    from age.file import Decryptor
    from age.keys.password import PasswordKey
    lo, hi = {1: (32, 126), 2: (0x80, 0x7ff), 3: (0x800, 0xd7ff), 4: (0x10000, 0x10ffff)}[width]
    word = h.text("typed", n, lo=lo, hi=hi)
    h.prompts(word)
    data = h.bytes("data", 2)
    out, shown, err = run_encrypt(h, [], data, "file", False, True)
    h.check(err is None, "command succeeds")
    h.check(all(hidden for text, hidden in h.prompt_log()), "prompt is hidden")
    dec, err = h.run(Decryptor, [PasswordKey(word.encode("utf-8"))], io.BytesIO(out))
    h.check(err is None, "decrypts with the passphrase typed")
    h.check(dec.read() == data, "decrypts with the passphrase typed")


def long(h, lo, hi):
    keys, args = world(h, ("age1",))
    data = h.blob("data", lo, hi)
    out, shown, err = run_encrypt(h, args, data)
    h.check(err is None, "command succeeds")
    readable(h, keys, "age1", out, False, data)
