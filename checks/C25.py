"""C25: recipient arguments resolve to all their keys or fail."""
import base64
import io
import itertools
import os

from checks.lib import Sink, Terminal, case

BOUNDS = {"quick": {"key strings": "every age public key and every ssh-ed25519 public key (with a comment of 3 symbolic characters, white space around), ssh-rsa keys of 1024, 1025, 2047, 2048 and 4096 bits; every text of 0..4 characters from a-z and digits that is no key string",
                    "lines": "files and URLs of every 0..2 lines, and selected 3 lines, out of: age key, ssh-ed25519, ssh-rsa, comment of symbolic characters, blank, alias name, file name, URL, github name, symbolic word; LF, CRLF and unterminated last line",
                    "long lists": "46 keys and comment lines in a file, at a URL, at GitHub or behind an alias (fixed text)", "aliases": "labels and arguments of 1..3 symbolic characters; value lists of 0..2 (selected 3) of: keys, files, URLs, other aliases, words",
                    "encrypt command": "every list of 1..2 arguments and selected lists of 3 out of these; alias file with them"},
          "thorough": {"key strings": "as quick", "lines": "every 3 lines", "aliases": "every 3 values", "encrypt command": "every 3 arguments"}}
OUTSIDE = ["redirects and TLS (requests.get is replaced by a table of URLs)", "file names containing symbolic characters other than registered ones", "lines starting with a key prefix that are no valid key (they may fail)"]
EXPECT_LABELS = ["the key", "no key", "keys of the lines in order", "lines are not expanded", "keys of the alias values", "unresolvable alias fails", "all arguments or nothing"]
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
LINES = ("age", "ed", "rsa", "comment", "blank", "alias", "file", "url", "github", "word")
VALUES = ("age", "ed", "file", "url", "github", "empty file", "missing url", "alias", "word", "comment file")
ARGS = ("age", "ed", "rsa", "alias", "file", "url", "github", "empty file", "empty alias", "bad alias", "word", "missing url", "empty url", "comment file")
NONE = ("empty file", "empty alias", "bad alias", "word", "missing url", "empty url", "comment file")


def cases(tier):
    q = tier == "quick"
    out = [case(key_string, kind="age"), case(key_string, kind="ed"), case(key_string, kind="rsa"), case(no_aliases), case(switches), case(precedence)]
    out += [case(many, where=w) for w in ("file", "url", "github", "alias")]
    for n in range(0, 5):
        out.append(case(no_key, n=n))
    for n in range(1, 4):
        out.append(case(alias_name, n=n))
    pairs = list(itertools.chain([()], [(a,) for a in LINES], itertools.product(LINES, repeat=2)))
    if not q:
        pairs += list(itertools.product(LINES, repeat=3))
    else:
        pairs += [("age", "ed", "rsa"), ("comment", "age", "blank"), ("age", "age", "age"), ("url", "file", "alias"), ("word", "age", "github")]
    for where in ("file", "url", "github"):
        step = 12
        for i in range(0, len(pairs), step):
            out.append(case(lines, where=where, first=i, count=step, thorough=int(not q)))
    combos = list(itertools.chain([()], [(a,) for a in VALUES], itertools.product(VALUES, repeat=2)))
    combos += list(itertools.product(VALUES, repeat=3)) if not q else [("age", "file", "url"), ("age", "word", "ed"), ("ed", "age", "empty file"), ("github", "age", "missing url")]
    for i in range(0, len(combos), 12):
        out.append(case(values, first=i, count=12, thorough=int(not q)))
    args = list(itertools.chain([(a,) for a in ARGS], itertools.product(ARGS, repeat=2)))
    args += list(itertools.product(ARGS, repeat=3)) if not q else [("age", "file", "alias"), ("age", "word", "ed"), ("alias", "age", "empty alias"), ("file", "github", "bad alias"), ("rsa", "ed", "age")]
    for i in range(0, len(args), 15):
        out.append(case(command, first=i, count=15, thorough=int(not q)))
    return out


def pick(tier_thorough, items, first, count, h, name):
    return h.choose(name, items[first:first + count])


def all_lists(items, thorough, more):
    out = list(itertools.chain([()], [(a,) for a in items], itertools.product(items, repeat=2)))
    return out + (list(itertools.product(items, repeat=3)) if thorough else list(more))


class World:
    """Files, URLs and keys of one run."""

    def __init__(self, h):
        self.h = h
        self.home = h.home()
        self.n = 0
        self.table = {}
        h.urls(self.table)

    def number(self):
        self.n += 1
        return self.n

    def path(self, name):
        return os.path.join(self.home, name)

    def age(self):
        from age.keys.agekey import AgePrivateKey
        k = self.number()
        key = AgePrivateKey.from_private_bytes(bytes((17 * k + 3 * j + 1) % 256 for j in range(32))).public_key()
        return key.public_string(), ("age", key.public_bytes())

    def ed(self):
        from cryptography.hazmat.primitives.asymmetric import ed25519
        from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
        k = self.number()
        pk = ed25519.Ed25519PrivateKey.from_private_bytes(bytes((29 * k + 5 * j) % 256 for j in range(32))).public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
        return ed_line(pk) + " me", ("ed", pk)

    def rsa(self, i=0):
        from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
        key = self.h.rsa_key(i).public_key()
        text = key.public_bytes(Encoding.OpenSSH, PublicFormat.OpenSSH).decode("ascii")
        return text + " some one", ("rsa", key.public_numbers().n)

    def file(self, text):
        path = self.path("keys%d" % self.number())
        self.h.write_file(path, text)
        return path

    def url(self, text, status=200, scheme="https"):
        url = "%s://host/%d" % (scheme, self.number())
        self.publish(url, text, status)
        return url

    def publish(self, url, text, status=200):
        self.table[url] = (status, text)
        self.h.urls(self.table)


def ed_line(pk):
    return "ssh-ed25519 " + base64.b64encode(b"\x00\x00\x00\x0bssh-ed25519\x00\x00\x00\x20" + pk).decode("ascii")


def same(h, key, want):
    kind, v = want
    name = type(key).__name__
    if kind == "age":
        return name == "AgePublicKey" and key.public_bytes() == v
    if kind == "ed":
        return name == "Ed25519PublicKey" and key.binary_encoding() == b"\x00\x00\x00\x0bssh-ed25519\x00\x00\x00\x20" + v
    if name != "RSAPublicKey":
        return False
    n = v.to_bytes(v.bit_length() // 8 + 1, "big")
    return key.binary_encoding() == b"\x00\x00\x00\x07ssh-rsa\x00\x00\x00\x03\x01\x00\x01" + len(n).to_bytes(4, "big") + n


def equal(h, keys, wants, label):
    h.check(len(keys) == len(wants), label)
    for k, w in zip(keys, wants):
        h.check(same(h, k, w), label)


# ------------------------------------------------------------------ key strings
def key_string(h, kind):
    from age.keyloader import resolve_public_key
    w = World(h)
    if kind == "age":
        from age.keys.agekey import AgePublicKey
        pk = h.bytes("key", 32)
        text, want = AgePublicKey.from_public_bytes(pk).public_string(), ("age", pk)
    elif kind == "ed":
        pk = h.bytes("key", 32)
        text, want = ed_line(pk), ("ed", pk)
        if h.choose("comment", [False, True]):
            text = text + " " + h.text("comment", 3, lo=33, hi=126)
    else:
        text, want = w.rsa(h.choose("size", [0, 6, "-1025-65537", "-2047-65537", "-4096-65537"]))
    before, after = h.choose("around", [("", ""), (" ", "\n"), ("\t", " \r\n")])
    keys, err = h.run(resolve_public_key, before + text + after, h.choose("aliases", [None, {}, {"other": ["x"]}]))
    h.check(err is None, "the key")
    equal(h, keys, [want], "the key")


def many(h, where):
    """Long lists, long comments, long lines."""
    from age.keyloader import resolve_public_key
    w = World(h)
    pairs = []
    for i in range(45):
        line, want = (w.age, w.ed, w.age)[i % 3]()
        pairs.append((line + (" " + "c" * (i * i) if i % 3 == 1 else ""), want))
    pairs.insert(20, w.rsa("-4096-65537"))
    text = "".join("# " + "x" * (7 * i) + "\n" + line + "\n" for i, (line, _) in enumerate(pairs))
    if where == "alias":
        keys, err = h.run(resolve_public_key, "all", {"all": [line for line, _ in pairs]})
    elif where == "github":
        w.publish("https://github.com/me.keys", text)
        keys, err = h.run(resolve_public_key, "github:me")
    else:
        keys, err = h.run(resolve_public_key, w.file(text) if where == "file" else w.url(text))
    h.check(err is None, "keys of the lines in order")
    equal(h, keys, [want for _, want in pairs], "keys of the lines in order")


def no_key(h, n):
    """Any other word denotes no key: nothing comes back, or it fails."""
    from age.keyloader import resolve_public_key
    World(h)
    text = h.text("word", n, chars="abcdefghijklmnopqrstuvwxyz0123456789")
    keys, err = h.run(resolve_public_key, text, h.choose("aliases", [None, {}, {"Other": ["x"]}]))
    if err is None:
        h.check(len(keys) == 0, "no key")


def no_aliases(h):
    """With reading switched off, names are not looked up."""
    from age.keyloader import resolve_public_key
    w = World(h)
    text, want = w.age()
    path, url = w.file(text + "\n"), w.url(text + "\n")
    for keystr, flags in (("nick", {"read_aliases": False}), (path, {"read_files": False}), (url, {"read_urls": False}), ("github:x", {"read_urls": False})):
        keys, err = h.run(resolve_public_key, keystr, {"nick": [text]}, **flags)
        h.check(err is None, "no key")
        h.check(len(keys) == 0, "no key")
    h.check(len(h.requests()) == 0, "no key")


def switches(h):
    """A key string gives its key under every setting of the switches."""
    from age.keyloader import resolve_public_key
    w = World(h)
    flags = h.choose("aliases", [True, False]), h.choose("files", [True, False]), h.choose("urls", [True, False])
    for text, want in (w.age(), w.ed(), w.rsa()):
        keys, err = h.run(resolve_public_key, text, {"nick": ["x"]}, *flags)
        h.check(err is None, "the key")
        equal(h, keys, [want], "the key")


# ------------------------------------------------------------------ files and URLs
def line(h, w, kind):
    """(text, keys it denotes in a file)"""
    if kind in ("age", "ed", "rsa"):
        text, want = getattr(w, kind)()
        return text, [want]
    if kind == "comment":
        return "#" + h.text("comment", 2, lo=32, hi=126), []
    if kind == "blank":
        return h.choose("blank", ["", "  "]), []
    if kind == "alias":
        return "nick", []
    if kind == "file":
        return w.file(w.age()[0] + "\n"), []
    if kind == "url":
        return w.url(w.age()[0] + "\n"), []
    if kind == "github":
        w.publish("https://github.com/SomeOne.keys", w.ed()[0] + "\n")
        return "github:SomeOne", []
    return h.text("word", 3, chars="bcdefghijklmnopqrtuvwxyz"), []


def lines(h, where, first, count, thorough):
    from age.keyloader import resolve_public_key
    w = World(h)
    extra = [("age", "ed", "rsa"), ("comment", "age", "blank"), ("age", "age", "age"), ("url", "file", "alias"), ("word", "age", "github")]
    kinds = pick(thorough, all_lists(LINES, thorough, extra), first, count, h, "lines")
    end, last = h.choose("ends", [("\n", True), ("\r\n", True), ("\n", False)])
    text, wants = "", []
    for i, k in enumerate(kinds):
        t, ws = line(h, w, k)
        text = text + t + (end if last or i + 1 < len(kinds) else "")
        wants += ws
    nick = w.age()[0]
    if where == "file":
        arg = w.file(text)
    elif where == "url":
        arg = w.url(text, scheme=h.choose("scheme", ["http", "https"]))
    else:
        name = h.choose("user", ["User-1", "0x"])
        arg = "github:" + name
        w.publish("https://github.com/%s.keys" % name, text)
    keys, err = h.run(resolve_public_key, arg, {"nick": [nick]})
    h.check(err is None, "keys of the lines in order")
    equal(h, keys, wants, "keys of the lines in order")
    h.check(len(h.requests()) == (0 if where == "file" else 1), "lines are not expanded")


# ------------------------------------------------------------------ aliases
def alias_name(h, n):
    """Only the alias of exactly this name counts."""
    from age.keyloader import resolve_public_key
    w = World(h)
    text, want = w.age()
    other, _ = w.ed()
    chars = "bcdefghijklmnopqrtuvwxyz-_.0123456789"
    label, arg = h.text("label", n, chars=chars), h.text("argument", n, chars=chars)
    keys, err = h.run(resolve_public_key, arg, {label: [text], "Else": [other]})
    h.check(err is None, "keys of the alias values")
    if h.decide(arg == label):
        equal(h, keys, [want], "keys of the alias values")
    else:
        h.check(len(keys) == 0, "no key")


def precedence(h):
    """An alias counts first, whatever else its name could be."""
    from age.keyloader import resolve_public_key
    w = World(h)
    text, want = w.age()
    other = w.age()[0]
    w.publish("https://github.com/me.keys", other)
    label = h.choose("label", [w.file(other), w.url(other), "github:me", other, "nick", "agent", "ssh-rsa"])
    keys, err = h.run(resolve_public_key, h.choose("around", ["", " "]) + label, {label: [text]})
    h.check(err is None, "keys of the alias values")
    equal(h, keys, [want], "keys of the alias values")
    h.check(len(h.requests()) == 0, "keys of the alias values")


def value(h, w, kind):
    """(text, keys it denotes as the value of an alias or as an argument)"""
    if kind in ("age", "ed", "rsa"):
        text, want = getattr(w, kind)()
        return text, [want]
    if kind == "file":
        a, b = w.age(), w.ed()
        return w.file(a[0] + "\n# comment\n" + b[0] + "\n"), [a[1], b[1]]
    if kind == "url":
        a, b = w.ed(), w.age()
        return w.url(a[0] + "\n" + b[0]), [a[1], b[1]]
    if kind == "github":
        name = "User%d" % w.number()
        a = w.ed()
        w.publish("https://github.com/%s.keys" % name, a[0] + "\n")
        return "github:" + name, [a[1]]
    if kind == "empty file":
        return w.file(""), []
    if kind == "comment file":
        return w.file("# nothing\n\nnick2\n"), []
    if kind == "empty url":
        return w.url("\n"), []
    if kind == "missing url":
        return "https://nowhere/x" if h.choose("status", ["none", 404]) == "none" else w.url(w.age()[0] + "\n", h.choose("code", [404, 500])), []
    if kind == "alias":
        return "nick2", []
    return h.text("word", 3, chars="bcdefghijklmnopqrtuvwxyz"), []


def values(h, first, count, thorough):
    from age.keyloader import resolve_public_key
    w = World(h)
    extra = [("age", "file", "url"), ("age", "word", "ed"), ("ed", "age", "empty file"), ("github", "age", "missing url")]
    kinds = pick(thorough, all_lists(VALUES, thorough, extra), first, count, h, "values")
    texts, wants, bad = [], [], False
    for k in kinds:
        t, ws = value(h, w, k)
        if k == "ed":
            t = h.choose("ed as", [w.file(t)])   # a key with spaces cannot be a value itself
        texts.append(t)
        wants += ws
        bad = bad or not ws
    aliases = {"nick": texts, "nick2": [w.age()[0]], "nick3": ["nick"]}
    keys, err = h.run(resolve_public_key, "nick", aliases)
    if bad:
        h.check(err is not None, "unresolvable alias fails")
    else:
        h.check(err is None, "keys of the alias values")
        equal(h, keys, wants, "keys of the alias values")


# ------------------------------------------------------------------ the encrypt command
def command(h, first, count, thorough):
    from age.cli import encrypt
    from age.format import load_header
    w = World(h)
    h.randomness("fixed")
    items = list(itertools.chain([(a,) for a in ARGS], itertools.product(ARGS, repeat=2)))
    items += list(itertools.product(ARGS, repeat=3)) if thorough else [("age", "file", "alias"), ("age", "word", "ed"), ("alias", "age", "empty alias"), ("file", "github", "bad alias"), ("rsa", "ed", "age")]
    kinds = h.choose("arguments", items[first:first + count])
    a, b = w.age(), w.age()
    h.write_file(w.path(".config/age/aliases.txt"), "# aliases\ngood: %s\nnone:\ngood: %s\nbad: %s nothing\nnick2: %s\n" % (a[0], b[0], a[0], b[0]))
    args, wants, bad = [], [], False
    for k in kinds:
        t, ws = {"alias": ("good", [a[1], b[1]]), "empty alias": ("none", []), "bad alias": ("bad", [])}.get(k) or value(h, w, k)
        args.append(t)
        wants += ws
        bad = bad or not ws
    sink, term = Sink(), Terminal()
    h.set_std(stdout=term)
    data = h.bytes("data", 4)
    _, err = h.run(encrypt, recipients=args, infile=io.BytesIO(data), outfile=sink)
    ct = sink.content()
    h.check(len(term.buffer.content()) == 0, "all arguments or nothing")
    if bad:
        h.check(err is not None, "all arguments or nothing")
        h.check(not (isinstance(err, SystemExit) and not err.code), "all arguments or nothing")
        h.check(len(ct) == 0, "all arguments or nothing")
        return
    h.check(err is None, "all arguments or nothing")
    header, _ = load_header(io.BytesIO(ct))
    tags = {"age": "X25519", "ed": "ssh-ed25519", "rsa": "ssh-rsa"}
    got = [r.type for r in header.recipients]
    h.check(len(got) == len(wants), "all arguments or nothing")
    for x, (kind, _) in zip(got, wants):
        h.check(x == tags[kind], "all arguments or nothing")
