"""C24: key and alias files are read completely and in order."""
import os

from checks.lib import case

BOUNDS = {"quick": {"key files": "templates of up to three key lines with 1..2 symbolic characters below U+0100 at: start, line ends, before, behind and inside a key, comment lines, between lines; and 0..3 wholly symbolic characters",
                    "key": "every 32-byte secret (all bytes symbolic), two per file; files of 120 keys, three of them arbitrary", "alias files": "templates of up to three lines with 1..2 symbolic characters below U+0100 in label, separator, values, comments and line ends; and 0..3 wholly symbolic characters",
                    "long alias files": "150 names, one of 151 values",
                    "line ends": "every combination of LF, CRLF, CR and none for up to three lines"},
          "thorough": {"templates": "1..3 symbolic characters", "free content": "0..5 characters", "rest": "as quick"}}
OUTSIDE = ["files that are no valid UTF-8", "longer free content"]
EXPECT_LABELS = ["identities of the key lines", "invalid line is an error", "missing file", "aliases of all lines", "default file"]


def keystr(i):
    from age.keys.agekey import AgePrivateKey
    return AgePrivateKey.from_private_bytes(bytes((7 * i + j) % 256 for j in range(32))).private_string()


TEMPLATES = {
    "start": ("", "K0\nK1\n"),
    "line end": ("K0", "K1"),
    "end": ("K0\nK1", ""),
    "after newline": ("K0\n", "K1\n"),
    "comment": ("# c", "K0\nK1\n"),
    "before hash": ("K1\n", "# c\nK0"),
    "inside": ("K0\nA", "\nK1\n"),
    "around blank": ("K0\n  ", "\n\t\nK1"),
    "half key": ("K0\nH1", "T1\nK0\n"),
    "two holes": ("", "K0", "K1"),
}
ALIASES = {
    "start": ("", "a: x y\nb: z\n"),
    "label": ("a", ": x y\na: z\n"),
    "second label": ("a: x y\n", "a: z\n"),
    "separator": ("a", "x y\n"),
    "value": ("a: x", "y\nb: v"),
    "value with colon": ("a: x:y", "\na: http://h/p\n"),
    "line end": ("a: x", "a: y"),
    "end": ("a: x\nb: y\na: z", ""),
    "comment": ("# a: n", "a: x\n#b: y\n"),
    "before hash": ("a: x\n", "#a: y\n"),
}


def cases(tier):
    q = tier == "quick"
    out = [case(free_keys, n=n, weight=n) for n in range(0, 4 if q else 6)]
    out += [case(free_aliases, n=n, weight=n) for n in range(0, 4 if q else 6)]
    for t in TEMPLATES:
        out += [case(key_template, at=t, n=n, weight=n * n) for n in range(1, (3 if q else 4) if t != "two holes" else 2 if q else 3)]
    for t in ALIASES:
        out += [case(alias_template, at=t, n=n, weight=n * n) for n in range(1, 3 if q else 4)]
    out += [case(any_key), case(line_ends, what="keys"), case(line_ends, what="aliases"), case(missing), case(default), case(many_keys, count=120), case(many_aliases, count=150)]
    return out


def lines_of(h, text):
    """Lines of a text file: LF, CRLF and CR all end a line."""
    out = []
    at = 0
    n = len(text)
    i = 0
    while i < n:
        if h.decide(text[i] == "\n"):
            out.append(text[at:i])
            at = i + 1
        elif h.decide(text[i] == "\r"):
            out.append(text[at:i])
            if i + 1 < n and h.decide(text[i + 1] == "\n"):
                i += 1
            at = i + 1
        i += 1
    out.append(text[at:])
    return out


def space(h, c):
    return h.decide(h.any(*[c == w for w in " \t\n\x0b\x0c\r\x1c\x1d\x1e\x1f\x85\xa0"]))


def trimmed(h, line):
    a, b = 0, len(line)
    while a < b and space(h, line[a]):
        a += 1
    while b > a and space(h, line[b - 1]):
        b -= 1
    return line[a:b]


def relevant(h, text):
    out = []
    for line in lines_of(h, text):
        line = trimmed(h, line)
        if len(line) and not h.decide(line[0] == "#"):
            out.append(line)
    return out


def judge_keys(h, text, path=None):
    from age.keyloader import load_keys_txt
    from age.keys.agekey import AgePrivateKey
    if path is None:
        path = os.path.join(h.tmpdir(), "keys.txt")
    h.write_file(path, text)
    got, err = h.run(load_keys_txt, path)
    want = []
    for line in relevant(h, text):
        k, bad = h.run(AgePrivateKey.from_private_string, line)
        if bad is not None:
            h.check(err is not None, "invalid line is an error")
            return
        want.append(k)
    h.check(err is None, "identities of the key lines")
    h.check(len(got) == len(want), "identities of the key lines")
    for a, b in zip(got, want):
        h.check(type(a) is type(b), "identities of the key lines")
        h.check(a.private_bytes() == b.private_bytes(), "identities of the key lines")


def words(h, text):
    out = []
    at = None
    for i in range(len(text)):
        if space(h, text[i]):
            if at is not None:
                out.append(text[at:i])
            at = None
        elif at is None:
            at = i
    if at is not None:
        out.append(text[at:])
    return out


def judge_aliases(h, text):
    from age.keyloader import load_aliases
    path = os.path.join(h.tmpdir(), "aliases.txt")
    h.write_file(path, text)
    got, err = h.run(load_aliases, path)
    want = []
    for line in relevant(h, text):
        i = 0
        while i < len(line) and not h.decide(line[i] == ":"):
            i += 1
        label, values = line[:i], words(h, line[i + 1:])
        for k, v in want:
            if h.decide(k == label):
                v.extend(values)
                break
        else:
            want.append((label, values))
    h.check(err is None, "aliases of all lines")
    h.check(len(got) == len(want), "aliases of all lines")
    for k, v in want:
        h.check(k in got, "aliases of all lines")
        have = got[k]
        h.check(len(have) == len(v), "aliases of all lines")
        for a, b in zip(have, v):
            h.check(a == b, "aliases of all lines")


def filled(h, parts, n):
    ks = [keystr(0), keystr(1)]
    for i, k in enumerate(ks):
        parts = [p.replace("K%d" % i, k).replace("H%d" % i, k[:40]).replace("T%d" % i, k[40:]) for p in parts]
    out = parts[0]
    for i, p in enumerate(parts[1:]):
        out = out + h.text("hole%d" % i, n, hi=0xFF) + p
    return out


def key_template(h, at, n):
    judge_keys(h, filled(h, TEMPLATES[at], n))


def alias_template(h, at, n):
    judge_aliases(h, filled(h, ALIASES[at], n))


def free_keys(h, n):
    judge_keys(h, h.text("content", n, hi=0xFF))


def free_aliases(h, n):
    judge_aliases(h, h.text("content", n, hi=0xFF))


def any_key(h):
    """Two arbitrary keys: both are found, in order."""
    from age.keyloader import load_keys_txt
    from age.keys.agekey import AgePrivateKey
    a, b = h.bytes("a", 32), h.bytes("b", 32)
    text = "# created\n" + AgePrivateKey.from_private_bytes(a).private_string() + "\n" + AgePrivateKey.from_private_bytes(b).private_string()
    path = os.path.join(h.tmpdir(), "keys.txt")
    h.write_file(path, text)
    got, err = h.run(load_keys_txt, path)
    h.check(err is None and len(got) == 2, "identities of the key lines")
    h.check(got[0].private_bytes() == a, "identities of the key lines")
    h.check(got[1].private_bytes() == b, "identities of the key lines")


def many_keys(h, count):
    """A long file: the first, a middle and the last key are arbitrary."""
    from age.keyloader import load_keys_txt
    from age.keys.agekey import AgePrivateKey
    secrets = [bytes((13 * i + 5 * j) % 256 for j in range(32)) for i in range(count)]
    for i in (0, count // 2, count - 1):
        secrets[i] = h.bytes("key%d" % i, 32)
    text = ""
    for i, s in enumerate(secrets):
        text = text + "# key " + "x" * (3 * i) + "\n" + AgePrivateKey.from_private_bytes(s).private_string() + "\n"
    path = os.path.join(h.tmpdir(), "keys.txt")
    h.write_file(path, text)
    got, err = h.run(load_keys_txt, path)
    h.check(err is None and len(got) == count, "identities of the key lines")
    for k, s in zip(got, secrets):
        h.check(k.private_bytes() == s, "identities of the key lines")


def many_aliases(h, count):
    """Many values of one name, many names."""
    from age.keyloader import load_aliases
    words = ["v%d" % i for i in range(count)]
    words[-1] = h.text("word", 3, chars="abcxyz019")
    path = os.path.join(h.tmpdir(), "aliases.txt")
    h.write_file(path, "all: " + " ".join(words) + "\n" + "".join("n%d: %s\n" % (i, w) for i, w in enumerate(words[:-1])) + "last: " + words[-1] + "\nall: end\n")
    got, err = h.run(load_aliases, path)
    h.check(err is None and len(got) == count + 1, "aliases of all lines")
    h.check(got["all"] == words + ["end"], "aliases of all lines")
    h.check(got["last"] == words[-1:], "aliases of all lines")
    for i, w in enumerate(words[:-1]):
        h.check(got["n%d" % i] == [w], "aliases of all lines")


def line_ends(h, what):
    lines = ["K0", "", "# c", "K1"] if what == "keys" else ["a: x", "# c", "b: y", "a: z t"]
    text = ""
    for i, line in enumerate(lines):
        text += line + h.choose("end%d" % i, ["\n", "\r\n", "\r"] + ([""] if i == 3 else []))
    if what == "keys":
        judge_keys(h, filled(h, [text], 0))
    else:
        judge_aliases(h, text)


def missing(h):
    from age.keyloader import load_aliases, load_keys_txt
    h.home()
    for name in ("no.txt", "sub/no.txt", ""):
        path = os.path.join(h.tmpdir(), name)
        h.check(h.run(load_keys_txt, path) == ([], None), "missing file")
        h.check(h.run(load_aliases, path) == ({}, None), "missing file")
    h.check(h.run(load_keys_txt) == ([], None), "missing file")
    h.check(h.run(load_aliases) == ({}, None), "missing file")


def default(h):
    from age.keyloader import load_aliases, load_keys_txt
    home = h.home()
    raw = h.bytes("raw", 32)
    from age.keys.agekey import AgePrivateKey
    line = AgePrivateKey.from_private_bytes(raw).private_string()
    h.write_file(os.path.join(home, ".config/age/keys.txt"), line + "\n")
    value = h.text("value", 3, chars="xyz")
    h.write_file(os.path.join(home, ".config/age/aliases.txt"), "a: " + value + "\n")
    got, err = h.run(load_keys_txt)
    h.check(err is None and len(got) == 1, "default file")
    h.check(got[0].private_bytes() == raw, "default file")
    got, err = h.run(load_aliases)
    h.check(err is None and len(got) == 1, "default file")
    h.check(got["a"] == [value], "default file")
    h.write_file(os.path.join(home, "my.txt"), line + "\n")
    got, err = h.run(load_keys_txt, "~/my.txt")
    h.check(err is None and len(got) == 1, "default file")
