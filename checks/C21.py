"""C21: an OpenSSH private key file yields exactly the key it contains, or an error."""
import base64

from checks.lib import case

BOUNDS = {"quick": {"well-formed": "RSA, DSA and ECDSA keys (four curves) of symbolic numbers of 1..3 bytes each and of 128 bytes (RSA), every Ed25519 key; symbolic check word, comments of 0..8 symbolic bytes (all padding lengths 0..7), symbolic public part of 0, 1 and 12 bytes; base64 lines of 64, 70 and 128 characters; with and without a passphrase",
                    "one field": "every 32-bit value of every length field and of the key count, every pair of check words, every magic, every key type and curve name of 0..11 bytes, every Ed25519 stored public key and private part",
                    "one byte": "every other byte at every place of a container of each type",
                    "cuts": "the container, and the private section with adjusted length, cut at every place; 1..17 bytes appended; every padding of 0..18 symbolic bytes"},
          "thorough": {"well-formed": "also comments up to 16 bytes and numbers of 1..6 bytes", "one field": "as quick", "one byte": "every two adjacent bytes", "cuts": "as quick"}}
OUTSIDE = ["the library's own validation of key numbers (stand-in keys keep the numbers they are given)", "containers differing from a well-formed one in several distant places",
           "numbers stored with superfluous leading zero bytes and containers naming a KDF but no cipher (allowed to load or not)"]
ASSUMPTIONS = ["d mod (p-1) is computed by the library"]
EXPECT_LABELS = ["the stored key", "malformed is rejected", "comment and padding do not matter"]
LABEL = "OPENSSH PRIVATE KEY"
TYPES = ("rsa", "dsa", "nistp256", "nistp384", "nistp521", "nistp224", "ed")


def cases(tier):
    q = tier == "quick"
    out = []
    for t in TYPES:
        for n in range(0, 9 if q else 17):
            out.append(case(wellformed, t=t, size=2, comment=n, width=70))
        for size in (1, 3) if q else (1, 3, 4, 5, 6):
            if t != "ed":
                out.append(case(wellformed, t=t, size=size, comment=3, width=64))
        out.append(case(wellformed, t=t, size=2, comment=20, width=128))
        out.append(case(same, t=t))
    out.append(case(wellformed, t="rsa", size=128, comment=8, width=70))
    for t in ("rsa", "dsa", "nistp256", "ed"):
        for i in range(FIELDS[t]):
            out.append(case(field, t=t, which=i, weight=10))
        for part in range(3):
            out.append(case(byte, t=t, w=1, part=part, parts=3, weight=10))
            if not q:
                out.append(case(byte, t=t, w=2, part=part, parts=3, weight=30))
        out.append(case(cut, t=t))
        out.append(case(section_cut, t=t))
        out.append(case(padding, t=t))
        out.append(case(appended, t=t))
    out += [case(check_words), case(magic), case(halves), case(armor_lines)]
    for n in range(0, 12):
        out.append(case(names, what="type", n=n))
        out.append(case(names, what="curve", n=n))
    return out


# ------------------------------------------------------------------ building containers
def u32(n):
    return n.to_bytes(4, "big")


def string(b):
    return u32(len(b)) + b


FIELDS = {"rsa": 13, "dsa": 12, "nistp256": 10, "ed": 9}


def numbers(h, t, size, fixed=False):
    """The fields of a key of type t, each a byte string."""
    def num(name, k):
        if fixed:
            return bytes([(17 * k + 5 * len(name)) % 120 + 7]) * (k % 2 + 1)
        b = h.bytes(name, size)
        if size > 1:
            h.assume(h.all(b[0] < 128, h.any(b[0] > 0, b[1] > 127)))
        else:
            h.assume(h.all(b[0] < 128, b[0] > 1))
        return b
    if t == "rsa":
        return [num(x, i) for i, x in enumerate(("n", "e", "d", "iqmp", "p", "q"))]
    if t == "dsa":
        return [num(x, i) for i, x in enumerate(("p", "q", "g", "y", "x"))]
    if t == "ed":
        pk = bytes(range(7, 39)) if fixed else h.bytes("public", 32)
        seed = bytes(range(90, 122)) if fixed else h.bytes("seed", 32)
        return [pk, seed + pk]
    point = b"\x04\x11\x22" if fixed else h.bytes("point", 3)
    return [t.encode("ascii"), point, num("x", 1)]


def type_name(t):
    return {"rsa": b"ssh-rsa", "dsa": b"ssh-dss", "ed": b"ssh-ed25519"}.get(t, b"ecdsa-sha2-" + t.encode("ascii"))


def private_section(t, fields, comment, check=b"\x01\x02\x03\x04", pad=None):
    out = check + check + string(type_name(t)) + b"".join([string(f) for f in fields]) + string(comment)
    n = -len(out) % 8
    return out + (bytes(range(1, n + 1)) if pad is None else pad)


def container(section, public=b"pub", magic=b"openssh-key-v1\0", count=b"\0\0\0\1"):
    return magic + string(b"none") + string(b"none") + string(b"") + count + string(public) + string(section)


def armor(data, width=70, label=LABEL):
    text = base64.b64encode(data)
    out = b"-----BEGIN " + label.encode("ascii") + b"-----\n"
    for i in range(0, len(text), width):
        out = out + text[i:i + width] + b"\n"
    return out + b"-----END " + label.encode("ascii") + b"-----\n"


# ------------------------------------------------------------------ the independent definition
class Bad(Exception):
    pass


class Cursor:
    def __init__(self, data):
        self.data = data
        self.at = 0

    def take(self, n):
        left = len(self.data) - self.at
        if n > left:
            raise Bad("truncated")
        out = self.data[self.at:self.at + n]
        self.at += n
        return out

    def u32(self):
        b = self.take(4)
        return (b[0] << 24) | (b[1] << 16) | (b[2] << 8) | b[3]

    def string(self):
        n = self.u32()
        if n > len(self.data) - self.at:
            raise Bad("length field")
        for k in range(len(self.data) - self.at + 1):
            if n == k:
                return self.take(k)
        raise Bad("length field")

    def number(self):
        """(value, minimal?)"""
        b = self.string()
        if len(b) == 0 or b[0] >= 128:
            raise Bad("not a positive number")
        v = 0
        for x in b:
            v = v * 256 + x
        return v


def reference(data):
    """(type, stored values) of a container without encryption, by the format's definition."""
    c = Cursor(data)
    if c.take(15) != b"openssh-key-v1\0":
        raise Bad("magic")
    cipher, kdf, meta = c.string(), c.string(), c.string()
    if c.u32() != 1:
        raise Bad("number of keys")
    c.string()
    n = c.u32()
    if n != len(data) - c.at:
        raise Bad("length of the private section")
    if cipher != b"none":
        raise Bad("encrypted")
    c = Cursor(data[c.at:])
    if c.take(4) != c.take(4):
        raise Bad("check words")
    kind = c.string()
    if kind == b"ssh-rsa":
        out = ("rsa", [c.number() for _ in range(6)])
    elif kind == b"ssh-dss":
        out = ("dsa", [c.number() for _ in range(5)])
    elif kind == b"ssh-ed25519":
        public, private = c.string(), c.string()
        if len(public) != 32 or len(private) != 64 or private[32:] != public:
            raise Bad("Ed25519 parts")
        out = ("ed", private[:32])
    elif kind[:6] == b"ecdsa-":
        curve = c.string()
        for name in (b"nistp256", b"nistp384", b"nistp521", b"nistp224"):
            if curve == name:
                curve = name
                break
        else:
            raise Bad("curve")
        out = (curve.decode("ascii"), [c.string(), c.number()])
    else:
        raise Bad("type")
    c.string()
    rest = c.take(len(c.data) - c.at)
    if len(rest) > 8:
        raise Bad("padding too long")
    for i, x in enumerate(rest):
        if x != i + 1:
            raise Bad("padding")
    return out


CURVES = {"nistp256": "secp256r1", "nistp384": "secp384r1", "nistp521": "secp521r1", "nistp224": "secp224r1"}


def matches(h, key, want):
    """Is the returned key the wanted one?"""
    from cryptography.hazmat.primitives.asymmetric import ed25519, rsa
    from cryptography.hazmat.primitives.serialization import Encoding, NoEncryption, PrivateFormat
    t, v = want
    if isinstance(key, ed25519.Ed25519PrivateKey):
        return h.all(t == "ed", key.private_bytes(Encoding.Raw, PrivateFormat.Raw, NoEncryption()) == v) if t == "ed" else False
    d = key.numbers
    if key.kind == "rsa":
        if t != "rsa":
            return False
        return h.all(d["n"] == v[0], d["e"] == v[1], d["d"] == v[2], d["iqmp"] == v[3], d["p"] == v[4], d["q"] == v[5],
                     d["dmp1"] == rsa.rsa_crt_dmp1(d["d"], d["p"]), d["dmq1"] == rsa.rsa_crt_dmq1(d["d"], d["q"]))
    if key.kind == "dsa":
        return t == "dsa" and h.all(d["p"] == v[0], d["q"] == v[1], d["g"] == v[2], d["y"] == v[3], d["x"] == v[4])
    return t in CURVES and h.all(d["curve"] == CURVES[t], d["point"] == v[0], d["x"] == v[1])


def load(h, data, passphrase=None, raw=False, width=70):
    from age.openssh_keys import load_openssh_private_key
    return h.run(load_openssh_private_key, data if raw else armor(data, width), passphrase)


def compare(h, data):
    """The real loader against the definition."""
    want, bad = h.run(reference, data)
    key, err = load(h, data)
    if bad is not None:
        h.check(err is not None, "malformed is rejected")
    elif err is None:
        h.check(matches(h, key, want), "the stored key")
    else:
        h.check(odd(h, data), "the stored key")


def odd(h, data):
    """Unusual but not malformed: a number with superfluous zeros, a zero where the library would divide, a KDF without cipher."""
    c = Cursor(data[15:])
    c.string()
    if c.string() != b"none" or len(c.string()) > 0:
        return True
    want = reference(data)
    if want[0] == "rsa" and (want[1][4] == 1 or want[1][5] == 1):
        return True
    c.u32(), c.string(), c.u32()
    c.take(8)
    kind = c.string()
    if kind[:6] == b"ecdsa-":
        c.string(), c.string()
        kinds = 1
    else:
        kinds = {"rsa": 6, "dsa": 5}.get(want[0], 0)
    for _ in range(kinds):
        b = c.string()
        if len(b) == 1 and b[0] == 0 or len(b) > 1 and b[0] == 0 and b[1] < 128:
            return True
    return False


# ------------------------------------------------------------------ well-formed containers
def wellformed(h, t, size, comment, width):
    h.standin_keys()
    fields = numbers(h, t, size)
    section = private_section(t, fields, h.bytes("comment", comment), h.bytes("check", 4))
    data = container(section, h.bytes("public part", h.choose("public", [0, 1, 12])))
    key, err = load(h, data, h.choose("passphrase", [None, b"", b"secret"]), width=width)
    h.check(err is None, "the stored key")
    if t == "ed":
        want = ("ed", fields[1][:32])
    else:
        want = (t, [int.from_bytes(f, "big") for f in fields] if t in ("rsa", "dsa") else [fields[1], int.from_bytes(fields[2], "big")])
    h.check(matches(h, key, want), "the stored key")


def same(h, t):
    """Two containers of the same key with different comments, paddings, check words and public parts."""
    h.standin_keys()
    fields = numbers(h, t, 2)
    keys = []
    for i in (1, 2):
        section = private_section(t, fields, h.bytes("comment", h.choose("comment length", [0, 3, 6])), h.bytes("check", 4))
        key, err = load(h, container(section, h.bytes("public part", 3 * i)))
        h.check(err is None, "comment and padding do not matter")
        keys.append(key)
    if t == "ed":
        from cryptography.hazmat.primitives.serialization import Encoding, NoEncryption, PrivateFormat
        a, b = [k.private_bytes(Encoding.Raw, PrivateFormat.Raw, NoEncryption()) for k in keys]
        h.check(a == b, "comment and padding do not matter")
        return
    a, b = [k.numbers for k in keys]
    h.check(h.all(*[a[x] == b[x] for x in a if x not in ("dmp1", "dmq1")]), "comment and padding do not matter")


# ------------------------------------------------------------------ one thing wrong
def example(h, t):
    """(container, offsets of its length fields and count) with fixed content"""
    h.standin_keys()
    fields = numbers(h, t, 1, True)
    section = private_section(t, fields, b"me")
    head = container(b"")
    data = head[:-4] + string(section)
    at = [15, 23, 31, 35, 39, 46]
    p = 50 + 8
    for f in [type_name(t)] + fields + [b"me"]:
        at.append(p)
        p += 4 + len(f)
    return data, at


def field(h, t, which):
    data, at = example(h, t)
    i = at[which]
    compare(h, data[:i] + h.bytes("value", 4) + data[i + 4:])


def byte(h, t, w, part, parts):
    data, _ = example(h, t)
    i = h.choose("at", range(part, len(data) - w + 1, parts))
    compare(h, data[:i] + h.other("bytes", data[i:i + w]) + data[i + w:])


def cut(h, t):
    data, _ = example(h, t)
    n = h.choose("length", range(len(data)))
    compare(h, data[:n])


def section_cut(h, t):
    h.standin_keys()
    section = private_section(t, numbers(h, t, 1, True), b"me")
    n = h.choose("length", range(len(section)))
    compare(h, container(section[:n]))


def padding(h, t):
    h.standin_keys()
    n = h.choose("n", range(19))
    compare(h, container(private_section(t, numbers(h, t, 1, True), b"me", pad=h.bytes("padding", n))))


def appended(h, t):
    data, _ = example(h, t)
    compare(h, data + h.bytes("more", h.choose("n", range(1, 18))))


def check_words(h):
    h.standin_keys()
    t = h.choose("type", TYPES)
    section = private_section(t, numbers(h, t, 1, True), b"me")
    compare(h, container(h.bytes("first", 4) + h.bytes("second", 4) + section[8:]))


def magic(h):
    t = h.choose("type", TYPES)
    h.standin_keys()
    section = private_section(t, numbers(h, t, 1, True), b"me")
    compare(h, container(section, magic=h.bytes("magic", 15)))


def halves(h):
    h.standin_keys()
    a, b = h.choose("lengths", [(32, 64), (32, 63), (32, 65), (31, 64), (33, 64), (32, 32), (31, 63), (33, 65), (0, 32), (32, 96), (64, 64), (0, 64)])
    compare(h, container(private_section("ed", [h.bytes("public", a), h.bytes("private", b)], b"")))


def names(h, what, n):
    h.standin_keys()
    name = h.bytes("name", n)
    if what == "type":
        t = h.choose("type", ("rsa", "dsa", "nistp256", "ed"))
        fields = numbers(h, t, 1, True)
        section = b"\x01\x02\x03\x04" * 2 + string(name) + b"".join([string(f) for f in fields]) + string(b"")
    else:
        section = b"\x01\x02\x03\x04" * 2 + string(b"ecdsa-sha2-") + string(name) + string(b"\x04\x05") + string(b"\x17") + string(b"")
    compare(h, container(section))


def armor_lines(h):
    """Text around the armor, other sections, missing section, CRLF."""
    h.standin_keys()
    seed, pk = h.bytes("seed", 32), h.bytes("public", 32)
    data = container(private_section("ed", [pk, seed + pk], b"me"))
    how = h.choose("how", ["text before", "text after", "other section", "other label", "public", "no section", "empty", "cut", "crlf", "not ascii"])
    text = armor(data)
    good = how in ("text before", "other section", "text after")
    if how == "text before":
        text = b"some text\n\n" + text
    elif how == "text after":
        text = text + b"more text\n"
    elif how == "other section":
        text = armor(b"abc", label="OTHER THING") + text
    elif how == "other label":
        text = armor(data, label=h.choose("label", ["OPENSSH PUBLIC KEY", "RSA PRIVATE KEY", "OPENSSH PRIVATE KEY ", "PRIVATE KEY", "XOPENSSH PRIVATE KEY"]))
    elif how == "public":
        text = b"ssh-ed25519 AAAA me\n"
    elif how == "no section":
        text = text.split(b"\n")[1] + b"\n"
    elif how == "empty":
        text = b""
    elif how == "cut":
        text = text[:len(text) - h.choose("cut", range(2, 40))]
    elif how == "crlf":
        text = text.replace(b"\n", b"\r\n")
        key, err = load(h, text, raw=True)
        if err is None:
            h.check(matches(h, key, ("ed", seed)), "the stored key")
        return
    elif how == "not ascii":
        text = text[:40] + b"\xc3\xa4" + text[40:]
    key, err = load(h, text, raw=True)
    if good:
        h.check(err is None, "the stored key")
        h.check(matches(h, key, ("ed", seed)), "the stored key")
    else:
        h.check(err is not None, "malformed is rejected")
